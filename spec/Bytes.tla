------------------------------ MODULE Bytes ------------------------------
(* Byte strings: finite sequences over 0..255, addressed from 0 as the
   library does.  A view is <<offset, length>> into such a string.  Views
   that point to nothing (a null pointer) are <<-1, 0>>; npos is -1. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NPOS == -1
Null == <<-1>>              \* a null view used as an argument
IsNull(s) == s = Null
Txt(s) == IF s = Null THEN <<>> ELSE s

At(s, i) == s[i + 1]                       \* 0-based character
Slice(s, off, n) == SubSeq(s, off + 1, off + n)
Idx(s) == 0 .. (Len(s) - 1)
View(s, v) == Slice(s, v[1], v[2])         \* contents of a view

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOrNpos(S) == IF S = {} THEN NPOS ELSE MinOf(S)
MaxOrNpos(S) == IF S = {} THEN NPOS ELSE MaxOf(S)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Elems(s) == {s[i] : i \in 1..Len(s)}
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* the (signed) value of a char on this platform
CharVal(b) == IF b > 127 THEN b - 256 ELSE b

\* p occurs in s at offset i
OccursAt(s, p, i) == i >= 0 /\ i + Len(p) <= Len(s) /\ \A j \in 1..Len(p) : s[i + j] = p[j]
Begins(s, p) == OccursAt(s, p, 0)
Ends(s, p) == OccursAt(s, p, Len(s) - Len(p))

IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsHexDigit(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
ToUpper(c) == IF IsLower(c) THEN c - 32 ELSE c
ToLower(c) == IF IsUpper(c) THEN c + 32 ELSE c

\* concatenation of a sequence of byte strings
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* all strings over A with length at most n
StringsUpTo(A, n) == UNION {[1..k -> A] : k \in 0..n}
Rep(c, n) == [i \in 1..n |-> c]

\* An observed view equals an expected one; where the result is empty its
\* position is only required to be null or inside the source.
SameView(obs, exp) == IF exp[2] = 0 THEN obs[2] = 0 /\ obs[1] >= -1 ELSE obs = exp
=============================================================================
