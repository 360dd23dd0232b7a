------------------------------ MODULE IntText ------------------------------
(* Integers and their text.  A value is a sign and a magnitude (BigNat); a
   type is a name such as "i16".  Text is a byte string. *)
EXTENDS NumTok, BigNat

Bits(T) == CASE T \in {"i8", "u8", "schar", "uchar"} -> 8 [] T \in {"i16", "u16", "short", "ushort"} -> 16
             [] T \in {"i32", "u32", "int", "uint"} -> 32
             [] T \in {"i64", "u64", "long", "ulong", "ll", "ull", "ptr", "sz"} -> 64
Signed(T) == T \in {"i8", "i16", "i32", "i64", "schar", "short", "int", "long", "ll", "ptr"}

\* ----- writing
DigitChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d
DigitsOf(mag, radix) == LET D == ToDigits(mag, radix) IN [i \in 1..Len(D) |-> DigitChar(D[i])]
PrefixOf(radix) == CASE radix = 16 -> <<48, 120>> [] radix = 2 -> <<48, 98>> [] radix = 8 -> <<48, 111>> [] OTHER -> <<>>
Padded(t, n) == Rep(48, Max2(0, n - Len(t))) \o t
\* digits only: what write_dec, write_hex, write_oct and write_bin produce
BareText(mag, radix, nd) == Padded(DigitsOf(mag, radix), nd)
\* sign, prefix, padding, digits: what itoa and utoa produce
FullText(neg, mag, radix, nd) == (IF neg /\ mag # <<>> THEN <<45>> ELSE <<>>) \o PrefixOf(radix) \o Padded(DigitsOf(mag, radix), nd)
\* the contents of an n-byte buffer (filled with 90) after writing text t
InBuf(t, n) == IF Len(t) <= n THEN t \o Rep(90, n - Len(t)) ELSE Rep(90, n)
\* writing t to buffers of every size 0..n: what is returned, and the buffers
WriteAll(t, n) == <<Rep(Len(t), n + 1), [k \in 1..(n + 1) |-> InBuf(t, k - 1)]>>

\* ----- reading
DigitVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
RadixOk(c, radix) == CASE radix = 10 -> IsDigit(c) [] radix = 16 -> IsHexDigit(c) [] radix = 8 -> OctDig(c) [] radix = 2 -> BinDig(c)
BareOk(t, radix) == Len(t) > 0 /\ \A i \in 1..Len(t) : RadixOk(t[i], radix)
BareVal(t, radix) == FromDigits([i \in 1..Len(t) |-> DigitVal(t[i])], radix)
RadixAt(t, i) == CASE Prefix(t, i) = "x" -> 16 [] Prefix(t, i) = "b" -> 2 [] Prefix(t, i) = "o" -> 8 [] OTHER -> 10
BodyAt(t, i) == IF Prefix(t, i) = "d" THEN i ELSE i + 2
From(t, i) == SubSeq(t, i + 1, Len(t))
\* does the text denote an integer; sign only if allowed
NatOk(t) == Len(t) > 0 /\ BareOk(From(t, BodyAt(t, 0)), RadixAt(t, 0))
NatVal(t) == BareVal(From(t, BodyAt(t, 0)), RadixAt(t, 0))
IsNeg(t) == Len(t) > 0 /\ t[1] = 45
Unsgn(t) == IF IsNeg(t) THEN From(t, 1) ELSE t
IntOk(t, T) == IF Signed(T) THEN NatOk(Unsgn(t)) ELSE NatOk(t)
\* the value as it is stored: two's complement, modulo 2^bits
Stored(neg, mag, bits) == LET m == ModPow2(mag, bits) IN IF neg /\ m # <<>> THEN BSub(BPow2(bits), m) ELSE m
IntStored(t, T) == Stored(Signed(T) /\ IsNeg(t), NatVal(IF Signed(T) THEN Unsgn(t) ELSE t), Bits(T))
\* is the value outside the range of the type
TooBig(neg, mag, T) ==
    IF Signed(T) THEN IF neg THEN BLess(BPow2(Bits(T) - 1), mag) ELSE ~BLess(mag, BPow2(Bits(T) - 1))
    ELSE IF neg THEN mag # <<>> ELSE ~BLess(mag, BPow2(Bits(T)))
Overflows(t, T) == TooBig(IsNeg(t), NatVal(Unsgn(t)), T)
\* the value a stored pattern stands for
StoredNeg(b, T) == Signed(T) /\ ~BLess(b, BPow2(Bits(T) - 1))
StoredMag(b, T) == IF StoredNeg(b, T) THEN BSub(BPow2(Bits(T)), b) ELSE b

\* ----- reading the first value in a text: where it ends, or -1
FirstTok(s, T) == IF Signed(T) THEN IntTok(s) ELSE UIntTok(s)
FirstOk(s, T) == LET k == FirstTok(s, T) IN k[2] > 0 /\ IntOk(View(s, k), T)
FirstEnd(s, T) == LET k == FirstTok(s, T) IN k[1] + k[2]

\* ----- booleans
Word(w) == CASE w = "true" -> <<116, 114, 117, 101>> [] w = "false" -> <<102, 97, 108, 115, 101>>
             [] w = "True" -> <<84, 114, 117, 101>> [] w = "False" -> <<70, 97, 108, 115, 101>>
             [] w = "TRUE" -> <<84, 82, 85, 69>> [] w = "FALSE" -> <<70, 65, 76, 83, 69>>
TrueWords == {Word("true"), Word("True"), Word("TRUE")}
FalseWords == {Word("false"), Word("False"), Word("FALSE")}
BoolOk(t) == t \in TrueWords \cup FalseWords \/ IntOk(t, "i32")
BoolVal(t) == IF t \in TrueWords THEN TRUE ELSE IF t \in FalseWords THEN FALSE ELSE IntStored(t, "i32") # <<>>
=============================================================================
