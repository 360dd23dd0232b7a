------------------------------ MODULE MCReal ------------------------------
(* Laws of the real conversions, checked on a toy floating point format. *)
EXTENDS RealText
CONSTANTS Toy, MaxD, Exps, Alphabet, MaxLen
VARIABLES d, e, s
vars == <<d, e, s>>
Stay == UNCHANGED vars
ToyA == [pb |-> 2, bias |-> 3, emax |-> 7]
ToyB == [pb |-> 3, bias |-> 7, emax |-> 15]
TheExps == (-4)..2
NoExps == {0}
Finite == {<<FALSE, E, BNat(m)>> : E \in 0..(Toy.emax - 1), m \in 0..(P2(Toy.pb) - 1)}

InitReals == d \in 0..MaxD /\ e \in Exps /\ s = <<>>
\* rounding is a total function: exactly one finite value is nearest, unless the real overflows
Nearest(D) == {v \in Finite : NearestTo(D, e, 0, v, Toy)}
RoundLaws ==
  LET D == BNat(d) N == Nearest(D) IN
  /\ Overflow(D, e, 0, Toy) <=> N = {}
  /\ Cardinality(N) <= 1
  /\ Underflow(D, e, 0, Toy) <=> (d # 0 /\ N = {<<FALSE, 0, <<>> >>})
  \* scaling both sides by a power of two changes nothing
  /\ \A v \in N : v[2] \in 2..(Toy.emax - 2) => NearestTo(D, e, 1, <<FALSE, v[2] + 1, v[3]>>, Toy)
\* an exactly representable value is its own rounding, and neighbours are not
ExactLaws ==
  \A v \in Finite :
    LET M == Sig(v, Toy) q == Exp2(v, Toy) IN
    /\ {w \in Finite : NearestTo(M, 0, q, w, Toy)} = {v}
    /\ ~Overflow(M, 0, q, Toy)
    /\ (Underflow(M, 0, q, Toy) => FALSE)

\* writing: for each value and precision there is one text (two for a tie)
Dig(x) == [k \in 1..Len(ToDigits(BNat(x), 10)) |-> 48 + ToDigits(BNat(x), 10)[k]]
PadTo(t, n) == Rep(48, Max2(0, n - Len(t))) \o t
Fixed(x, p) == LET t == PadTo(Dig(x), p + 1) IN
               IF p = 0 THEN t ELSE Slice(t, 0, Len(t) - p) \o <<46>> \o Slice(t, Len(t) - p, p)
Scient(x, p, X) == LET t == PadTo(Dig(x), p + 1) IN
               <<t[1]>> \o (IF p = 0 THEN <<>> ELSE <<46>> \o Tail(t)) \o <<101, IF X < 0 THEN 45 ELSE 43>> \o PadTo(Dig(IF X < 0 THEN -X ELSE X), 2)
InitWrite == d \in 0..(Toy.emax - 1) /\ e \in 0..(P2(Toy.pb) - 1) /\ s = <<>>
WriteLaws ==
  LET v == <<FALSE, d, BNat(e)>> IN
  /\ \A p \in 0..2 :
       LET A == {x \in 0..(CASE p = 0 -> 16 [] p = 1 -> 160 [] OTHER -> 1600) : WrittenRight(Fixed(x, p), v, "flt", p, TRUE, Toy)} IN
       /\ Cardinality(A) \in 1..2
       /\ \A x, y \in A : x - y \in {-1, 0, 1}
  /\ \A p \in 0..1 :
       LET A == {<<x, X>> \in ((IF p = 0 THEN 0..9 ELSE 10..99) \cup {0}) \X ((-3)..2) : WrittenRight(Scient(x, p, X), v, "sci", p, TRUE, Toy)} IN
       IF IsZero(v) THEN A = {<<0, 0>>} ELSE Cardinality(A) \in 1..2
  \* %g: fixed and scientific candidates with the given number of significant digits
  /\ \A P \in 1..2 :
       LET A == {x \in 0..16 : WrittenRight(Fixed(x, 0), v, "flx", P, TRUE, Toy)}
           B == {<<x, p>> \in (1..99) \X (1..3) : WrittenRight(Fixed(x, p), v, "flx", P, TRUE, Toy)}
           C == {<<x, p, X>> \in (1..99) \X (0..1) \X ((-5)..2) : (p = 0 => x <= 9) /\ WrittenRight(Scient(x, p, X), v, "flx", P, TRUE, Toy)}
       IN Cardinality(A) + Cardinality(B) + Cardinality(C) \in 1..2
  \* what is written in full precision reads back as the same value
  /\ \A x \in 0..400 : LET t == Fixed(x, 2) IN
       WrittenRight(t, v, "flt", -1, TRUE, Toy) /\ ~IsZero(v) => ReadRight(t, TRUE, v, Toy)
\* texts
InitStrs == s \in StringsUpTo(Alphabet, MaxLen) /\ d = 0 /\ e = 0
StrLaws ==
  LET c == IF s = <<>> THEN "refuse" ELSE ReadClass(s) IN
  \* what is read as a decimal is a real token of the token grammar
  /\ c = "dec" => Whole(s, RealTok(s))
  /\ Whole(s, RealTok(s)) /\ s[1] # 43 => c \in {"dec", "hex", "special", "any"} \/ Prefix(s, SignLen(s, {45})) \in {"b", "o"}
  \* at most one outcome is right for a decimal
  /\ c = "dec" => LET N == {v \in Finite : ReadRight(Unsigned(s), TRUE, v, Toy)} IN
                  Cardinality(N) + (IF ReadRight(s, FALSE, <<FALSE, 0, <<>> >>, Toy) THEN 1 ELSE 0) = 1
  /\ c = "refuse" => s = <<>> \/ ReadRight(s, FALSE, <<FALSE, 0, <<>> >>, Toy)
=============================================================================
