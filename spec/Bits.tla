------------------------------ MODULE Bits ------------------------------
(* Bits of unsigned numbers, masks, integer powers, sizes made up to a
   minimum or a multiple. A number is given by the set of its bits. *)
EXTENDS Bytes, BigNat
Lowest(b) == MinOf(b)
Highest(b) == MaxOf(b)
Mask(f, l) == f..(l - 1)
\* base^n for n >= 0 : the size of the number and whether it is below zero
PowMag(m, n) == LET RECURSIVE P(_) P(k) == IF k = 0 THEN <<1>> ELSE BMul(m, P(k - 1)) IN P(n)
One == <<1>>
\* a signed number is <<below zero, size>>
Pow(x, n) ==
  IF n >= 0 THEN <<x[1] /\ n % 2 = 1, PowMag(x[2], n)>>
  \* one divided by it n times, where a quotient drops what is left
  ELSE IF x[2] = One THEN <<x[1] /\ (-n) % 2 = 1, One>>
  ELSE <<FALSE, <<>>>>
IsZero(x) == x[2] = <<>>
Width(t) == CASE t \in {"i8", "u8"} -> 8 [] t \in {"i16", "u16"} -> 16 [] t \in {"i32", "u32"} -> 32 [] OTHER -> 64
Signed(t) == t \in {"i8", "i16", "i32", "i64"}
\* x is a value of the type t
Fits(t, x) == IF ~Signed(t) THEN ~x[1] /\ BitLen(x[2]) <= Width(t)
              ELSE IF x[1] THEN BLeq(x[2], BPow2(Width(t) - 1)) ELSE BitLen(x[2]) < Width(t)
\* where the power does not fit, what an unsigned type holds of it (a signed type: not specified)
Stored(t, x) == IF Fits(t, x) THEN x ELSE <<FALSE, ModPow2(x[2], Width(t))>>
MissingMin(s, m) == IF s < m THEN m - s ELSE 0
MissingMult(s, m) == CHOOSE k \in 0..(m - 1) : (s + k) % m = 0
UnitsFor(n, w) == CHOOSE k \in 0..n : k * w >= n /\ (k = 0 \/ (k - 1) * w < n)
=============================================================================
