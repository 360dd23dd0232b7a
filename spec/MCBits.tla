------------------------------ MODULE MCBits ------------------------------
(* Laws of bits, masks, powers and sizes. *)
EXTENDS Bits
CONSTANTS W
VARIABLES b, f, l
vars == <<b, f, l>>
Init == b \in (SUBSET (0..(W - 1))) /\ f \in 0..W /\ l \in f..W
Next == FALSE /\ UNCHANGED vars
RECURSIVE Val(_)
Val(s) == IF s = {} THEN 0 ELSE LET k == MinOf(s) IN P2(k) + Val(s \ {k})
\* the value lies between its highest bit and the next power of two, and is a multiple of exactly its lowest bit
Between == b # {} => P2(Highest(b)) <= Val(b) /\ Val(b) < 2 * P2(Highest(b)) /\ Val(b) % P2(Lowest(b)) = 0 /\ (Val(b) \div P2(Lowest(b))) % 2 = 1
MaskVal2 == Val(Mask(f, l)) = P2(l) - P2(f)
MaskBits == (Mask(f, l) # {}) => Lowest(Mask(f, l)) = f /\ Highest(Mask(f, l)) = l - 1
\* powers add up
Powers == LET x == <<f % 2 = 1, BNat(l)>> IN \A i, j \in 0..3 : LET p == Pow(x, i) q == Pow(x, j) r == Pow(x, i + j) IN BMul(p[2], q[2]) = r[2] /\ (r[2] # <<>> => (p[1] # q[1]) = r[1])
Sizes == \A m \in 1..W : /\ f + MissingMin(f, m) >= m /\ (MissingMin(f, m) > 0 => f + MissingMin(f, m) = m)
                         /\ (f + MissingMult(f, m)) % m = 0 /\ UnitsFor(f, m) * m >= f /\ UnitsFor(f, m) * m < f + m
=============================================================================
