------------------------------ MODULE MCRng ------------------------------
(* Two generators of a kind and what they gave: the numbers are a function
   of the state, equal states stay equal, skipping is drawing. *)
EXTENDS Rng
CONSTANTS Depth, Seeds
VARIABLES a, b, outA, outB, steps
vars == <<a, b, outA, outB, steps>>
Kinds == {"splitmix", "xorshift", "pcg"}
Sd(x) == <<x, 0, 0, 0, 0, 0, 0, 255 - x>>
Init == \E k \in Kinds : a = Fresh(k) /\ b = Fresh(k) /\ outA = <<>> /\ outB = <<>> /\ steps = 0
Next == /\ steps < Depth /\ steps' = steps + 1
        /\ \/ a' = After(a) /\ outA' = Append(outA, Draw(a)) /\ UNCHANGED <<b, outB>>
           \/ b' = After(b) /\ outB' = Append(outB, Draw(b)) /\ UNCHANGED <<a, outA>>
           \/ \E x \in Seeds : a' = Reseed(a, Sd(x)) /\ outA' = <<>> /\ b' = Reseed(b, Sd(x)) /\ outB' = <<>>
           \/ \E n \in 0..2 : a' = Skip(a, n) /\ outA' = outA \o [i \in 1..n |-> Draw(Skip(a, i - 1))] /\ UNCHANGED <<b, outB>>
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* both started equal: one has seen a prefix of what the other has, and the states are equal when the counts are
Same == (Prefix(outA, outB) \/ Prefix(outB, outA)) /\ (Len(outA) = Len(outB) => a = b)
Ranges == \A k \in 1..Len(outA) : Len(outA[k]) = 4
\* published values: splitmix64 with seed 1234567, pcg32 seeded with 42, 54
RECURSIVE N8(_, _)
N8(x, n) == IF n = 0 THEN <<>> ELSE <<x % 256>> \o N8(x \div 256, n - 1)
PcgSeed(s, q) == LET inc == Add64(Shl64(q, 1), N8(1, 8)) s1 == PcgStep(Z64, inc) s2 == PcgStep(Add64(s1, s), inc) IN <<"pcg", s2, inc>>
Known == /\ SmMix(SmStep(N8(1234567, 8))) = <<133, 252, 8, 251, 23, 208, 158, 89>>
         /\ LET g == PcgSeed(N8(42, 8), N8(54, 8)) IN Draw(g) = <<183, 2, 92, 161>> /\ Draw(After(g)) = <<9, 244, 71, 123>> /\ Draw(Skip(g, 2)) = <<48, 51, 29, 186>>
\* skipping at once is skipping one by one
Jumps == \A n \in {0, 1, 2, 3, 7, 12, 33} : Jump(a, N8(n, 8)) = Skip(a, n)
\* and the period of splitmix is 2^64, of xorshift 2^64 - 1, of pcg (with an odd increment) 2^64
Periods == CASE a[1] = "splitmix" -> Jump(a, <<0, 0, 0, 0, 0, 0, 0, 128>>) # a /\ Jump(After(a), <<255, 255, 255, 255, 255, 255, 255, 255>>) = a
             [] a[1] = "xorshift" -> Jump(a, <<255, 255, 255, 255, 255, 255, 255, 255>>) = a
             [] OTHER -> a[3][1] % 2 = 1 => Jump(a, <<0, 0, 0, 0, 0, 0, 0, 128>>) # a /\ Jump(After(a), <<255, 255, 255, 255, 255, 255, 255, 255>>) = a
=============================================================================
