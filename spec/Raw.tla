------------------------------ MODULE Raw ------------------------------
(* Raw memory as bytes; hashes fed piece by piece. *)
EXTENDS Bytes, SequencesExt
RECURSIVE Times(_, _)
Times(p, n) == IF n = 0 THEN <<>> ELSE p \o Times(p, n - 1)
Zeroed(m, at, n) == [k \in 1..Len(m) |-> IF k > at /\ k <= at + n THEN 0 ELSE m[k]]
Overlap(a, na, b, nb) == \E x \in a..(a + na - 1) : x \in b..(b + nb - 1)
\* FNV-1a; numbers of W bits are W/8 bytes, lowest first
Basis(w) == IF w = 32 THEN <<197, 157, 28, 129>> ELSE <<37, 35, 34, 132, 228, 156, 242, 203>>
Prime(w) == IF w = 32 THEN <<147, 1, 0, 1>> ELSE <<179, 1, 0, 0, 0, 1, 0, 0>>
RECURSIVE XorR(_, _)
XorR(x, y) == IF x = 0 THEN y ELSE IF y = 0 THEN x ELSE ((x + y) % 2) + 2 * XorR(x \div 2, y \div 2)
XorTable == [x \in 0..15 |-> [y \in 0..15 |-> XorR(x, y)]]
XorB(x, y) == 16 * XorTable[x \div 16][y \div 16] + XorTable[x % 16][y % 16]
\* the product, as many bytes as the factors have
RECURSIVE Column(_, _, _)
Column(a, b, k) == LET RECURSIVE S(_) S(j) == IF j > k THEN 0 ELSE a[j] * b[k + 1 - j] + S(j + 1) IN S(1)
MulW(a, b) == FoldLeft(LAMBDA st, k : LET y == Column(a, b, k) + st[1] IN <<y \div 256, Append(st[2], y % 256)>>, <<0, <<>> >>, [k \in 1..Len(a) |-> k])[2]
Feed(w, h, x) == MulW([h EXCEPT ![1] = XorB(h[1], x)], Prime(w))
Update(w, h, d) == FoldLeft(LAMBDA acc, x : Feed(w, acc, x), h, d)
Hash(w, d) == Update(w, Basis(w), d)
IsSpace(c) == c \in {9, 10, 11, 12, 13, 32}
=============================================================================
