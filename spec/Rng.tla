------------------------------ MODULE Rng ------------------------------
(* Pseudo-random generators over numbers of 64 bits, given as 8 bytes,
   lowest first. The state of a generator is its kind and its registers. *)
EXTENDS Raw
Z64 == <<0, 0, 0, 0, 0, 0, 0, 0>>
Add64(a, b) == FoldLeft(LAMBDA st, k : LET y == a[k] + b[k] + st[1] IN <<y \div 256, Append(st[2], y % 256)>>, <<0, <<>> >>, <<1, 2, 3, 4, 5, 6, 7, 8>>)[2]
\* (tuples are written out: TLC evaluates them at once)
Xor64(a, b) == <<XorB(a[1], b[1]), XorB(a[2], b[2]), XorB(a[3], b[3]), XorB(a[4], b[4]), XorB(a[5], b[5]), XorB(a[6], b[6]), XorB(a[7], b[7]), XorB(a[8], b[8])>>
ByteAt(a, k) == IF k \in 1..8 THEN a[k] ELSE 0
RECURSIVE TwoTo(_)
TwoTo(n) == IF n = 0 THEN 1 ELSE 2 * TwoTo(n - 1)
ShrB(a, q, p, w, k) == (ByteAt(a, k + q) \div p) + ((ByteAt(a, k + q + 1) * w) % 256)
Shr64(a, n) == LET q == n \div 8 p == TwoTo(n % 8) w == TwoTo(8 - (n % 8)) IN
  <<ShrB(a, q, p, w, 1), ShrB(a, q, p, w, 2), ShrB(a, q, p, w, 3), ShrB(a, q, p, w, 4), ShrB(a, q, p, w, 5), ShrB(a, q, p, w, 6), ShrB(a, q, p, w, 7), ShrB(a, q, p, w, 8)>>
ShlB(a, q, p, w, k) == ((ByteAt(a, k - q) * p) % 256) + (ByteAt(a, k - q - 1) \div w)
Shl64(a, n) == LET q == n \div 8 p == TwoTo(n % 8) w == TwoTo(8 - (n % 8)) IN
  <<ShlB(a, q, p, w, 1), ShlB(a, q, p, w, 2), ShlB(a, q, p, w, 3), ShlB(a, q, p, w, 4), ShlB(a, q, p, w, 5), ShlB(a, q, p, w, 6), ShlB(a, q, p, w, 7), ShlB(a, q, p, w, 8)>>
Mul64(a, b) == MulW(a, b)
Low32(a) == SubSeq(a, 1, 4)
\* rotate 32 bits to the right by n < 32
Rotr32(a, n) == LET d == Shr64(a \o a, n) IN SubSeq(d, 1, 4)

\* splitmix: one register
SmStep(s) == Add64(s, <<21, 124, 74, 127, 185, 121, 55, 158>>)
SmMix(z0) == LET z1 == Mul64(Xor64(z0, Shr64(z0, 30)), <<185, 229, 228, 28, 109, 71, 88, 191>>)
                 z2 == Mul64(Xor64(z1, Shr64(z1, 27)), <<235, 17, 49, 19, 187, 73, 208, 148>>) IN Xor64(z2, Shr64(z2, 31))
\* xorshift: one register
XsOut(s) == SubSeq(Mul64(s, <<213, 220, 55, 193, 172, 188, 137, 217>>), 5, 8)
XsStep(s) == LET a == Xor64(s, Shr64(s, 11)) b == Xor64(a, Shl64(a, 31)) IN Xor64(b, Shr64(b, 18))
\* pcg: state and increment
PcgStep(s, inc) == Add64(Mul64(s, <<45, 127, 149, 76, 45, 244, 81, 88>>), inc)
PcgOut(s) == Rotr32(Low32(Shr64(Xor64(Shr64(s, 18), s), 27)), Shr64(s, 59)[1])

Fresh(k) == CASE k = "splitmix" -> <<k, <<1, 0, 0, 0, 0, 0, 0, 0>>, Z64>>
              [] k = "xorshift" -> <<k, <<224, 198, 98, 124, 198, 81, 246, 193>>, Z64>>
              [] OTHER -> <<k, <<155, 234, 143, 116, 230, 73, 60, 133>>, <<219, 91, 185, 148, 203, 57, 62, 218>>>>
\* constructed with a seed
Seeded(k, s) == IF k = "pcg" THEN <<k, s, Shl64(s, 1)>> ELSE <<k, s, Z64>>
Reseed(g, s) == [g EXCEPT ![2] = s]
Draw(g) == CASE g[1] = "splitmix" -> Low32(Shr64(SmMix(SmStep(g[2])), 31)) [] g[1] = "xorshift" -> XsOut(g[2]) [] OTHER -> PcgOut(g[2])
After(g) == CASE g[1] = "splitmix" -> [g EXCEPT ![2] = SmStep(@)] [] g[1] = "xorshift" -> [g EXCEPT ![2] = XsStep(@)] [] OTHER -> [g EXCEPT ![2] = PcgStep(@, g[3])]
RECURSIVE Skip(_, _)
Skip(g, n) == IF n = 0 THEN g ELSE Skip(After(g), n - 1)

(* Skipping far at once: a step of each generator is a linear map of its
   register, and its powers of two compose to any number of steps (a number
   of 64 bits, given as 8 bytes). *)
BitOf(s, i) == (s[1 + (i \div 8)] \div TwoTo(i % 8)) % 2
Places == FoldLeft(LAMBDA acc, i : Append(acc, Len(acc)), <<>>, Rep(0, 64))
Basis64(i) == [Z64 EXCEPT ![1 + (i \div 8)] = TwoTo(i % 8)]
\* x -> m * x + c
AffApply(f, x) == Add64(Mul64(f[1], x), f[2])
AffTwice(f) == <<Mul64(f[1], f[1]), AffApply(f, f[2])>>
\* the images of the single bits; sums are without carry
LinApply(f, x) == FoldLeft(LAMBDA acc, i : IF BitOf(x, i) = 1 THEN Xor64(acc, f[i + 1]) ELSE acc, Z64, Places)
LinTwice(f) == FoldLeft(LAMBDA acc, i : Append(acc, LinApply(f, f[i + 1])), <<>>, Places)
StepMap(g) == CASE g[1] = "splitmix" -> <<[Z64 EXCEPT ![1] = 1], SmStep(Z64)>>
                [] g[1] = "xorshift" -> FoldLeft(LAMBDA acc, i : Append(acc, XsStep(Basis64(i))), <<>>, Places)
                [] OTHER -> <<PcgStep([Z64 EXCEPT ![1] = 1], Z64), g[3]>>
MapApply(g, f, x) == IF g[1] = "xorshift" THEN LinApply(f, x) ELSE AffApply(f, x)
MapTwice(g, f) == IF g[1] = "xorshift" THEN LinTwice(f) ELSE AffTwice(f)
HighBit(n) == FoldLeft(LAMBDA acc, i : IF BitOf(n, i) = 1 THEN i ELSE acc, -1, Places)
Jump(g, n) == LET h == HighBit(n)
                  r == FoldLeft(LAMBDA st, i : IF i > h THEN st
                                               ELSE <<IF i = h THEN st[1] ELSE MapTwice(g, st[1]), IF BitOf(n, i) = 1 THEN MapApply(g, st[1], st[2]) ELSE st[2]>>,
                                <<StepMap(g), g[2]>>, Places)
              IN [g EXCEPT ![2] = r[2]]
=============================================================================
