------------------------------ MODULE BigNat ------------------------------
(* Natural numbers of any size (TLC's integers have 32 bits): little-endian
   sequences of limbs in 0..32767, without leading (trailing here) zeros. *)
EXTENDS Integers, Sequences, SequencesExt
LB == 32768
BZero == <<>>
RECURSIVE BNorm(_)
BNorm(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE BNorm(SubSeq(a, 1, Len(a) - 1))

\* a * m + c, for 0 <= m <= 32768 and 0 <= c < 2^30
MulStep(m, st, x) == LET y == x * m + st[1] IN <<y \div LB, Append(st[2], y % LB)>>
MulAdd(a, m, c) ==
    LET r == FoldLeft(LAMBDA st, x : MulStep(m, st, x), <<c, <<>> >>, a)
        k == r[1]
    IN BNorm(IF k = 0 THEN r[2] ELSE IF k < LB THEN Append(r[2], k) ELSE r[2] \o <<k % LB, k \div LB>>)

\* quotient and remainder by a small divisor (2..32767)
DivStep(d, st, x) == LET y == st[1] * LB + x IN <<y % d, <<y \div d>> \o st[2]>>
DivSmall(a, d) ==
    LET r == FoldRight(LAMBDA x, st : DivStep(d, st, x), a, <<0, <<>> >>)
    IN <<BNorm(r[2]), r[1]>>

RECURSIVE BCmpR(_, _, _)
BCmpR(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE BCmpR(a, b, i - 1)
\* -1, 0 or 1
BCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE BCmpR(a, b, Len(a))
BLess(a, b) == BCmp(a, b) < 0
BLeq(a, b) == BCmp(a, b) <= 0

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
AddStep(a, b, st, i) == LET y == Limb(a, i) + Limb(b, i) + st[1] IN <<y \div LB, Append(st[2], y % LB)>>
BAdd(a, b) ==
    LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
        r == FoldLeft(LAMBDA st, i : AddStep(a, b, st, i), <<0, <<>> >>, [i \in 1..n |-> i])
    IN IF r[1] = 0 THEN r[2] ELSE Append(r[2], r[1])
\* a - b, for b <= a
SubStep(a, b, st, i) == LET y == a[i] - Limb(b, i) - st[1] IN
                        IF y < 0 THEN <<1, Append(st[2], y + LB)>> ELSE <<0, Append(st[2], y)>>
BSub(a, b) == BNorm(FoldLeft(LAMBDA st, i : SubStep(a, b, st, i), <<0, <<>> >>, [i \in 1..Len(a) |-> i])[2])
\* the distance between two numbers
BDist(a, b) == IF BLess(a, b) THEN BSub(b, a) ELSE BSub(a, b)

BNat(n) == MulAdd(<<>>, 1, n)             \* n < 2^30
\* big-endian digits in some base (at most 32768)
FromDigits(ds, base) == FoldLeft(LAMBDA acc, d : MulAdd(acc, base, d), <<>>, ds)
RECURSIVE ToDigitsR(_, _, _)
ToDigitsR(a, base, acc) == IF a = <<>> THEN acc ELSE LET q == DivSmall(a, base) IN ToDigitsR(q[1], base, <<q[2]>> \o acc)
\* big-endian digits, at least one
ToDigits(a, base) == IF a = <<>> THEN <<0>> ELSE ToDigitsR(a, base, <<>>)

RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)     \* n < 31
Zeros(n) == [i \in 1..n |-> 0]
BPow2(n) == Zeros(n \div 15) \o <<P2(n % 15)>>
Shl(a, n) == IF a = <<>> THEN a ELSE Zeros(n \div 15) \o MulAdd(a, P2(n % 15), 0)
ModPow2(a, n) ==
    LET k == n \div 15 r == n % 15 IN
    IF Len(a) <= k THEN a
    ELSE BNorm(SubSeq(a, 1, k) \o <<a[k + 1] % P2(r)>>)
RECURSIVE MulPow(_, _, _)
\* a * base^n, base <= 32768 ; powers of ten are taken four at a time
MulPow(a, base, n) == IF n = 0 THEN a
                      ELSE IF base = 10 /\ n >= 4 THEN MulPow(MulAdd(a, 10000, 0), 10, n - 4)
                      ELSE MulPow(MulAdd(a, base, 0), base, n - 1)
\* general product
BMulR(a, b) == FoldRight(LAMBDA x, acc : BAdd(IF acc = <<>> THEN acc ELSE <<0>> \o acc, MulAdd(b, x, 0)), a, <<>>)
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE IF Len(a) <= Len(b) THEN BMulR(a, b) ELSE BMulR(b, a)
IsEven(a) == a = <<>> \/ a[1] % 2 = 0
RECURSIVE BitLenSmall(_)
BitLenSmall(x) == IF x = 0 THEN 0 ELSE 1 + BitLenSmall(x \div 2)
BitLen(a) == IF a = <<>> THEN 0 ELSE 15 * (Len(a) - 1) + BitLenSmall(a[Len(a)])
=============================================================================
