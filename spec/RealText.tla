------------------------------ MODULE RealText ------------------------------
(* Binary floating point numbers and their decimal and hexadecimal texts.
   A format is [pb |-> stored mantissa bits, bias, emax |-> largest exponent
   field]; a value is <<negative, exponent field, mantissa field (BigNat)>>. *)
EXTENDS BigNat, NumTok
F32 == [pb |-> 23, bias |-> 127, emax |-> 255]
F64 == [pb |-> 52, bias |-> 1023, emax |-> 2047]
FmtOf(T) == IF T = "f" THEN F32 ELSE F64
\* the value stored in big-endian bytes
Decode(b, T) ==
    IF T = "f" THEN <<b[1] >= 128, (b[1] % 128) * 2 + b[2] \div 128, FromDigits(<<b[2] % 128, b[3], b[4]>>, 256)>>
    ELSE <<b[1] >= 128, (b[1] % 128) * 16 + b[2] \div 16, FromDigits(<<b[2] % 16>> \o SubSeq(b, 3, 8), 256)>>
Neg(v) == v[1]
IsNan(v, F) == v[2] = F.emax /\ v[3] # <<>>
IsInf(v, F) == v[2] = F.emax /\ v[3] = <<>>
IsZero(v) == v[2] = 0 /\ v[3] = <<>>
\* a finite value is Sig * 2^Exp2
Sig(v, F) == IF v[2] = 0 THEN v[3] ELSE BAdd(v[3], BPow2(F.pb))
Exp2(v, F) == Max2(v[2], 1) - F.bias - F.pb

\* powers of ten: 10^(4k) is Pow10Tab[k + 1]
Pow10Tab == FoldLeft(LAMBDA acc, k : Append(acc, MulAdd(acc[k], 10000, 0)), << <<1>> >>, [k \in 1..320 |-> k])
Ten(n) == MulAdd(Pow10Tab[n \div 4 + 1], CASE n % 4 = 0 -> 1 [] n % 4 = 1 -> 10 [] n % 4 = 2 -> 100 [] OTHER -> 1000, 0)
TimesTen(a, n) == IF n <= 0 THEN a ELSE BMul(a, Ten(n))
Pos(n) == IF n > 0 THEN n ELSE 0

\* big-endian decimal digits to a natural, four at a time
FromDec(ds) ==
    LET r == Len(ds) % 4
        h == FromDigits(SubSeq(ds, 1, r), 10)
        q == [k \in 1..(Len(ds) \div 4) |-> LET i == r + 4 * k IN ds[i-3] * 1000 + ds[i-2] * 100 + ds[i-1] * 10 + ds[i]]
    IN FoldLeft(LAMBDA acc, d : MulAdd(acc, 10000, d), h, q)

(* ------------------------------ the nearest value ------------------------------ *)
\* The real D * 10^e * 2^b against the finite nonnegative value Sig * 2^q, on a common scale:
\* <<A, B, U>> with A the real, B the value, U one unit of the value's last place.
Scaled(D, e, b, M, q) ==
    LET s == q - b IN
    <<Shl(TimesTen(D, Pos(e)), Pos(-s)), Shl(TimesTen(M, Pos(-e)), Pos(s)), Shl(TimesTen(<<1>>, Pos(-e)), Pos(s))>>
\* v is a correct rounding (to nearest, ties to even) of D * 10^e * 2^b
NearestTo(D, e, b, v, F) ==
    LET M == Sig(v, F)
        x == Scaled(D, e, b, M, Exp2(v, F))
        d == BDist(x[1], x[2])
        below == BLess(x[1], x[2])
        \* just above a power of two the neighbour below is half as far away
        narrow == below /\ v[3] = <<>> /\ v[2] > 1
        c == BCmp(MulAdd(d, IF narrow THEN 4 ELSE 2, 0), x[3])
    IN c < 0 \/ (c = 0 /\ (IsEven(M) \/ narrow))
\* the real is at or beyond the point where it rounds away from the largest finite value
Largest(F) == <<FALSE, F.emax - 1, BSub(BPow2(F.pb), <<1>>)>>
Overflow(D, e, b, F) ==
    LET v == Largest(F)
        x == Scaled(D, e, b, MulAdd(Sig(v, F), 2, 1), Exp2(v, F) - 1)
    IN BLeq(x[2], x[1])
\* a nonzero real which rounds to zero
Underflow(D, e, b, F) ==
    LET v == <<FALSE, 0, <<1>> >>
        x == Scaled(D, e, b, <<1>>, Exp2(v, F) - 1)
    IN D # <<>> /\ BLeq(x[1], x[2])

(* ------------------------------ reading ------------------------------ *)
Lower(t) == [k \in 1..Len(t) |-> ToLower(t[k])]
\* saturating value of decimal digits t[i..j]
RECURSIVE SatNum(_, _, _, _)
SatNum(t, i, j, acc) == IF i > j THEN acc ELSE IF acc > 50000000 THEN acc ELSE SatNum(t, i + 1, j, acc * 10 + t[i] - 48)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE ToLower(c) - 87
\* strict decomposition of a number text (no sign): 0-based end of integer part, fraction, and exponent
Parts(t, d, pre, E) ==
    LET i1 == RunOf(pre, t, d)
        hasdot == i1 < Len(t) /\ At(t, i1) = 46
        i2 == IF hasdot THEN RunOf(pre, t, i1 + 1) ELSE i1
        nf == IF hasdot THEN i2 - i1 - 1 ELSE 0
        hasexp == i2 < Len(t) /\ At(t, i2) \in E
        sg == IF hasexp /\ i2 + 1 < Len(t) /\ At(t, i2 + 1) \in {43, 45} THEN 1 ELSE 0
        i3 == IF hasexp THEN Run(t, i2 + 1 + sg, IsDigit) ELSE i2
        ev == IF hasexp THEN SatNum(t, i2 + 2 + sg, i3, 0) ELSE 0
    IN [ok |-> (i1 - d) + nf > 0 /\ i3 = Len(t) /\ (hasexp => i3 > i2 + 1 + sg),
        ds |-> [k \in 1..(i1 - d) |-> HexVal(t[d + k])] \o [k \in 1..nf |-> HexVal(t[i1 + 1 + k])],
        ni |-> i1 - d, nf |-> nf, dot |-> hasdot, hasexp |-> hasexp, expsign |-> sg = 1, exptext |-> i3 - i2 - 1 - sg,
        ex |-> IF hasexp /\ sg = 1 /\ At(t, i2 + 1) = 45 THEN -ev ELSE ev]
\* leading zeros are dropped
RECURSIVE Lead0(_, _)
Lead0(ds, i) == IF i <= Len(ds) /\ ds[i] = 0 THEN Lead0(ds, i + 1) ELSE i
NoLead(ds) == SubSeq(ds, Lead0(ds, 1), Len(ds))
RECURSIVE NoTrail(_)
NoTrail(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN NoTrail(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
SpecialWords == {InfW, InfinityW, NanW}
\* what reading a text (without leading whitespace) must do:
\*   "refuse", or "any" (unspecified), or a predicate on the value read
Unsigned(t) == SubSeq(t, 1 + SignLen(t, {45}), Len(t))
ReadClass(t) ==
    LET u == Unsigned(t) pre == IF Len(u) > 1 THEN Prefix(u, 0) ELSE "d" IN
    IF Len(u) > 0 /\ At(t, 0) = 43 THEN "any"
    ELSE IF Lower(u) \in SpecialWords THEN "special"
    ELSE IF Len(u) >= 5 /\ Begins(Lower(u), NanW) THEN "any"       \* nan(...)
    ELSE IF pre = "d" THEN IF Parts(u, 0, "d", {101, 69}).ok THEN "dec" ELSE "refuse"
    ELSE IF pre = "x" THEN
        LET p == Parts(u, 2, "x", {112, 80})
            m == 2 + p.ni + p.nf + (IF p.dot THEN 1 ELSE 0)     \* end of the mantissa
        IN IF p.ok THEN "hex"
           ELSE IF m = Len(u) \/ At(u, m) \in {112, 80} THEN "any"      \* no digits, or an odd exponent
           ELSE "refuse"
    ELSE "refuse"
\* the outcome <<accepted, value>> of reading t is right
ReadRight(t, acc, v, F) ==
    LET c == ReadClass(t)
        neg == SignLen(t, {45}) = 1
        u == Unsigned(t)
    IN CASE c = "any" -> TRUE
         [] c = "refuse" -> ~acc
         [] c = "special" -> acc /\ (IF Lower(u) = NanW THEN IsNan(v, F) ELSE IsInf(v, F) /\ Neg(v) = neg)
         [] c = "dec" ->
              LET p == Parts(u, 0, "d", {101, 69})
                  ds == NoLead(p.ds)
                  D == FromDec(ds)
                  e == p.ex - p.nf
                  m == Len(ds) + e            \* D * 10^e < 10^m
              IN IF D = <<>> THEN acc /\ IsZero(v) /\ Neg(v) = neg
                 ELSE IF m > 400 THEN ~acc
                 ELSE IF m < -400 THEN ~acc
                 ELSE IF Overflow(D, e, 0, F) \/ Underflow(D, e, 0, F) THEN ~acc
                 ELSE acc /\ Neg(v) = neg /\ ~IsInf(v, F) /\ ~IsNan(v, F) /\ NearestTo(D, e, 0, v, F)
         [] OTHER -> \* hexadecimal: exact whenever digits and result fit the format
              LET p == Parts(u, 2, "x", {112, 80})
                  ds == NoLead(p.ds)
                  D == FromDigits(ds, 16)
                  b == p.ex - 4 * p.nf
                  top == BitLen(D) + b
                  \* no digit is lost on the way
                  fits == BitLen(FromDigits(NoTrail(ds), 16)) <= F.pb + 1 /\ p.nf * 4 <= F.bias \div 2 /\ p.ni * 4 <= F.bias \div 2
              IN IF p.ex > 32767 \/ p.ex < -32768 THEN TRUE
                 ELSE IF D = <<>> THEN acc /\ IsZero(v) /\ Neg(v) = neg
                 ELSE IF top > F.bias + 2 /\ p.nf * 4 <= F.bias \div 2 THEN ~acc \/ (IsInf(v, F) /\ Neg(v) = neg)
                 ELSE IF top < -F.bias - F.pb - 2 /\ p.ni * 4 <= F.bias \div 2 THEN ~acc \/ IsZero(v)
                 ELSE IF ~fits THEN TRUE
                 ELSE IF Overflow(D, 0, b, F) THEN ~acc \/ (IsInf(v, F) /\ Neg(v) = neg)
                 ELSE IF Underflow(D, 0, b, F) THEN ~acc \/ IsZero(v)
                 ELSE acc /\ Neg(v) = neg /\ ~IsInf(v, F) /\ ~IsNan(v, F) /\ NearestTo(D, 0, b, v, F)

\* reading the first number of a longer text: <<characters consumed or npos, value>>
FirstRight(s, n, v, F) ==
    LET tok == RealTok(s) t == View(s, tok) IN
    IF tok[2] = 0 THEN n = NPOS
    ELSE IF ReadClass(t) = "any" THEN n = NPOS \/ n = tok[1] + tok[2]
    ELSE n \in {NPOS, tok[1] + tok[2]} /\ ReadRight(t, n # NPOS, v, F)

(* ------------------------------ writing ------------------------------ *)
SpecialText(v, F) == (IF Neg(v) THEN <<45>> ELSE <<>>) \o (IF IsNan(v, F) THEN NanW ELSE InfW)
\* t (without sign) stands for D * 10^e * 2^b; the value is within half a unit
\* of the last place, which is worth 10^e * 2^b * 10^s
Within(D, e, b, s, v, F) ==
    LET x == Scaled(D, e, b, Sig(v, F), Exp2(v, F))
        sc == Scaled(<<1>>, e, b, <<1>>, Exp2(v, F))
        d == BDist(x[1], x[2])
    IN BLeq(MulAdd(d, 2, 0), IF s >= 0 THEN TimesTen(sc[1], s) ELSE sc[1])
\* v is within half a unit of the P-th significant digit of the decimal with
\* significant digits nl (no leading zero), leading exponent X and last exponent e
SigWithin(nl, e, X, P, v, F) ==
    LET D == FromDec(nl)
        pow10 == nl[1] = 1 /\ \A k \in 2..Len(nl) : nl[k] = 0
        \* a value just below a power of ten has its digits one place further down
        big == pow10 /\ LET x == Scaled(D, e, 0, Sig(v, F), Exp2(v, F)) IN BLess(x[2], x[1])
        s == X - P + 1 - e - (IF big THEN 1 ELSE 0)
    IN IF s >= 0 THEN Within(D, e, 0, s, v, F) ELSE Within(TimesTen(D, -s), e + s, 0, 0, v, F)
PlainExp(p, letter) == p.hasexp => p.expsign /\ p.exptext >= (IF letter = 101 THEN 2 ELSE 1)
IntPartPlain(u, p) == p.ni >= 1 /\ (p.ni > 1 => u[1] # 48)
WrittenRight(t, v, fmt, prec, rt, F) ==
    LET u == Unsigned(t)
        neg == SignLen(t, {45}) = 1
    IN IF IsNan(v, F) THEN t \in {NanW, <<45>> \o NanW}
       ELSE IF IsInf(v, F) THEN t = SpecialText(v, F)
       ELSE neg = Neg(v) /\
       (IF fmt = "hex" THEN
           /\ Len(u) > 2 /\ u[1] = 48 /\ u[2] = 120
           /\ LET p == Parts(u, 2, "x", {112})
                  D == FromDigits(p.ds, 16)
              IN /\ p.ok /\ p.ni = 1 /\ p.hasexp /\ PlainExp(p, 112)
                 /\ p.dot = (p.nf > 0)
                 /\ \A k \in 1..Len(u) : ~(u[k] >= 65 /\ u[k] <= 70)
                 /\ (p.ds[1] = 0 => v[2] = 0)
                 /\ IF prec < 0 THEN LET x == Scaled(D, 0, p.ex - 4 * p.nf, Sig(v, F), Exp2(v, F)) IN x[1] = x[2]
                    ELSE p.nf = prec /\ Within(D, 0, p.ex - 4 * p.nf, 0, v, F)
        ELSE
           LET p == Parts(u, 0, "d", {101})
               nl == NoLead(p.ds)
               D == FromDec(nl)
               e == p.ex - p.nf
               X == Len(nl) - 1 + e                   \* exponent of the leading digit
           IN /\ p.ok /\ IntPartPlain(u, p) /\ p.dot = (p.nf > 0)
              /\ (fmt = "flt" => ~p.hasexp)
              /\ (fmt = "sci" => p.hasexp /\ p.ni = 1)
              /\ PlainExp(p, 101)
              /\ (p.hasexp => p.ni = 1)
              /\ IF prec < 0 THEN /\ rt
                                  /\ (IF IsZero(v) THEN D = <<>> ELSE D # <<>> /\ NearestTo(D, e, 0, v, F))
                 ELSE IF fmt = "flt" THEN p.nf = prec /\ Within(D, e, 0, 0, v, F)
                 ELSE IF fmt = "sci" THEN
                      /\ p.nf = prec
                      /\ IF IsZero(v) THEN D = <<>> /\ p.ex = 0
                         ELSE p.ds[1] # 0 /\ SigWithin(nl, e, X, prec + 1, v, F)
                 ELSE LET P == IF prec = 0 THEN 1 ELSE prec IN
                      IF IsZero(v) THEN u = <<48>>
                      ELSE /\ D # <<>>
                           /\ (p.nf > 0 => p.ds[Len(p.ds)] # 0)
                           /\ (p.hasexp <=> (X < -4 \/ X >= P))
                           /\ (p.hasexp => p.ds[1] # 0)
                           /\ Len(nl) <= P
                           /\ SigWithin(nl, e, X, P, v, F))
\* attempts: <<buffer size, returned, text if it fitted>>, the largest last
AttemptsRight(w, std) ==
    LET t == w[Len(w)][3] IN
    /\ \A k \in 1..Len(w) :
          IF w[k][2] >= 0 /\ w[k][2] <= w[k][1] THEN w[k][2] = Len(t) /\ w[k][3] = t
          ELSE w[k][1] <= Len(t) /\ (std => w[k][1] < Len(t))
    /\ w[Len(w)][2] <= w[Len(w)][1]
=============================================================================
