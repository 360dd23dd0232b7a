------------------------------ MODULE TraceBits ------------------------------
(* Recorded calls of the bit utilities agree with Bits. *)
EXTENDS Bits, TraceLib
VARIABLE i
SetOf(q) == {q[k] : k \in 1..Len(q)}
\* four little-endian 16-bit limbs
BigOf(q) == FoldRight(LAMBDA x, acc : BAdd(MulAdd(MulAdd(acc, 256, 0), 256, 0), BNat(x)), q, <<>>)
Num(p) == <<p[1], BigOf(p[2])>>
Bit(e) == LET b == SetOf(e.a[2]) IN IF b = {} THEN e.r[1] = "err" ELSE e.r = <<"ok", Lowest(b), Highest(b)>>
BitCt(e) == LET b == SetOf(e.r[1]) IN e.r[2] = Lowest(b) /\ e.r[3] = Highest(b)
\* all results given are the power, as far as it is specified
PowOk(t, x, n, rs) == LET p == Pow(x, n) IN
   (Fits(t, p) \/ ~Signed(t)) => \A k \in 1..Len(rs) : Num(rs[k]) = (IF Fits(t, p) THEN p ELSE Stored(t, p))
Ok(e) == CASE e.o = "bit" -> Bit(e) [] e.o = "bitct" -> BitCt(e)
           [] e.o = "mask" -> SetOf(e.r[1]) = Mask(e.a[2], e.a[3])
           [] e.o = "maskct" -> SetOf(e.r[3]) = Mask(e.r[1], e.r[2])
           [] e.o = "ipow" -> PowOk(e.a[1], Num(e.r[1]), e.a[4], <<e.r[2]>>)
           [] e.o = "ipowct" -> PowOk(e.a[1], Num(e.r[1]), e.a[4], <<e.r[2], e.r[3]>>)
           [] e.o = "ipowf" -> e.r = <<TRUE, e.a[3] * e.a[4]>>
           [] e.o = "rem" -> e.r = <<MissingMin(e.a[1], e.a[2]), MissingMult(e.a[1], e.a[2])>>
           [] e.o = "chars" -> e.r[1] = e.a[1] /\ e.r[2] = UnitsFor(e.a[1], e.r[3])
           [] OTHER -> FALSE
Init == i = 1 /\ TLCSet(1, 0)
Next == i <= Len(Trace) /\ Judge(i, Ok(Trace[i]), <<"not allowed">>) /\ TLCSet(1, i) /\ i' = i + 1
AllRead == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
