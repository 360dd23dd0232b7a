------------------------------ MODULE TraceLayout ------------------------------
(* Recorded layouts and histories of pairs agree with Layout. The history is
   recorded as a sequence of steps. *)
EXTENDS Layout, TraceLib
VARIABLE i
PairOk(e) == LET fe == e.r[5] se == e.r[6] h == e.a[2]
                 vs == FoldLeft(LAMBDA acc, k : Append(acc, PairStep(fe, se, acc[Len(acc)], h[k])), <<<<0, 0>>>>, [k \in 1..Len(h) |-> k]) IN
   \* (where the other part has one of the empty part inside, the language keeps them apart)
   /\ IF e.a[1] \in {"e_has", "has_e"} THEN e.r[1] <= e.r[4] ELSE PairSizeOk(e.r[1], e.r[2], e.r[3], e.r[4], fe, se)
   /\ Len(e.r[7]) = Len(h)
   /\ \A k \in 1..Len(h) : e.r[7][k] = <<vs[k + 1][1], vs[k + 1][2], TRUE>>
PadOk(e) == LET s == e.r[1] n == e.r[2] m == e.r[3] x == e.r[9] IN
   /\ e.r[4] = Padded(s, n) /\ e.r[5] = MinSized(s, n) /\ e.r[6] = MultSized(s, m) /\ e.r[7] = MinMultSized(s, n, m) /\ e.r[8] = MinMultSized(s, 64, 16)
   /\ \A k \in 1..Len(x) : x[k] = x[1] /\ x[k] # -999
Ok(e) == CASE e.o = "pair" -> PairOk(e) [] e.o = "pad" -> PadOk(e)
           [] e.o = "padmove" -> e.r = <<e.a[1], e.a[1] + 1, e.a[1] + 2, TRUE>>
           [] e.o = "seq" -> LET n == IF e.a[1] = "big" /\ e.a[2] = 0 THEN 5 ELSE e.a[2] IN e.r = <<n, Upto(n)>>
           [] e.o = "each" -> e.r = <<Words(e.a[1]), Words(e.a[1])>>
           [] e.o = "tname" -> e.r = <<TypeName(e.a[1]), TypeName(e.a[1])>>
           [] e.o = "traits" -> e.r = Facts
           [] OTHER -> FALSE
Init == i = 1 /\ TLCSet(1, 0)
Next == i <= Len(Trace) /\ Judge(i, Ok(Trace[i]), <<"not allowed">>) /\ TLCSet(1, i) /\ i' = i + 1
AllRead == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
