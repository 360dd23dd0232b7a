------------------------------ MODULE GenSpan ------------------------------
(* Every history of a span up to Depth steps, as cases for the driver; the
   last step may be one that has to be refused (marked !). *)
EXTENDS MCSpan
CONSTANTS Depth
VARIABLES hist, bad
A(t) == hist' = Append(hist, t)
T(n) == ToString(n)
GInit == /\ \E o \in {0, 1} : \E c \in 0..(N - o) : \E z \in 0..c :
             /\ Cls = "span" => z = c
             /\ c \in {N - o, 2}
             /\ s = SpNew(Cls, o, z, c, 0) /\ first = <<o, c>>
             /\ hist = <<"N:" \o T(o) \o ":" \o T(z) \o (IF Cls = "span" THEN "" ELSE ":" \o T(c))>>
         /\ bad = FALSE
Do(ok, n, t) == A(t) /\ UNCHANGED first /\ bad' = ~ok /\ s' = IF ok THEN n ELSE s
K == 0..(N + 1)
GNext ==
  /\ Len(hist) <= Depth /\ ~bad
  /\ \E k \in K :
       \/ \E n \in K \cup {-1} : n \in {0, 1, s.size - k, s.size - k + 1, -1} /\ Do(SpSelOk(s, k, n), SpSel(s, k, n), "s:" \o T(k) \o ":" \o T(n))
       \/ \E n \in K : n \in {k, k - 1, s.size, s.size + 1} /\ Do(SpSelOk(s, k, n - k), SpSel(s, k, n - k), "g:" \o T(k) \o ":" \o T(n))
       \/ Do(SpSelOk(s, k, 0), SpSel(s, k, s.size - k), (IF k = 1 THEN "s:" ELSE "g:") \o T(k))
       \/ Do(SpSelOk(s, 0, k), SpSel(s, 0, k), "f:" \o T(k))
       \/ Do(SpSelOk(s, 0, k), SpLast(s, k), "l:" \o T(k))
       \/ Do(SpResizeOk(s, k), SpResize(s, k), "R:" \o T(k))
       \/ k # s.size /\ Do(SpTrimOk(s, k), SpRtrim(s, k), "T:" \o T(k))
       \/ k # s.size /\ Do(SpTrimOk(s, k), SpLtrim(s, k), "L:" \o T(k))
       \/ k <= 2 /\ Cls = "rsl" /\ Do(TRUE, SpOriginal(s), "o:" \o T(k))
       \/ k = 0 /\ (Do(TRUE, s, "c") \/ Do(TRUE, SpResize(s, 0), "C"))
RECURSIVE Join(_)
Join(h) == IF h = <<>> THEN "" ELSE " " \o Head(h) \o Join(Tail(h))
Emit == (Len(hist) = Depth + 1 \/ bad) => PrintT(<<"CASE", (IF bad THEN "!" ELSE "") \o "span " \o Cls \o " size " \o T(N) \o Join(hist)>>)
=============================================================================
