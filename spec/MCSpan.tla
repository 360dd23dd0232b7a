------------------------------ MODULE MCSpan ------------------------------
(* Every history of selections, trims and resizes of a span. *)
EXTENDS Span
CONSTANTS Cls, N
VARIABLES s, first
vars == <<s, first>>
\* first: the memory the span was given at the beginning, <<off, cap>>
Init == \E o \in 0..N : \E c \in 0..(N - o) : \E z \in 0..c :
          /\ Cls = "span" => z = c
          /\ s = SpNew(Cls, o, z, c, 0) /\ first = <<o, c>>
Step(n) == s' = n /\ UNCHANGED first
Next == \E k \in 0..N :
          \/ \E n \in 0..N : SpSelOk(s, k, n) /\ Step(SpSel(s, k, n))
          \/ SpSelOk(s, 0, k) /\ Step(SpLast(s, k))
          \/ SpResizeOk(s, k) /\ Step(SpResize(s, k))
          \/ SpTrimOk(s, k) /\ (Step(SpRtrim(s, k)) \/ Step(SpLtrim(s, k)))
          \/ s.cls = "rsl" /\ Step(SpOriginal(s))
\* never outside of the memory it was given
Stays == SpInside(s, N) /\ s.off >= first[1] /\ s.off + s.cap <= first[1] + first[2]
\* the right end of the memory is kept by resizeable spans, both ends by rsl
KeepsRight == s.cls # "span" => s.off + s.cap = first[1] + first[2]
KeepsAll == s.cls = "rsl" => LET o == SpOriginal(s) IN o.off = first[1] /\ o.cap = first[2] /\ o.size = first[2] /\ o.org = 0
\* trims and selections agree
Agree == \A k \in 0..s.size : /\ SpLtrim(s, k) = SpSel(s, k, s.size - k)
                              /\ SpLast(s, k) = SpLtrim(s, s.size - k)
                              /\ SpRtrim(s, k).size = SpSel(s, 0, s.size - k).size /\ SpRtrim(s, k).off = s.off
Narrows == [][s'.cls # "rsl" => s'.off >= s.off]_vars
\* complements of a part give back the whole
Parts == \A f \in 0..s.size : \A n \in 0..(s.size - f) :
   LET a == <<s.off, s.size>> b == <<s.off + f, n>> l == CompL(a, b) r == CompR(a, b) IN
   IsSub(a, b) /\ l[1] = a[1] /\ l[2] + n + r[2] = a[2] /\ r[1] = b[1] + n /\ l[1] + l[2] = b[1]
=============================================================================
