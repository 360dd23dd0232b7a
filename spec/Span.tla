------------------------------ MODULE Span ------------------------------
(* Spans: a window [off, off+size[ of an array, with a capacity.
   cls "span": no capacity beyond the size; "rs": resizeable to the right up
   to cap; "rsl": moreover org remembers the distance from the beginning of
   the original memory.  off is -1 for a span of nothing (a null pointer). *)
EXTENDS Bytes
SpNew(cls, off, size, cap, org) == [cls |-> cls, off |-> off, size |-> size, cap |-> IF cls = "span" THEN size ELSE cap, org |-> IF cls = "rsl" THEN org ELSE -1]
SpNull(cls) == SpNew(cls, -1, 0, 0, 0)
Shift(s, k) == IF s.off = -1 THEN -1 ELSE s.off + k
\* the part of n elements beginning at f
SpSel(s, f, n) == SpNew(s.cls, Shift(s, f), n, s.cap - f, s.org + f)
SpSelOk(s, f, n) == f >= 0 /\ n >= 0 /\ f + n <= s.size
SpLast(s, n) == SpSel(s, s.size - n, n)
SpResize(s, n) == SpNew(s.cls, s.off, n, s.cap, s.org)
SpResizeOk(s, n) == n >= 0 /\ n <= s.cap
SpRtrim(s, n) == SpNew(s.cls, s.off, s.size - n, s.cap, s.org)
SpLtrim(s, n) == SpSel(s, n, s.size - n)
SpTrimOk(s, n) == n >= 0 /\ n <= s.size
SpOriginal(s) == SpNew("rsl", IF s.off = -1 THEN -1 ELSE s.off - s.org, s.cap + s.org, s.cap + s.org, 0)
SpElems(s, mem) == IF s.off = -1 THEN <<>> ELSE SubSeq(mem, s.off + 1, s.off + s.size)
SpInside(s, n) == s.size >= 0 /\ s.cap >= s.size /\ IF s.off = -1 THEN s.cap = 0 ELSE s.off >= 0 /\ s.off + s.cap <= n
\* as other classes, with const elements or not
SpAs(s, cls) == SpNew(cls, s.off, s.size, s.cap, s.org)

\* ----- relations of two spans <<off, size>>
IsSub(a, b) == a[1] # -1 /\ b[1] # -1 /\ b[1] >= a[1] /\ b[1] + b[2] <= a[1] + a[2]
Inside(a, p) == p >= a[1] /\ p <= a[1] + a[2]
CompL(a, b) == IF a[1] # -1 /\ b[1] # -1 /\ Inside(a, b[1]) THEN <<a[1], b[1] - a[1]>> ELSE <<a[1], 0>>
CompR(a, b) == IF a[1] # -1 /\ b[1] # -1 /\ Inside(a, b[1] + b[2]) THEN <<b[1] + b[2], a[1] + a[2] - b[1] - b[2]>> ELSE <<a[1], 0>>

\* ----- order: lexicographic, by element
RECURSIVE LexLess(_, _)
LexLess(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE
                 ELSE IF Head(x) # Head(y) THEN Head(x) < Head(y) ELSE LexLess(Tail(x), Tail(y))

\* ----- size conversions
TypeMax(t) == CASE t = "i8" -> 127 [] t = "u8" -> 255 [] t = "i16" -> 32767 [] t = "u16" -> 65535 [] OTHER -> 2147483647
=============================================================================
