------------------------------ MODULE TraceSpan ------------------------------
(* Recorded histories of spans are behaviours of Span. *)
EXTENDS Span, TraceLib
VARIABLES i, j, st
None == <<>>
Some(x) == <<"some", x>>
If(c, x) == IF c THEN Some(x) ELSE None

\* a request which is not allowed is refused (the build has assertions: only
\* then is it made) and changes nothing
Req(ok, s, n, r) == IF ok THEN If(r[1] = "ok", n) ELSE If(r[1] = "err", s)
SpStep(x, op, r) ==
  LET s == x.s m == Len(op) - 1
      On(n) == [x EXCEPT !.s = n]
      Write(k, v) == [x EXCEPT !.mem[s.off + k + 1] = v] IN
  CASE op[1] \in {"N", "A"} -> Req(TRUE, x, On(IF m = 2 THEN SpNew(s.cls, op[2], op[3], op[3], 0) ELSE IF m = 3 THEN SpNew(s.cls, op[2], op[3], op[4], 0) ELSE SpNew(s.cls, op[2], op[3], op[4], op[5])), r)
    [] op[1] = "D" -> Req(TRUE, x, On(SpNull(s.cls)), r)
    [] op[1] = "k" -> Req(TRUE, x, x, r)
    [] op[1] = "s" -> IF m = 2 THEN Req(SpSelOk(s, op[2], op[3]), x, On(SpSel(s, op[2], op[3])), r)
                      ELSE Req(SpSelOk(s, op[2], 0), x, On(SpSel(s, op[2], s.size - op[2])), r)
    [] op[1] = "g" -> IF m = 2 THEN Req(SpSelOk(s, op[2], op[3] - op[2]), x, On(SpSel(s, op[2], op[3] - op[2])), r)
                      ELSE Req(SpSelOk(s, op[2], 0), x, On(SpSel(s, op[2], s.size - op[2])), r)
    [] op[1] = "f" -> Req(SpSelOk(s, 0, op[2]), x, On(SpSel(s, 0, op[2])), r)
    [] op[1] = "l" -> Req(SpSelOk(s, 0, op[2]), x, On(SpLast(s, op[2])), r)
    [] op[1] = "R" -> Req(SpResizeOk(s, op[2]), x, On(SpResize(s, op[2])), r)
    \* builds with assertions may refuse to trim everything
    [] op[1] = "T" -> IF op[2] = s.size /\ r[1] = "err" THEN Some(x) ELSE Req(SpTrimOk(s, op[2]), x, On(SpRtrim(s, op[2])), r)
    [] op[1] = "L" -> IF op[2] = s.size /\ r[1] = "err" THEN Some(x) ELSE Req(SpTrimOk(s, op[2]), x, On(SpLtrim(s, op[2])), r)
    [] op[1] = "C" -> Req(TRUE, x, On(SpResize(s, 0)), r)
    [] op[1] = "o" -> Req(TRUE, x, On(SpOriginal(s)), r)
    [] op[1] = "w" -> Req(op[2] >= 0 /\ op[2] < s.size, x, IF op[2] >= 0 /\ op[2] < s.size THEN Write(op[2], op[3]) ELSE x, r)
    [] op[1] = "W" -> Req(TRUE, x, IF s.off = -1 THEN x ELSE Write(op[2], op[3]), r)
    [] op[1] = "F" -> Req(s.size > 0, x, IF s.size > 0 THEN Write(0, op[2]) ELSE x, r)
    [] op[1] = "B" -> Req(s.size > 0, x, IF s.size > 0 THEN Write(s.size - 1, op[2]) ELSE x, r)
    [] op[1] = "c" -> Req(TRUE, x, x, r)
    [] OTHER -> None
Seen(s) == <<s.off, s.size, s.cap, s.org>>
Convs(s) == CASE s.cls = "span" -> <<Seen(s), Seen(s)>>
              [] s.cls = "rs" -> <<Seen(SpAs(s, "span")), Seen(s), Seen(s)>>
              [] s.cls = "rsl" -> <<Seen(SpAs(s, "span")), Seen(SpAs(s, "rs")), Seen(s), Seen(s)>>
SpJudge(e, k, x) ==
  LET r == e.r[k] op == e.a[4][k] n == SpStep(x, op, r) IN
  IF Len(r) # 8 \/ n = None THEN None
  ELSE LET s == n[2].s IN
       If(/\ <<r[2], r[3], r[4], r[5]>> = Seen(s) /\ r[6] = (IF e.a[3] > 100000 THEN <<>> ELSE SpElems(s, n[2].mem)) /\ r[7] = TRUE
          /\ r[8] = (IF op[1] = "c" THEN Convs(s) ELSE <<>>), n[2])

Rel(e) == LET a == <<e.a[4], e.a[5]>> b == <<e.a[6], e.a[7]>> IN
  e.r = <<"ok", IsSub(a, b), a = b, CompL(a, b), CompR(a, b)>>
Signed(v) == [k \in 1..Len(v) |-> CharVal(v[k])]
Cmp(e) == LET x == Signed(e.a[5]) y == Signed(e.a[6]) lt == LexLess(x, y) gt == LexLess(y, x) IN
  e.r = <<x = y, x # y, lt, ~gt, gt, ~lt>>
Conv(e) == IF e.a[3] <= TypeMax(e.a[1]) THEN e.r = <<"ok", e.a[3]>> ELSE e.r = <<"err", 0>>
BlobLen(w, n) == CASE w = "dbl" -> 8 [] w = "chr" -> 1 [] w = "arr" -> 28 [] w = "parr" -> 15 [] w = "ptr" -> 4 * n [] w = "pptr" -> 3 * n [] w = "void" -> n
BlobOk(e) == e.r = <<TRUE, BlobLen(e.a[1], e.a[2]), TRUE>>

\* a span made from an array or from a list is the whole of it
MakeLen(w) == CASE w \in {"array5", "assign5"} -> 5 [] w \in {"array1", "assign1", "list1", "lassign1"} -> 1 [] w \in {"list3", "lassign3"} -> 3 [] w = "list0" -> 0
MakeOk(e) == LET n == MakeLen(e.a[3]) IN
  e.r = <<<<n, n, IF e.a[1] = "rsl" THEN 0 ELSE -1, SubSeq(<<100, 101, 102, 103, 104>>, 1, n)>>, TRUE>>
SameOk(e) == LET q == <<e.a[4], e.a[5]>> = <<e.a[6], e.a[7]>> IN e.r = <<"ok", q, q, q, TRUE>>
One(e) == CASE e.o = "srel" -> Rel(e) [] e.o = "scmp" -> Cmp(e) [] e.o = "szconv" -> Conv(e) [] e.o \in {"blob", "cblob"} -> BlobOk(e) [] e.o = "smake" -> MakeOk(e) [] e.o = "ssame" -> SameOk(e) [] OTHER -> FALSE
\* after a refused request the history ends
Steps(e) == IF e.o = "span" THEN Len(e.r) ELSE 1
Start(e) == IF e.o = "span" THEN [s |-> SpNull(e.a[1]), \* a very large array: its elements are not looked at
    mem |-> [k \in 1..(IF e.a[3] > 100000 THEN 0 ELSE e.a[3]) |-> 99 + k]] ELSE 0
WholeHist(e) == e.o # "span" \/ Len(e.r) = Len(e.a[4])
JudgeStep(e, k, x) == IF e.o = "span" THEN SpJudge(e, k, IF k = 1 THEN Start(e) ELSE x) ELSE If(One(e), x)
Init == i = 1 /\ j = 1 /\ st = 0 /\ TLCSet(1, 0)
Done == i' = i + 1 /\ j' = 1 /\ st' = 0 /\ TLCSet(1, i)
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
     IF j > Steps(e) THEN IF ~WholeHist(e) THEN Judge(i, FALSE, <<"outcomes", Len(e.r), Len(e.a[4])>>) /\ Done ELSE Done
     ELSE LET n == JudgeStep(e, j, st) IN
          IF n = None THEN Judge(i, FALSE, <<"step", j, "in state", st>>) /\ Done
          ELSE i' = i /\ j' = j + 1 /\ st' = n[2]
AllRead == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
