------------------------------ MODULE Format ------------------------------
(* Writing several values to one text and reading them back; and dumping
   them piecewise to a sink through a working buffer. *)
EXTENDS IntText, SequencesExt

\* ----- the text of one argument
RECURSIVE ArgText(_)
ArgText(a) ==
  CASE a[1] = "s" -> a[2]
    [] a[1] = "t" -> Word(IF a[2] THEN "true" ELSE "false")
    [] a[1] = "i" -> FullText(a[3], FromDigits(a[4], 256), a[2], a[5])
    [] a[1] = "L" -> LET t == ArgText(a[2]) IN t \o Rep(a[4], Max2(0, a[3] - Len(t)))
    [] a[1] = "R" -> LET t == ArgText(a[2]) IN Rep(a[4], Max2(0, a[3] - Len(t))) \o t
Texts(args) == [k \in 1..Len(args) |-> ArgText(args[k])]
Concat(ts) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ts)

\* ----- the pieces of a call, in order
Joined(ts, sep) == [k \in 1..Max2(0, 2 * Len(ts) - 1) |-> IF k % 2 = 1 THEN ts[(k + 1) \div 2] ELSE sep]
IsMark(f, i) == i + 2 <= Len(f) /\ At(f, i) = 123 /\ At(f, i + 1) = 125
\* position of the first {} of a format string, or -1
MarkPos(f) == MinOrNpos({i \in Idx(f) : IsMark(f, i)})
\* literals and arguments of a format string; what follows the last used {} is literal text
RECURSIVE FmtPieces(_, _)
FmtPieces(f, ts) ==
  LET p == MarkPos(f) IN
  IF p = NPOS \/ ts = <<>> THEN <<f>>
  ELSE <<Slice(f, 0, p), Head(ts)>> \o FmtPieces(Slice(f, p + 2, Len(f) - p - 2), Tail(ts))
Pieces(mode, x, ts) == CASE mode = "cat" -> ts [] mode = "sep" -> Joined(ts, ArgText(x)) [] mode = "fmt" -> FmtPieces(x, ts)
CallText(mode, x, args) == Concat(Pieces(mode, x, Texts(args)))

\* ----- reading the first value of a kind from a text: <<end, value>> or <<-1, ..>>
KindT(k) == CASE k = "i" -> "i32" [] k = "l" -> "i64" [] k = "u" -> "u16" [] k = "j" -> "i8"
NoRead == <<NPOS, <<>> >>
ReadFirst(k, t) ==
  CASE k \in {"i", "l", "u", "j"} ->
         IF FirstOk(t, KindT(k)) THEN <<FirstEnd(t, KindT(k)), LET b == IntStored(View(t, FirstTok(t, KindT(k))), KindT(k)) IN IF b = <<>> THEN <<>> ELSE ToDigits(b, 256)>>
         ELSE NoRead
    [] k = "c" -> IF Len(t) > 0 THEN <<1, t[1]>> ELSE NoRead
    [] k = "B" -> LET w == FirstWord(t) IN IF w[2] > 0 /\ BoolOk(View(t, w)) THEN <<w[1] + w[2], BoolVal(View(t, w))>> ELSE NoRead
    [] k \in {"s", "w"} -> LET w == FirstWord(t) IN
         IF w[2] = 0 \/ (k = "w" /\ w[2] > 16) THEN NoRead
         ELSE <<w[1] + w[2], IF k = "s" THEN <<w>> ELSE View(t, w)>>
\* read kinds ks one after the other, from position pos of t; views are positions in t
Moved(v, k, pos) == IF k = "s" /\ v # <<>> THEN <<(<<v[1][1] + pos, v[1][2]>>)>> ELSE v
ReadAt(k, t, pos) == LET r == ReadFirst(k, From(t, pos)) IN IF r[1] = NPOS THEN NoRead ELSE <<r[1] + pos, Moved(r[2], k, pos)>>
\* state while reading: [pos, vals, ok, free]; free: the specification leaves the outcome open
ReadInit == [pos |-> 0, vals |-> <<>>, ok |-> TRUE, free |-> FALSE]
ReadOne(st, k, t) ==
  IF ~st.ok \/ st.free THEN st
  ELSE LET r == ReadAt(k, t, st.pos) IN
       IF r[1] = NPOS THEN [st EXCEPT !.ok = FALSE] ELSE [st EXCEPT !.pos = r[1], !.vals = Append(@, r[2])]
\* literal text must be there; when it is not, the outcome is open
SkipLit(st, lit, t) ==
  IF ~st.ok \/ st.free THEN st
  ELSE IF OccursAt(t, lit, st.pos) THEN [st EXCEPT !.pos = @ + Len(lit)] ELSE [st EXCEPT !.free = TRUE]
ReadSeq(ks, t) == FoldLeft(LAMBDA st, k : ReadOne(st, k, t), ReadInit, ks)
RECURSIVE ReadFmt(_, _, _, _)
ReadFmt(st, f, ks, t) ==
  LET p == MarkPos(f) IN
  IF p = NPOS \/ ks = <<>> THEN SkipLit(st, f, t)
  ELSE ReadFmt(ReadOne(SkipLit(st, Slice(f, 0, p), t), Head(ks), t), Slice(f, p + 2, Len(f) - p - 2), Tail(ks), t)

\* ----- dumping. A piece is <<direct, text>>: direct pieces go to the sink
\* without passing through the buffer, others only if they fit in it.
DumpPieces(sepdirect, mode, x, args) ==
  LET ps == [k \in 1..Len(args) |-> <<args[k][1], ArgText(args[k][2])>>] IN
  CASE mode = "cat" -> ps
    [] mode = "sep" -> Joined(ps, <<sepdirect, ArgText(x)>>)
    [] mode = "fmt" -> LET P == FmtPieces(x, [k \in 1..Len(args) |-> <<>>]) IN
                       [k \in 1..Len(P) |-> IF k % 2 = 1 THEN <<TRUE, P[k]>> ELSE ps[k \div 2]]
Fits(p, n) == n > 0 /\ (p[1] \/ Len(p[2]) <= n)
MaxLen(ps) == FoldLeft(LAMBDA m, p : IF p[1] THEN m ELSE Max2(m, Len(p[2])), 0, ps)
\* number of leading pieces that fit
FitRun(ps, n) == LET bad == {i \in 1..Len(ps) : ~Fits(ps[i], n)} IN IF bad = {} THEN Len(ps) ELSE MinOf(bad) - 1
TextOf(ps, a, b) == Concat([k \in 1..Max2(0, b - a) |-> ps[a + k][2]])
DumpOut(ps, n) == TextOf(ps, 0, FitRun(ps, n))
\* resumable dumping: how many pieces are done, and the buffer size known to be needed
ResumeInit == [done |-> 0, need |-> 0]
ResumeStep(ps, st, n) ==
  LET rest == SubSeq(ps, st.done + 1, Len(ps)) IN
  [done |-> st.done + FitRun(rest, n), need |-> Max2(st.need, MaxLen(rest))]
\* a buffer that is known to be too small may be refused
ResumeNext(ps, st, n) == {ResumeStep(ps, st, n)} \cup (IF n < st.need THEN {st} ELSE {})
=============================================================================
