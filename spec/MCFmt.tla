------------------------------ MODULE MCFmt ------------------------------
(* Laws of formatting and scanning. *)
EXTENDS Format
CONSTANTS MaxArgs
VARIABLES xs, f
vars == <<xs, f>>
Stay == UNCHANGED vars
I(n) == <<"i", 10, n < 0, IF n = 0 THEN <<>> ELSE <<IF n < 0 THEN -n ELSE n>>, 0>>
S(t) == <<"s", t>>
Args == {S(<<>>), S(<<97>>), S(<<123, 125>>), I(0), I(-7), I(200), <<"t", TRUE>>, <<"L", I(-7), 4, 46>>, <<"R", S(<<97, 98>>), 1, 46>>, <<"R", I(12), 5, 48>>}
Fmts == {<<>>, <<123, 125>>, <<97, 123, 125>>, <<123, 125, 98>>, <<123, 125, 123, 125>>, <<123, 123, 125, 125>>, <<120, 123, 125, 44, 123, 125, 121>>, <<123>>, <<125, 123>>}
InitWrite == xs \in UNION {[1..k -> Args] : k \in 0..MaxArgs} /\ f \in Fmts
Marks(n) == Concat([k \in 1..n |-> <<123, 125>>])
NMarks(x) == Cardinality({i \in Idx(x) : IsMark(x, i)})
WriteLaws ==
  LET ts == Texts(xs) n == Len(xs) IN
  /\ CallText("sep", S(<<>>), xs) = CallText("cat", <<>>, xs)
  /\ CallText("fmt", Marks(n), xs) = CallText("cat", <<>>, xs)
  /\ \A k \in 0..n : CallText("cat", <<>>, xs) = CallText("cat", <<>>, SubSeq(xs, 1, k)) \o CallText("cat", <<>>, SubSeq(xs, k + 1, n))
  /\ \A k \in 1..(n - 1) : CallText("sep", S(<<44>>), xs) = CallText("sep", S(<<44>>), SubSeq(xs, 1, k)) \o <<44>> \o CallText("sep", S(<<44>>), SubSeq(xs, k + 1, n))
  \* a format consumes as many arguments as it has marks; the literal text stays as it is
  /\ LET used == Min2(n, NMarks(f)) IN
       /\ CallText("fmt", f, xs) = CallText("fmt", f, SubSeq(xs, 1, used))
       /\ Len(CallText("fmt", f, xs)) = Len(f) - 2 * used + Len(CallText("cat", <<>>, SubSeq(xs, 1, used)))
  /\ \A k \in 1..n : xs[k][1] \in {"L", "R"} =>
       LET t == ArgText(xs[k]) u == ArgText(xs[k][2]) IN
       Len(t) = Max2(xs[k][3], Len(u)) /\ (IF xs[k][1] = "L" THEN Begins(t, u) ELSE Ends(t, u))

\* ----- reading back what was written
RVals == {<<"i", I(0), <<>> >>, <<"i", I(-7), <<255, 255, 255, 249>> >>, <<"u", I(200), <<200>> >>, <<"s", S(<<97, 98>>), <<97, 98>> >>, <<"c", S(<<113>>), 113>>, <<"B", <<"t", TRUE>>, TRUE>>, <<"w", S(<<120>>), <<120>> >>}
RFmts == {<<123, 125, 32, 123, 125>>, <<123, 125, 32, 45, 32, 123, 125, 32>>, <<40, 123, 125, 32, 44, 123, 125, 32, 41>>}
InitRead == xs \in [1..2 -> RVals] /\ f \in RFmts
ReadLaws ==
  LET args == [k \in 1..2 |-> xs[k][2]] ks == [k \in 1..2 |-> xs[k][1]]
      t == CallText("fmt", f, args) st == ReadFmt(ReadInit, f, ks, t)
      Val(k) == LET v == st.vals[k] IN IF ks[k] = "s" THEN View(t, v[1]) ELSE v
      u == CallText("sep", S(<<32>>), args) sq == ReadSeq(<<ks[1], "c", ks[2]>>, u)
  IN /\ st.ok /\ ~st.free /\ st.pos = Len(t) /\ Len(st.vals) = 2
     /\ \A k \in 1..2 : Val(k) = xs[k][3]
     /\ sq.ok /\ sq.pos = Len(u) /\ sq.vals[2] = 32
     \* a text cut short never yields more than was there
     /\ \A c \in 0..Len(t) : LET q == ReadFmt(ReadInit, f, ks, Slice(t, 0, c)) IN q.pos <= c /\ Len(q.vals) <= 2
=============================================================================
