------------------------------ MODULE TraceFmt ------------------------------
(* Judges recorded formatting, scanning and dumping calls. *)
EXTENDS Format, TraceLib
VARIABLE i
PadTo(m, al) == (al - (m % al)) % al
\* expected outcome
Expect(e) ==
  LET a == e.a o == e.o IN
  CASE o = "write" -> LET t == CallText(a[1], a[2], a[3]) n == Len(e.r[1]) IN
         <<Rep(Len(t), n), [k \in 1..n |-> IF Len(t) <= k - 1 THEN t \o Rep(90, k - 1 - Len(t)) ELSE <<>>]>>
    [] o = "sub" -> LET t == CallText(a[1], a[2], a[3]) IN
         IF Len(t) <= a[4] THEN <<"ok", <<0, Len(t)>> >> ELSE <<"err", <<-1, 0>> >>
    [] o = "rs" -> LET t == CallText(a[1], a[2], a[3]) IN
         IF a[4] = 1 THEN <<"ok", a[5] \o t, <<IF t = <<>> THEN -1 ELSE Len(a[5]), Len(t)>> >>
         ELSE <<"ok", t, <<-1, 0>> >>
    [] o = "raw" -> LET pad == PadTo(a[1], a[2]) d == a[3] n == a[4] IN
         IF pad + Len(d) <= n
         THEN <<TRUE, pad + Len(d), Rep(90, pad) \o d \o Rep(90, n - pad - Len(d)), TRUE, TRUE, d, TRUE, pad + Len(d), d, FALSE>>
         ELSE <<TRUE, n + 1, Rep(90, n), FALSE, FALSE, Rep(35, Len(d)), FALSE, 0, Rep(35, Len(d)), FALSE>>
    [] o = "rawcat" -> LET p1 == a[1] + PadTo(a[1], 2) + 2 p2 == p1 + PadTo(p1, 8) + 8 t == p2 + 2 - a[1] IN <<t, t, TRUE, TRUE, TRUE, 99>>
    [] o = "wrap" -> LET m == FromDigits(a[2], 256) T(r, n) == FullText(a[1], m, r, n) IN
         <<T(10, 0), T(2, 0), T(8, 0), T(10, 0), T(16, 0), T(16, 0), T(8, 0), T(2, 0), T(10, a[3]), T(16, a[3]), T(8, a[3]), T(2, a[3]), T(10, a[3])>>
    [] o = "ptrs" -> LET m == FromDigits(a[1], 256) T(r, n) == FullText(FALSE, m, r, n) IN
         Rep(T(16, 0), 9) \o Rep(T(8, 0), 4) \o Rep(T(2, 0), 4) \o <<T(10, 0), T(16, 0), T(2, 0)>> \o Rep(T(16, a[2]), 4) \o <<T(8, a[2]), T(2, a[2])>>
    [] o = "nulls" -> LET T(r, n) == FullText(FALSE, <<>>, r, n) IN
         <<T(16, 0), T(8, 0), T(2, 0), T(10, 0), T(16, 0), T(16, a[1]), T(2, a[1])>>
    [] o = "views" -> \* writing is cut off at the end of the buffer; reading needs all of the room
         LET s == a[1] n == a[2] m == Min2(n, Len(s))
             cut == Slice(s, 0, m) \o Rep(90, n - m)
             k == FirstWord(s) tok == View(s, k) km == Min2(n, Len(tok))
             fits == Len(s) <= n tfits == Len(tok) > 0 /\ Len(tok) <= n IN
         <<"ok", Len(s), cut, TRUE, Len(s), cut, TRUE, TRUE, <<0, Len(s)>>,
           fits, IF fits THEN Len(s) ELSE n, TRUE, IF fits THEN cut ELSE <<>>, TRUE,
           IF tok = <<>> THEN NPOS ELSE k[1] + k[2], IF tok = <<>> THEN <<0, 0>> ELSE k,
           IF tfits THEN k[1] + k[2] ELSE NPOS, IF tfits THEN Len(tok) ELSE n, TRUE, IF tfits THEN tok \o Rep(90, n - Len(tok)) ELSE <<>>, TRUE>>
         \o IF Len(s) <= 3 THEN <<Len(s), cut>> ELSE <<0, <<>> >>
    [] o = "rawdef" -> LET A == 16 b == Rep(a[1], 8) IN
         <<A, A, A, 8, 8, 8, 2, 2, 1, 16, 32, 4, 8, 8, 8, 2, 1, 8, b \o Rep(90, 8), TRUE, b>>
    [] o = "blob" -> LET n == Len(a[1]) v == <<0, n>> IN
         <<(<<v, v, v>>), TRUE, <<(<<0, 4>>), <<0, 12>>, <<0, 4>>, <<0, 8>>, <<0, 4>>, <<0, 12>> >> >>
    [] o = "unread" -> \* mode sepkind/fmt kinds text
         LET t == a[4]
             ks == [k \in 1..Len(a[3]) |-> a[3][k]]
             all == IF a[1] = "sep" THEN Joined(ks, a[2]) ELSE ks
             st == IF a[1] = "fmt" THEN ReadFmt(ReadInit, a[2], ks, t) ELSE ReadSeq(all, t)
         IN IF st.free THEN <<"free">>
            ELSE IF ~st.ok THEN <<"ok", NPOS, <<>>, <<>> >>
            ELSE IF a[1] = "sep" THEN
                 <<"ok", st.pos, [k \in 1..Len(ks) |-> <<st.vals[2 * k - 1]>>], IF Len(ks) > 1 THEN <<st.vals[Len(st.vals) - 1]>> ELSE <<>> >>
            ELSE <<"ok", st.pos, [k \in 1..(IF a[1] = "fmt" THEN Len(st.vals) ELSE Len(ks)) |-> <<st.vals[k]>>], <<>> >>
    [] o = "dump" -> \* sepdirect mode sep/fmt args n
         LET ps == DumpPieces(a[1], a[2], a[3], a[4]) IN <<"ok", MaxLen(ps), DumpOut(ps, a[5])>>
    [] o = "resume" -> \* sepdirect mode sep/fmt args sizes
         LET ps == DumpPieces(a[1], a[2], a[3], a[4])
         IN FoldLeft(LAMBDA acc, n : LET st == acc[Len(acc)] IN Append(acc, ResumeStep(ps, st, n)), <<ResumeInit>>, a[5])
    [] OTHER -> Assert(FALSE, <<"unknown op", o>>)

\* every step of a resumed dump is one the state machine allows
State(r) == [done |-> r[2] + 1, need |-> r[3]]
ResumeOk(e) ==
  LET a == e.a r == e.r ps == DumpPieces(a[1], a[2], a[3], a[4]) IN
  /\ Len(r) = Len(a[5])
  /\ \A k \in 1..Len(r) : LET st == IF k = 1 THEN ResumeInit ELSE State(r[k - 1]) nx == State(r[k]) IN
       /\ nx \in ResumeNext(ps, st, a[5][k])
       /\ r[k][1] = TextOf(ps, st.done, nx.done)
       /\ r[k][4] = nx.done
       /\ r[k][5] = (nx.done > 2 * Len(a[4])) /\ r[k][6] = (nx.done > 0) /\ r[k][7] = (nx.done <= 1)
Agrees(e, x) ==
  IF e.o = "resume" THEN ResumeOk(e)
  ELSE IF x = e.r THEN TRUE
  ELSE IF e.o = "raw" THEN \* the size reported when it does not fit is only known to be too large
       Len(x) = Len(e.r) /\ x[8] = 0 /\ e.r[2] >= x[2] /\ \A k \in (1..Len(x)) \ {2, 8} : x[k] = e.r[k]
  ELSE IF e.o = "unread" THEN
       \/ x[1] = "free" /\ e.r[1] = "ok"
       \/ /\ e.r[1] = "ok" /\ x[1] = "ok" /\ e.a[1] = "fmt" /\ e.r[2] = x[2] /\ e.r[4] = x[4]
          /\ Len(e.r[3]) >= Len(x[3]) /\ SubSeq(e.r[3], 1, Len(x[3])) = x[3]
  ELSE IF e.o = "views" THEN \* what a failed read leaves in the destination is not specified, nor where an empty view is
       /\ Len(x) = Len(e.r)
       /\ \A k \in (1..Len(x)) \ {9, 13, 20} : x[k] = e.r[k]
       /\ SameView(e.r[9], x[9])
       /\ (x[10] => x[13] = e.r[13]) /\ (x[17] # NPOS => x[20] = e.r[20])
  ELSE IF e.o = "rs" THEN e.r[1] = "ok" /\ e.r[2] = x[2] /\ e.a[4] = 1 /\ e.r[3][2] = 0 /\ x[3][2] = 0
  ELSE FALSE

Init == i = 1
Next == /\ i <= Len(Trace)
        /\ LET x == Expect(Trace[i]) IN Judge(i, Agrees(Trace[i], x), x)
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
AllRead == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1>>)
=============================================================================
