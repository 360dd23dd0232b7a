------------------------------ MODULE TraceMem ------------------------------
(* Judges recorded histories of memory resources and allocators, step by step. *)
EXTENDS Scopes, TraceLib
VARIABLES i, j, st
vars == <<i, j, st>>

(* state of a history:
   t, prm   what is exercised, and its parameters
   lin      the linear resource (linear targets), else the blocks are in lin.blocks too
   up       blocks of the underlying resource in use; chunk: the one owned by a linear resource
   fail     the next request to the underlying resource fails
   cnt      counts, one per level *)
St(t, prm, lin, up, chunk, cnt) == [t |-> t, prm |-> prm, lin |-> lin, up |-> up, chunk |-> chunk, cnt |-> cnt, fail |-> FALSE]
Linears == {"lin", "linw", "own", "ownw", "none", "arr16", "arr40"}
IsLin(s) == s.t \in Linears

\* parts of an outcome
Status(r) == r[1]
Loc(r) == r[2]
Conts(r) == r[3]
Log(r) == r[4]
Info(r) == r[5]

\* what can be observed of a state
Observed(s, r) ==
  /\ Len(Conts(r)) = Cardinality(DOMAIN s.lin.blocks)
  /\ \A k \in 1..Len(Conts(r)) : Conts(r)[k][1] \in DOMAIN s.lin.blocks /\ SameData(Conts(r)[k][2], s.lin.blocks[Conts(r)[k][1]].data)
  /\ IF IsLin(s) THEN Info(r) = <<s.lin.base, s.lin.cap, s.lin.pos, s.lin.cap - s.lin.pos>>
     ELSE IF s.t \in {"cnt", "cntg"} THEN Info(r) = s.cnt
     ELSE TRUE

\* a result of a step: the next state, or None if the specification does not allow the outcome
None == <<"none">>
Some(s) == <<"some", s>>
If(c, s) == IF c THEN Some(s) ELSE None
NoLoc(r) == Loc(r) = <<>>
Quiet(r) == Log(r) = <<>>

\* ----- beginning
Base(r) == Info(r)[1]
Begin(t, prm, r) ==
  IF Status(r) # "ok" THEN None
  ELSE CASE t \in {"lin", "linw"} -> If(Quiet(r), St(t, prm, LinWith(prm[2], prm[1], FALSE), EmptyFn, 0, <<>>))
    [] t \in {"own", "ownw"} -> If(Len(Log(r)) = 1 /\ Log(r)[1][1] = "A" /\ Log(r)[1][3] = prm[1] /\ Log(r)[1][4] = MaxAlign /\ Base(r) % MaxAlign = 0,
                       St(t, prm, LinWith(Base(r), prm[1], TRUE), UpAll(EmptyFn, Log(r)), Log(r)[1][2], <<>>))
    [] t = "none" -> If(Quiet(r), St(t, prm, LinNone, EmptyFn, 0, <<>>))
    [] t \in {"arr16", "arr40"} -> If(Quiet(r) /\ Base(r) % MaxAlign = 0, St(t, prm, LinWith(Base(r), IF t = "arr16" THEN 16 ELSE 40, FALSE), EmptyFn, 0, <<>>))
    [] t \in {"cnt", "cntg"} -> If(Quiet(r), St(t, prm, LinNone, EmptyFn, 0, [k \in 1..prm[1] |-> CntZero]))
    [] OTHER -> If(Quiet(r), St(t, prm, LinNone, EmptyFn, 0, <<>>))

\* ----- linear resources
Released(s) == [s EXCEPT !.lin = LinNone, !.up = EmptyFn, !.chunk = 0]
\* the owned memory is given back, with the size it was taken with
GivesBack(s, log) == IF s.lin.own THEN log = <<(<<"F", s.chunk, s.lin.cap, MaxAlign>>)>> ELSE log = <<>>
LinStep(s, op, r) ==
  LET l == s.lin id == op[2] IN
  CASE op[1] = "a" -> IF ~LinFits(l, op[3], op[4]) THEN If(Status(r) = "err" /\ Quiet(r), s)
                      ELSE LET n == LinAlloc(l, id, op[3], op[4]) IN If(Status(r) = "ok" /\ Quiet(r) /\ Loc(r) = n.blocks[id].loc, [s EXCEPT !.lin = n])
    [] op[1] = "r" -> IF op[3] < 0 \/ ~LinReallocFits(l, id, op[3]) THEN If(Status(r) = "err" /\ Quiet(r), s)
                      ELSE LET n == LinRealloc(l, id, op[3]) IN If(Status(r) = "ok" /\ Quiet(r) /\ Loc(r) = n.blocks[id].loc, [s EXCEPT !.lin = n])
    [] op[1] = "d" -> If(Status(r) = "ok" /\ Quiet(r), [s EXCEPT !.lin = LinFree(l, id)])
    [] op[1] = "w" -> If(Status(r) = "ok" /\ Quiet(r), [s EXCEPT !.lin = LinWrite(l, id, op[3])])
    [] op[1] = "c" -> If(Status(r) = "ok" /\ Quiet(r), [s EXCEPT !.lin = LinClear(l)])
    [] op[1] \in {"R", "E"} -> If(Status(r) = "ok" /\ GivesBack(s, Log(r)), Released(s))
    [] op[1] = "B" -> If(Status(r) = "ok" /\ GivesBack(s, Log(r)), [Released(s) EXCEPT !.lin = LinWith(op[3], op[2], FALSE)])
    [] op[1] = "Q" -> LET log == Log(r) n == Len(log) up == UpAll(s.up, log) IN
                      \* the old memory is given back and exactly one new chunk is taken, in either order
                      If(/\ Status(r) = "ok" /\ UpLogOk(s.up, log) /\ n = (IF l.own THEN 2 ELSE 1)
                         /\ Cardinality(DOMAIN up) = 1 /\ DOMAIN up \cap DOMAIN s.up = {}
                         /\ \A k \in DOMAIN up : up[k] = <<op[2], MaxAlign>>
                         /\ Base(r) % MaxAlign = 0,
                         [s EXCEPT !.lin = LinWith(Base(r), op[2], TRUE), !.up = up, !.chunk = CHOOSE k \in DOMAIN up : TRUE])
    [] OTHER -> None

\* ----- everything that passes requests on to the underlying resource, one by one
Unit(s) == IF s.t = "alc" \/ s.t = "small" THEN s.prm[1] ELSE 1
AlOf(s, al) == IF al = 0 THEN s.prm[2] ELSE al
Counted(s, f(_)) == [k \in 1..Len(s.cnt) |-> f(s.cnt[k])]
\* cntg: sizes are in units of 2^30, and the blocks have no contents
Kept(s, sz) == IF s.t = "cntg" THEN 0 ELSE sz
PassStep(s, op, r) ==
  LET u == Unit(s) id == op[2] bs == s.lin.blocks up == UpAll(s.up, Log(r))
      failed == Status(r) = "err" /\ Log(r) = <<(<<"X">>)>> IN
  CASE op[1] = "a" -> LET sz == op[3] * u al == AlOf(s, op[4]) IN
         IF s.fail THEN If(failed, [s EXCEPT !.fail = FALSE])
         ELSE If(/\ Status(r) = "ok" /\ UpLogOk(s.up, Log(r)) /\ Len(Log(r)) = 1 /\ Log(r)[1][1] = "A"
                 /\ Log(r)[1][3] = sz /\ Log(r)[1][4] = al /\ Loc(r) = <<"u", Log(r)[1][2], 0>>,
                 [s EXCEPT !.up = up, !.lin.blocks = Put(bs, id, Blk(Loc(r), sz, al, Fresh(Kept(s, sz)))), !.cnt = Counted(s, LAMBDA c : CntAdd(c, sz))])
    [] op[1] = "r" -> LET b == bs[id] sz == op[3] * u IN
         IF s.fail THEN If(failed, [s EXCEPT !.fail = FALSE])
         ELSE If(/\ Status(r) = "ok" /\ UpLogOk(s.up, Log(r)) /\ Len(Log(r)) = 1
                 /\ Log(r)[1][1] = "R" /\ Log(r)[1][2] = b.loc[2] /\ Log(r)[1][5] = sz
                 /\ Loc(r) = <<"u", Log(r)[1][3], 0>>,
                 [s EXCEPT !.up = up, !.lin.blocks = Put(bs, id, Blk(Loc(r), sz, b.al, Resized(b.data, Kept(s, sz)))), !.cnt = Counted(s, LAMBDA c : CntRe(c, b.size, sz))])
    [] op[1] = "d" -> LET b == bs[id] IN
         If(/\ Status(r) = "ok" /\ UpLogOk(s.up, Log(r)) /\ Log(r) = <<(<<"F", b.loc[2], b.size, b.al>>)>>,
            [s EXCEPT !.up = up, !.lin.blocks = Del(bs, id), !.cnt = Counted(s, LAMBDA c : CntRem(c, b.size))])
    [] op[1] = "w" -> If(Status(r) = "ok" /\ Quiet(r), IF s.t = "cntg" THEN s ELSE [s EXCEPT !.lin = LinWrite(s.lin, id, op[3])])
    [] op[1] = "f" -> If(Status(r) = "ok" /\ Quiet(r), [s EXCEPT !.fail = TRUE])
    [] OTHER -> None

\* ----- an allocator which has room for some objects in itself: prm = <<sizeof, alignment, tag, N>>
\* A block is inside the allocator, aligned and apart from the other blocks
\* there, or it is a block of the resource.
SmallPlaced(s, rest, up, r, sz, al) ==
  IF Loc(r)[1] = "i" THEN
     /\ Loc(r)[2] >= 0 /\ Loc(r)[2] + sz <= Info(r)[2]
     /\ sz > 0 => (Info(r)[1] + Loc(r)[2]) % al = 0
     /\ InlineDisjoint(rest, Loc(r)[2], sz)
     \* all inline blocks together never exceed the room for N objects
     /\ LET all == {rest[k].loc[2] : k \in InlineOf(rest)} \cup {Loc(r)[2]}
            ends == {rest[k].loc[2] + rest[k].size : k \in InlineOf(rest)} \cup {Loc(r)[2] + sz}
        IN MaxOf(ends) - MinOf(all) <= s.prm[4] * s.prm[1]
  ELSE Loc(r)[1] = "u"
SmallStep(s, op, r) ==
  LET u == Unit(s) id == op[2] bs == s.lin.blocks log == Log(r) up == UpAll(s.up, log)
      failed == Status(r) = "err" /\ log = <<(<<"X">>)>> IN
  CASE op[1] = "a" ->
         LET sz == op[3] * u al == AlOf(s, op[4]) must == InlineOf(bs) = {} /\ op[3] <= s.prm[4] /\ al <= s.prm[2]
             n == Put(bs, id, Blk(Loc(r), sz, al, Fresh(sz))) IN
         IF s.fail /\ failed THEN If(~must, [s EXCEPT !.fail = FALSE])
         ELSE If(/\ Status(r) = "ok" /\ UpLogOk(s.up, log) /\ SmallPlaced(s, bs, up, r, sz, al) /\ UpMatches(n, up)
                 /\ (must => Loc(r)[1] = "i") /\ (Loc(r)[1] = "i" => Quiet(r)) /\ (s.fail => Quiet(r)) /\ Len(log) <= 1,
                 [s EXCEPT !.up = up, !.lin.blocks = n])
    [] op[1] = "r" ->
         LET b == bs[id] sz == op[3] * u rest == Del(bs, id)
             n == Put(rest, id, Blk(Loc(r), sz, b.al, Resized(b.data, sz))) IN
         IF s.fail /\ failed THEN If(b.loc[1] = "u" \/ sz > b.size, [s EXCEPT !.fail = FALSE])
         ELSE If(/\ Status(r) = "ok" /\ UpLogOk(s.up, log) /\ SmallPlaced(s, rest, up, r, sz, b.al) /\ UpMatches(n, up)
                 /\ (s.fail => \A k \in 1..Len(log) : log[k][1] = "F"),
                 [s EXCEPT !.up = up, !.lin.blocks = n])
    [] op[1] = "d" ->
         If(Status(r) = "ok" /\ UpLogOk(s.up, log) /\ UpMatches(Del(bs, id), up) /\ Len(log) <= 1, [s EXCEPT !.up = up, !.lin.blocks = Del(bs, id)])
    [] op[1] = "w" -> If(Status(r) = "ok" /\ Quiet(r), [s EXCEPT !.lin = LinWrite(s.lin, id, op[3])])
    [] op[1] = "f" -> If(Status(r) = "ok" /\ Quiet(r), [s EXCEPT !.fail = TRUE])
    [] OTHER -> None

\* ----- the default heap functions: prm = <<direct?>>
HeapStep(s, op, r) ==
  LET id == op[2] bs == s.lin.blocks IN
  CASE op[1] = "a" -> IF ~IsPow2(op[4]) THEN If(Status(r) = "err", s)
                      ELSE If(Status(r) = "ok" /\ Loc(r)[2] % op[4] = 0, [s EXCEPT !.lin.blocks = Put(bs, id, Blk(Loc(r), op[3], op[4], Fresh(op[3])))])
    [] op[1] = "r" -> LET b == bs[id] IN
                      If(Status(r) = "ok" /\ Loc(r)[2] % b.al = 0, [s EXCEPT !.lin.blocks = Put(bs, id, Blk(Loc(r), op[3], b.al, Resized(b.data, op[3])))])
    [] op[1] = "d" -> If(Status(r) = "ok", [s EXCEPT !.lin.blocks = Del(bs, id)])
    [] op[1] = "w" -> If(Status(r) = "ok", [s EXCEPT !.lin = LinWrite(s.lin, id, op[3])])
    [] OTHER -> None

\* a step on a block that does not exist (or already does) is not made
Skips(s, op) == (op[1] \in {"r", "d", "w"} /\ op[2] \notin DOMAIN s.lin.blocks) \/ (op[1] = "a" /\ op[2] \in DOMAIN s.lin.blocks)
MemStep(s, op, r) ==
  IF Skips(s, op) THEN If(Status(r) = "skip" /\ Quiet(r), s)
  ELSE IF Status(r) \notin {"ok", "err"} THEN None
  ELSE IF IsLin(s) THEN LinStep(s, op, r)
  ELSE IF s.t = "small" THEN SmallStep(s, op, r)
  ELSE IF s.t = "malloc" THEN HeapStep(s, op, r)
  ELSE PassStep(s, op, r)
MemJudge(e, k, s) ==
  LET r == e.r[k] n == IF Len(r) # 5 THEN None ELSE IF k = 1 THEN Begin(e.a[1], e.a[2], r) ELSE MemStep(s, e.a[3][k - 1], r) IN
  IF n = None THEN None ELSE IF Observed(n[2], r) THEN n ELSE None

\* ----- the global resource and its scopes
ScView(s) == LET cs == SelectSeq(s.stk, LAMBDA x : x[2] = "C") IN
  [k \in 1..Len(cs) |-> <<cs[k][1], IF AliveRes(s, cs[k][4]) THEN cs[k][4] ELSE -1, cs[k][5]>>]
NoLogs == <<(<<>>), (<<>>), (<<>>)>>
ScStep(s, op, r) ==
  LET logs == r[5] q == logs = NoLogs ok == r[1] = "ok" IN
  CASE op[1] = "S" -> If(ok /\ q, Push(s, "S", op[2], op[2]))
    [] op[1] = "C" -> If(ok /\ q, Push(s, "C", s.cur, 10 + s.n))
    [] op[1] = "K" -> If(ok /\ q, Push(s, "C", op[2], 10 + s.n))
    [] op[1] = "P" -> IF s.stk = <<>> THEN If(r[1] = "skip" /\ q, s)
                      ELSE If(ok /\ q, Pop(s))
    [] op[1] = "s" -> If(ok /\ q, [s EXCEPT !.cur = op[2]])
    [] op[1] = "t" -> If(ok /\ q /\ r[3] = 3, s)
    [] op[1] = "f" -> IF s.cur = 0 THEN If(r[1] = "skip" /\ q, s) ELSE If(ok /\ q, [s EXCEPT !.fail = TRUE])
    [] op[1] = "a" -> LET b == BaseOf(s) lg == IF b = 0 THEN <<>> ELSE logs[b] IN
         IF s.fail /\ b > 0 THEN If(r[1] = "err" /\ lg = <<(<<"X">>)>>, [s EXCEPT !.fail = FALSE])
         ELSE If(/\ ok /\ r[3] = s.nid + 1 /\ (b = 0 => q)
                 /\ b > 0 => Len(lg) = 1 /\ lg[1][1] = "A" /\ lg[1][3] = op[2] /\ lg[1][4] = MaxAlign /\ UpOk(s.ups[b], lg[1])
                            /\ \A k \in 1..3 : k # b => logs[k] = <<>>,
                 LET n == Through(s, LAMBDA c : CntAdd(c, op[2])) IN
                 [n EXCEPT !.nid = @ + 1, !.fail = FALSE, !.live = Put(@, s.nid + 1, <<s.cur, op[2], b, IF b > 0 THEN lg[1][2] ELSE 0>>),
                           !.ups = IF b > 0 THEN [@ EXCEPT ![b] = UpAll(@, lg)] ELSE @])
    [] op[1] = "d" -> IF op[2] \notin DOMAIN s.live \/ (op[2] \in DOMAIN s.live /\ s.live[op[2]][1] # s.cur) THEN If(r[1] = "skip" /\ q, [s EXCEPT !.fail = FALSE])
         ELSE LET v == s.live[op[2]] b == v[3] IN
              If(ok /\ (IF b = 0 THEN q ELSE logs = [NoLogs EXCEPT ![b] = <<(<<"F", v[4], v[2], MaxAlign>>)>>]),
                 LET n == Through(s, LAMBDA c : CntRem(c, v[2])) IN
                 [n EXCEPT !.live = Del(@, op[2]), !.fail = FALSE, !.ups = IF b > 0 THEN [@ EXCEPT ![b] = UpAll(@, logs[b])] ELSE @])
    [] OTHER -> None
ScJudge(e, k, s) ==
  LET r == e.r[k] n == ScStep(IF e.a[1][k][1] \in {"S", "C", "K", "P", "s", "t"} THEN [s EXCEPT !.fail = FALSE] ELSE s, e.a[1][k], r) IN
  IF n = None THEN None ELSE IF r[2] = n[2].cur /\ r[4] = ScView(n[2]) THEN n ELSE None

\* ----- arithmetic of counts
RECURSIVE CntHist(_, _)
CntHist(c, h) == IF h = <<>> THEN c ELSE CntHist(IF Head(h) < 128 THEN CntAdd(c, Head(h)) ELSE CntRem(c, Head(h) - 128), Tail(h))
CntOp(e) == LET x == CntHist(CntZero, e.a[1]) y == CntHist(CntZero, e.a[2])
                plus == [k \in 1..6 |-> x[k] + y[k]] minus == [k \in 1..6 |-> x[k] - y[k]] IN
  e.r = <<"ok", x, y, minus, plus, plus, x, CntZero>>

\* ----- the functions that can be replaced: f = <<allocation, reallocation, release>>, 0 are the original ones
HookStep(s, op, r) ==
  LET A == s.f[1] R == s.f[2] F == s.f[3] log == r[3] id == op[2]
      one(k, x) == IF k = 0 THEN <<>> ELSE <<x>>
      same == r[4] = A /\ r[5] = R /\ r[6] = F
      good == r[1] = "ok" /\ r[2] = 0 /\ same
      setf(k) == [s EXCEPT !.f[k] = op[2]] IN
  CASE op[1] = "A" -> If(r[1] = "ok" /\ log = <<>> /\ <<r[4], r[5], r[6]>> = <<op[2], R, F>>, setf(1))
    [] op[1] = "R" -> If(r[1] = "ok" /\ log = <<>> /\ <<r[4], r[5], r[6]>> = <<A, op[2], F>>, setf(2))
    [] op[1] = "F" -> If(r[1] = "ok" /\ log = <<>> /\ <<r[4], r[5], r[6]>> = <<A, R, op[2]>>, setf(3))
    [] op[1] = "a" -> IF id \in DOMAIN s.live THEN If(r[1] = "skip" /\ log = <<>> /\ same, s)
                      ELSE If(good /\ log = one(A, <<"A", A, op[3], op[4]>>), [s EXCEPT !.live = Put(@, id, <<op[3], op[4]>>)])
    [] id \notin DOMAIN s.live -> If(r[1] = "skip" /\ log = <<>> /\ same, s)
    [] op[1] = "r" -> LET b == s.live[id] IN
                      \* the original one may keep the block, or gets another one from the current functions
                      If(good /\ (IF R # 0 THEN log = <<(<<"R", R, b[1], op[3], b[2]>>)>>
                                  ELSE log \in {<<>>, one(A, <<"A", A, op[3], b[2]>>) \o one(F, <<"F", F>>)}),
                         [s EXCEPT !.live = Put(@, id, <<op[3], b[2]>>)])
    [] op[1] = "d" -> If(good /\ log = one(F, <<"F", F>>), [s EXCEPT !.live = Del(@, id)])
    [] OTHER -> None
HookJudge(e, k, s) == HookStep(IF k = 1 THEN [f |-> <<0, 0, 0>>, live |-> EmptyFn] ELSE s, e.a[1][k], e.r[k])

\* ----- containers which get their memory from an allocator
InsertAt(s, k, x) == SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
EraseAt(s, k) == SubSeq(s, 1, k) \o SubSeq(s, k + 2, Len(s))
MinN(x, y) == IF x < y THEN x ELSE y
RECURSIVE Fill(_, _)
Fill(x, n) == IF n <= 0 THEN <<>> ELSE <<x>> \o Fill(x, n - 1)
ContNext(c, op) ==
  CASE op[1] = "p" -> Append(c, op[2])
    [] op[1] = "o" -> IF c = <<>> THEN c ELSE SubSeq(c, 1, Len(c) - 1)
    [] op[1] = "i" -> InsertAt(c, MinN(op[2], Len(c)), op[3])
    [] op[1] = "e" -> IF c = <<>> THEN c ELSE EraseAt(c, MinN(op[2], Len(c) - 1))
    [] op[1] = "z" -> IF op[2] <= Len(c) THEN SubSeq(c, 1, op[2]) ELSE c \o Fill(7, op[2] - Len(c))
    [] op[1] = "c" -> <<>>
    [] op[1] \in {"k", "r", "x", "y"} -> c
ContJudge(e, k, s) ==
  LET c == IF k = 1 THEN <<>> ELSE s IN
  IF k <= Len(e.a[2]) THEN If(e.r[k] = ContNext(c, e.a[2][k]), ContNext(c, e.a[2][k]))
  \* at the end: every request was well formed, and nothing is left
  ELSE If(UpLogOk(EmptyFn, e.r[k]) /\ DOMAIN UpAll(EmptyFn, e.r[k]) = {}, c)

\* ----- which resource an allocator uses
AlcEq(e) ==
  LET a == e.a c == a[1] d == a[3] g == a[5]
      x == IF a[2] = 0 THEN c ELSE a[2]  y == IF a[4] = 0 THEN d ELSE a[4]
      \* one block of that size was taken from resource k and given back; nothing from the others
      used(p, k, sz, al) == \A n \in 1..3 : LET l == e.r[p + n] IN
          IF n = k THEN Len(l) = 2 /\ l[1][1] = "A" /\ l[1][3] = sz /\ l[1][4] = al /\ l[2] = <<"F", l[1][2], sz, al>> ELSE l = <<>> IN
  /\ e.r[1] = "ok" /\ Len(e.r) = 33
  /\ SubSeq(e.r, 2, 12) = <<x, c, y, d, g, x, x, x, x, x, x>>
  /\ SubSeq(e.r, 13, 24) = <<x = c, x # c, x = y, x # y, y = c, y # c, TRUE, FALSE, TRUE, FALSE, y = g, y # g>>
  /\ used(24, x, 12, 4) /\ used(27, x, 16, 8) /\ used(30, g, 4, 4)

Steps(e) == IF e.o \in {"cntop", "alceq", "huge", "many", "bigre"} THEN 1 ELSE IF e.o = "mem" THEN Len(e.a[3]) + 1 ELSE IF e.o = "cont" THEN Len(e.a[2]) + 1 ELSE Len(e.a[1])
JudgeStep(e, k, s) ==
  IF e.o = "cntop" THEN If(CntOp(e), s)
  ELSE IF e.o = "alceq" THEN If(AlcEq(e), s)
  ELSE IF e.o \in {"huge", "many"} THEN If(e.r = <<"err">>, s)
  \* a large block keeps its contents and its alignment: <<status, length of the prefix it still has, address modulo alignment, before and after>>
  ELSE IF e.o = "bigre" THEN If(e.r = <<"ok", Min2(e.a[2], e.a[3]), 0, 0>>, s)
  ELSE IF k > Len(e.r) THEN None
  ELSE IF e.o = "mem" THEN MemJudge(e, k, s)
  ELSE IF e.o = "hooks" THEN HookJudge(e, k, s)
  ELSE IF e.o = "cont" THEN ContJudge(e, k, s)
  ELSE ScJudge(e, k, IF k = 1 THEN ScInit ELSE s)
Init == i = 1 /\ j = 1 /\ st = ScInit /\ TLCSet(1, 0)
Done == i' = i + 1 /\ j' = 1 /\ st' = ScInit /\ TLCSet(1, i)
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
     IF j > Steps(e) THEN IF e.o \notin {"cntop", "alceq", "huge", "many", "bigre"} /\ Len(e.r) # Steps(e) THEN Judge(i, FALSE, <<"outcomes", Len(e.r), Steps(e)>>) /\ Done ELSE Done
     ELSE LET n == JudgeStep(e, j, st) IN
          IF n = None THEN Judge(i, FALSE, <<"step", j, "in state", st>>) /\ Done
          ELSE i' = i /\ j' = j + 1 /\ st' = n[2]
AllRead == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
