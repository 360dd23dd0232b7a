------------------------------ MODULE Scopes ------------------------------
(* The global memory resource of a thread, scoped changes of it, and the
   resources which count the requests that pass through them. *)
EXTENDS Memory
\* cur: current resource; stk: scopes, innermost last, <<own id, kind, previous, counted resource, counts>>
\* 0: initial, 1..3: recording resources, 10+k: the counting resource of scope k
ScInit == [cur |-> 0, stk |-> <<>>, n |-> 0, nid |-> 0, live |-> EmptyFn, ups |-> <<EmptyFn, EmptyFn, EmptyFn>>, fail |-> FALSE]
IdxOf(s, m) == CHOOSE k \in 1..Len(s.stk) : s.stk[k][1] = m
\* resources which a request through m passes, the last one being the base
RECURSIVE Path(_, _)
Path(s, m) == IF m < 10 THEN <<m>> ELSE <<m>> \o Path(s, s.stk[IdxOf(s, m)][4])
AliveRes(s, m) == m < 10 \/ \E k \in 1..Len(s.stk) : s.stk[k][1] = m
RECURSIVE PathAlive(_, _)
PathAlive(s, m) == AliveRes(s, m) /\ (m < 10 \/ PathAlive(s, s.stk[IdxOf(s, m)][4]))
Through(s, f(_)) == LET p == Path(s, s.cur) IN
  [s EXCEPT !.stk = [k \in 1..Len(s.stk) |-> IF \E q \in 1..Len(p) : p[q] = s.stk[k][1] THEN [s.stk[k] EXCEPT ![5] = f(@)] ELSE s.stk[k]]]
BaseOf(s) == LET p == Path(s, s.cur) IN p[Len(p)]
Push(s, kind, inner, new) == [s EXCEPT !.stk = Append(@, <<10 + s.n, kind, s.cur, inner, CntZero>>), !.n = @ + 1, !.cur = new]
Pop(s) == [s EXCEPT !.cur = s.stk[Len(s.stk)][3], !.stk = SubSeq(@, 1, Len(@) - 1)]
=============================================================================
