------------------------------ MODULE MCScopes ------------------------------
(* Every history of nested scopes and of requests through the global resource. *)
EXTENDS Scopes
CONSTANTS MaxScopes, MaxAllocs, Sizes
VARIABLES s, ghost, saved
vars == <<s, ghost, saved>>
\* ghost: per scope the allocations that passed through it, <<size, live?>>, and the peaks
\* saved: the resource that was current when each scope was entered
Init == s = ScInit /\ ghost = <<>> /\ saved = <<>>
G0 == [live |-> EmptyFn, tot |-> 0, totsz |-> 0, peak |-> 0, peaksz |-> 0]
RECURSIVE SumOf(_)
SumOf(f) == IF DOMAIN f = {} THEN 0 ELSE LET k == CHOOSE k \in DOMAIN f : TRUE IN f[k] + SumOf(Del(f, k))
Enter(n) == s.n < MaxScopes /\ s' = n /\ ghost' = Append(ghost, G0) /\ saved' = Append(saved, s.cur)
Passes(k) == \E q \in 1..Len(Path(s, s.cur)) : Path(s, s.cur)[q] = s.stk[k][1]
Alloc(sz) ==
  /\ s.nid < MaxAllocs
  /\ s' = LET n == Through(s, LAMBDA c : CntAdd(c, sz)) IN [n EXCEPT !.nid = @ + 1, !.live = Put(@, s.nid + 1, <<s.cur, sz>>)]
  /\ ghost' = [k \in 1..Len(ghost) |-> IF ~Passes(k) THEN ghost[k] ELSE
        LET l == Put(ghost[k].live, s.nid + 1, sz) IN
        [live |-> l, tot |-> ghost[k].tot + 1, totsz |-> ghost[k].totsz + sz, peak |-> Max2(ghost[k].peak, Cardinality(DOMAIN l)), peaksz |-> Max2(ghost[k].peaksz, SumOf(l))]]
  /\ UNCHANGED saved
Free(id) ==
  /\ id \in DOMAIN s.live /\ s.live[id][1] = s.cur
  /\ s' = LET n == Through(s, LAMBDA c : CntRem(c, s.live[id][2])) IN [n EXCEPT !.live = Del(@, id)]
  /\ ghost' = [k \in 1..Len(ghost) |-> IF ~Passes(k) THEN ghost[k] ELSE [ghost[k] EXCEPT !.live = Del(@, id)]]
  /\ UNCHANGED saved
Leave == /\ s.stk # <<>> /\ s' = Pop(s)
         /\ ghost' = SubSeq(ghost, 1, Len(ghost) - 1) /\ saved' = SubSeq(saved, 1, Len(saved) - 1)
Next == \/ \E k \in 0..2 : Enter(Push(s, "S", k, k)) \/ Enter(Push(s, "C", k, 10 + s.n))
        \/ Enter(Push(s, "C", s.cur, 10 + s.n))
        \/ Leave
        \/ \E k \in 0..2 : s' = [s EXCEPT !.cur = k] /\ UNCHANGED <<ghost, saved>>
        \/ \E sz \in Sizes : Alloc(sz)
        \/ \E id \in 1..MaxAllocs : Free(id)
\* the counts are those of the requests that passed through
Counts == \A k \in 1..Len(s.stk) : s.stk[k][2] = "C" =>
  LET c == s.stk[k][5] g == ghost[k] IN
  c = <<Cardinality(DOMAIN g.live), SumOf(g.live), g.tot, g.totsz, g.peak, g.peaksz>>
\* the current resource always exists, and so does everything it passes requests to
Alive == PathAlive(s, s.cur)
\* leaving a scope restores what was there before it was entered
Restores == [][Len(s'.stk) < Len(s.stk) => s'.cur = saved[Len(saved)]]_vars
=============================================================================
