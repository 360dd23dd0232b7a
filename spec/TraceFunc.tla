------------------------------ MODULE TraceFunc ------------------------------
(* Recorded histories of functions kept in place agree with Function. *)
EXTENDS Function, TraceLib
VARIABLE i
Peek(s) == IF s = Nothing THEN <<FALSE, TRUE, FALSE, -1>> ELSE <<TRUE, FALSE, TRUE, TypeCode(s[1]) * 1000 + s[2]>>
Obs(S) == [k \in 1..Len(S) |-> Peek(S[k])]
RECURSIVE History(_, _, _, _)
\* the first step not allowed and what would be, or nothing
History(S, h, r, j) ==
  IF j > Len(h) THEN <<>>
  ELSE LET n == {p \in Allowed(S, h[j]) : r[j] = <<p[2], Obs(p[1]), Alive(p[1]), TRUE>>} IN
       IF n = {} THEN <<j, {<<p[2], Obs(p[1]), Alive(p[1])>> : p \in Allowed(S, h[j])}>>
       ELSE History((CHOOSE p \in n : TRUE)[1], h, r, j + 1)
Expected(e) ==
  CASE e.o = "func" -> IF Len(e.r) # Len(e.a[1]) + 1 THEN <<0, "steps">>
                       ELSE LET b == History([k \in 1..6 |-> Nothing], e.a[1], e.r, 1) IN
                            IF b # <<>> THEN b ELSE IF e.r[Len(e.r)] = <<0, TRUE>> THEN <<>> ELSE <<0, "end">>
    \* arguments: by value, by reference, moved, returned; room and alignment
    [] e.o = "pass" -> LET x == e.a[1] y == e.a[2] w == <<x + y, y + 1, x, TRUE, x * 2, TRUE, x, y>> IN IF e.r = w THEN <<>> ELSE w
    [] e.o = "room" -> IF e.r = <<e.a[1], e.a[2], TRUE, TRUE>> THEN <<>> ELSE <<e.a[1], e.a[2], TRUE, TRUE>>
Init == i = 1 /\ TLCSet(1, 0)
Next == i <= Len(Trace) /\ LET b == Expected(Trace[i]) IN Judge(i, b = <<>>, b) /\ TLCSet(1, i) /\ i' = i + 1
AllRead == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
