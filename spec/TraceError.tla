------------------------------ MODULE TraceError ------------------------------
(* Recorded histories of error settings and errors are behaviours of Errors. *)
EXTENDS Errors, TraceLib
VARIABLES i, j, st
None == <<>>
If(c, x) == IF c THEN <<"some", x>> ELSE None
Within(s, t) == Len(s) = 0 \/ \E k \in 0..(Len(t) - Len(s)) : t[k + 1] = s[1] /\ SubSeq(t, k + 1, k + Len(s)) = s
\* r: <<end, callbacks, log, place, thrown text>>
Raised(s, e, op, r) ==
  LET site == op[2] n == op[3] text == op[4] checked == e.a[1] exc == e.a[2] m == Msg(site, n, text) IN
  IF site = "warn" THEN r[1] = "returned" /\ r[2] = <<>> /\ Within(m, r[3]) /\ Within(r[4], r[3]) /\ r[5] = <<>>
  ELSE IF site = "bad" THEN \* the message cannot be formatted
       r[1] = End(s, exc) /\ Len(r[2]) = Len(Calls(s, <<>>)) /\ \A k \in 1..Len(r[2]) : r[2][k][1] = Calls(s, <<>>)[k][1] /\ r[2][k][3] = TRUE
  ELSE IF ~Happens(site, n, checked) THEN r = <<"returned", <<>>, <<>>, r[4], <<>>>>
  ELSE LET cs == Calls(s, m) IN
       /\ r[1] = End(s, exc)
       /\ r[2] = [k \in 1..Len(cs) |-> <<cs[k][1], cs[k][2], TRUE>>]
       /\ IF Logs(s) THEN Within(m, r[3]) /\ Within(r[4], r[3]) ELSE r[3] = <<>>
       /\ r[5] = (IF End(s, exc) = "exception" THEN m ELSE <<>>)
\* every step tells the settings after it
ErStep(e, s, op, r) ==
  LET n == CASE op[1] = "F" -> SetFlags(s, op[2])
             [] op[1] = "C" -> SetCb(s, op[2])
             [] op[1] = "pF" -> SetFlags(Enter(s), op[2])
             [] op[1] = "pC" -> SetCb(Enter(s), op[2])
             [] op[1] = "pB" -> SetCb(SetFlags(Enter(s), op[2]), op[3])
             [] op[1] = "q" -> Leave(s)
             [] op[1] = "E" -> s IN
  If(r[1] = n.flags /\ r[2] = n.cb /\ (IF op[1] = "E" THEN Raised(s, e, op, r[3]) ELSE r[3] = <<>>), n)
Dbg(e) == e.r[1] = e.r[2]
Hist(e) == e.a[3]
Steps(e) == IF e.o = "err" THEN Len(e.r) ELSE 1
JudgeStep(e, k, x) == IF e.o = "err" THEN ErStep(e, IF k = 1 THEN Settings ELSE x, Hist(e)[k], e.r[k]) ELSE If(Dbg(e), x)
Init == i = 1 /\ j = 1 /\ st = Settings /\ TLCSet(1, 0)
Done == i' = i + 1 /\ j' = 1 /\ st' = Settings /\ TLCSet(1, i)
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
     IF e.o = "err" /\ Len(e.r) # Len(Hist(e)) THEN Judge(i, FALSE, <<"outcomes", Len(e.r), Len(Hist(e))>>) /\ Done
     ELSE IF j > Steps(e) THEN Done
     ELSE LET n == JudgeStep(e, j, st) IN
          IF n = None THEN Judge(i, FALSE, <<"step", j, "in state", st>>) /\ Done
          ELSE i' = i /\ j' = j + 1 /\ st' = n[2]
AllRead == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
