------------------------------ MODULE MCErrors ------------------------------
(* Every history of settings and scopes, and an error at any point of it. *)
EXTENDS Errors
CONSTANTS Flags, MaxScopes
Cbs == {0, 3, 4, 5} \* 1 ends like 5, 2 like 4
VARIABLES s, saved, ended
vars == <<s, saved, ended>>
Init == s = Settings /\ saved = <<>> /\ ended = "no"
Push(n) == Len(s.scopes) < MaxScopes /\ s' = n /\ saved' = Append(saved, <<s.flags, s.cb>>) /\ UNCHANGED ended
Set(n) == s' = n /\ UNCHANGED <<saved, ended>>
Pop == s.scopes # <<>> /\ s' = Leave(s) /\ saved' = SubSeq(saved, 1, Len(saved) - 1) /\ UNCHANGED ended
\* a callback that throws or jumps leaves the scopes between: they end
Raise(exc) == ended' = End(s, exc) /\ UNCHANGED <<s, saved>>
Unwind == s.scopes # <<>> /\ s' = Leave(s) /\ saved' = SubSeq(saved, 1, Len(saved) - 1) /\ UNCHANGED ended
Next == IF ended = "no"
        THEN \/ \E f \in Flags : Set(SetFlags(s, f)) \/ Push(SetFlags(Enter(s), f)) \/ \E c \in Cbs : Push(SetCb(SetFlags(Enter(s), f), c))
             \/ \E c \in Cbs : Set(SetCb(s, c)) \/ Push(SetCb(Enter(s), c))
             \/ Pop \/ Raise(FALSE) \/ Raise(TRUE)
        ELSE ended \in {"thrown", "exception"} /\ Unwind
\* leaving a scope gives back exactly what was set when it was entered
Restores == [][Len(s'.scopes) < Len(s.scopes) => <<s'.flags, s'.cb>> = saved[Len(saved)]]_vars
\* an error does not go on, is reported at most once, and to the callback that is set
Ends == ended \in {"no", "thrown", "jumped", "exception", "abort"}
OneReport == Len(Calls(s, <<>>)) <= 1 + Len(Inner(s.cb)) /\ (Calls(s, <<>>) # <<>> => Calls(s, <<>>)[1][1] = s.cb)
Depths == Len(saved) = Len(s.scopes)
=============================================================================
