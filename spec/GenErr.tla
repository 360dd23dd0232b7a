------------------------------ MODULE GenErr ------------------------------
(* Every history of settings and scopes up to Depth steps, ending in an error. *)
EXTENDS Errors
CONSTANTS Depth, Flags, CbSet
VARIABLES s, hist
T(n) == ToString(n)
Init == s = Settings /\ hist = <<>>
Do(n, t) == s' = n /\ hist' = Append(hist, t)
Next == /\ Len(hist) < Depth
        /\ \/ \E f \in Flags : Do(SetFlags(s, f), "F:" \o T(f)) \/ Do(SetFlags(Enter(s), f), "pF:" \o T(f))
                \/ \E c \in CbSet : Do(SetCb(SetFlags(Enter(s), f), c), "pB:" \o T(f) \o ":" \o T(c))
           \/ \E c \in CbSet : Do(SetCb(s, c), "C:" \o T(c)) \/ Do(SetCb(Enter(s), c), "pC:" \o T(c))
           \/ s.scopes # <<>> /\ Do(Leave(s), "q")
RECURSIVE Join(_)
Join(h) == IF h = <<>> THEN "" ELSE Head(h) \o " " \o Join(Tail(h))
Emit == Len(hist) = Depth => PrintT(<<"CASE", "err " \o Join(hist) \o "E:num:3:x6162">>)
=============================================================================
