------------------------------ MODULE GenScope ------------------------------
(* Every history of scopes of the global resource up to Depth steps. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Depth
VARIABLES hist, depth, allocs
vars == <<hist, depth, allocs>>
Init == hist = <<>> /\ depth = 0 /\ allocs = 0
Add(t) == hist' = Append(hist, t)
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E t \in {"S:1", "C", "K:2", "S:0"} : Add(t) /\ depth' = depth + 1 /\ UNCHANGED allocs
     \/ depth > 0 /\ Add("P") /\ depth' = depth - 1 /\ UNCHANGED allocs
     \/ Add("a:3") /\ allocs' = allocs + 1 /\ UNCHANGED depth
     \/ allocs > 0 /\ Add("d:" \o ToString(allocs)) /\ UNCHANGED <<depth, allocs>>
RECURSIVE Join(_)
Join(h) == IF h = <<>> THEN "" ELSE " " \o Head(h) \o Join(Tail(h))
Emit == Len(hist) = Depth => PrintT(<<"CASE", "scope" \o Join(hist)>>)
=============================================================================
