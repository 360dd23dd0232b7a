------------------------------ MODULE GenMem ------------------------------
(* Behaviours of the linear resource, as cases for the driver: every history
   of the specification, including requests it refuses, up to Depth steps. *)
EXTENDS MCMem, TLC
CONSTANTS Depth
VARIABLE hist
gvars == <<s, mem, hist>>
N(n) == ToString(n)
Same == UNCHANGED <<s, mem>>
Add(t) == hist' = Append(hist, t)
GInit == Init /\ hist = <<>>
GNext ==
  /\ Len(hist) < Depth
  /\ \/ \E id \in Ids, sz \in Sizes, al \in Aligns :
          /\ id \notin Live /\ \A k \in Ids : k < id => k \in Live
          /\ Add("a:" \o N(id) \o ":" \o N(sz) \o ":" \o N(al) \o " w:" \o N(id) \o ":" \o N(id + 10 * Len(hist) + 1))
          /\ IF LinFits(s, sz, al) THEN Alloc(id, sz, al) ELSE Same
     \/ \E id \in Ids, n \in Sizes \cup {0} :
          /\ id \in Live /\ n # s.blocks[id].size /\ Add("r:" \o N(id) \o ":" \o N(n))
          /\ IF LinReallocFits(s, id, n) THEN Realloc(id, n) ELSE Same
     \/ \E id \in Ids : Free(id) /\ Add("d:" \o N(id))
     \/ Clear /\ s.pos > 0 /\ Add("c")
RECURSIVE Join(_)
Join(h) == IF h = <<>> THEN "" ELSE " " \o Head(h) \o Join(Tail(h))
Emit == Len(hist) = Depth => PrintT(<<"CASE", "mem lin " \o N(Cap) \o "," \o N(s.base) \o Join(hist)>>)
=============================================================================
