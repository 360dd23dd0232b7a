------------------------------ MODULE MCMem ------------------------------
(* Every history of a linear resource, with the memory itself. *)
EXTENDS Memory
CONSTANTS Cap, Bases, Ids, Sizes, Aligns
VARIABLES s, mem
vars == <<s, mem>>
Init == /\ s \in {LinWith(b, Cap, FALSE) : b \in Bases}
        /\ mem = [a \in 0..(Cap - 1) |-> 0]
Live == DOMAIN s.blocks
Alloc(id, sz, al) == id \notin Live /\ LinFits(s, sz, al) /\ s' = LinAlloc(s, id, sz, al) /\ UNCHANGED mem
Realloc(id, n) ==
  /\ id \in Live /\ LinReallocFits(s, id, n) /\ s' = LinRealloc(s, id, n)
  /\ LET o == s.blocks[id] p == s'.blocks[id] IN \* the contents are moved if the place changes
     mem' = [a \in DOMAIN mem |-> IF a - p.loc[2] \in 0..(Min2(o.size, p.size) - 1) THEN mem[o.loc[2] + a - p.loc[2]] ELSE mem[a]]
Free(id) == id \in Live /\ s' = LinFree(s, id) /\ UNCHANGED mem
Write(id) ==
  /\ id \in Live /\ s' = LinWrite(s, id, id)
  /\ mem' = [a \in DOMAIN mem |-> IF a \in Range(s.blocks[id].loc[2], s.blocks[id].size) THEN id ELSE mem[a]]
Clear == s' = LinClear(s) /\ UNCHANGED mem
\* each id stands for one block of the history: the smallest free one is taken
Next == \/ \E id \in Ids, sz \in Sizes, al \in Aligns : (\A k \in Ids : k < id => k \in Live) /\ Alloc(id, sz, al)
        \/ \E id \in Ids, n \in Sizes \cup {0} : Realloc(id, n)
        \/ \E id \in Ids : Free(id) \/ Write(id)
        \/ Clear
Spec == Init /\ [][Next]_vars
Inside == LinInside(s)
Aligned == LinAligned(s)
Disjoint == LinDisjoint(s)
\* what was written to a block is still there
Kept == \A k \in Live : LET b == s.blocks[k] IN \A j \in 1..b.size : b.data[j] # -1 => mem[b.loc[2] + j - 1] = b.data[j]
\* a block that is neither reallocated nor freed stays where it is
(* States which differ only in bytes that no block has written behave alike,
   and by Kept the other bytes are those recorded with the blocks. *)
StateView == s
Stays == [][\A k \in Live \cap DOMAIN s'.blocks : s'.blocks[k].size = s.blocks[k].size => s'.blocks[k].loc = s.blocks[k].loc]_vars
=============================================================================
