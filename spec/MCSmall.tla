------------------------------ MODULE MCSmall ------------------------------
(* An allocator with room for N objects in itself, which uses that room from
   the front and reuses it when nothing follows: every history keeps the
   blocks apart, and agrees with the rules by which recorded histories are
   judged.  num: next free place; live: objects in use. *)
EXTENDS Memory
CONSTANTS N, Ids, Sizes, Aligns, DefAl, Step
VARIABLES num, live, blocks, up, nup
vars == <<num, live, blocks, up, nup>>
Init == num = 0 /\ live = 0 /\ blocks = EmptyFn /\ up = EmptyFn /\ nup = 0
InRoom(b) == b.loc[1] = "i"
IsLast(b) == b.loc[2] + b.size = num
\* taking a block for n objects: <<num, live, loc, up, nup>>
Take(nm, lv, u, k, n, al) ==
  IF n <= N - nm /\ nm % al = 0 THEN <<nm + n, lv + n, <<"i", nm>>, u, k>>
  ELSE <<nm, lv, <<"u", k + 1, 0>>, Put(u, k + 1, <<n, al>>), k + 1>>
Give(nm, lv, u, b) ==
  IF InRoom(b) THEN <<IF lv - b.size = 0 THEN 0 ELSE IF b.loc[2] + b.size = nm THEN nm - b.size ELSE nm, lv - b.size, u>>
  ELSE <<nm, lv, Del(u, b.loc[2])>>
Alloc(id, n, al) ==
  /\ id \notin DOMAIN blocks /\ (\A k \in Ids : k < id => k \in DOMAIN blocks)
  /\ LET t == Take(num, live, up, nup, n, al) IN
     /\ num' = t[1] /\ live' = t[2] /\ up' = t[4] /\ nup' = t[5]
     /\ blocks' = Put(blocks, id, Blk(t[3], n, al, <<>>))
Free(id) ==
  /\ id \in DOMAIN blocks
  /\ LET g == Give(num, live, up, blocks[id]) IN num' = g[1] /\ live' = g[2] /\ up' = g[3] /\ UNCHANGED nup
  /\ blocks' = Del(blocks, id)
Realloc(id, n) ==
  /\ id \in DOMAIN blocks
  /\ LET b == blocks[id] IN
     IF InRoom(b) THEN
       IF n <= b.size \/ (IsLast(b) /\ n - b.size <= N - num) THEN
         /\ num' = (IF IsLast(b) THEN num - b.size + n ELSE num) /\ live' = live - b.size + n
         /\ blocks' = Put(blocks, id, [b EXCEPT !.size = n]) /\ UNCHANGED <<up, nup>>
       ELSE LET t == Take(num, live, up, nup, n, b.al) g == Give(t[1], t[2], t[4], b) IN
         /\ num' = g[1] /\ live' = g[2] /\ up' = g[3] /\ nup' = t[5]
         /\ blocks' = Put(blocks, id, Blk(t[3], n, b.al, <<>>))
     ELSE /\ up' = Put(Del(up, b.loc[2]), nup + 1, <<n, b.al>>) /\ nup' = nup + 1
          /\ blocks' = Put(blocks, id, Blk(<<"u", nup + 1, 0>>, n, b.al, <<>>)) /\ UNCHANGED <<num, live>>
Next == \/ \E id \in Ids, n \in Sizes, al \in Aligns : Alloc(id, n, al)
        \/ \E id \in Ids, n \in Sizes : Realloc(id, n)
        \/ \E id \in Ids : Free(id)
Bound == nup < Step
Rest(k) == Del(blocks, k)
Apart == \A k \in InlineOf(blocks) : InlineDisjoint(Rest(k), blocks[k].loc[2], blocks[k].size)
Inside == \A k \in InlineOf(blocks) : LET b == blocks[k] IN b.loc[2] >= 0 /\ b.loc[2] + b.size <= N /\ (b.size > 0 => b.loc[2] % b.al = 0 /\ b.loc[2] + b.size <= num)
Matches == UpMatches(blocks, up)
\* room that nothing uses is used first
First == [][\A k \in DOMAIN blocks' \ DOMAIN blocks : InlineOf(blocks) = {} /\ blocks'[k].size <= N /\ blocks'[k].al <= DefAl => blocks'[k].loc[1] = "i"]_vars
=============================================================================
