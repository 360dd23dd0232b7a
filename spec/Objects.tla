------------------------------ MODULE Objects ------------------------------
(* Life cycles of objects in raw memory.  A slot of memory holds
     <<"raw">>      no object
     <<"live", v>>  an object with value v
     <<"moved">>    an object that was moved from
   For trivial types life cycles cannot be observed and every slot is live.
   Kinds of types: "triv", "move" (moving empties the source), "copy" (moving
   is copying).  An operation yields, for each slot, the set of what it may
   hold afterwards. *)
EXTENDS Integers, Sequences, FiniteSets
Raw == <<"raw">>
Gone == <<"moved">>
Live(v) == <<"live", v>>
IsLive(x) == x[1] = "live"
Kinds == {"triv", "move", "copy"}
Idx(sl) == 0..(Len(sl) - 1)
At(sl, k) == sl[k + 1]
Src(kind, x) == IF kind = "move" THEN Gone ELSE x       \* left behind by a move
Dead(kind, x) == IF kind = "triv" THEN x ELSE Raw       \* left behind by a destruction
\* ----- what has to hold before
Room4(sl, d, n) == n >= 0 /\ d >= 0 /\ d + n <= Len(sl)
Blank(sl, kind, d, n) == Room4(sl, d, n) /\ (kind = "triv" \/ \A k \in d..(d + n - 1) : ~IsLive(At(sl, k)))
Full(sl, d, n) == Room4(sl, d, n) /\ \A k \in d..(d + n - 1) : IsLive(At(sl, k))
Any(sl, d, n) == Room4(sl, d, n) /\ \A k \in d..(d + n - 1) : At(sl, k) # Raw
Apart(d, n, s, m) == d + n <= s \/ s + m <= d \/ n = 0 \/ m = 0
\* ----- results; F gives the sets for the slots that change
Put(sl, d, n, F(_)) == [k \in 1..Len(sl) |-> IF k - 1 >= d /\ k - 1 < d + n THEN F(k - 1 - d) ELSE {sl[k]}]
Put2(sl, d, n, F(_), s, m, G(_)) == [k \in 1..Len(sl) |-> IF k - 1 >= d /\ k - 1 < d + n THEN F(k - 1 - d) ELSE IF k - 1 >= s /\ k - 1 < s + m THEN G(k - 1 - s) ELSE {sl[k]}]
Fill(sl, d, n, v) == Put(sl, d, n, LAMBDA k : {Live(v)})
Copy(sl, d, s, n) == Put(sl, d, n, LAMBDA k : {At(sl, s + k)})
Move(sl, kind, d, s, n) == Put2(sl, d, n, LAMBDA k : {At(sl, s + k)}, s, n, LAMBDA k : {Src(kind, At(sl, s + k))})
Destroy(sl, kind, d, n) == Put(sl, d, n, LAMBDA k : {Dead(kind, At(sl, d + k))})
Min2(a, b) == IF a < b THEN a ELSE b
\* room in front of n objects: they move up by room
MakeRoom(sl, kind, p, n, room) ==
  IF room = 0 THEN [k \in 1..Len(sl) |-> {sl[k]}]
  ELSE Put2(sl, p + room, n, LAMBDA k : {At(sl, p + k)}, p, Min2(n, room), LAMBDA k : {Src(kind, At(sl, p + k))})
MakeRoomOk(sl, kind, p, n, room) == /\ Full(sl, p, n) /\ room >= 0 /\ Room4(sl, p, n + room)
                                    /\ \A k \in (p + n)..(p + n + room - 1) : kind = "triv" \/ ~IsLive(At(sl, k))
\* the same into other memory: the source keeps its objects
MakeRoomTo(sl, d, s, n, room, pos) == Put2(sl, d, pos, LAMBDA k : {At(sl, s + k)}, d + pos + room, n - pos, LAMBDA k : {At(sl, s + pos + k)})
MakeRoomToOk(sl, kind, d, s, n, room, pos) ==
  /\ Full(sl, s, n) /\ room >= 0 /\ pos >= 0 /\ (pos < n \/ (pos = 0 /\ n = 0)) /\ Apart(d, n + room, s, n) /\ Room4(sl, d, n + room)
  /\ Blank(sl, kind, d, pos) /\ Blank(sl, kind, d + pos + room, n - pos)
\* the first room of n objects go, the others move down.  What stays behind
\* the others is gone when all go, and is not specified otherwise: it may be
\* destroyed, moved from, or as it was
DestroyRoom(sl, kind, p, n, room) ==
  IF room = 0 THEN [k \in 1..Len(sl) |-> {sl[k]}]
  ELSE IF room = n THEN Destroy(sl, kind, p, n)
  ELSE Put2(sl, p, n - room, LAMBDA k : {At(sl, p + room + k)},
            p + n - room, room, LAMBDA k : IF kind = "triv" THEN {At(sl, p + n - room + k)} ELSE {Raw, Gone, At(sl, p + n - room + k)})
DestroyRoomOk(sl, p, n, room) == Full(sl, p, n) /\ room >= 0 /\ room <= n
DestroyRoomTo(sl, d, s, n, room, pos) == Put2(sl, d, pos, LAMBDA k : {At(sl, s + k)}, d + pos, n - pos - room, LAMBDA k : {At(sl, s + pos + room + k)})
DestroyRoomToOk(sl, kind, d, s, n, room, pos) ==
  Full(sl, s, n) /\ room >= 0 /\ pos >= 0 /\ pos < n /\ pos + room <= n /\ Apart(d, n - room, s, n) /\ Blank(sl, kind, d, n - room)
=============================================================================
