------------------------------ MODULE MCObj ------------------------------
(* Every history of objects in a small piece of raw memory. *)
EXTENDS Objects, TLC
CONSTANTS N, Kind, MaxMade
VARIABLES sl, made, last
vars == <<sl, made, last>>
B(n) == IF Kind = "triv" THEN Live(0) ELSE Raw
Init == sl = [k \in 1..N |-> IF Kind = "triv" THEN Live(0) ELSE Raw] /\ made = 0 /\ last = "-"
To(al, what) == sl' \in {f \in [1..N -> UNION {al[k] : k \in 1..N}] : \A k \in 1..N : f[k] \in al[k]} /\ last' = what
R == 0..N
New == \E d \in R : Blank(sl, Kind, d, 1) /\ made < MaxMade /\ made' = made + 1 /\ To(Fill(sl, d, 1, made + 1), "new")
NewN == \E d, n \in R : n > 1 /\ Blank(sl, Kind, d, n) /\ made < MaxMade /\ made' = made + 1 /\ To(Fill(sl, d, n, made + 1), "new")
Other == /\ UNCHANGED made
         /\ \E d, s, n \in R :
              \/ n > 0 /\ Blank(sl, Kind, d, n) /\ Full(sl, s, n) /\ Apart(d, n, s, n) /\ (To(Copy(sl, d, s, n), "copy") \/ To(Move(sl, Kind, d, s, n), "move"))
              \/ n > 0 /\ Any(sl, d, n) /\ Full(sl, s, n) /\ Apart(d, n, s, n) /\ (To(Copy(sl, d, s, n), "acopy") \/ To(Move(sl, Kind, d, s, n), "amove"))
              \/ n > 0 /\ s = 0 /\ Any(sl, d, n) /\ To(Destroy(sl, Kind, d, n), "destroy")
              \/ n > 0 /\ MakeRoomOk(sl, Kind, d, n, s) /\ To(MakeRoom(sl, Kind, d, n, s), "room")
              \/ n > 0 /\ DestroyRoomOk(sl, d, n, s) /\ To(DestroyRoom(sl, Kind, d, n, s), "unroom")
Next == New \/ NewN \/ Other
Count(q, v) == Cardinality({k \in 1..N : q[k] = Live(v)})
\* objects are neither lost nor duplicated by moving them, for types that are emptied by it
Conserves == [][(Kind = "move" /\ last' \in {"move", "room"}) => \A v \in 1..MaxMade : Count(sl, v) = Count(sl', v)]_vars
\* values come only from somewhere: no operation but a construction brings in a new one
NoNew == [][last' # "new" => \A v \in 1..MaxMade : Count(sl', v) > 0 => Count(sl, v) > 0]_vars
Seq1(al) == [k \in 1..N |-> CHOOSE x \in al[k] : TRUE]
\* making room and destroying it gives back the same objects, in their order
RoundTrip == \A p, n, room \in R : (n > 0 /\ room > 0 /\ MakeRoomOk(sl, Kind, p, n, room)) =>
   LET a == Seq1(MakeRoom(sl, Kind, p, n, room))
       b == Seq1(Fill(a, p, room, 0))
       c == DestroyRoom(b, Kind, p, n + room, room) IN
   \A k \in p..(p + n - 1) : c[k + 1] = {sl[k + 1]}
\* room made elsewhere and in place agree
Agree == \A d, s, n, room, pos \in R : (n > 0 /\ MakeRoomToOk(sl, Kind, d, s, n, room, pos)) =>
   LET a == MakeRoomTo(sl, d, s, n, room, pos) IN
   \A k \in 0..(n + room - 1) : (k < pos => a[d + k + 1] = {sl[s + k + 1]}) /\ (k >= pos + room => a[d + k + 1] = {sl[s + k - room + 1]})
=============================================================================
