------------------------------ MODULE GenObj ------------------------------
(* Every history of objects in a small piece of raw memory, up to Depth
   operations, as cases for the driver. *)
EXTENDS MCObj
CONSTANTS Depth, Type, Itype
VARIABLES hist
T(n) == ToString(n)
A2(o, a, b) == o \o ":" \o T(a) \o ":" \o T(b)
A3(o, a, b, c) == A2(o, a, b) \o ":" \o T(c)
A5(o, a, b, c, d, e) == A3(o, a, b, c) \o ":" \o T(d) \o ":" \o T(e)
\* unspecified outcomes end a history
Det(al) == \A k \in 1..N : Cardinality(al[k]) = 1
H(al, t) == hist' = Append(hist, t) /\ sl' = (IF Det(al) THEN Seq1(al) ELSE sl) /\ last' = (IF Det(al) THEN "-" ELSE "end")
\* the beginning: some objects at the front, some at the end
GInit == /\ \E a \in 0..N : \E b \in 0..(N - a) :
              LET f == [k \in 1..N |-> IF k <= a THEN Live(k) ELSE IF k > N - b THEN Live(10 + k) ELSE IF Kind = "triv" THEN Live(90) ELSE Raw] IN
              /\ sl = f
              /\ hist = [k \in 1..Cardinality({x \in 1..N : x <= a \/ x > N - b}) |-> LET x == IF k <= a THEN k ELSE N - b + k - a IN A2("cv", x - 1, IF x <= a THEN x ELSE 10 + x)]
         /\ made = 0 /\ last = "-"
GStep ==
  /\ last # "end" /\ made < Depth /\ made' = made + 1
  /\ \E d, s, n \in R :
       \/ Blank(sl, Kind, d, n) /\ s = 0 /\ H(Fill(sl, d, n, 0), A2("cn", d, n))
       \/ Blank(sl, Kind, d, n) /\ s = 1 /\ H(Fill(sl, d, n, 77), A3("cnv", d, n, 77))
       \/ Blank(sl, Kind, d, n) /\ s = 2 /\ H(Fill(sl, d, n, 78), A3("ccvn", d, 78, n))
       \/ Full(sl, d, n) /\ s = 1 /\ H(Fill(sl, d, n, 79), A3("cavn", d, 79, n))
       \/ n > 0 /\ Any(sl, d, n) /\ s = 0 /\ H(Destroy(sl, Kind, d, n), A2("dn", d, n))
       \/ Blank(sl, Kind, d, n) /\ Full(sl, s, n) /\ Apart(d, n, s, n) /\ d # s /\ (H(Copy(sl, d, s, n), A3("ccn", d, s, n)) \/ H(Move(sl, Kind, d, s, n), A3("mcn", d, s, n)))
       \/ Any(sl, d, n) /\ Full(sl, s, n) /\ Apart(d, n, s, n) /\ d # s /\ (H(Copy(sl, d, s, n), A3("can", d, s, n)) \/ H(Move(sl, Kind, d, s, n), A3("man", d, s, n)))
       \/ MakeRoomOk(sl, Kind, d, n, s) /\ H(MakeRoom(sl, Kind, d, n, s), A3("mr", d, n, s))
       \/ DestroyRoomOk(sl, d, n, s) /\ H(DestroyRoom(sl, Kind, d, n, s), A3("dr", d, n, s))
       \/ \E room, pos \in R : \/ MakeRoomToOk(sl, Kind, d, s, n, room, pos) /\ H(MakeRoomTo(sl, d, s, n, room, pos), A5(IF room = 1 THEN "mrT" ELSE "mrt", d, s, n, room, pos))
                               \/ DestroyRoomToOk(sl, Kind, d, s, n, room, pos) /\ H(DestroyRoomTo(sl, d, s, n, room, pos), A5("drt", d, s, n, room, pos))
RECURSIVE Join(_)
Join(h) == IF h = <<>> THEN "" ELSE " " \o Head(h) \o Join(Tail(h))
Emit == (made = Depth \/ last = "end") => PrintT(<<"CASE", "obj " \o Type \o " " \o Itype \o " " \o T(N) \o Join(hist)>>)
=============================================================================
