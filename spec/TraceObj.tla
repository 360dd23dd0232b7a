------------------------------ MODULE TraceObj ------------------------------
(* Recorded histories of objects in raw memory are behaviours of Objects. *)
EXTENDS Objects, TraceLib
VARIABLES i, j, st
None == <<>>
If(c, x) == IF c THEN <<"some", x>> ELSE None
KindOf(t) == CASE t \in {"u8", "u64", "pod", "asg", "ptr"} -> "triv" [] t \in {"trk", "vec"} -> "move" [] t = "cpy" -> "copy"
\* what the operation allows; <<>>: nothing
Allowed(sl, kind, op) ==
  LET o == op[1] IN
  CASE o = "c" -> Fill(sl, op[2], 1, 0)
    [] o = "cv" -> Fill(sl, op[2], 1, op[3])
    [] o = "cn" -> Fill(sl, op[2], op[3], 0)
    [] o = "cnv" -> Fill(sl, op[2], op[3], op[4])
    [] o \in {"cc", "ca"} -> Copy(sl, op[2], op[3], 1)
    [] o \in {"ccn", "can"} -> Copy(sl, op[2], op[3], op[4])
    [] o \in {"cca", "caa"} -> Copy(sl, op[2], op[3], 3)
    [] o \in {"ccv", "cav"} -> Fill(sl, op[2], 1, op[3])
    [] o \in {"ccvn", "cavn"} -> Fill(sl, op[2], op[4], op[3])
    [] o \in {"mc", "ma"} -> Move(sl, kind, op[2], op[3], 1)
    [] o \in {"mcn", "man"} -> Move(sl, kind, op[2], op[3], op[4])
    [] o = "d" -> Destroy(sl, kind, op[2], 1)
    [] o = "dn" -> Destroy(sl, kind, op[2], op[3])
    [] o = "mr" -> MakeRoom(sl, kind, op[2], op[3], op[4])
    \* buffer at op[2] of size op[3], op[4] of them used, room op[6] at op[5]
    [] o = "mrp" -> MakeRoom(sl, kind, op[2] + op[5], op[4] - op[5], op[6])
    [] o \in {"mrt", "mrT"} -> MakeRoomTo(sl, op[2], op[3], op[4], op[5], op[6])
    [] o = "dr" -> DestroyRoom(sl, kind, op[2], op[3], op[4])
    [] o = "drt" -> DestroyRoomTo(sl, op[2], op[3], op[4], op[5], op[6])
    [] OTHER -> <<>>
\* requests which must be refused (builds with assertions): last ones, marked by ! in the operation
Refused(op) == op[1] = "!"
ObStep(e, sl, op, r) ==
  LET kind == KindOf(e.a[1]) bad == Refused(op) al == IF bad THEN [k \in 1..Len(sl) |-> {sl[k]}] ELSE Allowed(sl, kind, op) IN
  If(/\ r[1] = (IF bad THEN "err" ELSE "ok")
     /\ Len(r[2]) = Len(sl) /\ Len(al) = Len(sl)
     /\ \A k \in 1..Len(sl) : r[2][k] \in al[k]
     /\ r[3] = <<>>, r[2])
Begin(e) == [k \in 1..e.a[3] |-> IF KindOf(e.a[1]) = "triv" THEN Live(e.a[4]) ELSE Raw]
Hist(e) == e.a[5]
Init == i = 1 /\ j = 1 /\ st = <<>> /\ TLCSet(1, 0)
Done == i' = i + 1 /\ j' = 1 /\ st' = <<>> /\ TLCSet(1, i)
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
     IF Len(e.r) # Len(Hist(e)) THEN Judge(i, FALSE, <<"outcomes", Len(e.r), Len(Hist(e))>>) /\ Done
     ELSE IF j > Len(e.r) THEN Done
     ELSE LET n == ObStep(e, IF j = 1 THEN Begin(e) ELSE st, Hist(e)[j], e.r[j]) IN
          IF n = None THEN Judge(i, FALSE, <<"step", j, "from", IF j = 1 THEN Begin(e) ELSE st, "allowed", Allowed(IF j = 1 THEN Begin(e) ELSE st, KindOf(e.a[1]), Hist(e)[j])>>) /\ Done
          ELSE i' = i /\ j' = j + 1 /\ st' = n[2]
AllRead == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
