------------------------------ MODULE TraceReal ------------------------------
(* Judges recorded real <-> text conversions. *)
EXTENDS RealText, TraceLib
VARIABLE i
FmtDefault(f, x) == IF f = "to_chars" \/ f = "xtoa" \/ f = "toa" THEN "flx" ELSE x
Right(e) ==
  LET a == e.a o == e.o r == e.r IN
  CASE o = "rwrite" -> \* function T bits format precision ; observed: std attempts
         /\ r[1] = "ok"
         /\ AttemptsRight(r[3], r[2])
         /\ LET t == r[3][Len(r[3])][3]
                F == FmtOf(a[2])
                \* without std::to_chars, an unspecified precision means six (exact for hexadecimal)
                prec == IF a[5] < 0 /\ ~r[2] /\ a[4] # "hex" THEN 6 ELSE a[5]
            IN WrittenRight(t, Decode(a[3], a[2]), a[4], prec, r[2], F)
    [] o = "rread" -> \* function T text
         LET t == Txt(a[3]) IN
         IF Len(t) = 0 \/ t[1] \in WS THEN r[1] = "err"
         ELSE r[1] = "ok" /\ ReadRight(t, r[2], IF r[2] THEN Decode(r[3], a[2]) ELSE <<FALSE, 0, <<>> >>, FmtOf(a[2]))
    [] o = "rfirst" ->
         r[1] = "ok" /\ FirstRight(Txt(a[3]), r[2], IF r[2] # NPOS THEN Decode(r[3], a[2]) ELSE <<FALSE, 0, <<>> >>, FmtOf(a[2]))
    [] o = "rtrip" -> \* function T bits: written in full precision, read back
         r[1] = "ok" /\ r[2] /\ (IF IsNan(Decode(a[3], a[2]), FmtOf(a[2])) THEN IsNan(Decode(r[3], a[2]), FmtOf(a[2])) ELSE r[3] = a[3])
    [] OTHER -> Assert(FALSE, <<"unknown op", o>>)

Init == i = 1
Next == /\ i <= Len(Trace)
        /\ Judge(i, Right(Trace[i]), <<"rejected">>)
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
AllRead == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1>>)
=============================================================================
