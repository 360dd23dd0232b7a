------------------------------ MODULE TraceRng ------------------------------
(* Recorded histories of two generators agree with Rng, step by step. *)
EXTENDS Rng, TraceLib
VARIABLE i
Step(k, st, x) ==
  LET A == st[1] B == st[2] IN
  CASE x[1] = "n" -> <<<<Fresh(k), B>>, "-">>
    [] x[1] = "N" -> <<<<Seeded(k, x[2]), B>>, "-">>
    [] x[1] = "s" -> <<<<Reseed(A, x[2]), B>>, "-">>
    [] x[1] = "d" -> <<<<After(A), B>>, Draw(A)>>
    [] x[1] = "b" -> <<<<A, After(B)>>, Draw(B)>>
    [] x[1] = "k" -> <<<<Skip(A, x[2]), B>>, "-">>
    [] x[1] = "j" -> <<<<Jump(A, x[2]), B>>, "-">>
    [] x[1] = "c" -> <<<<A, A>>, "-">>
    [] x[1] = "e" -> <<st, <<A = B, A # B, A = B, A # B>>>>
    [] OTHER -> <<st, <<<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, 4>>>>
RECURSIVE History(_, _, _, _, _)
\* the first step not allowed, or 0
History(k, st, h, r, j) == IF j > Len(h) THEN 0 ELSE LET n == Step(k, st, h[j]) IN IF r[j] # n[2] THEN j ELSE History(k, n[1], h, r, j + 1)
Bad(e) == IF Len(e.r) # Len(e.a[2]) THEN 1 ELSE History(e.a[1], <<Fresh(e.a[1]), Fresh(e.a[1])>>, e.a[2], e.r, 1)
Init == i = 1 /\ TLCSet(1, 0)
Next == i <= Len(Trace) /\ LET b == Bad(Trace[i]) IN Judge(i, b = 0, <<"step", b>>) /\ TLCSet(1, i) /\ i' = i + 1
AllRead == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
