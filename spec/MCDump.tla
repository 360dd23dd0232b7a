------------------------------ MODULE MCDump ------------------------------
(* Resumable dumping as a state machine: any history of buffer sizes dumps
   every piece exactly once and in order. *)
EXTENDS Format
CONSTANTS MaxPieces, MaxN
VARIABLES ps, st, out, last
vars == <<ps, st, out, last>>
Texts3 == {<<>>, <<1>>, <<2, 3>>, <<4, 5, 6>>}
Piece == {<<d, t>> : d \in BOOLEAN, t \in Texts3}
Init == /\ ps \in UNION {[1..k -> Piece] : k \in 0..MaxPieces}
        /\ st = ResumeInit /\ out = <<>> /\ last = 0
Step(n) == /\ st' \in ResumeNext(ps, st, n)
           /\ out' = out \o TextOf(ps, st.done, st'.done)
           /\ last' = n
           /\ UNCHANGED ps
Next == \E n \in 0..MaxN : Step(n)
Spec == Init /\ [][Next]_vars
WholeText == TextOf(ps, 0, Len(ps))
\* what was dumped so far is the text of the pieces that are done: nothing lost, repeated or reordered
ExactlyOnce == out = TextOf(ps, 0, st.done) /\ Begins(WholeText, out)
Complete == st.done = Len(ps) => out = WholeText
NeedSound == \A k \in 1..Len(ps) : (k <= st.done /\ ~ps[k][1]) => Len(ps[k][2]) <= st.need
\* never goes back; and a buffer as large as reported completes the dump
Forward == [][st'.done >= st.done /\ st'.need >= st.need]_vars
Progress == [][(last' >= st'.need /\ last' > 0) => st'.done = Len(ps)]_vars
NothingAfter == [][st.done = Len(ps) => out' = out]_vars
\* one-shot dumping is the first step of a resumed one
OneShot == \A n \in 0..MaxN : DumpOut(ps, n) = TextOf(ps, 0, ResumeStep(ps, ResumeInit, n).done)
=============================================================================
