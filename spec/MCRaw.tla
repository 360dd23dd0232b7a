------------------------------ MODULE MCRaw ------------------------------
(* A hash fed piece by piece, in any partition, is the hash of the whole;
   repetition and overlap. *)
EXTENDS Raw
CONSTANTS MaxLen, Alphabet
VARIABLES w, h, fed
vars == <<w, h, fed>>
Init == w \in {32, 64} /\ h = Basis(w) /\ fed = <<>>
Piece == UNION {[1..k -> Alphabet] : k \in 0..2}
Next == \E d \in Piece : Len(fed) + Len(d) <= MaxLen /\ h' = Update(w, h, d) /\ fed' = fed \o d /\ UNCHANGED w
Incremental == h = Hash(w, fed)
\* known values of the published function
Known == Hash(32, <<97>>) = <<44, 41, 12, 228>> /\ Hash(64, <<97>>) = <<140, 236, 1, 134, 76, 220, 99, 175>>
Repeats == \A n \in 0..3 : LET r == Times(fed, n) IN Len(r) = n * Len(fed) /\ \A k \in 1..Len(r) : r[k] = fed[((k - 1) % Len(fed)) + 1]
Symmetric == \A a, b \in 0..4 : \A na, nb \in 0..3 : Overlap(a, na, b, nb) = Overlap(b, nb, a, na) /\ (Overlap(a, na, b, nb) = (na > 0 /\ nb > 0 /\ a < b + nb /\ b < a + na))
=============================================================================
