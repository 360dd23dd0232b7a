------------------------------ MODULE MCEnum ------------------------------
(* Laws of symbol tables, for all values of all tables. *)
EXTENDS Enum
CONSTANTS MaxBits
VARIABLES t, b
Universe(x) == UNION {SymAt(x, k).bits : k \in 1..Size(x)} \cup {5}
Init == t \in DOMAIN Tables /\ b \in SUBSET Universe(t)
Next == FALSE /\ UNCHANGED <<t, b>>
Ways == {"none", "cls", "pfx"}
\* what is written is read back, by both orders of the symbols
RoundTrip == \A w \in Ways : Covered(t, b) => MaskVal(t, MaskText(t, b, w)) = <<"ok", b>> /\ MaskVal(t, StreamText(t, b, w)) = <<"ok", b>>
\* where composites come after their parts, a value with a symbol has that symbol as its text
Ordered == \A i \in 1..Size(t) : \A k \in (i + 1)..Size(t) : SymAt(t, i).bits \cap SymAt(t, k).bits # {} => SymAt(t, i).bits \subseteq SymAt(t, k).bits
HasText == Ordered => LET k == ByValue(t, b) IN k > 0 => Covered(t, b) /\ MaskText(t, b, "none") = SymAt(t, k).name
\* chosen symbols do not overlap and together are the value
Exact == LET c == Chosen(t, b) IN Covered(t, b) => /\ UNION {SymAt(t, c[i]).bits : i \in 1..Len(c)} = b
            /\ \A i, k \in 1..Len(c) : i # k => SymAt(t, c[i]).bits \cap SymAt(t, c[k]).bits = {}
Names == \A k \in 1..Size(t) : \A w \in Ways : ByName(t, Short(t, k, w)) = k
Values == LET k == ByValue(t, b) IN k > 0 => SymAt(t, k).bits = b
=============================================================================
