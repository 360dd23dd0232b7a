------------------------------ MODULE MCLayout ------------------------------
(* Every history of a pair: writing one part leaves the other alone, a copy
   has the same values; sizes are the least ones that do. *)
EXTENDS Layout
CONSTANTS Vals, MaxSize
VARIABLES fe, se, v, last, size, n, m
vars == <<fe, se, v, last, size, n, m>>
Init == fe \in BOOLEAN /\ se \in BOOLEAN /\ v = <<0, 0>> /\ last = <<"d">> /\ size \in 1..MaxSize /\ n \in 0..MaxSize /\ m \in 1..MaxSize
Steps == {<<"d">>, <<"k">>, <<"a">>} \cup {<<"c", x, y>> : x \in Vals, y \in Vals} \cup {<<w, x>> : w \in {"f", "s"}, x \in Vals}
Next == \E st \in Steps : v' = PairStep(fe, se, v, st) /\ last' = st /\ UNCHANGED <<fe, se, size, n, m>>
Kept == [][/\ (last'[1] = "f" => v'[2] = v[2] /\ (~fe => v'[1] = last'[2])) /\ (last'[1] = "s" => v'[1] = v[1] /\ (~se => v'[2] = last'[2]))
           /\ (last'[1] \in {"k", "a"} => v' = v)]_vars
Empty == (fe => v[1] = 0) /\ (se => v[2] = 0)
Sizes == /\ MinSized(size, n) = Max2(size, n) /\ MultSized(size, m) % m = 0 /\ MultSized(size, m) >= size /\ MultSized(size, m) < size + m
         /\ MinMultSized(size, n, m) = MinOf({k \in Max2(size, n)..(2 * MaxSize) : k % m = 0})
Names == \A i, k \in 0..12 : i # k => TypeName(i) # TypeName(k)
=============================================================================
