------------------------------ MODULE GenFunc ------------------------------
(* Every history of functions kept in place up to Depth steps. *)
EXTENDS Function, TLC
CONSTANTS Depth, Small, Large, Steps
VARIABLES S, hist
T(n) == ToString(n)
Use == Small \cup Large
Init == S = [i \in 1..6 |-> Nothing] /\ hist = <<>>
Do(x, t) == x[1] \in Steps /\ (\E p \in Allowed(S, x) : S' = p[1]) /\ hist' = Append(hist, t)
P2(o, i) == o \o "." \o T(i)
P3(o, i, j) == P2(o, i) \o "." \o T(j)
Next == /\ Len(hist) < Depth
        /\ \E i \in Use :
           \/ \E o \in {"n", "z", "Z"} : Do(<<o, i>>, P2(o, i))
           \/ \E o \in {"k", "K", "A"} : \E t \in {"t", "c", "r"} : Do(<<o, i, t, Len(hist) + 1>>, P2(o, i) \o "." \o t \o "." \o T(Len(hist) + 1))
           \/ Do(<<"a", i, 5>>, P3("a", i, 5))
           \/ \E j \in Use : /\ (i \in Small => j \in Small)
                             /\ \/ \E o \in {"C", "M", "U"} : Do(<<o, i, j>>, P3(o, i, j))
                                \/ i # j /\ \E o \in {"c", "m", "u"} : Do(<<o, i, j>>, P3(o, i, j))
                                \/ (i \in Small) = (j \in Small) /\ Do(<<"s", i, j>>, P3("s", i, j))
RECURSIVE Join(_)
Join(h) == IF Len(h) = 1 THEN h[1] ELSE h[1] \o "_" \o Join(Tail(h))
Emit == Len(hist) = Depth => PrintT(<<"CASE", "func " \o Join(hist)>>)
=============================================================================
