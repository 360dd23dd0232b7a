------------------------------ MODULE MCFunc ------------------------------
(* Functions kept in place as they are built: a table of operations, or the
   table of nothing, and memory that has a live object or not. Every operation
   is made of destroying, setting the table and building; building may fail.
   No history destroys what is dead, builds over what lives, or forgets a
   live object, and what is held is what Function says. *)
EXTENDS Function
CONSTANTS Depth, Slots, Types, Values
VARIABLES f, S, wrong, steps
vars == <<f, S, wrong, steps>>
None == "none"
Empty == [table |-> None, obj |-> Nothing]
Destroy(x) == IF x.table = None THEN <<x, FALSE>> ELSE <<[x EXCEPT !.obj = Nothing], x.obj = Nothing>>
\* building an object of the table's type in the memory of x
Build(x, t, o) == IF t = None THEN <<x, FALSE>> ELSE <<[x EXCEPT !.obj = o], x.obj # Nothing \/ o = Nothing>>
\* a new function in the place of x
Anew(x, t, o) == LET d == Destroy(x) b == Build([d[1] EXCEPT !.table = t], t, o) IN <<b[1], d[2] \/ b[2]>>
\* assignment: destroy, be nothing, build, take the table
Assign(x, t, o) == LET d == Destroy(x) e == [d[1] EXCEPT !.table = None] b == Build(e, t, o) IN <<[b[1] EXCEPT !.table = t], d[2] \/ b[2]>>
\* assignment whose building fails
AssignFails(x) == LET d == Destroy(x) IN <<[d[1] EXCEPT !.table = None], d[2]>>
Holds(x) == IF x.table = None THEN Nothing ELSE x.obj
Init == f = [i \in 1..Slots |-> Empty] /\ S = [i \in 1..Slots |-> Nothing] /\ wrong = FALSE /\ steps = 0
Set(i, r, T) == f' = [f EXCEPT ![i] = r[1]] /\ wrong' = (wrong \/ r[2]) /\ S' = T
Next == /\ steps < Depth /\ steps' = steps + 1
        /\ \E i \in 1..Slots :
           \/ Set(i, Anew(f[i], None, Nothing), Clear(S, i)) \/ Set(i, Assign(f[i], None, Nothing), Clear(S, i))
           \/ \E t \in Types, v \in Values : \/ Set(i, Anew(f[i], t, Made(t, v)), Put(S, i, Made(t, v))) \/ Set(i, Assign(f[i], t, Made(t, v)), Put(S, i, Made(t, v)))
           \/ f[i].table # None /\ Set(i, <<[f[i] EXCEPT !.obj = Called(@)], f[i].obj = Nothing>>, AfterCall(S, i))
           \/ \E j \in 1..Slots \ {i} :
              \/ Set(i, Anew(f[i], f[j].table, f[j].obj), CopyTo(S, i, j)) \/ Set(i, Assign(f[i], f[j].table, f[j].obj), CopyTo(S, i, j))
              \/ LET r == Assign(f[i], f[j].table, f[j].obj) IN
                 f' = [f EXCEPT ![i] = r[1], ![j].obj = Leaves(@)] /\ wrong' = (wrong \/ r[2]) /\ S' = MoveTo(S, i, j)
              \/ f[j].table = "r" /\ \E T \in FailedCopy(S, i, j) : T[i] = Nothing /\ Set(i, AssignFails(f[i]), T)
              \* exchange through a third memory: move, destroy, move, destroy, move, destroy; then the tables
              \/ LET t1 == Build([table |-> None, obj |-> Nothing], f[i].table, f[i].obj) d1 == Destroy(f[i])
                     m2 == Build(d1[1], f[j].table, f[j].obj) d2 == Destroy(f[j]) m3 == Build(d2[1], f[i].table, t1[1].obj) IN
                 /\ f' = [f EXCEPT ![i] = [table |-> f[j].table, obj |-> m2[1].obj], ![j] = [table |-> f[i].table, obj |-> m3[1].obj]]
                 /\ wrong' = (wrong \/ t1[2] \/ d1[2] \/ m2[2] \/ d2[2] \/ m3[2]) /\ S' = Swapped(S, i, j)
Spec == Init /\ [][Next]_vars
Right == ~wrong
Same == \A i \in 1..Slots : Holds(f[i]) = S[i]
\* an object lives exactly where the table says so
NothingForgotten == \A i \in 1..Slots : (f[i].obj # Nothing) <=> (f[i].table # None)
OneEach == Alive(S) = Cardinality({i \in 1..Slots : f[i].obj # Nothing /\ Tracked(f[i].table)})
\* laws
Laws == \A i, j \in 1..Slots : /\ Swapped(Swapped(S, i, j), i, j) = S /\ Swapped(S, i, i) = S /\ MoveTo(S, i, i) = S
                               /\ CopyTo(S, i, j)[j] = S[j] /\ MoveTo(S, i, j)[i] = S[j]
                               /\ (S[i] = Nothing) => (Allowed(S, <<"a", i, 1>>) = {<<S, <<"nothing", 0>> >>})
=============================================================================
