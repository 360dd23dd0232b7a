------------------------------ MODULE Function ------------------------------
(* Functions kept in place: a slot holds nothing, or one object of some type
   with a value. Slots of a class have the same room; a slot of the large
   class may be made from a slot of the small class, not the other way round.
   What a call gives depends on the object alone. *)
EXTENDS Integers, Sequences, FiniteSets
Nothing == <<>>
\* f: pointer to a function; t: object with its own life; b, d: large plain objects; c: counts its calls; e: no members; r: copying it may fail
TypeCode(t) == CASE t = "f" -> 1 [] t = "t" -> 2 [] t = "b" -> 3 [] t = "c" -> 4 [] t = "e" -> 5 [] t = "r" -> 6 [] OTHER -> 7
Tracked(t) == t \in {"t", "r"}
Gone == 999
\* what is left of an object that was moved
Leaves(s) == IF s # Nothing /\ Tracked(s[1]) THEN <<s[1], Gone>> ELSE s
Made(t, v) == <<t, IF t = "e" THEN 0 ELSE v>>
\* calling
Gives(s, x) == LET v == s[2] IN
  CASE s[1] = "f" -> x * (v + 1) [] s[1] = "t" -> x + v [] s[1] = "b" -> x - v [] s[1] = "c" -> x + v
    [] s[1] = "e" -> x [] s[1] = "r" -> x + 2 * v [] OTHER -> x + v + 1
Called(s) == IF s # Nothing /\ s[1] = "c" THEN <<"c", s[2] + 1>> ELSE s

\* slots: a sequence; i, j: positions. Each operator gives the slots afterwards.
Put(S, i, s) == [S EXCEPT ![i] = s]
Clear(S, i) == Put(S, i, Nothing)
CopyTo(S, i, j) == Put(S, i, S[j])
MoveTo(S, i, j) == IF i = j THEN S ELSE [S EXCEPT ![i] = S[j], ![j] = Leaves(S[j])]
Swapped(S, i, j) == [S EXCEPT ![i] = S[j], ![j] = S[i]]
AfterCall(S, i) == Put(S, i, Called(S[i]))
\* assigning a copy that fails: the slot keeps what it had or is empty
FailedCopy(S, i, j) == {S, Clear(S, i)}
Alive(S) == Cardinality({i \in 1..Len(S) : S[i] # Nothing /\ Tracked(S[i][1])})

\* a step <<name, ...>>: the set of <<slots, outcome>> that are allowed
Allowed(S, x) ==
  LET i == x[2] IN
  CASE x[1] \in {"n", "z", "Z"} -> {<<Clear(S, i), <<"-", 0>> >>}
    [] x[1] \in {"k", "K", "A"} -> {<<Put(S, i, Made(x[3], x[4])), <<"-", 0>> >>}
    [] x[1] \in {"c", "C"} -> {<<CopyTo(S, i, x[3]), <<"-", 0>> >>}
    [] x[1] \in {"m", "M"} -> {<<MoveTo(S, i, x[3]), <<"-", 0>> >>}
    [] x[1] = "s" -> {<<Swapped(S, i, x[3]), <<"-", 0>> >>}
    [] x[1] = "a" -> {IF S[i] = Nothing THEN <<S, <<"nothing", 0>> >> ELSE <<AfterCall(S, i), <<"gives", Gives(S[i], x[3])>> >>}
    \* the same with copies failing
    [] x[1] \in {"u", "U"} -> IF S[x[3]] = Nothing \/ S[x[3]][1] # "r" \/ i = x[3] THEN {<<CopyTo(S, i, x[3]), <<"-", 0>> >>}
                              ELSE IF x[1] = "u" THEN {<<Clear(S, i), <<"failed", 0>> >>} ELSE {<<T, <<"failed", 0>> >> : T \in FailedCopy(S, i, x[3])}
=============================================================================
