------------------------------ MODULE TraceEnum ------------------------------
(* Recorded conversions of enumerations and bitmasks agree with Enum. *)
EXTENDS Enum, TraceLib
VARIABLE i
SetOf(q) == {q[k] : k \in 1..Len(q)}
\* the table as seen by iterating: values, names, and all its sizes agree
SymsOk(e) == LET t == e.a[1] IN
  /\ e.r[1] = Size(t) /\ e.r[2] = TRUE /\ Len(e.r[3]) = Size(t)
  /\ \A k \in 1..Size(t) : /\ SetOf(e.r[3][k][1]) = SymAt(t, k).bits /\ e.r[3][k][2] = SymAt(t, k).name
                           /\ e.r[3][k][3] = Short(t, k, "none") /\ e.r[3][k][4] = Short(t, k, "cls") /\ e.r[3][k][5] = Short(t, k, "pfx")
                           /\ e.r[3][k][6] = "ok"
  /\ e.r[4] = "err"
Get(k) == IF k = 0 THEN <<"err", 0>> ELSE <<"ok", k>>
NameOk(e) == LET t == e.a[1] s == e.a[2] k == ByName(t, s) IN
  /\ e.r[1] = k /\ e.r[2] = Get(k)                      \* by pointer and length
  \* as a zero-terminated string
  /\ IF \E q \in 1..Len(s) : s[q] = 0 THEN e.r[3] = "no" ELSE e.r[3] = "c" /\ e.r[4] = k /\ e.r[5] = Get(k)
                                                               /\ e.r[6][1] = (IF k = 0 THEN "err" ELSE "ok") /\ (k > 0 => SetOf(e.r[6][2]) = SymAt(t, k).bits)
ValueOk(e) == LET t == e.a[1] k == ByValue(t, SetOf(e.a[2])) IN
  /\ e.r[1] = k /\ e.r[2] = Get(k)
  /\ IF k = 0 THEN e.r[3] = <<"err", <<>>>> ELSE
       /\ e.r[3] = <<"ok", SymAt(t, k).name>>
       /\ e.r[4] = Short(t, k, "none") /\ e.r[5] = Short(t, k, "cls") /\ e.r[6] = Short(t, k, "pfx") /\ e.r[7] = Short(t, k, "pfx")
\* a buffer of n bytes, filled with 90
ToText(e) == LET t == e.a[1] b == SetOf(e.a[2]) w == e.a[3] n == e.a[4] x == MaskText(t, b, w) \o <<0>> IN
  IF ~Covered(t, b) THEN e.r[1] = "err"
  ELSE IF n = 0 \/ Len(x) <= n THEN e.r = <<"ok", Len(x), (IF n = 0 THEN <<>> ELSE x \o Rep(90, n - Len(x)))>>
  ELSE e.r[1] = "err"
ToStream(e) == LET t == e.a[1] b == SetOf(e.a[2]) w == e.a[3] IN
  IF ~Covered(t, b) THEN e.r[1] = "err" ELSE e.r = <<"ok", StreamText(t, b, w)>>
FromText(e) == LET v == MaskVal(e.a[1], e.a[2]) IN
  CASE v[1] = "any" -> e.r[1] \in {"ok", "err"} [] v[1] = "err" -> e.r[1] = "err" [] OTHER -> e.r[1] = "ok" /\ SetOf(e.r[2]) = v[2]
OffsOk(e) == LET t == e.a[1] IN e.r = <<Cut(t, "none"), Cut(t, "cls"), Cut(t, "pfx"), "err">>
Ok(e) == CASE e.o = "syms" -> SymsOk(e) [] e.o = "name" -> NameOk(e) [] e.o = "value" -> ValueOk(e) [] e.o = "offs" -> OffsOk(e)
           [] e.o = "b2s" -> ToText(e) [] e.o = "bst" -> ToStream(e) [] e.o \in {"s2b", "s2bc"} -> FromText(e) [] OTHER -> FALSE
Init == i = 1 /\ TLCSet(1, 0)
Next == i <= Len(Trace) /\ Judge(i, Ok(Trace[i]), <<"not allowed">>) /\ TLCSet(1, i) /\ i' = i + 1
AllRead == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
