------------------------------ MODULE TraceInt ------------------------------
(* Judges recorded integer <-> text conversions. *)
EXTENDS IntText, TraceLib
VARIABLE i
Mag(b) == FromDigits(b, 256)
OK(x) == <<"ok">> \o x
\* big-endian bytes of a stored value
StoredBytes(b) == IF b = <<>> THEN <<>> ELSE ToDigits(b, 256)
ValOut(ok, t, T) == IF ok THEN <<TRUE, StoredBytes(IntStored(t, T))>> ELSE <<FALSE, <<>> >>
NDOf(n) == IF n < 0 THEN 0 ELSE n
RadOf(n) == IF n < 0 THEN 10 ELSE n

Expect(e) ==
  LET a == e.a o == e.o IN
  CASE o = "bare" -> \* T radix neg mag numdigits maxbuf
         OK(WriteAll(BareText(Mag(a[4]), a[2], NDOf(a[5])), a[6]))
    [] o = "full" -> \* function T radix neg mag numdigits maxbuf
         OK(WriteAll(FullText(a[4] = 1, Mag(a[5]), RadOf(a[3]), NDOf(a[6])), a[7]))
    [] o = "wide" -> \* function T radix neg mag numdigits buf: wider than the buffer
         LET full == a[1] # "bare" IN
         OK(<<ToDigits(BAdd(Mag(a[6]), BNat(IF full THEN Len(PrefixOf(a[3])) + (IF a[4] = 1 THEN 1 ELSE 0) ELSE 0)), 256),
              IF full \/ e.r[1] # "ok" THEN Rep(90, a[7]) ELSE e.r[3]>>)
    [] o = "one" -> \* like wide, with a buffer which may be large enough
         LET full == a[1] # "bare" nd == IF Len(a[6]) = 1 THEN a[6][1] ELSE 256 * a[6][1] + a[6][2]
             t == IF full THEN FullText(a[4] = 1, Mag(a[5]), a[3], nd) ELSE BareText(Mag(a[5]), a[3], nd) IN
         OK(<<ToDigits(BNat(Len(t)), 256), IF full \/ Len(t) <= a[7] \/ e.r[1] # "ok" THEN InBuf(t, a[7]) ELSE e.r[3]>>)
    [] o = "span" -> \* function T radix first count: consecutive small values
         OK(<<[k \in 1..a[5] |-> LET v == a[4] + k - 1 IN FullText(v < 0, BNat(IF v < 0 THEN -v ELSE v), a[3], 0)]>>)
    [] o = "spanbare" ->
         OK(<<[k \in 1..a[4] |-> BareText(BNat(a[3] + k - 1), a[2], 0)]>>)
    [] o = "digits" -> LET m == Mag(a[2]) IN OK(<<(<<Len(DigitsOf(m, 10)), Len(DigitsOf(m, 16)), Len(DigitsOf(m, 8)), Len(DigitsOf(m, 2))>>)>>)
    [] o = "tobool" -> OK(WriteAll(<<48 + a[1]>>, a[2]))
    [] o = "tochar" -> OK(<<Rep(1, a[2] + 1), [k \in 1..(a[2] + 1) |-> InBuf(<<a[1]>>, k - 1)]>>)
    [] o = "read" -> \* T radix text : digits only
         LET ok == BareOk(a[3], a[2]) IN
         IF a[3] = <<>> THEN <<"err">>
         ELSE OK(IF ok THEN <<TRUE, StoredBytes(Stored(FALSE, BareVal(a[3], a[2]), Bits(a[1])))>> ELSE <<FALSE, <<>> >>)
    [] o = "parse" -> \* function T text
         IF Signed(a[2]) /\ Len(Txt(a[3])) > 0 /\ Txt(a[3])[1] = 43 THEN <<"err">>
         ELSE OK(ValOut(IntOk(Txt(a[3]), a[2]), Txt(a[3]), a[2]))
    [] o = "first" -> \* function T text
         LET s == Txt(a[3]) T == a[2] IN
         IF FirstOk(s, T) THEN OK(<<FirstEnd(s, T), StoredBytes(IntStored(View(s, FirstTok(s, T)), T))>>)
         ELSE OK(<<-1, <<>> >>)
    [] o = "overflows" -> OK(<<Overflows(a[2], a[1])>>)
    [] o = "checked" -> LET ok == IntOk(a[2], a[1]) /\ ~Overflows(a[2], a[1]) IN
         OK(ValOut(ok, a[2], a[1]))
    [] o = "bool" -> LET t == Txt(a[1]) IN
         IF BoolOk(t) THEN OK(<<TRUE, BoolVal(t)>>) ELSE OK(<<FALSE, FALSE>>)
    [] o = "boolfirst" -> LET s == Txt(a[1]) w == FirstWord(s) IN
         IF w[2] > 0 /\ BoolOk(View(s, w)) THEN OK(<<w[1] + w[2], BoolVal(View(s, w))>>) ELSE OK(<<-1, FALSE>>)
    [] o = "char" -> LET t == Txt(a[1]) IN
         OK(IF Len(t) = 1 THEN <<TRUE, t[1]>> ELSE <<FALSE, 0>>)
    [] o = "charfirst" -> LET t == Txt(a[1]) IN OK(IF Len(t) >= 1 THEN <<1, t[1]>> ELSE <<-1, 0>>)
    [] o = "roundtrip" -> \* T radix neg mag : written by itoa/utoa, then read back
         OK(<<TRUE, StoredBytes(Stored(a[3] = 1, Mag(a[4]), Bits(a[1]))), FALSE>>)
    [] OTHER -> Assert(FALSE, <<"unknown op", o>>)
\* a padded bare write that does not fit may leave anything inside the buffer
Agrees(e, x) ==
  IF x = e.r THEN TRUE
  ELSE IF e.r[1] # "ok" \/ x[1] # "ok" THEN FALSE
  ELSE IF e.o = "bare" /\ e.a[5] >= 0 THEN
       x[2] = e.r[2] /\ \A k \in 1..Len(x[3]) : x[2][k] <= k - 1 => x[3][k] = e.r[3][k]
  ELSE FALSE

Init == i = 1
Next == /\ i <= Len(Trace)
        /\ LET x == Expect(Trace[i]) IN Judge(i, Agrees(Trace[i], x), x)
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
AllRead == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1>>)
=============================================================================
