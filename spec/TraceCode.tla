------------------------------ MODULE TraceCode ------------------------------
(* Judges recorded base64 and UTF-8 conversions. *)
EXTENDS Base64, TraceLib
VARIABLE i
OK(x) == <<"ok">> \o x
Fill == 90
\* the results and buffers of one call per buffer size 0..n; a buffer which is
\* too small may hold anything
AllSizes(r, t, n) ==
  /\ r[1] = "ok" /\ Len(r) = 3 /\ Len(r[2]) = n + 1 /\ Len(r[3]) = n + 1
  /\ \A k \in 0..n :
       /\ r[2][k + 1] = Len(t)
       /\ Len(r[3][k + 1]) = k
       /\ k >= Len(t) => r[3][k + 1] = t \o Rep(Fill, k - Len(t))
Code4(b) == IF Len(b) = 4 /\ b[1] > 0 THEN MaxCode + 1 ELSE LET v(k) == IF k > Len(b) THEN 0 ELSE b[Len(b) + 1 - k] IN v(1) + 256 * v(2) + 65536 * v(3)
HexOk(t) == Len(t) > 0 /\ \A k \in 1..Len(t) : IsHexDigit(t[k])
HexPre(t) == Len(t) \in 1..8 /\ t[1] # 48
Expect(e) ==
  LET a == e.a o == e.o IN
  CASE o \in {"enc", "encf"} -> OK(<<Encode(Txt(a[1]))>>)
    \* large data, in one buffer
    [] o = "encbig" -> LET t == Encode(a[1]) IN OK(<<Len(t), Len(t), t \o <<Fill>> >>)
    [] o = "decbig" -> LET d == Decode(a[1]) IN OK(<<TRUE, Len(d), Len(d), d \o <<Fill>> >>)
    [] o = "valid" -> OK(<<Valid64(Txt(a[1]))>>)
    [] o \in {"dec", "decf"} -> IF Valid64(Txt(a[1])) THEN OK(<<Decode(Txt(a[1]))>>) ELSE <<"err">>
    [] o = "typed" -> LET t == Encode(a[2]) IN OK(<<t, t, <<60>> \o t \o <<62>>, t \o <<59>>, Len(a[2]), a[2]>>)
    [] o = "typedarr" -> LET d == SubSeq(a[1], 1, 2 * a[2]) IN OK(<<Encode(a[1]), Encode(d), Len(d), d \o Rep(Fill, 10 - Len(d))>>)
    [] o = "codes" -> OK(<<[k \in 1..a[2] |-> Utf8(a[1] + k - 1)]>>)
    [] o = "code" -> IF a[2] < 4 THEN <<"err">> ELSE LET u == Utf8(Code4(a[1])) IN OK(<<Len(u), u>>)
    [] o = "hex" -> IF a[2] < 4 \/ ~HexPre(a[1]) \/ ~HexOk(a[1]) THEN <<"err">>
                    ELSE LET u == Utf8(HexCode(a[1], 0)) IN OK(<<(<<0, Len(u)>>), u>>)
    [] OTHER -> Assert(FALSE, <<"unknown op", o>>)
Agrees(e, x) ==
  IF x = <<"err">> \/ e.r[1] # "ok" THEN e.r = x
  ELSE IF e.o \in {"enc", "encf", "dec", "decf"} THEN AllSizes(e.r, x[2], e.a[2])
  ELSE IF e.o = "hex" THEN e.r[3] = x[3] /\ SameView(e.r[2], x[2])
  ELSE e.r = x

Init == i = 1
Next == /\ i <= Len(Trace)
        /\ LET x == Expect(Trace[i]) IN Judge(i, Agrees(Trace[i], x), x)
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
AllRead == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1>>)
=============================================================================
