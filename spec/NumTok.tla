------------------------------ MODULE NumTok ------------------------------
(* Number tokens in text.  A token is the first whitespace-delimited word,
   cut at a closing delimiter, if it follows the number grammar:
     uint := [+] nat      int := [+-] nat
     nat  := dec+ | 0x hex+ | 0b bin+ | 0o oct+     (prefix in either case)
     real := [+-] ( inf | infinity | nan | decreal | hexreal | binreal | octreal )
     decreal := (d+ [. d*] | . d+) [(e|E) [+-] d+]
     hexreal := 0x (h+ [. h*] | . h+) [(p|P) (+|-) d+]     (likewise 0b, 0o)  *)
EXTENDS Bytes

WS == {32, 10, 13, 9}
Delims == {32, 10, 93, 41, 125, 44, 59, 13, 9, 0}     \* space \n ] ) } , ; \r \t NUL
BinDig(c) == c \in {48, 49}
OctDig(c) == c >= 48 /\ c <= 55

\* first word without whitespace, as a view of s
FirstWord(s) ==
    LET NW == {i \in Idx(s) : At(s, i) \notin WS} IN
    IF NW = {} THEN <<0, 0>> ELSE
    LET b == MinOf(NW)
        W == {i \in Idx(s) : i > b /\ At(s, i) \in WS}
    IN <<b, (IF W = {} THEN Len(s) ELSE MinOf(W)) - b>>

\* one past the end of the maximal run of characters of a class, from i
Run(t, i, Cls(_)) == LET X == {j \in i..(Len(t) - 1) : ~Cls(At(t, j))} IN IF X = {} THEN Len(t) ELSE MinOf(X)
SignLen(t, signs) == IF Len(t) > 0 /\ At(t, 0) \in signs THEN 1 ELSE 0
\* a token that ends at e is accepted if nothing, or a delimiter, follows
EndOk(t, e) == e = Len(t) \/ (e < Len(t) /\ At(t, e) \in Delims)

Prefix(t, i) == IF i + 1 < Len(t) /\ At(t, i) = 48 THEN
                   CASE At(t, i + 1) \in {120, 88} -> "x" [] At(t, i + 1) \in {98, 66} -> "b"
                     [] At(t, i + 1) \in {111, 79} -> "o" [] OTHER -> "d"
                ELSE "d"
RunOf(pre, t, i) == CASE pre = "x" -> Run(t, i, IsHexDigit) [] pre = "b" -> Run(t, i, BinDig)
                      [] pre = "o" -> Run(t, i, OctDig) [] OTHER -> Run(t, i, IsDigit)
\* length of the natural number token at i of word t, or 0
NatEnd(t, i) ==
    LET p == Prefix(t, i)
        d == IF p = "d" THEN i ELSE i + 2
        e == RunOf(p, t, d)
    IN IF e > d /\ EndOk(t, e) THEN e ELSE 0
\* the token of word t as a length
UIntLen(t) == IF Len(t) = 0 THEN 0 ELSE NatEnd(t, SignLen(t, {43}))
IntLen(t) == IF Len(t) = 0 THEN 0 ELSE NatEnd(t, SignLen(t, {43, 45}))

WordAt(t, i, w) == OccursAt(t, w, i)
InfW == <<105, 110, 102>>
InfinityW == <<105, 110, 102, 105, 110, 105, 116, 121>>
NanW == <<110, 97, 110>>
\* mantissa and exponent from d (after any prefix) with digits of pre;
\* exponent letters E; a sign is mandatory in the exponent iff signed
RealEnd(t, d, pre, E, signed) ==
    LET i1 == RunOf(pre, t, d)
        hasdot == i1 < Len(t) /\ At(t, i1) = 46
        i2 == IF hasdot THEN RunOf(pre, t, i1 + 1) ELSE i1
        digits == (i1 - d) + (IF hasdot THEN i2 - i1 - 1 ELSE 0)
        hasexp == i2 < Len(t) /\ At(t, i2) \in E
        sg == IF hasexp /\ i2 + 1 < Len(t) /\ At(t, i2 + 1) \in {43, 45} THEN 1 ELSE 0
        i3 == IF hasexp THEN Run(t, i2 + 1 + sg, IsDigit) ELSE i2
    IN IF digits = 0 THEN 0
       ELSE IF hasexp THEN IF i3 > i2 + 1 + sg /\ (signed => sg = 1) /\ EndOk(t, i3) THEN i3 ELSE 0
       ELSE IF EndOk(t, i2) THEN i2 ELSE 0
RealLen(t) ==
    IF Len(t) = 0 THEN 0 ELSE
    LET i == SignLen(t, {43, 45})
        p == Prefix(t, i)
    IN IF WordAt(t, i, InfinityW) /\ EndOk(t, i + 8) THEN i + 8
       ELSE IF WordAt(t, i, InfW) /\ EndOk(t, i + 3) THEN i + 3
       ELSE IF WordAt(t, i, NanW) /\ EndOk(t, i + 3) THEN i + 3
       ELSE IF p = "d" THEN RealEnd(t, i, "d", {101, 69}, FALSE)
       ELSE RealEnd(t, i + 2, p, {112, 80}, TRUE)

Tok(s, LenOf(_)) == LET w == FirstWord(s) t == View(s, w) IN <<w[1], LenOf(t)>>
UIntTok(s) == Tok(s, UIntLen)
IntTok(s) == Tok(s, IntLen)
RealTok(s) == Tok(s, RealLen)
Whole(s, tok) == Len(s) > 0 /\ tok[2] = Len(s)
IsUInt(s) == Whole(s, UIntTok(s))
IsInt(s) == IsUInt(s) \/ Whole(s, IntTok(s))
IsReal(s) == Whole(s, RealTok(s))
IsNumber(s) == IsInt(s) \/ IsReal(s)
=============================================================================
