------------------------------ MODULE Enum ------------------------------
(* Symbol tables of enumerations and bitmasks.  A table is a sequence of
   [bits, name]; the value of a symbol is the set of its bits.  cls and pfx
   are the lengths of the class qualifier and of the whole prefix in a name
   (0: none); numbers of more than width bits are not specified. *)
EXTENDS IntText, Ascii
Sym(bits, name) == [bits |-> bits, name |-> Str(name)]
Tables == [
  plain |-> [width |-> 31, cls |-> 0, pfx |-> 0, syms |-> <<Sym({}, "FOO"), Sym({0}, "BAR"), Sym({1}, "BAZ"), Sym({0, 2}, "BAZAAR")>>],
  cls   |-> [width |-> 31, cls |-> 5, pfx |-> 0, syms |-> <<Sym({}, "Cls::FOO"), Sym({0}, "Cls::BAR"), Sym({1}, "Cls::FOOT")>>],
  mask  |-> [width |-> 31, cls |-> 0, pfx |-> 3, syms |-> <<Sym({}, "BM_NONE"), Sym({0}, "BM_FOO"), Sym({1}, "BM_BAR"), Sym({2}, "BM_BAZ"), Sym({0, 1}, "BM_FOO_BAR"), Sym({0, 1, 2}, "BM_FOO_BAR_BAZ"), Sym({4}, "BM_D4")>>],
  mcls  |-> [width |-> 16, cls |-> 3, pfx |-> 6, syms |-> <<Sym({}, "K::BM_NONE"), Sym({0}, "K::BM_FOO"), Sym({1}, "K::BM_BAR"), Sym({3}, "K::BM_BAZ"), Sym({0, 1}, "K::BM_FOO_BAR")>>],
  nonull |-> [width |-> 8, cls |-> 0, pfx |-> 0, syms |-> <<Sym({0, 1}, "FOO_BAR"), Sym({0}, "FOO"), Sym({1}, "BAR"), Sym({2}, "FOO2"), Sym({3}, "F"), Sym({7}, "x80")>>],
  over  |-> [width |-> 32, cls |-> 0, pfx |-> 0, syms |-> <<Sym({0, 1}, "AB"), Sym({1, 2}, "BC"), Sym({2}, "C"), Sym({0}, "A")>>],
  wide  |-> [width |-> 64, cls |-> 0, pfx |-> 2, syms |-> <<Sym({}, "W_0"), Sym({0}, "W_b0"), Sym({31}, "W_b31"), Sym({32}, "W_b32"), Sym({63}, "W_b63"), Sym({31, 32}, "W_mid"), Sym({7, 15, 62}, "W_odd")>>],
  many  |-> [width |-> 8, cls |-> 0, pfx |-> 0, syms |-> <<
    Sym({}, "V00"), Sym({0}, "V01"), Sym({1}, "V02"), Sym({0, 1}, "V03"), Sym({2}, "V04"), Sym({0, 2}, "V05"), Sym({1, 2}, "V06"), Sym({0, 1, 2}, "V07"),
    Sym({3}, "V08"), Sym({0, 3}, "V09"), Sym({1, 3}, "V10"), Sym({0, 1, 3}, "V11"), Sym({2, 3}, "V12"), Sym({0, 2, 3}, "V13"), Sym({1, 2, 3}, "V14"), Sym({0, 1, 2, 3}, "V15"),
    Sym({4}, "V16"), Sym({0, 4}, "V17"), Sym({1, 4}, "V18"), Sym({0, 1, 4}, "V19"), Sym({2, 4}, "V20"), Sym({0, 2, 4}, "V21"), Sym({1, 2, 4}, "V22"), Sym({0, 1, 2, 4}, "V23"),
    Sym({3, 4}, "V24"), Sym({0, 3, 4}, "V25"), Sym({1, 3, 4}, "V26"), Sym({0, 1, 3, 4}, "V27"), Sym({2, 3, 4}, "V28"), Sym({0, 2, 3, 4}, "V29"), Sym({1, 2, 3, 4}, "V30"), Sym({0, 1, 2, 3, 4}, "V31"),
    Sym({5}, "V32"), Sym({0, 5}, "V33"), Sym({1, 5}, "V34"), Sym({0, 1, 5}, "V35"), Sym({2, 5}, "V36"), Sym({0, 2, 5}, "V37"), Sym({1, 2, 5}, "V38"), Sym({0, 1, 2, 5}, "V39"),
    Sym({3, 5}, "V40"), Sym({0, 3, 5}, "V41"), Sym({1, 3, 5}, "V42"), Sym({0, 1, 3, 5}, "V43"), Sym({2, 3, 5}, "V44"), Sym({0, 2, 3, 5}, "V45"), Sym({1, 2, 3, 5}, "V46"), Sym({0, 1, 2, 3, 5}, "V47"),
    Sym({4, 5}, "V48"), Sym({0, 4, 5}, "V49"), Sym({1, 4, 5}, "V50"), Sym({0, 1, 4, 5}, "V51"), Sym({2, 4, 5}, "V52"), Sym({0, 2, 4, 5}, "V53"), Sym({1, 2, 4, 5}, "V54"), Sym({0, 1, 2, 4, 5}, "V55"),
    Sym({3, 4, 5}, "V56"), Sym({0, 3, 4, 5}, "V57"), Sym({1, 3, 4, 5}, "V58"), Sym({0, 1, 3, 4, 5}, "V59"), Sym({2, 3, 4, 5}, "V60"), Sym({0, 2, 3, 4, 5}, "V61"), Sym({1, 2, 3, 4, 5}, "V62"), Sym({0, 1, 2, 3, 4, 5}, "V63"),
    Sym({6}, "V64"), Sym({0, 6}, "V65"), Sym({1, 6}, "V66"), Sym({0, 1, 6}, "V67"), Sym({2, 6}, "V68"), Sym({0, 2, 6}, "V69"), Sym({1, 2, 6}, "V70"), Sym({0, 1, 2, 6}, "V71"),
    Sym({3, 6}, "V72"), Sym({0, 3, 6}, "V73"), Sym({1, 3, 6}, "V74"), Sym({0, 1, 3, 6}, "V75"), Sym({2, 3, 6}, "V76"), Sym({0, 2, 3, 6}, "V77"), Sym({1, 2, 3, 6}, "V78"), Sym({0, 1, 2, 3, 6}, "V79")>>]
]
Size(t) == Len(Tables[t].syms)
SymAt(t, k) == Tables[t].syms[k]
\* how much of the name is left out: "none", "cls" or "pfx"
Cut(t, w) == CASE w = "none" -> 0 [] w = "cls" -> Tables[t].cls [] w = "pfx" -> IF Tables[t].pfx > 0 THEN Tables[t].pfx ELSE Tables[t].cls
Short(t, k, w) == LET n == SymAt(t, k).name IN SubSeq(n, Cut(t, w) + 1, Len(n))
Spellings(t, k) == {Short(t, k, w) : w \in {"none", "cls", "pfx"}}
\* the first symbol that can be spelled like this; 0: none
ByName(t, s) == LET S == {k \in 1..Size(t) : s \in Spellings(t, k)} IN IF S = {} THEN 0 ELSE MinOf(S)
ByValue(t, b) == LET S == {k \in 1..Size(t) : SymAt(t, k).bits = b} IN IF S = {} THEN 0 ELSE MinOf(S)

\* ----- bitmask to text: symbols from the last one (composites come last)
RECURSIVE Greedy(_, _, _)
Greedy(t, b, k) == IF k = 0 THEN <<b, <<>>>>
                   ELSE IF SymAt(t, k).bits # {} /\ SymAt(t, k).bits \subseteq b
                        THEN LET g == Greedy(t, b \ SymAt(t, k).bits, k - 1) IN <<g[1], Append(g[2], k)>>
                        ELSE Greedy(t, b, k - 1)
Covered(t, b) == Greedy(t, b, Size(t))[1] = {}
Chosen(t, b) == Greedy(t, b, Size(t))[2]
RECURSIVE JoinBar(_)
JoinBar(q) == IF Len(q) = 0 THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<124>> \o JoinBar(Tail(q))
ZeroText(t, w) == LET k == ByValue(t, {}) IN IF k = 0 THEN <<48>> ELSE Short(t, k, w)
MaskText(t, b, w) == IF b = {} THEN ZeroText(t, w) ELSE JoinBar([i \in 1..Len(Chosen(t, b)) |-> Short(t, Chosen(t, b)[i], w)])
\* on a stream the symbols come in the other order
StreamText(t, b, w) == IF b = {} THEN ZeroText(t, w) ELSE LET c == RevSeq(Chosen(t, b)) IN JoinBar([i \in 1..Len(c) |-> Short(t, c[i], w)])

\* ----- text to bitmask
BitsOf(mag) == LET D == ToDigits(mag, 2) IN {Len(D) - i : i \in {j \in 1..Len(D) : D[j] = 1}}
Skip(c) == c = 32 \/ c = 58
IsAlpha(c) == IsUpper(c) \/ IsLower(c) \/ c = 95
MaskChar(c) == IsAlpha(c) \/ IsDigit(c) \/ Skip(c) \/ c = 124
RECURSIVE StripL(_)
StripL(s) == IF s # <<>> /\ Skip(s[1]) THEN StripL(Tail(s)) ELSE s
RECURSIVE StripR(_)
StripR(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE BarPieces(_)
BarPieces(s) == LET P == {i \in 1..Len(s) : s[i] = 124} IN
  IF P = {} THEN <<s>> ELSE LET i == MinOf(P) IN <<SubSeq(s, 1, i - 1)>> \o BarPieces(SubSeq(s, i + 1, Len(s)))
UpToNul(s) == LET Z == {i \in 1..Len(s) : s[i] = 0} IN IF Z = {} THEN s ELSE SubSeq(s, 1, MinOf(Z) - 1)
Piece(s) == StripR(StripL(s))
\* what one piece stands for: <<"ok", bits>>, <<"err">>, or <<"any">> where it is not specified
PieceVal(t, s) == LET p == Piece(s) IN
  IF p = <<>> THEN <<"err">>
  ELSE IF IsDigit(p[1]) THEN IF NatOk(p) THEN LET v == BitsOf(NatVal(p)) IN IF v \subseteq 0..(Tables[t].width - 1) THEN <<"ok", v>> ELSE <<"any">> ELSE IF \E i \in 1..Len(p) : Skip(p[i]) THEN <<"any">> ELSE <<"err">>
  ELSE LET k == ByName(t, p) IN IF k = 0 THEN <<"err">> ELSE <<"ok", SymAt(t, k).bits>>
MaskVal(t, text) ==
  LET s == UpToNul(text) ps == BarPieces(s) vs == [i \in 1..Len(ps) |-> PieceVal(t, ps[i])] IN
  IF \E i \in 1..Len(s) : ~MaskChar(s[i]) THEN <<"err">>
  ELSE IF StripL(s) = <<>> THEN <<"ok", {}>>
  ELSE IF \E i \in 1..Len(vs) : vs[i] = <<"err">> THEN <<"err">>
  ELSE IF \E i \in 1..Len(vs) : vs[i] = <<"any">> THEN <<"any">>
  ELSE <<"ok", UNION {vs[i][2] : i \in 1..Len(vs)}>>
=============================================================================
