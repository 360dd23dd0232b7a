------------------------------ MODULE MCSubstr ------------------------------
(* The string-view properties, checked on the specification for every text
   over a small alphabet.
   S01 is a session: any sequence of selections applied to one view. *)
EXTENDS Substr, NumTok
CONSTANTS Alpha, MaxLen, PatLen
VARIABLES s, t, u, v

A0 == CHOOSE a \in Alpha : TRUE
vars == <<s, t, u, v>>
Stay == FALSE /\ UNCHANGED vars

\* ---------------------------------------------------------------- S01
InitS01 == s \in StringsUpTo(Alpha, MaxLen) /\ t = <<>> /\ u = <<>> /\ v = <<0, Len(s)>>
Cur == View(s, v)
Go(w) == v' = <<v[1] + w[1], w[2]>> /\ UNCHANGED <<s, t, u>>
NextS01 ==
  LET x == Cur  R == 0..Len(x)  RN == R \cup {NPOS} IN
  \/ \E f \in R : Go(Sub1(x, f))
  \/ \E f \in R, n \in RN : PreSub2(x, f, n) /\ Go(Sub2(x, f, n))
  \/ \E f \in R, n \in RN : PreRange(x, f, n) /\ Go(Range(x, f, n))
  \/ \E n \in RN : PreFirst(x, n) /\ (Go(First(x, n)) \/ Go(LastN(x, n)))
  \/ \E l, r \in R : PreOffs(x, l, r) /\ Go(Offs(x, l, r))
  \/ \E p \in RN, b \in BOOLEAN : PreLeftOf(x, p, b) /\ Go(LeftOf(x, p, b))
  \/ \E p \in RN, b \in BOOLEAN : PreRightOf(x, p, b) /\ Go(RightOf(x, p, b))
  \/ \E C \in SUBSET Alpha : Go(TrimL(x, C)) \/ Go(TrimR(x, C)) \/ Go(Trim(x, C))
  \/ \E p \in StringsUpTo(Alpha, PatLen) : Go(StripL(x, p)) \/ Go(StripR(x, p))
  \/ Go(Unquoted(x))
  \/ \E c \in Alpha, b \in BOOLEAN : Go(PopLeft(x, c, b)) \/ Go(PopRight(x, c, b)) \/ Go(GPopLeft(x, c, b)) \/ Go(GPopRight(x, c, b))
  \/ \E c \in Alpha : Go(Basename(x, c)) \/ Go(Dirname(x, c))
\* a view obtained by any history of selections is inside the text
InBounds == v[1] >= 0 /\ v[2] >= 0 /\ v[1] + v[2] <= Len(s)
\* every single selection is nested in the view it was taken from
Nested == [][v'[2] = 0 \/ (v'[1] >= v[1] /\ v'[1] + v'[2] <= v[1] + v[2])]_v
SelLaws ==
  LET x == Cur n == Len(x) IN
  /\ \A f \in 0..n : /\ View(x, First(x, f)) \o View(x, Sub1(x, f)) = x
                     /\ View(x, LastN(x, n - f)) = View(x, Sub1(x, f))
                     /\ LeftOf(x, f, FALSE) = First(x, f)
                     /\ f < n => View(x, LeftOf(x, f, FALSE)) \o <<At(x, f)>> \o View(x, RightOf(x, f, FALSE)) = x
                     /\ f < n => View(x, LeftOf(x, f, TRUE)) \o View(x, RightOf(x, f, FALSE)) = x
                     /\ View(x, LeftOf(x, f, FALSE)) \o View(x, RightOf(x, f, TRUE)) = x
                     /\ \A g \in f..n : /\ Range(x, f, g) = Sub2(x, f, g - f)
                                        /\ Offs(x, f, n - g) = Range(x, f, g)
                                        /\ View(x, LeftOfSub(x, <<f, g - f>>)) \o View(x, Range(x, f, g)) \o View(x, RightOfSub(x, <<f, g - f>>)) = x
  /\ \A C \in SUBSET Alpha :
        LET tr == View(x, Trim(x, C)) IN
        /\ tr # <<>> => tr[1] \notin C /\ tr[Len(tr)] \notin C
        /\ Trim(tr, C)[2] = Len(tr)
        /\ \A k \in Idx(x) : At(x, k) \notin C => Trim(x, C)[1] <= k /\ k < Trim(x, C)[1] + Trim(x, C)[2]
        /\ View(x, TrimL(View(x, TrimR(x, C)), C)) = tr \/ tr = <<>>

\* ---------------------------------------------------------------- S02
InitS02 == s \in StringsUpTo(Alpha, MaxLen) /\ t \in StringsUpTo(Alpha, PatLen) /\ u = <<>> /\ v = <<0, 0>>
LookLaws ==
  LET n == Len(s) C == Elems(t) IN
  /\ \A st \in 0..n :
      /\ LET f == FirstIn(s, C, st) g == FirstNotIn(s, C, st) IN
         /\ f # NPOS => f >= st /\ At(s, f) \in C /\ \A k \in st..(f - 1) : At(s, k) \notin C
         /\ f = NPOS => \A k \in st..(n - 1) : At(s, k) \notin C
         /\ g # NPOS => At(s, g) \notin C
         \* one of the two finds the very first character
         /\ st < n => MinOrNpos({f, g} \ {NPOS}) = st
      \* forward and backward searches mirror each other
      /\ LET l == LastIn(s, C, st) f == FirstIn(RevSeq(s), C, n - st) IN IF l = NPOS THEN f = NPOS ELSE f = n - 1 - l
      /\ LET q == Find(s, t, st) IN q # NPOS => q >= st /\ Slice(s, q, Len(t)) = t /\ \A k \in st..(q - 1) : ~OccursAt(s, t, k)
      /\ t # <<>> => CountStr(s, t, st) * Len(t) <= n - st
      /\ t = <<>> => CountStr(s, t, st) = n - st + 1
      /\ \A c \in Alpha : CountStr(s, <<c>>, st) = CountChar(s, c, st)
  /\ Begins(s, t) <=> Find(s, t, 0) = 0
  /\ Ends(s, t) <=> Begins(RevSeq(s), RevSeq(t))
  /\ FirstOfAny(s, <<t, t>>)[1] # 1
  /\ FirstOfAny(s, <<t>>)[2] = IF s = <<>> \/ Find(s, t, 0) = n THEN NPOS ELSE Find(s, t, 0)

\* ---------------------------------------------------------------- S03
InitS03 == s \in StringsUpTo(Alpha, MaxLen) /\ t \in StringsUpTo(Alpha, MaxLen) /\ u \in StringsUpTo(Alpha, MaxLen) /\ v = <<0, 0>>
OrderLaws ==
  /\ Cmp(s, t) = 0 <=> s = t
  /\ Cmp(s, t) = -Cmp(t, s)
  /\ (Cmp(s, t) <= 0 /\ Cmp(t, u) <= 0) => Cmp(s, u) <= 0
  /\ Cmp(u \o s, u \o t) = Cmp(s, t)

\* ---------------------------------------------------------------- S04
InitS04 == s \in StringsUpTo(Alpha, MaxLen) /\ t \in [1..1 -> Alpha] /\ u = <<>> /\ v = <<0, 0>>
RECURSIVE Join(_, _)
Join(ps, c) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<c>> \o Join(Tail(ps), c)
SplitLaws ==
  LET c == t[1]  P == Pieces(s, c, 0)  txt == [k \in 1..Len(P) |-> View(s, P[k])]
      nsep == CountChar(s, c, 0) IN
  /\ Len(P) = IF s = <<>> THEN 0 ELSE nsep + 1
  /\ s # <<>> => Join(txt, c) = s
  /\ \A k \in 1..Len(P) : c \notin Elems(txt[k])
  \* the first and last pieces are what pop_left and pop_right give, and the
  \* greedy pops give the remaining pieces
  /\ s # <<>> => View(s, PopLeft(s, c, FALSE)) = txt[1] /\ View(s, PopRight(s, c, FALSE)) = txt[Len(P)]
  /\ Len(P) > 1 => /\ View(s, GPopRight(s, c, FALSE)) = Join(Tail(txt), c)
                   /\ View(s, GPopLeft(s, c, FALSE)) = Join(SubSeq(txt, 1, Len(P) - 1), c)
  /\ \A sk \in BOOLEAN : LET l == View(s, PopLeft(s, c, sk)) r == View(s, GPopRight(s, c, sk)) IN
        Len(l) + Len(r) <= Len(s)
  \* basename has no separator; dirname \o basename is a prefix of the path
  /\ LET b == View(s, Basename(s, c)) d == View(s, Dirname(s, c)) IN
        /\ c \notin Elems(b)
        /\ b # <<>> => Begins(s, d \o b) /\ (d = <<>> \/ d[Len(d)] = c)
        /\ b = <<>> => d = s

\* ---------------------------------------------------------------- S05
InitS05 == s \in StringsUpTo(Alpha, MaxLen) /\ t = <<>> /\ u = <<>> /\ v = <<0, 0>>
TokLaws ==
  /\ IsUInt(s) => IsInt(s)
  /\ IsInt(s) => IsNumber(s) /\ IsReal(s)
  /\ \A tok \in {UIntTok(s), IntTok(s), RealTok(s)} :
        LET x == View(s, tok) w == FirstWord(s) IN
        tok[2] > 0 => /\ tok[1] = w[1] /\ tok[2] <= w[2]
                      /\ \A d \in Delims : RealTok(x \o <<d>>) = <<0, Len(x)>>
                      /\ IsReal(x)
                      /\ EndOk(View(s, w), tok[2])
  /\ UIntTok(s)[2] > 0 => IntTok(s) = UIntTok(s)
  /\ IntTok(s)[2] > 0 => RealTok(s) = IntTok(s)

\* ---------------------------------------------------------------- S06
InitS06 == s \in StringsUpTo(Alpha, MaxLen) /\ t \in StringsUpTo(Alpha, PatLen) /\ u \in StringsUpTo(Alpha, PatLen) /\ v = <<0, 0>>
EditLaws ==
  LET n == Len(s) IN
  /\ RevSeq(RevSeq(s)) = s
  /\ ReversedIn(s, 0, n) = RevSeq(s)
  /\ \A f \in 0..n : \A m \in 0..(n - f) :
       /\ ReversedIn(ReversedIn(s, f, m), f, m) = s
       /\ Len(Erased(s, f, m)) = n /\ Len(ErasedText(s, f, m)) = n - m
       /\ Slice(Erased(s, f, m), 0, n - m) = ErasedText(s, f, m)
       /\ Slice(Erased(s, f, m), n - m, m) = Slice(s, n - m, m)
       /\ LET k == CopyNum(s, t, f, m) IN PreCopy(s, t, f, m) =>
             Copied(s, t, f, m) = Slice(s, 0, f) \o Slice(t, 0, k) \o Slice(s, f + k, n - f - k)
  /\ \A c \in Alpha : /\ CountChar(ReplacedSet(s, {c}, 255, 0), c, 0) = 0
                      /\ CountChar(ReplacedSet(s, {c}, 255, 0), 255, 0) = NumReplaced(s, {c}, 0)
  /\ t # <<>> => /\ Len(ReplaceAll(s, t, u, 0)) = n + CountStr(s, t, 0) * (Len(u) - Len(t))
                 /\ ReplaceAll(s, t, t, 0) = s
                 /\ (Elems(t) \cap Elems(u) = {} /\ Len(t) = 1) => CountStr(ReplaceAll(s, t, u, 0), t, 0) = 0
=============================================================================
