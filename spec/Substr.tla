------------------------------ MODULE Substr ------------------------------
(* The string view, as a function of the text it looks at.
   Selections yield views <<offset,length>>; lookups yield positions or -1.
   Every operator is total on its documented domain, named Pre... *)
EXTENDS Bytes

\* ----- selection
N(s) == Len(s)
PreSub1(s, f) == f \in 0..N(s)
Sub1(s, f) == <<f, N(s) - f>>
PreSub2(s, f, n) == f \in 0..N(s) /\ (n = NPOS \/ n \in 0..(N(s) - f))
Sub2(s, f, n) == <<f, IF n = NPOS THEN N(s) - f ELSE n>>
PreRange(s, f, l) == f \in 0..N(s) /\ (l = NPOS \/ (l >= f /\ l <= N(s)))
Range(s, f, l) == <<f, (IF l = NPOS THEN N(s) ELSE l) - f>>
PreFirst(s, n) == n = NPOS \/ n \in 0..N(s)
First(s, n) == <<0, IF n = NPOS THEN N(s) ELSE n>>
LastN(s, n) == IF n = NPOS THEN <<0, N(s)>> ELSE <<N(s) - n, n>>
PreOffs(s, l, r) == l \in 0..N(s) /\ r \in 0..N(s) /\ l + r <= N(s)
Offs(s, l, r) == <<l, N(s) - l - r>>
PreLeftOf(s, p, inc) == p = NPOS \/ (p >= 0 /\ p + (IF inc THEN 1 ELSE 0) <= N(s))
LeftOf(s, p, inc) == IF p = NPOS THEN <<0, N(s)>> ELSE <<0, p + (IF inc THEN 1 ELSE 0)>>
PreRightOf(s, p, inc) == p = NPOS \/ (p >= 0 /\ p + (IF inc THEN 0 ELSE 1) <= N(s))
RightOf(s, p, inc) == IF p = NPOS THEN <<N(s), 0>>
                      ELSE LET b == p + (IF inc THEN 0 ELSE 1) IN <<b, N(s) - b>>
\* the parts left and right of a sub-view v of the same text
LeftOfSub(s, v) == <<0, v[1]>>
RightOfSub(s, v) == <<v[1] + v[2], N(s) - v[1] - v[2]>>

\* relations between two views x, y of the same text
IsSuper(x, y) == IF x[2] > 0 THEN y[1] >= x[1] /\ y[1] + y[2] <= x[1] + x[2]
                 ELSE y[2] = 0 /\ y[1] = x[1]
\* they share at least one character (an empty view shares none)
Overlap(x, y) == \E i \in x[1]..(x[1] + x[2] - 1) : i >= y[1] /\ i < y[1] + y[2]

\* ----- trim and strip
Keep(s, C) == {i \in Idx(s) : At(s, i) \notin C}
TrimL(s, C) == LET K == Keep(s, C) IN IF K = {} THEN <<0, 0>> ELSE <<MinOf(K), N(s) - MinOf(K)>>
TrimR(s, C) == LET K == Keep(s, C) IN IF K = {} THEN <<0, 0>> ELSE <<0, MaxOf(K) + 1>>
Trim(s, C) == LET K == Keep(s, C) IN IF K = {} THEN <<0, 0>> ELSE <<MinOf(K), MaxOf(K) + 1 - MinOf(K)>>
StripL(s, p) == IF Begins(s, p) THEN <<N(p), N(s) - N(p)>> ELSE <<0, N(s)>>
StripR(s, p) == IF Ends(s, p) THEN <<0, N(s) - N(p)>> ELSE <<0, N(s)>>
DQ == 34  SQ == 39  BSL == 92
Unquoted(s) == IF N(s) >= 2 /\ At(s, 0) \in {DQ, SQ} /\ At(s, N(s) - 1) = At(s, 0) /\ At(s, N(s) - 2) # BSL
               THEN <<1, N(s) - 2>> ELSE <<0, N(s)>>

\* ----- lookup
\* a forward start: -1 means "from beyond the end"
Fwd(s, st) == IF st = NPOS THEN N(s) ELSE st
\* a backward start is exclusive: -1 means "from the end"
Bwd(s, st) == IF st = NPOS THEN N(s) ELSE st
PreStart(s, st) == st = NPOS \/ st \in 0..N(s)
Find(s, p, st) == MinOrNpos({i \in Fwd(s, st)..(IF st = NPOS THEN -1 ELSE N(s)) : OccursAt(s, p, i)})
FirstIn(s, C, st) == MinOrNpos({i \in Idx(s) : i >= Fwd(s, st) /\ At(s, i) \in C})
LastIn(s, C, st) == MaxOrNpos({i \in Idx(s) : i < Bwd(s, st) /\ At(s, i) \in C})
FirstNotIn(s, C, st) == MinOrNpos({i \in Idx(s) : i >= Fwd(s, st) /\ At(s, i) \notin C})
LastNotIn(s, C, st) == MaxOrNpos({i \in Idx(s) : i < Bwd(s, st) /\ At(s, i) \notin C})
CountChar(s, c, st) == Cardinality({i \in Idx(s) : i >= st /\ At(s, i) = c})
\* non-overlapping occurrences, left to right; the empty text occurs everywhere, also at the end
RECURSIVE CountStr(_, _, _)
CountStr(s, p, st) == IF st > N(s) THEN 0 ELSE
    LET q == Find(s, p, st) IN IF q = NPOS THEN 0 ELSE 1 + CountStr(s, p, q + Max2(N(p), 1))
SelectV(q, n) == IF q = NPOS THEN <<-1, 0>> ELSE <<q, n>>
\* position of the first occurrence of any of the patterns ps, and which:
\* the leftmost position; ties go to the first pattern listed
FirstOfAny(s, ps) ==
    LET Hits == {i \in Idx(s) : \E k \in 1..Len(ps) : OccursAt(s, ps[k], i)}
    IN IF Hits = {} THEN <<NPOS, NPOS, FALSE>>
       ELSE LET i == MinOf(Hits) IN <<MinOf({k \in 1..Len(ps) : OccursAt(s, ps[k], i)}) - 1, i, TRUE>>

\* ranges delimited by characters
PairRange(s, o, c) ==
    LET b == FirstIn(s, {o}, 0) IN IF b = NPOS THEN <<-1, 0>> ELSE
    LET e == FirstIn(s, {c}, b + 1) IN IF e = NPOS THEN <<-1, 0>> ELSE <<b, e + 1 - b>>
\* documented precondition: no nested pairs in the result
PrePairRange(s, o, c) == LET r == PairRange(s, o, c) IN r[2] = 0 \/ \A i \in (r[1] + 1)..(r[1] + r[2] - 1) : At(s, i) # o
PairRangeEsc(s, q, esc) ==
    LET b == FirstIn(s, {q}, 0) IN IF b = NPOS THEN <<-1, 0>> ELSE
    LET E == {i \in Idx(s) : i > b /\ At(s, i) = q /\ At(s, i - 1) # esc}
    IN IF E = {} THEN <<-1, 0>> ELSE <<b, MinOf(E) + 1 - b>>
\* nesting depth after position i, counted from b
Depth(s, o, c, b, i) == Cardinality({k \in b..i : At(s, k) = o}) - Cardinality({k \in b..i : At(s, k) = c})
PairRangeNested(s, o, c) ==      \* for o # c
    LET b == FirstIn(s, {o}, 0) IN IF b = NPOS THEN <<-1, 0>> ELSE
    LET E == {i \in Idx(s) : i > b /\ At(s, i) = c /\ Depth(s, o, c, b, i) = 0}
    IN IF E = {} THEN <<-1, 0>> ELSE <<b, MinOf(E) + 1 - b>>

\* ----- comparison
\* -1, 0, 1: lexicographic by char value, shorter prefix first
Cmp(s, t) ==
    LET m == Min2(N(s), N(t))
        D == {i \in 0..(m - 1) : At(s, i) # At(t, i)}
    IN IF D # {} THEN LET i == MinOf(D) IN IF CharVal(At(s, i)) < CharVal(At(t, i)) THEN -1 ELSE 1
       ELSE IF N(s) < N(t) THEN -1 ELSE IF N(s) > N(t) THEN 1 ELSE 0
\* == != < > <= >=
Rel(c) == <<c = 0, c # 0, c < 0, c > 0, c <= 0, c >= 0>>

\* ----- splitting
\* the pieces of s between separators, from offset st (st < Len(s)):
\* as many pieces as separators plus one; the empty text has none
Pieces(s, sep, st) ==
    IF N(s) = 0 THEN <<>> ELSE
    LET seps == {i \in Idx(s) : i >= st /\ At(s, i) = sep}
        n == Cardinality(seps)
        \* k-th separator, 1-based
        kth[k \in 1..n] == CHOOSE i \in seps : Cardinality({j \in seps : j < i}) = k - 1
        lo(k) == IF k = 1 THEN st ELSE kth[k - 1] + 1
        hi(k) == IF k = n + 1 THEN N(s) ELSE kth[k]
    IN [k \in 1..(n + 1) |-> <<lo(k), hi(k) - lo(k)>>]
\* iterators i and j steps into the pieces: at the same one, or both at the end
SplitEq(s, sep, i, j) == LET n == Len(Pieces(s, sep, 0)) IN Min2(i, n) = Min2(j, n)

\* the piece after the last separator. With skip, separators at the end
\* stay attached to the last non-empty piece.
PopRight(s, sep, skip) ==
    LET core == IF skip THEN LastNotIn(s, {sep}, NPOS) + 1 ELSE N(s)  \* end of the part that is searched
        q == LastIn(s, {sep}, core)
    IN IF skip /\ core = 0 THEN <<0, 0>> ELSE <<q + 1, N(s) - q - 1>>
PopLeft(s, sep, skip) ==
    LET core == IF skip THEN FirstNotIn(s, {sep}, 0) ELSE 0
        q == IF core = NPOS THEN NPOS ELSE FirstIn(s, {sep}, core)
    IN IF core = NPOS THEN <<0, 0>> ELSE IF q = NPOS THEN <<0, N(s)>> ELSE <<0, q>>
\* everything but the last piece (and the separator(s) before it)
GPopLeft(s, sep, skip) ==
    LET q == PopRight(s, sep, skip)[1]          \* where the last piece starts
        l == Slice(s, 0, q)
    IN IF N(s) = 0 \/ q = 0 THEN <<0, 0>>
       ELSE IF skip THEN <<0, TrimR(l, {sep})[2]>>
       ELSE <<0, q - 1>>
GPopRight(s, sep, skip) ==
    LET q == PopLeft(s, sep, skip)[2]           \* where the first piece ends
        r == Slice(s, q, N(s) - q)
    IN IF Len(r) = 0 THEN <<q, 0>>
       ELSE IF skip THEN LET t == TrimL(r, {sep}) IN <<q + t[1], t[2]>>
       ELSE <<q + 1, Len(r) - 1>>
\* path-like names
Basename(s, sep) == LET r == PopRight(s, sep, TRUE) t == TrimR(View(s, r), {sep}) IN <<r[1], t[2]>>
Dirname(s, sep) == LET b == Basename(s, sep) IN IF b[2] = 0 THEN <<0, N(s)>> ELSE <<0, b[1]>>
DOT == 46
NameWoExtShort(s) == GPopLeft(s, DOT, FALSE)
NameWoExtLong(s) == PopLeft(s, DOT, FALSE)
ExtShort(s) == PopRight(s, DOT, FALSE)
ExtLong(s) == GPopRight(s, DOT, FALSE)

\* ----- in-place edits
\* each yields the whole new contents
Upper(s) == [i \in 1..N(s) |-> ToUpper(s[i])]
Lower(s) == [i \in 1..N(s) |-> ToLower(s[i])]
Filled(s, c) == [i \in 1..N(s) |-> c]
ReversedIn(s, f, n) == [i \in 1..N(s) |-> IF i - 1 >= f /\ i - 1 < f + n THEN s[f + f + n - (i - 1)] ELSE s[i]]
PreReversed(s, f, n) == f \in 0..N(s) /\ n >= 0 /\ f + n <= N(s)
CopyNum(s, t, f, n) == Min2(IF n = NPOS THEN N(s) - f ELSE n, N(t))
PreCopy(s, t, f, n) == f \in 0..N(s) /\ f + CopyNum(s, t, f, n) <= N(s)
Copied(s, t, f, n) == LET m == CopyNum(s, t, f, n) IN
    [i \in 1..N(s) |-> IF i - 1 >= f /\ i - 1 < f + m THEN t[i - f] ELSE s[i]]
PreErase(s, p, n) == p >= 0 /\ n >= 0 /\ p + n <= N(s)
\* the text that remains; the tail of the buffer keeps its old bytes
ErasedText(s, p, n) == Slice(s, 0, p) \o Slice(s, p + n, N(s) - p - n)
Erased(s, p, n) == ErasedText(s, p, n) \o Slice(s, N(s) - n, n)
ReplacedSet(s, C, r, st) == [i \in 1..N(s) |-> IF st # NPOS /\ i - 1 >= st /\ s[i] \in C THEN r ELSE s[i]]
NumReplaced(s, C, st) == IF st = NPOS THEN 0 ELSE Cardinality({i \in 1..N(s) : i - 1 >= st /\ s[i] \in C})
\* replace_all: every non-overlapping occurrence from pos on
RECURSIVE ReplFrom(_, _, _, _)
ReplFrom(s, p, r, b) ==
    LET q == Find(s, p, b) IN
    IF b >= N(s) \/ q = NPOS THEN Slice(s, b, N(s) - b)
    ELSE Slice(s, b, q - b) \o r \o ReplFrom(s, p, r, q + N(p))
PreReplaceAll(s, p, pos) == p # <<>> /\ PreStart(s, pos)
ReplaceAll(s, p, r, pos) == IF pos = NPOS THEN s ELSE Slice(s, 0, pos) \o ReplFrom(s, p, r, pos)
=============================================================================
