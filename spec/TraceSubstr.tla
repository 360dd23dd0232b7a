----------------------------- MODULE TraceSubstr -----------------------------
(* Conformance of recorded string-view calls with Substr and NumTok. *)
EXTENDS Substr, NumTok, TraceLib
VARIABLE i

OK(x) == <<"ok">> \o x
Pre(p, x) == IF p THEN OK(x) ELSE <<"err">>

\* the position of the first zero, or the length
ZeroAt(s) == LET p == FirstIn(s, {0}, 0) IN IF p = NPOS THEN Len(s) ELSE p
RECURSIVE Rep2(_, _)
Rep2(x, n) == IF n = 0 THEN <<>> ELSE x \o Rep2(x, n - 1)

\* operations whose (view) results may sit anywhere when empty
Expect(e) ==
  LET a == e.a  s == Txt(a[1])  o == e.o IN
  CASE o = "sub1" -> Pre(PreSub1(s, a[2]), <<Sub1(s, a[2])>>)
    [] o = "sub2" -> Pre(PreSub2(s, a[2], a[3]), <<Sub2(s, a[2], a[3])>>)
    [] o = "range1" -> Pre(PreSub1(s, a[2]), <<Sub1(s, a[2])>>)
    [] o = "range" -> Pre(PreRange(s, a[2], a[3]), <<Range(s, a[2], a[3])>>)
    [] o = "first" -> Pre(PreFirst(s, a[2]), <<First(s, a[2])>>)
    [] o = "last" -> Pre(PreFirst(s, a[2]), <<LastN(s, a[2])>>)
    [] o = "offs" -> Pre(PreOffs(s, a[2], a[3]), <<Offs(s, a[2], a[3])>>)
    [] o = "left_of" -> Pre(PreLeftOf(s, a[2], FALSE), <<LeftOf(s, a[2], FALSE)>>)
    [] o = "left_of_i" -> Pre(PreLeftOf(s, a[2], a[3] = 1), <<LeftOf(s, a[2], a[3] = 1)>>)
    [] o = "right_of" -> Pre(PreRightOf(s, a[2], FALSE), <<RightOf(s, a[2], FALSE)>>)
    [] o = "right_of_i" -> Pre(PreRightOf(s, a[2], a[3] = 1), <<RightOf(s, a[2], a[3] = 1)>>)
    [] o = "left_of_sub" -> OK(<<LeftOfSub(s, <<a[2], a[3]>>)>>)
    [] o = "right_of_sub" -> OK(<<RightOfSub(s, <<a[2], a[3]>>)>>)
    [] o = "index" -> Pre(a[2] \in Idx(s), <<At(s, a[2])>>)
    [] o = "make" -> \* from an array: all its characters; from a pointer: up to the terminator
           LET z == Slice(s, 0, ZeroAt(s))  two(x) == <<x, TRUE>> IN
           OK(Rep2(two(s), 17) \o Rep2(two(z), 12) \o Rep2(<<TRUE>>, 8))
    [] o = "cindex" -> Pre(a[2] \in Idx(s), <<At(s, a[2]), At(s, a[2]), At(s, a[2]), Len(s)>>)
    [] o = "cends" -> Pre(Len(s) > 0, <<At(s, 0), At(s, Len(s) - 1)>>)
    [] o = "front" -> Pre(Len(s) > 0, <<At(s, 0)>>)
    [] o = "back" -> Pre(Len(s) > 0, <<At(s, Len(s) - 1)>>)
    [] o = "info" -> OK(<<Len(s) = 0, Len(s) > 0, Len(s), Len(s) > 0 /\ At(s, 0) # 0, TRUE, TRUE, TRUE,
                          IsNull(a[1]), ~IsNull(a[1]), s>>)
    [] o = "rel" -> LET x == <<a[2], a[3]>> y == <<a[4], a[5]>> IN OK(<<IsSuper(y, x), IsSuper(x, y), Overlap(x, y)>>)
    [] o = "triml_c" -> OK(<<TrimL(s, {a[2]})>>)
    [] o = "trimr_c" -> OK(<<TrimR(s, {a[2]})>>)
    [] o = "trim_c" -> OK(<<Trim(s, {a[2]})>>)
    [] o = "triml_s" -> OK(<<TrimL(s, Elems(Txt(a[2])))>>)
    [] o = "trimr_s" -> OK(<<TrimR(s, Elems(Txt(a[2])))>>)
    [] o = "trim_s" -> OK(<<Trim(s, Elems(Txt(a[2])))>>)
    [] o = "stripl" -> OK(<<StripL(s, Txt(a[2]))>>)
    [] o = "stripr" -> OK(<<StripR(s, Txt(a[2]))>>)
    [] o = "unquoted" -> OK(<<Unquoted(s)>>)
    [] o = "find_c" -> Pre(PreStart(s, a[3]), <<FirstIn(s, {a[2]}, a[3])>>)
    [] o = "find_c0" -> OK(<<FirstIn(s, {a[2]}, 0)>>)
    [] o = "find_s" -> Pre(PreStart(s, a[3]), <<Find(s, Txt(a[2]), a[3])>>)
    [] o = "find_s0" -> OK(<<Find(s, Txt(a[2]), 0)>>)
    [] o = "count_c" -> Pre(a[3] \in 0..Len(s), <<CountChar(s, a[2], a[3])>>)
    [] o = "count_s" -> Pre(a[3] \in 0..Len(s), <<CountStr(s, Txt(a[2]), a[3])>>)
    [] o = "select_c" -> Pre(PreStart(s, a[3]), <<SelectV(FirstIn(s, {a[2]}, a[3]), 1)>>)
    [] o = "select_s" -> Pre(PreStart(s, a[3]), <<SelectV(Find(s, Txt(a[2]), a[3]), Len(Txt(a[2])))>>)
    [] o \in {"first_of_any2", "first_of_any3", "first_of_any4", "first_of_any5"} ->
           OK(FirstOfAny(s, [k \in 1..(Len(a) - 1) |-> Txt(a[k + 1])]))
    [] o = "begins_with_c" -> OK(<<Begins(s, <<a[2]>>)>>)
    [] o = "begins_with_cn" -> OK(<<Begins(s, Rep(a[2], a[3]))>>)
    [] o = "begins_with_s" -> OK(<<Begins(s, Txt(a[2]))>>)
    [] o = "begins_with_any" -> OK(<<Len(s) > 0 /\ At(s, 0) \in Elems(Txt(a[2]))>>)
    [] o = "ends_with_c" -> OK(<<Ends(s, <<a[2]>>)>>)
    [] o = "ends_with_cn" -> OK(<<Ends(s, Rep(a[2], a[3]))>>)
    [] o = "ends_with_s" -> OK(<<Ends(s, Txt(a[2]))>>)
    [] o = "ends_with_any" -> OK(<<Len(s) > 0 /\ At(s, Len(s) - 1) \in Elems(Txt(a[2]))>>)
    [] o = "first_of_c" -> Pre(PreStart(s, a[3]), <<FirstIn(s, {a[2]}, a[3])>>)
    [] o = "last_of_c" -> Pre(PreStart(s, a[3]), <<LastIn(s, {a[2]}, a[3])>>)
    [] o = "first_of_s" -> Pre(PreStart(s, a[3]), <<FirstIn(s, Elems(Txt(a[2])), a[3])>>)
    [] o = "last_of_s" -> Pre(PreStart(s, a[3]), <<LastIn(s, Elems(Txt(a[2])), a[3])>>)
    [] o = "first_not_of_c" -> Pre(a[3] \in 0..Len(s), <<FirstNotIn(s, {a[2]}, a[3])>>)
    [] o = "last_not_of_c" -> Pre(PreStart(s, a[3]), <<LastNotIn(s, {a[2]}, a[3])>>)
    [] o = "first_not_of_s" -> Pre(a[3] \in 0..Len(s), <<FirstNotIn(s, Elems(Txt(a[2])), a[3])>>)
    [] o = "last_not_of_s" -> Pre(PreStart(s, a[3]), <<LastNotIn(s, Elems(Txt(a[2])), a[3])>>)
    [] o = "nostart_c" -> LET C == {a[2]} IN
           OK(<<FirstIn(s, C, 0), LastIn(s, C, NPOS), FirstNotIn(s, C, 0), LastNotIn(s, C, NPOS),
                CountChar(s, a[2], 0), SelectV(FirstIn(s, C, 0), 1)>>)
    [] o = "nostart_s" -> LET p == Txt(a[2]) C == Elems(p) IN
           OK(<<FirstIn(s, C, 0), LastIn(s, C, NPOS), FirstNotIn(s, C, 0), LastNotIn(s, C, NPOS),
                SelectV(Find(s, p, 0), Len(p))>>)
    [] o = "pair_range" -> Pre(PrePairRange(s, a[2], a[3]), <<PairRange(s, a[2], a[3])>>)
    [] o = "pair_range_esc" -> OK(<<PairRangeEsc(s, a[2], a[3])>>)
    [] o = "pair_range_nested" -> OK(<<PairRangeNested(s, a[2], a[3])>>)
    [] o = "spans" -> OK(<<FirstWord(s), UIntTok(s), IntTok(s), RealTok(s), IsNumber(s), IsReal(s), IsInt(s), IsUInt(s)>>)
    [] o = "split" -> OK(<<Pieces(s, a[2], 0)>>)
    [] o = "split_at" -> Pre(a[3] < Len(s) \/ Len(s) = 0, <<Pieces(s, a[2], a[3])>>)
    [] o = "next_split" -> OK(<<Pieces(s, a[2], a[3])>>)
    \* iterators are equal exactly when they are at the same piece of the same text; of different separators they are refused
    [] o = "split_eq" -> Pre(a[2] = a[3], <<SplitEq(s, a[2], a[4], a[5]), ~SplitEq(s, a[2], a[4], a[5])>>)
    [] o = "pop_left" -> OK(<<PopLeft(s, a[2], a[3] = 1)>>)
    [] o = "pop_right" -> OK(<<PopRight(s, a[2], a[3] = 1)>>)
    [] o = "gpop_left" -> OK(<<GPopLeft(s, a[2], a[3] = 1)>>)
    [] o = "gpop_right" -> OK(<<GPopRight(s, a[2], a[3] = 1)>>)
    [] o = "basename" -> OK(<<Basename(s, a[2])>>)
    [] o = "dirname" -> OK(<<Dirname(s, a[2])>>)
    [] o = "exts" -> OK(<<NameWoExtShort(s), NameWoExtLong(s), ExtShort(s), ExtLong(s)>>)
    [] o = "cmp" -> LET c == Cmp(s, Txt(a[2])) IN OK(<<c, c, Rel(c), Rel(c)>>)
    [] o = "cmp_c" -> LET c == Cmp(s, <<a[2]>>) IN OK(<<c, Rel(c), Rel(-c)>>)
    [] o = "cmp_long" -> LET c == Cmp(<<At(s, 0), 0>>, <<a[2]>>) IN OK(<<c, Rel(c), Rel(-c)>>)
    [] o = "cmp_std" -> LET c == Cmp(s, a[2]) IN OK(<<Rel(c), Rel(-c), Rel(c), Rel(-c), Rel(c), Rel(-c)>>)
    [] o = "cmp_arr" -> LET c == Cmp(s, a[2]) IN OK(<<Rel(c), Rel(-c)>>)
    [] o = "toupper" -> OK(<<Upper(s)>>)
    [] o = "tolower" -> OK(<<Lower(s)>>)
    [] o = "fill" -> OK(<<Filled(s, a[2])>>)
    [] o = "reverse" -> OK(<<RevSeq(s)>>)
    [] o = "reverse_sub" -> Pre(PreReversed(s, a[2], a[3]), <<ReversedIn(s, a[2], a[3])>>)
    [] o = "reverse_range" -> OK(<<ReversedIn(s, a[2], a[3] - a[2])>>)
    [] o = "copy_from" -> Pre(PreCopy(s, Txt(a[2]), a[3], a[4]), <<Copied(s, Txt(a[2]), a[3], a[4])>>)
    [] o = "copy_from0" -> OK(<<Copied(s, Txt(a[2]), 0, NPOS)>>)
    [] o \in {"erase", "erase_sub"} -> Pre(PreErase(s, a[2], a[3]), <<(<<0, Len(s) - a[3]>>), Erased(s, a[2], a[3])>>)
    [] o = "erase_range" -> LET n == a[3] - a[2] IN Pre(PreErase(s, a[2], n), <<(<<0, Len(s) - n>>), Erased(s, a[2], n)>>)
    [] o = "replace_c" -> Pre(PreStart(s, a[4]), <<NumReplaced(s, {a[2]}, a[4]), ReplacedSet(s, {a[2]}, a[3], a[4])>>)
    [] o = "replace_s" -> LET C == Elems(Txt(a[2])) IN
           Pre(PreStart(s, a[4]), <<NumReplaced(s, C, a[4]), ReplacedSet(s, C, a[3], a[4])>>)
    [] o = "replace_all" -> IF ~PreReplaceAll(s, Txt(a[3]), a[5]) THEN <<"err">> ELSE LET R == ReplaceAll(s, Txt(a[3]), Txt(a[4]), a[5]) IN
           OK(<<Len(R), IF Len(R) <= a[2] THEN R \o Rep(90, a[2] - Len(R)) ELSE <<>> >>)
    [] o = "adapt" -> LET z == s IN OK(<<s, TRUE, s, TRUE, s, TRUE, s, TRUE, s, s, s, s, s, s, s, s, TRUE>>)
    [] o = "std_chars" -> LET n == a[2] m == Min2(n, Len(s))
                              d == Slice(s, 0, m) \o Rep(90, n - m) IN
           OK(<<Len(s), d, Len(s), d, Len(s), d, TRUE, s, TRUE, s>>)
    [] OTHER -> Assert(FALSE, <<"unknown op", o>>)

\* ops whose result is a single view that may be anywhere if empty
LooseOps == {"triml_c", "trimr_c", "trim_c", "triml_s", "trimr_s", "trim_s", "stripl", "stripr", "unquoted",
             "select_c", "select_s", "pair_range", "pair_range_esc", "pair_range_nested",
             "pop_left", "pop_right", "gpop_left", "gpop_right", "basename", "dirname", "exts", "spans",
             "nostart_c", "nostart_s", "left_of_sub", "right_of_sub"}
SelOps == {"sub1", "sub2", "range1", "range", "first", "last", "offs", "left_of", "left_of_i", "right_of", "right_of_i"}
\* positions (in the result) that hold views, per loose op
Views(o) == CASE o = "exts" -> 2..5 [] o = "spans" -> 2..5 [] o = "nostart_c" -> {7} [] o = "nostart_s" -> {6} [] OTHER -> {2}
Agrees(e, x) ==
  IF x = e.r THEN TRUE
  ELSE IF e.r[1] # "ok" \/ x[1] # "ok" THEN FALSE
  ELSE IF e.o \in LooseOps \/ (e.o \in SelOps /\ IsNull(e.a[1])) THEN Len(x) = Len(e.r) /\ \A k \in 1..Len(x) :
                               IF k \in Views(e.o) THEN SameView(e.r[k], x[k]) ELSE x[k] = e.r[k]
  \* when the result does not fit, the contents of the destination are unspecified
  ELSE IF e.o = "replace_all" THEN e.r[2] = x[2] /\ (x[2] <= e.a[2] => e.r[3] = x[3])
  ELSE FALSE

Init == i = 1
Next == /\ i <= Len(Trace)
        /\ LET x == Expect(Trace[i]) IN Judge(i, Agrees(Trace[i], x), x)
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
AllRead == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1>>)
=============================================================================
