------------------------------ MODULE TraceRaw ------------------------------
(* Recorded uses of raw memory and hashes agree with Raw. *)
EXTENDS Raw, TraceLib
VARIABLE i
\* memory is filled with 90 before
Repeat(e) == e.r = <<"ok", Times(e.a[1], e.a[2]), TRUE>>
RepeatIn(e) == LET p == e.a[1] n == e.a[2] IN e.r = <<"ok", Times(p, n + 1) \o Rep(90, 7), TRUE>>
Zero(e) == LET z == e.r[1] n == IF e.a[1] \in {"one", "one8"} THEN 1 ELSE e.a[2] IN e.r[2] = Zeroed(Rep(90, 12 * z), e.a[3] * z, n * z) /\ e.r[3] = TRUE
\* after each piece the digest is asked for twice
HashOk(e) == LET w == e.a[1] n == Len(e.a) - 1
                 st == FoldLeft(LAMBDA acc, k : Append(acc, Update(w, acc[Len(acc)], e.a[k + 1])), <<Basis(w)>>, [k \in 1..n |-> k]) IN
   /\ Len(e.r[1]) = 2 * n + 1
   /\ e.r[1][1] = Basis(w)
   /\ \A k \in 1..n : e.r[1][2 * k] = st[k + 1] /\ e.r[1][2 * k + 1] = st[k + 1]
   /\ (w = 64 => e.r[2] = st[n + 1])
Pow2(n) == LET RECURSIVE P(_) P(k) == IF k = 0 THEN 1 ELSE 2 * P(k - 1) IN P(n)
AlignOf(t) == CASE t = "u8" -> 1 [] t = "u16" -> 2 [] t = "u32" -> 4 [] OTHER -> 8
\* an address a * 2^s
Aligned(e) == LET s == IF Len(e.a) > 3 THEN e.a[4] ELSE 0 n == IF e.a[3] = 0 THEN AlignOf(e.a[1]) ELSE e.a[3] IN
   e.r[1] = (\/ (s < 30 /\ n <= Pow2(s)) \/ s >= 30 \/ e.a[2] % (n \div Pow2(s)) = 0)
Ok(e) == CASE e.o = "repeat" -> Repeat(e) [] e.o = "repin" -> RepeatIn(e) [] e.o = "repov" -> e.r[1] = "err" [] e.o = "zero" -> Zero(e)
           [] e.o = "ovl" -> e.r[1] = Overlap(e.a[1], e.a[2], e.a[3], e.a[4])
           [] e.o = "algn" -> Aligned(e) [] e.o = "hash" -> HashOk(e)
           [] e.o = "space" -> LET s == IsSpace(e.a[1]) IN e.r = <<s, s, s, s, 6, 6>>
           [] OTHER -> FALSE
Init == i = 1 /\ TLCSet(1, 0)
Next == i <= Len(Trace) /\ Judge(i, Ok(Trace[i]), <<"not allowed">>) /\ TLCSet(1, i) /\ i' = i + 1
AllRead == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
