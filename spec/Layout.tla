------------------------------ MODULE Layout ------------------------------
(* Pairs that may share their room, classes padded to a size, sequences of
   numbers, macros applied to each argument, names of types. *)
EXTENDS Bits, Ascii
\* ---- pairs: the values of both parts; a part without members has none (0)
PairVal(fe, se, f, s) == <<(IF fe THEN 0 ELSE f), (IF se THEN 0 ELSE s)>>
\* one step of a history
PairStep(fe, se, v, st) ==
  CASE st[1] = "d" -> <<0, 0>>
    [] st[1] = "c" -> PairVal(fe, se, st[2], st[3])
    [] st[1] = "f" -> PairVal(fe, se, st[2], v[2])
    [] st[1] = "s" -> PairVal(fe, se, v[1], st[2])
    [] OTHER -> v                                    \* copied or assigned: the same values
\* how large it may be: an empty part takes no room
PairSizeOk(sz, f, s, plain, fe, se) ==
  IF fe /\ se THEN sz <= plain ELSE IF fe THEN sz = s ELSE IF se THEN sz = f ELSE sz >= Max2(f, s) /\ sz <= plain
\* ---- padding
Padded(s, n) == s + n
MinSized(s, n) == s + MissingMin(s, n)
MultSized(s, m) == s + MissingMult(s, m)
MinMultSized(s, n, m) == MultSized(MinSized(s, n), m)
Upto(n) == [k \in 1..n |-> k - 1]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Words(n) == [k \in 1..n |-> <<119>> \o Dec(k)]
TypeName(k) == Str(CASE k = 0 -> "int" [] k = 1 -> "float" [] k = 2 -> "double" [] k = 3 -> "char" [] k = 4 -> "bool" [] k = 5 -> "unsigned int"
  [] k = 6 -> "E0" [] k = 7 -> "tn::A" [] k = 8 -> "tn::B<int>" [] k = 9 -> "tn::B<tn::A>" [] k = 10 -> "tn::K"
  [] k = 11 -> "a_rather_long_name_of_a_type_without_any_template_arguments" [] OTHER -> "tn::B<int>::C")
Facts == <<
  <<TRUE, FALSE, FALSE, TRUE, TRUE, TRUE, FALSE>>,       \* which classes have which typedefs
  <<TRUE, TRUE, TRUE, TRUE, FALSE, FALSE, FALSE>>,       \* which types are passed by value
  <<TRUE, TRUE, FALSE, FALSE>>,                          \* which are instances of a template
  <<5, 10203, 91430, 12, 7, 3>>,                         \* counting, versions, joining
  Str("1"), Str("M_ONE"), Str("abc") \o <<0>>, 4>>
=============================================================================
