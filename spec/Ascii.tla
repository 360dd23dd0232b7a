------------------------------ MODULE Ascii ------------------------------
(* String literals as sequences of character codes (TLA+ strings cannot be
   taken apart by their codes).  No backslash and no quote. *)
EXTENDS Integers, Sequences
Printable == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Codes == <<32, 33>> \o [k \in 1..57 |-> 34 + k] \o <<93, 94, 95>> \o [k \in 1..31 |-> 95 + k]
Ord(c) == Codes[CHOOSE k \in 1..Len(Codes) : SubSeq(Printable, k, k) = c]
Str(s) == [k \in 1..Len(s) |-> Ord(SubSeq(s, k, k))]
=============================================================================
