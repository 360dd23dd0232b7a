------------------------------ MODULE MCCode ------------------------------
(* Laws of base64 and UTF-8. *)
EXTENDS Base64
CONSTANTS A, MaxLen, Chunk
VARIABLES x
Stay == UNCHANGED x
InitData == x \in StringsUpTo(A, MaxLen)
EncodeLaws ==
  LET t == Encode(x) IN
  /\ Len(t) = EncLen(Len(x)) /\ Len(t) % 4 = 0
  /\ Valid64(t)
  /\ Decode(t) = x
  /\ \A k \in 0..(Len(x) \div 3) : t = Encode(Slice(x, 0, 3 * k)) \o Encode(Slice(x, 3 * k, Len(x) - 3 * k))
\* texts
InitText == x \in StringsUpTo(A, MaxLen)
DecodeLaws ==
  Valid64(x) =>
    LET d == Decode(x) IN
    /\ Len(Encode(d)) = Len(x)
    /\ Decode(Encode(d)) = d
    /\ \A k \in 1..Len(x) : x[k] # Encode(d)[k] => NPad(x) > 0 /\ k = Len(x) - NPad(x)
    /\ (NPad(x) = 0 => Encode(d) = x)
\* code points, Chunk at a time
InitCode == x \in 0..(MaxCode \div Chunk)
Lead(b) == IF b < 128 THEN 1 ELSE IF b \in 192..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..247 THEN 4 ELSE 0
CodeLaws ==
  \A c \in (x * Chunk)..Min2(MaxCode, x * Chunk + Chunk - 1) :
    LET b == Utf8(c) IN
    /\ Len(b) \in 1..4 /\ Lead(b[1]) = Len(b)
    /\ \A k \in 2..Len(b) : b[k] \in 128..191
    /\ Utf8Val(b) = c
    \* shortest form, and order of code points is the order of the bytes
    /\ Len(b) = (IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4)
    /\ LET n == Utf8(c + 1) IN c < MaxCode =>
         Len(b) < Len(n) \/ \E k \in 1..Len(b) : b[k] < n[k] /\ \A j \in 1..(k - 1) : b[j] = n[j]
=============================================================================
