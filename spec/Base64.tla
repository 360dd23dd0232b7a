------------------------------ MODULE Base64 ------------------------------
(* Base64 (RFC 4648, padded) and UTF-8. *)
EXTENDS Bytes

\* ----- base64
SexChar(k) == IF k < 26 THEN 65 + k ELSE IF k < 52 THEN 97 + k - 26 ELSE IF k < 62 THEN 48 + k - 52 ELSE IF k = 62 THEN 43 ELSE 47
Pad == 61
IsSex(c) == IsUpper(c) \/ IsLower(c) \/ IsDigit(c) \/ c = 43 \/ c = 47
SexVal(c) == IF IsUpper(c) THEN c - 65 ELSE IF IsLower(c) THEN c - 97 + 26 ELSE IF IsDigit(c) THEN c - 48 + 52 ELSE IF c = 43 THEN 62 ELSE 63

EncLen(n) == 4 * ((n + 2) \div 3)
\* the k-th sextet (from 0) of the data, which is continued with zero bits
ByteOr0(d, k) == IF k < Len(d) THEN At(d, k) ELSE 0
Sextet(d, k) ==
  LET g == 3 * (k \div 4) v == 65536 * ByteOr0(d, g) + 256 * ByteOr0(d, g + 1) + ByteOr0(d, g + 2) IN
  CASE k % 4 = 0 -> v \div 262144
    [] k % 4 = 1 -> (v \div 4096) % 64
    [] k % 4 = 2 -> (v \div 64) % 64
    [] OTHER     -> v % 64
\* a character is padding if its sextet has no bit of the data
Encode(d) == [p \in 1..EncLen(Len(d)) |-> IF 6 * (p - 1) >= 8 * Len(d) THEN Pad ELSE SexChar(Sextet(d, p - 1))]

NPad(t) == IF Len(t) >= 2 /\ t[Len(t) - 1] = Pad THEN 2 ELSE IF Len(t) >= 1 /\ t[Len(t)] = Pad THEN 1 ELSE 0
Valid64(t) ==
  /\ Len(t) % 4 = 0
  /\ \A p \in 1..(Len(t) - NPad(t)) : IsSex(t[p])
  /\ \A p \in (Len(t) - NPad(t) + 1)..Len(t) : t[p] = Pad
DecLen(t) == 3 * (Len(t) \div 4) - NPad(t)
SexOr0(t, p) == IF t[p] = Pad THEN 0 ELSE SexVal(t[p])
Decode(t) == [k \in 1..DecLen(t) |->
  LET q == 4 * ((k - 1) \div 3)
      v == 262144 * SexOr0(t, q + 1) + 4096 * SexOr0(t, q + 2) + 64 * SexOr0(t, q + 3) + SexOr0(t, q + 4) IN
  CASE (k - 1) % 3 = 0 -> v \div 65536
    [] (k - 1) % 3 = 1 -> (v \div 256) % 256
    [] OTHER -> v % 256]

\* ----- UTF-8
MaxCode == 1114111
Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE IF c <= MaxCode THEN <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<>>
\* the code point which a byte sequence stands for
Utf8Val(b) ==
  CASE Len(b) = 1 -> b[1]
    [] Len(b) = 2 -> (b[1] % 32) * 64 + (b[2] % 64)
    [] Len(b) = 3 -> (b[1] % 16) * 4096 + (b[2] % 64) * 64 + (b[3] % 64)
    [] OTHER -> (b[1] % 8) * 262144 + (b[2] % 64) * 4096 + (b[3] % 64) * 64 + (b[4] % 64)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE ToLower(c) - 87
\* value of a hex text; anything above the last code point is "too much"
RECURSIVE HexCode(_, _)
HexCode(t, acc) == IF t = <<>> THEN acc ELSE IF acc > MaxCode THEN MaxCode + 1 ELSE HexCode(Tail(t), 16 * acc + HexVal(Head(t)))
=============================================================================
