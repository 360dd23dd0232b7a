------------------------------ MODULE MCInt ------------------------------
(* Laws of the integer conversions, checked for every state below. *)
EXTENDS IntText
CONSTANTS Vals, Strs, MaxLen
VARIABLES n, s
vars == <<n, s>>
Stay == UNCHANGED vars
Radices == {2, 8, 10, 16}
Types == {"i8", "u8", "i16", "u16", "i32", "u64"}
Abs(x) == IF x < 0 THEN -x ELSE x
NatOf(b) == IF b = <<>> THEN 0 ELSE IF Len(b) = 1 THEN b[1] ELSE b[1] + LB * b[2]

\* ----- values: n ranges over small integers and over the edges of the types
InitVals == n \in Vals /\ s = <<>>
ValLaws ==
  LET m == BNat(Abs(n)) IN
  /\ NatOf(m) = Abs(n)
  /\ \A r \in Radices :
       LET t == FullText(n < 0, m, r, 0) IN
       /\ NatOk(Unsgn(t)) /\ NatVal(Unsgn(t)) = m /\ IsNeg(t) = (n < 0)
       /\ BareOk(BareText(m, r, 0), r) /\ BareVal(BareText(m, r, 0), r) = m
       \* no redundant leading zero
       /\ LET b == BareText(m, r, 0) IN Len(b) > 1 => b[1] # 48
       /\ \A nd \in {0, 1, 3, 9} :
            LET p == FullText(n < 0, m, r, nd) IN
            NatVal(Unsgn(p)) = m /\ Len(p) = Len(t) + Max2(0, nd - Len(BareText(m, r, 0)))
       /\ \A T \in Types :
            (Signed(T) \/ n >= 0) =>
              LET b == IntStored(t, T) IN
              /\ Overflows(t, T) <=> (StoredNeg(b, T) # (n < 0) \/ StoredMag(b, T) # m)
              /\ ~Overflows(t, T) => FullText(StoredNeg(b, T), StoredMag(b, T), r, 0) = t
              /\ FirstOk(t, T) /\ FirstEnd(t, T) = Len(t)
              /\ FirstEnd(<<32>> \o t \o <<44, 49>>, T) = Len(t) + 1
  /\ \A k \in 0..3 : LET t == FullText(n < 0, m, 10, 0) x == InBuf(t, k) IN
       Len(x) = k /\ (Len(t) <= k => Slice(x, 0, Len(t)) = t) /\ (Len(t) > k => x = Rep(90, k))
\* ----- the big naturals behave like numbers
BigLaws ==
  LET m == BNat(Abs(n)) IN
  \A k \in {0, 1, 7, 255, 32767} :
    LET q == BNat(k) IN
    /\ BSub(BAdd(m, q), q) = m /\ BAdd(m, q) = BAdd(q, m) /\ BAdd(m, q) = MulAdd(m, 1, k)
    /\ BCmp(m, q) = (IF Abs(n) < k THEN -1 ELSE IF Abs(n) = k THEN 0 ELSE 1)
    /\ k > 1 => LET d == DivSmall(MulAdd(m, k, k - 1), k) IN d[1] = m /\ d[2] = k - 1
    /\ Shl(m, 17) = MulPow(m, 2, 17) /\ ModPow2(BAdd(Shl(m, 17), BNat(k)), 17) = q
    /\ (m # <<>> => BitLen(Shl(m, 17)) = BitLen(m) + 17)
    /\ FromDigits(ToDigits(m, 256), 256) = m
\* ----- texts: every short string
InitStrs == s \in StringsUpTo(Strs, MaxLen) /\ n = 0
StrLaws ==
  /\ IntOk(s, "u8") => IntOk(s, "i8")
  /\ IntOk(s, "i8") /\ ~IsNeg(s) => IntOk(s, "u8")
  /\ IntOk(s, "i8") => ~IntOk(s \o <<32>>, "i8") /\ ~IntOk(<<32>> \o s, "i8")
  \* what is accepted is exactly what the token grammar calls an integer
  /\ IntOk(s, "i8") <=> (Whole(s, IntTok(s)) /\ s[1] # 43)
  /\ IntOk(s, "u8") <=> (Whole(s, UIntTok(s)) /\ s[1] # 43)
  /\ \A T \in {"i8", "u8"} :
       /\ IntOk(s, T) /\ ~Overflows(s, T) =>
            LET b == IntStored(s, T) IN StoredMag(b, T) = NatVal(Unsgn(s)) /\ (StoredNeg(b, T) => IsNeg(s))
       /\ FirstOk(s, T) => FirstEnd(s, T) <= Len(s) /\ IntOk(View(s, FirstTok(s, T)), T)
       /\ (IntOk(s, T) => FirstOk(s, T) /\ FirstEnd(s, T) = Len(s))
  /\ BoolOk(s) => BoolVal(s) \in BOOLEAN

ManyVals == ((-1500)..3000) \cup {k * 509 : k \in (-150)..150}
EdgeVals == {0,1,2,7,8,9,10,11,15,16,17,63,64,65,98,99,100,101,126,127,128,129,254,255,256,257,511,512,999,1000,1001,4095,4096,9999,10000,32766,32767,32768,32769,65534,65535,65536,65537,99999,100000,262143,262144,999999,1000000,16777215,16777216,99999999,100000000,268435455,268435456,999999999,1000000000,-1,-2,-9,-10,-99,-100,-127,-128,-129,-255,-256,-257,-32767,-32768,-32769,-65535,-65536,-99999,-100000,-999999999}
=============================================================================
