------------------------------ MODULE Errors ------------------------------
(* What happens on an error.  The settings are a word of flags and a callback
   (0: none, 1: returns, 2: throws, 3: jumps out, 4: raises an error of its
   own and throws when called for that, 5: raises an error of its own in a
   scope with callback 2, gets over that, and returns); a scope replaces one or
   both and restores BOTH when it ends, whatever was set in between.
   An error never returns to the place where it happened. *)
EXTENDS Ascii, Sequences, TLC
LOG == 2
CALLBACK == 4
ABORT == 8
THROW == 16
Defaults == 15
Has(f, b) == (f \div b) % 2 = 1
MaxMsg == 1023
Settings == [flags |-> Defaults, cb |-> 0, scopes |-> <<>>]
SetFlags(s, f) == [s EXCEPT !.flags = f]
SetCb(s, c) == [s EXCEPT !.cb = c]
Enter(s) == [s EXCEPT !.scopes = Append(@, <<s.flags, s.cb>>)]
Leave(s) == LET k == Len(s.scopes) IN [flags |-> s.scopes[k][1], cb |-> s.scopes[k][2], scopes |-> SubSeq(s.scopes, 1, k - 1)]

\* ----- the ways to raise an error; n and text are given by the caller
Dec(n) == Str(ToString(n))
Failed == Str("check failed: n % 2 == 1")
NotImpl == Str("NOT IMPLEMENTED")
Never == Str("never reach this point")
Colon == Str(": ")
Detail(n, text) == <<10>> \o Str("n=") \o Dec(n) \o <<32>> \o text
FullMsg(site, n, text) ==
  CASE site = "err" -> text
    [] site = "warn" -> text
    [] site = "lit" -> Str("literal")
    [] site = "num" -> Str("a=") \o Dec(n) \o Str(" b=") \o text \o Str(".")
    [] site \in {"check", "assert", "Xassert", "assertif", "Xassertif"} -> Failed
    [] site \in {"checkm", "assertm", "Xassertm"} -> Failed \o Detail(n, text)
    [] site \in {"ni", "niif"} -> NotImpl
    [] site \in {"nim", "niifm"} -> NotImpl \o Colon \o text
    [] site = "never" -> Never
    [] site = "neverm" -> Never \o Colon \o text
Msg(site, n, text) == LET m == FullMsg(site, n, text) IN IF Len(m) > MaxMsg THEN SubSeq(m, 1, MaxMsg) ELSE m
Even(n) == n % 2 = 0
\* is there an error?  assertions count only in checked builds, checks always
Happens(site, n, checked) ==
  CASE site \in {"check", "checkm", "niif", "niifm"} -> Even(n)
    [] site \in {"assert", "assertm", "Xassert", "Xassertm"} -> checked /\ Even(n)
    [] site \in {"assertif", "Xassertif"} -> checked /\ n > 0 /\ Even(n)
    [] site = "warn" -> FALSE
    [] OTHER -> TRUE
\* what ends the error
End(s, exc) == IF Has(s.flags, CALLBACK) /\ s.cb \in {2, 4} THEN "thrown"
               ELSE IF Has(s.flags, CALLBACK) /\ s.cb = 3 THEN "jumped"
               ELSE IF exc /\ Has(s.flags, THROW) THEN "exception" ELSE "abort"
Inner(c) == CASE c = 4 -> <<<<4, Str("inner")>>>> [] c = 5 -> <<<<2, Str("inner 1")>>>> [] OTHER -> <<>>
Calls(s, msg) == IF Has(s.flags, CALLBACK) /\ s.cb # 0 THEN <<<<s.cb, msg>>>> \o Inner(s.cb) ELSE <<>>
Logs(s) == Has(s.flags, LOG)
=============================================================================
