------------------------------ MODULE Address ------------------------------
(* Addresses and their two forms.  A text is a sequence of characters, a     *)
(* byte string a sequence of numbers; an address is [c, body]: whether it is   *)
(* a contract's, and twenty bytes.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexDigits == {Hex[i] : i \in 1..16}
Digit(c) == (CHOOSE i \in 1..16 : Hex[i] = c) - 1

None == <<"none">>          \* no address, said with the value "nothing"
Refused == <<"refused">>    \* an error
Got(a) == <<"addr", a>>

ToBytes(a) == <<IF a.c THEN 1 ELSE 0>> \o a.body
ToText(a) == <<IF a.c THEN "c" ELSE "h", "x">>
             \o [i \in 1..40 |-> LET b == a.body[(i + 1) \div 2] IN Hex[1 + (IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]]
FromText(s) ==
  IF /\ Len(s) = 42 /\ s[1] \in {"h", "c"} /\ s[2] = "x" /\ \A i \in 3..42 : s[i] \in HexDigits
  THEN Got([c |-> s[1] = "c", body |-> [i \in 1..20 |-> 16 * Digit(s[2 * i + 1]) + Digit(s[2 * i + 2])]])
  ELSE Refused
FromBytes(b) ==
  IF Len(b) = 20 THEN Got([c |-> FALSE, body |-> b])
  ELSE IF Len(b) # 21 THEN None
  ELSE IF b[1] \in {0, 1} THEN Got([c |-> b[1] = 1, body |-> Tail(b)])
  ELSE Refused
\* a kind and a body
Make(c, body) == IF Len(body) = 20 THEN Got([c |-> c, body |-> body]) ELSE Refused
=============================================================================
