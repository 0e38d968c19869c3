----------------------------- MODULE Requests -----------------------------
(* What a contract asks the node for, whatever values it gives to ask with:     *)
(* the requests sent, and how asking fails.  Kinds of values (fixed in            *)
(* requests.json: for each its class and, of numbers, its sign and size):          *)
(*   class "int", "bool", "text", "bytes", "addr", "none", "badaddr" (an address    *)
(*   object without 20 bytes), "list", "map" (of values with a form), "other" (no     *)
(*   form), "like" (no form, but claiming another class: how it fails is open).       *)
(*   Kinds of classes of the contract's own derived from these have the        *)
(*   class of what they're derived from: their methods do not matter.                    *)
EXTENDS Integers, Sequences
CONSTANTS Class(_), Size(_),     \* of a kind; size: -1 negative, 0, 1..100, 101 above
          Json(_), Digits(_),  \* has a form as JSON; is the text of a number
          Code(_)                \* the number it converts to, as code of a failure; -1 for negatives, 1000 for big ones, 2000 for none
Formed == {"int", "bool", "text", "bytes", "addr", "none", "list", "map"}
Scalars == {"int", "bool", "text", "bytes", "addr"}
Number(k) == Class(k) \in {"int", "bool"}
Say(s, m) == [s EXCEPT !.out = Append(@, m)]
Stop(s, code) == [s EXCEPT !.ex = code]
Asked(w, to, amount, name, arg) == [what |-> w, to |-> to, amount |-> amount, name |-> name, arg |-> arg]
\* an address asked with: none which isn't one, or is malformed
ToAddress(s, k, m) == IF Class(k) = "addr" THEN Say(s, m) ELSE Stop(s, IF Class(k) = "badaddr" THEN 1 ELSE 6)
Amount(s, k, m) == IF Number(k) /\ Size(k) >= 0 THEN Say(s, m) ELSE Stop(s, 6)
\* one operation <<what, kind>> on [out, ex, fee, ret]
Do(s, o, k) ==
  CASE o = "transfer" -> Amount(s, k, Asked("call", "T", k, "", "empty"))
    [] o = "pay" -> ToAddress(s, k, Asked("call", k, "0", "", "empty"))
    [] o = "send" -> LET n == Amount(s, k, Asked("call", "T", k, "", "empty")) IN
                     IF n.ex = 0 THEN [n EXCEPT !.ret = "true"] ELSE [s EXCEPT !.ret = "false"]
    [] o = "callto" -> ToAddress(s, k, Asked("call", k, "0", "m", "empty"))
    [] o = "callamount" -> Amount(s, k, Asked("call", "T", k, "m", "empty"))
    [] o = "callname" -> (IF Class(k) = "text" THEN Say(s, Asked("call", "T", "0", k, "empty"))
                          ELSE IF Class(k) = "none" THEN Say(s, Asked("call", "T", "0", "", "empty")) ELSE Stop(s, 6))
    [] o \in {"callarg", "facearg"} -> (IF Class(k) \in Formed THEN Say(s, Asked("call", "T", "0", "m", <<o, k>>)) ELSE Stop(s, 1))
    [] o = "faceamount" -> Amount(s, k, Asked("call", "T", k, "m", <<"facearg", "0">>))
    [] o = "balance" -> ToAddress(s, k, Asked("balance", k, "", "", ""))
    [] o = "fee" -> (IF Number(k) /\ Size(k) \in 0..100 THEN [s EXCEPT !.fee = k] ELSE Stop(s, 5))
    [] o \in {"evint", "evtext", "evbytes", "evbool", "evaddr"} ->
         LET want == CASE o = "evint" -> {"int", "bool"} [] o = "evtext" -> {"text"} [] o = "evbytes" -> {"bytes"}
                       [] o = "evbool" -> {"bool"} [] OTHER -> {"addr", "badaddr"} IN
         (IF Class(k) \in want \cup {"none"} THEN (IF Class(k) = "badaddr" THEN Stop(s, 1) ELSE Say(s, Asked("event", "", "", o, k)))
          ELSE Stop(s, 5))
    [] o = "set" -> (IF Class(k) \in Scalars THEN Say(s, Asked("set", "", "", "", k)) ELSE Stop(s, 6))
    [] o = "key" -> (IF Class(k) \in Scalars THEN Say(s, Asked("key", "", "", "", k)) ELSE Stop(s, 6))
    [] o = "name" -> (IF Class(k) \in Scalars THEN Say(s, Asked("name", "", "", "", k)) ELSE Stop(s, 6))
    [] o = "ret" -> [s EXCEPT !.ret = k]
    \* an array with the only element 7
    [] o = "at" -> (IF Number(k) /\ (Size(k) = 0 \/ k = "-1") THEN [s EXCEPT !.ret = "7"] ELSE Stop(s, 6))
    [] o = "atset" -> (IF Number(k) /\ (Size(k) = 0 \/ k = "-1") THEN Say(s, Asked("at", "", "", "", "100")) ELSE Stop(s, 6))
    [] o = "faceto" -> (IF Class(k) = "none" THEN Stop(s, 5) ELSE ToAddress(s, k, Asked("call", k, "0", "m", <<"facearg", "0">>)))
    [] o = "faceabs" -> Stop(s, 7)
    [] o = "callkw" -> (IF Class(k) \in {"none", "list", "map"} THEN Say(s, Asked("call", "T", "0", "m", <<"callkw", k>>)) ELSE Stop(s, 1))
    \* of the contract's own failures: codes count from 32, and stop at 999
    [] o = "revert" -> Stop(s, IF Code(k) = 2000 THEN 6 ELSE IF Code(k) = -1 THEN 32 ELSE IF Code(k) > 999 - 32 THEN 999 ELSE 32 + Code(k))
    \* fails whatever the message, but for one which claims to be a text
    [] o = "message" -> Stop(s, 39)
    [] o = "hash" -> (IF Class(k) = "bytes" THEN s ELSE Stop(s, 6))
    [] o = "loads" -> (IF Class(k) # "text" \/ Digits(k) THEN s ELSE Stop(s, 1))
    [] o = "dumps" -> (IF Json(k) THEN s ELSE Stop(s, 1))
Blank == [out |-> <<>>, ex |-> 0, fee |-> "0", ret |-> "none"]
RECURSIVE Fold(_, _, _)
Fold(s, p, i) ==
  IF i > Len(p) THEN s
  ELSE LET d == Do(s, p[i][1], p[i][2])
           n == IF d.ex # 0 /\ Class(p[i][2]) = "like" THEN Stop(d, -1) ELSE d IN
       IF n.ex # 0 /\ p[i][3] THEN Fold([n EXCEPT !.ex = 0], p, i + 1)
       ELSE IF n.ex # 0 THEN n ELSE Fold(n, p, i + 1)
Outcome(p) ==
  LET s == Fold(Blank, p, 1)
      c == IF s.ex # 0 THEN s.ex ELSE IF s.ret \in {"true", "false"} \/ Class(s.ret) \in Formed THEN 0 ELSE 1
  IN [status |-> c, out |-> s.out, fee |-> s.fee, ret |-> s.ret]
=============================================================================
