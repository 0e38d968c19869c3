------------------------------ MODULE Replicas ------------------------------
(* Nodes that execute the same transactions.  Each node's engine also serves   *)
(* its own queries and API requests in between and may be started anew at any   *)
(* time.  What a transaction gives, and the storage after it, is a function of   *)
(* the transactions before it alone.                                              *)
(* A contract keeps an array and a number of updates; code 1 puts what it is        *)
(* given, code 2 a hundred more.                                                     *)
EXTENDS Integers, Sequences
Cons == {"c1", "c2"}
Blank == [arr |-> [c \in Cons |-> << >>], code |-> [c \in Cons |-> 1], ups |-> [c \in Cons |-> 0]]
Put(s, c, v) == [s EXCEPT !.arr[c] = Append(@, IF s.code[c] = 1 THEN v ELSE v + 100)]
\* a transaction: <<what, contract, other contract or "", number>>; its outcome: <<status, numbers>>
Step(s, t) ==
  LET c == t[2]  d == t[3]  v == t[4]  a == s.arr[c] IN
  CASE t[1] = "put" -> [s |-> Put(s, c, v), out |-> <<0, <<Len(a) + 1>> >>]
    [] t[1] = "take" -> (IF a = << >> THEN [s |-> s, out |-> <<39, << >> >>]
                         ELSE [s |-> [s EXCEPT !.arr[c] = SubSeq(a, 1, Len(a) - 1)], out |-> <<0, <<a[Len(a)]>> >>])
    [] t[1] = "sum" -> [s |-> s, out |-> <<0, <<s.ups[c]>> \o a>>]
    [] t[1] = "bad" -> [s |-> s, out |-> <<35, << >> >>]
    [] t[1] = "other" -> [s |-> Put(Put(s, d, v), c, v), out |-> <<0, <<Len(Put(s, d, v).arr[d]), Len(Put(Put(s, d, v), c, v).arr[c])>> >>]
    [] t[1] = "catch" -> [s |-> Put(s, c, 35), out |-> <<0, <<35, Len(a) + 1>> >>]
    [] t[1] = "dear" -> [s |-> s, out |-> <<10, << >> >>]
    [] t[1] = "upgrade" -> [s |-> [s EXCEPT !.code[c] = 3 - @, !.ups[c] = @ + 1], out |-> <<0, << >> >>]
RECURSIVE Fold(_, _, _)
Fold(s, w, n) == IF n = 0 THEN s ELSE Step(Fold(s, w, n - 1), w[n]).s
RECURSIVE Outs(_, _)
Outs(w, n) == IF n = 0 THEN << >> ELSE Append(Outs(w, n - 1), Step(Fold(Blank, w, n - 1), w[n]).out)
=============================================================================
