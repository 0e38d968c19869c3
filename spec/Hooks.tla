------------------------------- MODULE Hooks -------------------------------
(* Code of the contract which runs inside an operation of the engine: methods,  *)
(* and every attribute, of the values the operation is given.  Such code writes   *)
(* to the storage.  However often and wherever the engine runs it: a read gives    *)
(* what was written last, every write is sent once, at once and with its value;     *)
(* no call and no result is sent with writes unacknowledged; what fails has asked     *)
(* for nothing; nothing runs between the end of an invocation and its result.          *)
(* hooks.json: what was seen of runs, in order, [k, v]:                                 *)
(*   of the contract (its log): "op", "in", "out", "end", "failed", "got" (read), "set" (about to     *)
(*   write), "return"; of the connection: "W" (write), "A" (acknowledged), "ask" (a call,  *)
(*   v = 1, or another request, v = 0), "ans", "event", "own" (a write of the operation),    *)
(*   "fin" (result; v: what the storage holds then).                                            *)
EXTENDS Integers, Sequences, TLC, Json
Runs == JsonDeserialize("hooks.json")
VARIABLES t, i, s
vars == <<t, i, s>>
New == [x |-> 5,        \* what the contract wrote last
        due |-> FALSE,  \* a write of it is to be sent
        owed |-> 0,     \* acknowledgements
        asked |-> 0,    \* what the operation has asked the node for
        wait |-> FALSE, \* for an answer
        over |-> FALSE, \* the contract has returned
        in |-> FALSE,   \* code inside an operation runs
        runs |-> 0, bad |-> ""]
Bad(w) == [s EXCEPT !.bad = w]
Turn == ~s.wait
After(e) ==
  CASE e.k = "op" -> (IF s.due THEN Bad("a write was not sent") ELSE [s EXCEPT !.asked = 0])
    [] e.k = "end" -> (IF s.due THEN Bad("a write was not sent") ELSE s)
    [] e.k = "failed" -> (IF s.due THEN Bad("a write was not sent") ELSE IF s.asked # 0 THEN Bad("an operation failed after asking") ELSE s)
    [] e.k = "return" -> [s EXCEPT !.over = TRUE]
    [] e.k = "got" -> (IF e.v # s.x THEN Bad("read " \o ToString(e.v) \o " after writing " \o ToString(s.x)) ELSE s)
    [] e.k = "set" -> (IF s.due \/ s.wait THEN Bad("wrote while waiting") ELSE [s EXCEPT !.due = TRUE, !.x = e.v])
    [] e.k = "W" -> (IF ~s.due \/ e.v # s.x THEN Bad("sent another write: " \o ToString(e.v)) ELSE [s EXCEPT !.due = FALSE, !.owed = @ + 1])
    [] e.k = "in" -> (IF s.wait \/ s.in THEN Bad("ran while waiting") ELSE [s EXCEPT !.in = TRUE, !.runs = @ + 1])
    [] e.k = "out" -> (IF s.due THEN Bad("a write was not sent") ELSE [s EXCEPT !.in = FALSE])
    [] e.k = "own" -> [s EXCEPT !.owed = @ + 1, !.asked = @ + 1]
    [] e.k = "A" -> (IF s.owed = 0 THEN Bad("acknowledged nothing") ELSE [s EXCEPT !.owed = @ - 1])
    [] e.k = "ask" -> (IF e.v = 1 /\ s.owed # 0 THEN Bad("called with writes unacknowledged")
                       ELSE [s EXCEPT !.wait = TRUE, !.asked = @ + (IF s.in THEN 0 ELSE 1)])
    [] e.k = "read" -> [s EXCEPT !.wait = TRUE]
    [] e.k = "ans" -> [s EXCEPT !.wait = FALSE]
    [] e.k = "event" -> [s EXCEPT !.asked = @ + 1]
    [] e.k = "fin" -> (IF s.due THEN Bad("a write was not sent") ELSE IF s.owed # 0 THEN Bad("ended with writes unacknowledged")
                       ELSE IF e.v # s.x THEN Bad("the storage holds " \o ToString(e.v) \o " after writing " \o ToString(s.x)) ELSE s)
Init == t \in 1..Len(Runs) /\ i = 1 /\ s = New
Step == /\ i <= Len(Runs[t]) /\ s.bad = ""
        /\ s' = After(Runs[t][i]) /\ i' = i + 1 /\ UNCHANGED t
End == /\ (i = Len(Runs[t]) + 1 \/ (s.bad # "" /\ i <= Len(Runs[t]) + 1))
       /\ PrintT("@@ " \o ToJson([verdict |-> t, runs |-> s.runs, bad |-> s.bad]))
       /\ i' = Len(Runs[t]) + 2 /\ UNCHANGED <<t, s>>
Spec == Init /\ [][Step \/ End]_vars
\* the engine is synchronous: nothing of the contract while an answer is due
Sound == s.owed >= 0 /\ (s.wait => ~s.due)
=============================================================================
