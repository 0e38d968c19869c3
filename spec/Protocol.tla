------------------------------ MODULE Protocol ------------------------------
(* Who may send what when, on the connection between node and engine, as an *)
(* automaton over the messages in the order the node sees them: exactly one *)
(* result for every invocation and API request, in stack order, every       *)
(* synchronous request answered before anything else happens, one           *)
(* acknowledgement per write that asks for one, and silence in between.     *)
(* sessions.json: recorded sessions, each a sequence of [d, m, f]: d is "<" *)
(* (engine to node) or ">", m the message, f a flag (write wants an answer).*)
EXTENDS Integers, Sequences, TLC, Json
Sessions == JsonDeserialize("sessions.json")
VARIABLES t, i, stack, owed, bad, n
vars == <<t, i, stack, owed, bad, n>>
Sync == {"GETVALUE", "GETBALANCE", "CONTAINS", "GETINFO"}
Async == {"EVENT", "SETFEEPCT"}

TopS == IF stack = <<>> THEN "idle" ELSE stack[Len(stack)]
SetT(x) == [stack EXCEPT ![Len(stack)] = x]
PopS == SubSeq(stack, 1, Len(stack) - 1)
Ev == Sessions[t][i]
OK(s, o) == /\ stack' = s /\ owed' = o /\ bad' = bad /\ i' = i + 1
Bad(w) == /\ bad' = w /\ UNCHANGED <<stack, owed>> /\ i' = Len(Sessions[t]) + 1

Init == /\ t \in 1..Len(Sessions) /\ i = 1 /\ stack = <<>> /\ owed = 0 /\ bad = "" /\ n = 0
FromEngine(m, f) ==
  CASE m = "LOG" -> OK(stack, owed)
    [] m # "LOG" /\ stack = <<>> -> Bad("unasked " \o m)
    [] m # "LOG" /\ stack # <<>> /\ TopS = "api" -> IF m = "GETAPI" THEN OK(PopS, owed) ELSE Bad("while getting an API: " \o m)
    [] m # "LOG" /\ stack # <<>> /\ TopS \notin {"api", "run"} -> Bad("while waiting for " \o TopS \o ": " \o m)
    [] TopS = "run" /\ m \in Sync -> OK(SetT(m), owed)
    [] TopS = "run" /\ m \in Async -> OK(stack, owed)
    [] TopS = "run" /\ m = "SETVALUE" -> OK(stack, owed + (IF f THEN 1 ELSE 0))
    [] TopS = "run" /\ m = "CALL" -> IF owed = 0 THEN OK(SetT("CALL"), owed) ELSE Bad("call with unanswered writes")
    [] TopS = "run" /\ m = "RESULT" -> IF owed = 0 THEN OK(PopS, owed) ELSE Bad("result with unanswered writes")
    [] TopS = "run" /\ m \notin Sync \cup Async \cup {"SETVALUE", "CALL", "RESULT", "LOG"} -> Bad("unexpected " \o m)
FromNode(m) ==
  CASE m = "INVOKE" -> IF stack = <<>> \/ TopS = "CALL" THEN OK(Append(stack, "run"), owed) ELSE Bad("node: INVOKE")
    [] m = "GETAPI" -> IF stack = <<>> \/ TopS = "CALL" THEN OK(Append(stack, "api"), owed) ELSE Bad("node: GETAPI")
    [] m = "SETVALUE" -> IF owed > 0 THEN OK(stack, owed - 1) ELSE Bad("node: SETVALUE")
    [] m = "RESULT" -> IF TopS = "CALL" THEN OK(SetT("run"), owed) ELSE Bad("node: RESULT")
    [] m \in Sync -> IF TopS = m THEN OK(SetT("run"), owed) ELSE Bad("node: " \o m)
    [] OTHER -> Bad("node: " \o m)
Step == /\ i <= Len(Sessions[t])
        /\ n' = n + (IF Ev.m \in {"INVOKE", "GETAPI"} THEN 1 ELSE 0)
        /\ IF Ev.d = "<" THEN FromEngine(Ev.m, Ev.f) ELSE FromNode(Ev.m)
        /\ UNCHANGED t
End == /\ i = Len(Sessions[t]) + 1
       /\ PrintT("@@ " \o ToJson([verdict |-> t, requests |-> n,
              bad |-> IF bad # "" THEN bad ELSE IF stack # <<>> THEN "no answer" ELSE IF owed # 0 THEN "writes unanswered" ELSE ""]))
       /\ i' = i + 1 /\ UNCHANGED <<t, stack, owed, bad, n>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
\* the turn belongs to one frame only: those below it are waiting for a call
Nested == \A j \in 1..Len(stack) - 1 : stack[j] = "CALL"
=============================================================================
