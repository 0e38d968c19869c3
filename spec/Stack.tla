------------------------------- MODULE Stack -------------------------------
(* A contract which has used up its stack.  With k frames in use, an        *)
(* operation of the contract either takes place entirely, exactly as with   *)
(* an empty stack ("room"), or fails with a recursion error after a part of *)
(* the requests it consists of ("spent"); once there is no room there is    *)
(* none with more frames in use; of a call, the callee may have no room     *)
(* where the caller still has ("below").  Nothing of the exhaustion is ever *)
(* left behind: the engine answers with a system error, never with more     *)
(* steps than the limit, and the next request is served as ever.            *)
(* sweeps.json: recorded sweeps [op, limit, silent, caught, full, rows]; full and rows are  *)
(* [k, sent, status, steps, val, after, calls]: requests sent, the answer,  *)
(* whether the request after it was served, calls of other contracts.       *)
EXTENDS Integers, Sequences, TLC, Json
Sweeps == JsonDeserialize("sweeps.json")
VARIABLES t, i, phase, bad
vars == <<t, i, phase, bad>>

S == Sweeps[t]
Row == S.rows[i]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Same(r, f) == r.sent = f.sent /\ r.status = f.status /\ r.steps = f.steps /\ r.val = f.val
\* what a contract sees which catches the error, or its node if it does not
Failed(r) == /\ r.steps <= S.limit
             /\ \/ S.op = "send" /\ r.status = 0 /\ r.val = "False"   \* send() reports any failure so
                \/ IF S.caught THEN r.status = 0 /\ r.val = "caught" ELSE r.status = 1 /\ r.val = "x"
Room(r) == Same(r, S.full)
Below(r) == S.full.calls > 0 /\ Failed(r) /\ Prefix(r.sent, S.full.sent) /\ r.sent # <<>>
\* (an operation which sends nothing is silent: the requests before it are all)
Spent(r) == Failed(r) /\ Prefix(r.sent, S.full.sent) /\ (S.silent \/ r.sent # S.full.sent)

Init == t \in 1..Len(Sweeps) /\ i = 1 /\ phase = "room" /\ bad = <<>>
Next ==
  /\ i <= Len(S.rows)
  /\ i' = i + 1 /\ t' = t
  /\ \/ /\ Row.after /\ phase = "room" /\ Room(Row)
        /\ UNCHANGED <<phase, bad>>
     \/ /\ Row.after /\ phase \in {"room", "below"} /\ ~Room(Row) /\ Below(Row)
        /\ phase' = "below" /\ bad' = bad
     \/ /\ Row.after /\ ~Room(Row) /\ ~(phase # "spent" /\ Below(Row)) /\ Spent(Row)
        /\ phase' = "spent" /\ bad' = bad
     \/ /\ ~(/\ Row.after
             /\ \/ phase = "room" /\ Room(Row)
                \/ phase # "spent" /\ Below(Row) /\ ~Room(Row)
                \/ Spent(Row) /\ ~Room(Row))
        /\ bad' = Append(bad, Row.k) /\ phase' = phase
  /\ (i = Len(S.rows) => PrintT("@@ " \o ToJson([sweep |-> t, bad |-> bad', phase |-> phase'])))
Spec == Init /\ [][Next]_vars
=============================================================================
