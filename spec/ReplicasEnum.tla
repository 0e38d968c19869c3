---------------------------- MODULE ReplicasEnum ----------------------------
(* One node's schedules.  replicas.json: words (transactions to execute in       *)
(* order), locals (<<"query", transaction>>, <<"api", number>>, <<"restart">>),    *)
(* budget: at most so many local actions.                                            *)
EXTENDS Replicas, Json, TLC
D == JsonDeserialize("replicas.json")
Range(q) == {q[i] : i \in 1..Len(q)}
VARIABLES w, s, done, n, sched, outs
vars == <<w, s, done, n, sched, outs>>
Init == w \in 1..Len(D.words) /\ s = Blank /\ done = 0 /\ n = 0 /\ sched = << >> /\ outs = << >>
W == D.words[w]
Show == done' = Len(W) => PrintT("@@ " \o ToJson([w |-> w, sched |-> sched']))
Tx == /\ done < Len(W)
      /\ LET r == Step(s, W[done + 1]) IN s' = r.s /\ outs' = Append(outs, r.out) /\ sched' = Append(sched, << <<"tx">>, r.out>>)
      /\ done' = done + 1 /\ UNCHANGED <<w, n>>
Local == /\ done < Len(W) /\ n < D.budget /\ n' = n + 1 /\ UNCHANGED <<w, s, done, outs>>
         /\ \E l \in Range(D.locals) : sched' = Append(sched, <<l, IF l[1] = "query" THEN Step(s, l[2]).out ELSE <<0, << >> >> >>)
Next == (Tx \/ Local) /\ Show
Spec == Init /\ [][Next]_vars
Agreement == s = Fold(Blank, W, done) /\ outs = Outs(W, done)
=============================================================================
