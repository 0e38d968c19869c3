--------------------------- MODULE MachineTrace ---------------------------
(* Conformance of recorded executions of the real engine with Machine.     *)
(* traces.json: a sequence of runs, each with run-wide fields g and a       *)
(* sequence invs of invocations with what was observed (obs).  Every run is *)
(* an initial state; each invocation is replayed by the machine and then    *)
(* compared, clause by clause; the verdicts are total.                      *)
EXTENDS Machine, Json, FiniteSets
Runs == JsonDeserialize("traces.json")
VARIABLES t, k, m, phase, bad
vars == <<t, k, m, phase, bad>>

R == Runs[t].g @@ Runs[t].invs[k]
Idle == [stack |-> <<>>, store |-> <<>>, bal |-> <<>>, obs |-> <<>>, ncall |-> 0]

Begin(store, bal, r) ==
  LET f == NewFrame(1, r.to, r.m, r.ops, r.from, r.value, r.limit, r.ro, store, bal) IN
  [stack |-> <<f>>, store |-> store, bal |-> bal, obs |-> <<NewObs(f)>>, ncall |-> 0]

Init == /\ t \in 1..Len(Runs) /\ k = 1 /\ phase = "run" /\ bad = {}
        /\ m = Begin(Runs[t].g.store, Runs[t].g.bal, Runs[t].g @@ Runs[t].invs[1])

Work == /\ phase = "run" /\ ~Done(m)
        /\ m' = Step(m, R) /\ UNCHANGED <<t, k, phase, bad>>

\* an exception whose text the specification leaves open is written with "*"
SameResults(xs, os) ==
  /\ Len(xs) = Len(os)
  /\ \A i \in 1..Len(xs) :
       \/ xs[i] = os[i]
       \/ /\ xs[i][1] = "ex" /\ os[i][1] = "ex" /\ xs[i][4] = "*"
          /\ xs[i][2] = os[i][2] /\ xs[i][3] = os[i][3]
\* clause names of what differs between the frame the machine computed and the one observed
Diff(x, o) ==
     (IF x.to # o.to \/ x.m # o.m \/ x.flag # o.flag \/ x.value # o.value THEN {"route"} ELSE {})
  \cup (IF x.limit # o.limit THEN {"limit"} ELSE {})
  \cup (IF ~SameResults(x.res, o.res) THEN {"results"} ELSE {})
  \cup (IF x.ev # o.ev THEN {"events"} ELSE {})
  \cup (IF Len(x.calls) # Len(o.calls)
           \/ \E i \in 1..Len(x.calls) : <<x.calls[i][1], x.calls[i][2], x.calls[i][4], x.calls[i][5]>>
                                       # <<o.calls[i][1], o.calls[i][2], o.calls[i][4], o.calls[i][5]>>
        THEN {"calls"} ELSE {})
  \cup (IF Len(x.calls) = Len(o.calls) /\ \E i \in 1..Len(x.calls) : x.calls[i][3] # o.calls[i][3]
        THEN {"budget"} ELSE {})
  \* a search is told the steps that are left
  \cup (IF x.scans # o.scans THEN {"budget"} ELSE {})
  \cup (IF x.status = 0 /\ x.fee # o.fee THEN {"fee"} ELSE {})
  \cup (IF o.nfee > 1 THEN {"fee"} ELSE {})
  \cup (IF x.status # o.status THEN {"status"} ELSE {})
  \cup (IF x.status # 0 /\ o.status = 0 THEN {"passed"} ELSE {})
  \cup (IF x.status # 0 /\ x.msg # "*" /\ x.msg # o.msg THEN {"message"} ELSE {})
  \cup (IF x.steps # o.steps THEN {"steps"} ELSE {})
  \cup (IF o.steps > o.limit THEN {"overlimit"} ELSE {})
  \cup (IF x.status = 0 /\ x.val # o.val THEN {"value"} ELSE {})
  \cup (IF (o.flag \/ o.m = "ask") /\ (o.nw > 0 \/ o.ev # <<>>) THEN {"readonly"} ELSE {})
Frames(xs, os) == (IF Len(xs) # Len(os) THEN {<<0, "frames">>} ELSE {})
  \cup UNION {{<<i, c>> : c \in Diff(xs[i], os[i])} : i \in 1..(IF Len(xs) < Len(os) THEN Len(xs) ELSE Len(os))}

\* the storage of a contract as the node holds it: label -> encoding
Stored(mm, a) == LET st == Rd(mm.store, a) IN [l \in DOMAIN st |-> st[l][4]]
Compare == /\ phase = "run" /\ Done(m)
           /\ LET o == Runs[t].invs[k].obs
                  d == Frames(m.obs, o)
                       \cup (IF \E a \in DOMAIN R.after : Stored(m, a) # R.after[a] THEN {<<0, "store">>} ELSE {})
                       \cup (IF R.balafter # [a \in DOMAIN R.balafter |-> IF a \in DOMAIN m.bal THEN m.bal[a] ELSE 0] THEN {<<0, "balance">>} ELSE {})
              IN /\ bad' = bad \cup {<<k, x[1], x[2]>> : x \in d}
                 /\ IF Runs[t].g.marks
                    THEN PrintT("@@ " \o ToJson([t |-> t, k |-> k, marks |-> m.obs[1].marks, obs |-> m.obs]))
                    ELSE TRUE
           /\ IF k < Len(Runs[t].invs)
              THEN /\ k' = k + 1 /\ m' = Begin(m.store, m.bal, Runs[t].g @@ Runs[t].invs[k + 1])
                   /\ UNCHANGED <<t, phase>>
              ELSE /\ phase' = "end" /\ m' = Idle /\ UNCHANGED <<t, k>>
Verdict == /\ phase = "end"
           /\ PrintT("@@ " \o ToJson([verdict |-> t, bad |-> bad]))
           /\ phase' = "over" /\ UNCHANGED <<t, k, m, bad>>
Next == Work \/ Compare \/ Verdict
Spec == Init /\ [][Next]_vars
TypeOK == phase \in {"run", "end", "over"}
=============================================================================
