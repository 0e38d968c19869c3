---------------------------- MODULE MachineEnum ----------------------------
(* All programs of at most maxlen letters over an alphabet of operations,   *)
(* in every given setup (and, where limits are given, under every limit),   *)
(* run by the machine of module Machine, with the guarantees the machine    *)
(* itself must provide as invariants.  Every finished run is printed with   *)
(* its outcome, to be replayed on the real engine.                          *)
EXTENDS Machine, Json, FiniteSets
D == JsonDeserialize("enum.json")
Letters == D.letters
Setups == D.setups
VARIABLES s, p, lim, m, phase
vars == <<s, p, lim, m, phase>>

RECURSIVE Flat(_, _)
Flat(q, i) == IF i > Len(q) THEN <<>> ELSE Letters[q[i]] \o Flat(q, i + 1)
R == [Setups[s] EXCEPT !.ops = Flat(p, 1), !.limit = lim]
Limits(i) == IF Len(D.limits) = 0 THEN {Setups[i].limit} ELSE {D.limits[x] : x \in 1..Len(D.limits)}
Idle == [stack |-> <<>>, store |-> <<>>, bal |-> <<>>, obs |-> <<>>, ncall |-> 0]

Init == /\ s \in 1..Len(Setups) /\ p = <<>> /\ lim \in Limits(s) /\ m = Idle /\ phase = "build"
Build == /\ phase = "build" /\ Len(p) < D.maxlen
         /\ \E i \in 1..Len(Letters) : p' = Append(p, i)
         /\ UNCHANGED <<s, lim, m, phase>>
Go == /\ phase = "build" /\ Len(p) >= D.minlen
      /\ phase' = "run" /\ m' = Start(R) /\ UNCHANGED <<s, p, lim>>
Work == /\ phase = "run" /\ ~Done(m) /\ m' = Step(m, R) /\ UNCHANGED <<s, p, lim, phase>>
Stored(mm, a) == LET st == Rd(mm.store, a) IN [l \in DOMAIN st |-> st[l][4]]
Report == /\ phase = "run" /\ Done(m)
          /\ PrintT("@@ " \o ToJson([s |-> s, p |-> p, limit |-> lim, obs |-> m.obs, bal |-> m.bal,
                                     store |-> [a \in DOMAIN m.store |-> Stored(m, a)]]))
          /\ phase' = "over" /\ m' = Idle /\ UNCHANGED <<s, p, lim>>
Next == Build \/ Go \/ Work \/ Report
Spec == Init /\ [][Next]_vars

\* ---- what the machine itself guarantees
\* no frame uses more than it was given, and a callee is given no more than its
\* caller had left
Budget == \A i \in 1..Len(m.stack) :
            /\ m.stack[i].u <= m.stack[i].lim
            /\ i > 1 => m.stack[i].lim <= m.stack[i - 1].lim - m.stack[i - 1].u
\* below a read-only frame nothing changes, and everything called from it is read-only
ReadOnlyFrames == \A i \in 1..Len(m.stack) : m.stack[i].flag =>
            /\ m.store = m.stack[i].sst
            /\ m.bal = m.stack[i].sbal \/ (m.stack[i].value > 0 /\ ~m.stack[i].entered)
            /\ \A j \in i..Len(m.stack) : m.stack[j].flag /\ m.obs[m.stack[j].id].ev = <<>> /\ m.stack[j].fee = 0
RECURSIVE SumB(_, _)
SumB(b, S) == IF S = {} THEN 0 ELSE LET a == CHOOSE x \in S : TRUE IN b[a] + SumB(b, S \ {a})
\* coins move, they do not appear or vanish
Conserved == phase = "run" => SumB(m.bal, DOMAIN m.bal) = SumB(Setups[s].bal, DOMAIN Setups[s].bal)
\* what a frame sees of itself at its end is what it saw at its beginning
Balanced == \A i \in 1..Len(m.obs) : m.obs[i].status = 0 =>
            LET r == m.obs[i].res IN
            /\ r[1][1] = "enter" /\ r[Len(r)][1] = "leave"
            /\ <<r[1][3], r[1][4], r[1][5]>> = <<r[Len(r)][2], r[Len(r)][3], r[Len(r)][4]>>
\* a failed frame leaves no trace in storage and balances
Rollback == [][\A i \in 1..Len(m.stack) :
                 (i = Len(m'.stack) + 1 /\ m'.obs # <<>> /\ m'.obs[m.stack[i].id].status # 0)
                 => m'.store = m.stack[i].sst /\ m'.bal = m.stack[i].sbal]_vars
\* steps are monotonic along calls: what a caller is charged for a call is at
\* least what the callee reports
Charged == [][\A i \in 2..Len(m.stack) :
                 (Len(m'.stack) = i - 1 /\ m'.stack # <<>>) =>
                 m'.stack[i - 1].u >= m.stack[i - 1].u + m'.obs[m.stack[i].id].steps
                 \/ m'.stack[i - 1].u = m'.stack[i - 1].lim]_vars
=============================================================================
