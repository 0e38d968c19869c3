---------------------------- MODULE ContractEnum ----------------------------
(* Every contract that takes one option out of each slot, and every call on  *)
(* it; with what must hold of the interface and the dispatch of any contract.*)
(* contracts.json: layers (number of classes of the chain), slots: sequences  *)
(* of options, an option being a sequence of <<layer, member>>; calls.        *)
EXTENDS Contract, Json
D == JsonDeserialize("contracts.json")
VARIABLES pick, phase, c
vars == <<pick, phase, c>>
RECURSIVE Gather(_, _)
Gather(k, i) == IF i > Len(pick) THEN <<>>
                ELSE LET o == D.slots[i][pick[i]] IN
                     SelectSeq(o, LAMBDA x : x[1] = k) \o Gather(k, i + 1)
Layer(k) == LET g == Gather(k, 1) IN [i \in 1..Len(g) |-> g[i][2]]
Ls == [k \in 1..D.layers |-> Layer(k)]

Init == pick = <<>> /\ phase = "build" /\ c = 0
Build == /\ phase = "build" /\ Len(pick) < Len(D.slots)
         /\ \E i \in 1..Len(D.slots[Len(pick) + 1]) : pick' = Append(pick, i)
         /\ UNCHANGED <<phase, c>>
Deploy == /\ phase = "build" /\ Len(pick) = Len(D.slots)
          /\ phase' = "live"
          /\ PrintT("@@ " \o ToJson([p |-> pick, ok |-> Accepted(Ls), api |-> IF Accepted(Ls) THEN Api(Ls) ELSE {}]))
          /\ UNCHANGED <<pick, c>>
Call == /\ phase = "live" /\ phase' = "over" /\ UNCHANGED pick
        /\ \E i \in 1..Len(D.calls) :
             /\ c' = i
             /\ PrintT("@@ " \o ToJson([p |-> pick, c |-> i, out |-> Dispatch(Ls, D.calls[i])]))
Next == Build \/ Deploy \/ Call
Spec == Init /\ [][Next]_vars

Done == phase = "over"
Entries == Api(Ls)
\* one entry per name; a listed method that can be paid is not read-only
Interface == phase # "build" /\ Accepted(Ls) =>
  /\ \A e, f \in Entries : e[2] = f[2] => e = f
  /\ \A e \in Entries : ~((e[3] % 2) = 1 /\ e[3] \div 4 = 1)
  /\ \A e \in Entries : e[1] = 2 => e[4] <= 3 /\ e[4] <= Len(e[5])
\* what runs is what is listed, and receives coins only if it is listed as payable
Reachable == Done =>
  LET d == Dispatch(Ls, D.calls[c]) IN
  d.ok => \E e \in Entries : /\ e[2] = D.calls[c].m /\ e[1] \in {0, 1}
                             /\ (D.calls[c].v > 0 => e[3] \div 4 = 1)
\* and what is listed as external can be reached, for some value
Complete == phase = "live" /\ Accepted(Ls) => \A e \in Entries : (e[1] = 0 /\ e[3] > 1) =>
  \/ Dispatch(Ls, [m |-> e[2], v |-> 0, kind |-> "list", a |-> [i \in 1..Len(e[5]) |-> <<"i", "1">>]]).ok
=============================================================================
