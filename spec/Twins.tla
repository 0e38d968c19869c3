------------------------------ MODULE Twins ------------------------------
(* Many contracts of one engine whose classes, methods, events and structures *)
(* have the same names and are declared differently: what each gives depends   *)
(* on its own declarations and on nothing that was loaded or run before.         *)
(* twins.json: contracts (layers of members, see Contract), steps: what is asked  *)
(* for, in order - [k |-> "deploy", c], which has the address run another         *)
(* contract, "api", "call" with a call of Contract, or "emit" with [e event, a      *)
(* arguments], by the method emit.                                                   *)
EXTENDS Contract, Json
D == JsonDeserialize("twins.json")
VARIABLES i, runs
vars == <<i, runs>>
Letter(k) == CASE k = "int" -> {"i", "z"} [] k = "bool" -> {"z"} [] k = "str" -> {"s"} [] k = "bytes" -> {"b"} [] OTHER -> {"a"}
TypeName(t) == IF t[1] = "ref" THEN "Address" ELSE t[1]
RECURSIVE Joined(_, _)
Joined(ps, j) == IF j > Len(ps) THEN "" ELSE (IF j = 1 THEN "" ELSE ",") \o TypeName(ps[j][2]) \o Joined(ps, j + 1)
Signed(m) == m.n \o "(" \o Joined(m.ps, 1) \o ")"
\* an event recorded: the indexed arguments after the signature, and the others
Emission(m, a) ==
  LET full == Len(a) <= Len(m.ps) /\ \A j \in (Len(a) + 1)..Len(m.ps) : m.ps[j][3] # NoDef
      arg(j) == IF j <= Len(a) THEN a[j] ELSE <<m.ps[j][3][1], m.ps[j][3][2]>>
      fits == \A j \in 1..Len(m.ps) : arg(j)[1] = "n" \/ arg(j)[1] \in Letter(m.ps[j][2][1])
  IN IF ~full \/ ~fits THEN [ok |-> FALSE, codes |-> {5}]
     ELSE [ok |-> TRUE, sig |-> Signed(m), indexed |-> [j \in 1..Indexed(m) |-> arg(j)],
           data |-> [j \in 1..(Len(m.ps) - Indexed(m)) |-> arg(Indexed(m) + j)]]
Outcome(ls, s) ==
  CASE s.k = "api" -> [ok |-> Accepted(ls), api |-> IF Accepted(ls) THEN Api(ls) ELSE {}]
    [] s.k = "call" -> Dispatch(ls, s.call)
    [] s.k = "emit" -> LET d == Dispatch(ls, [m |-> "emit", v |-> 0, kind |-> "list", a |-> << <<"s", "">> >>]) IN
         IF ~d.ok THEN d
         ELSE IF "READONLY" \in Flags(Member(ls, "emit")) THEN [ok |-> FALSE, codes |-> {5}]
         ELSE Emission(Member(ls, s.e), s.a)
    [] s.k = "deploy" -> [ok |-> TRUE]
Init == i = 1 /\ runs = 1
Step == /\ i <= Len(D.steps) /\ i' = i + 1
        /\ LET s == D.steps[i] IN
           /\ runs' = IF s.k = "deploy" THEN s.c ELSE runs
           /\ PrintT("@@ " \o ToJson([i |-> i, c |-> runs', out |-> Outcome(D.contracts[runs'], s)]))
Next == Step
Spec == Init /\ [][Next]_vars
\* a refused contract gives nothing, and what is recorded is of the declared shape
Last == D.steps[i - 1]
Refusing == i > 1 /\ Last.k # "deploy" /\ ~Accepted(D.contracts[runs]) => ~Outcome(D.contracts[runs], Last).ok
Shaped == i > 1 /\ Last.k = "emit" => LET o == Outcome(D.contracts[runs], Last) IN
  o.ok => Len(o.indexed) <= 3 /\ Len(o.indexed) + Len(o.data) = Len(Member(D.contracts[runs], Last.e).ps)
=============================================================================
