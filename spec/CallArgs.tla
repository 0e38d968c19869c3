------------------------------ MODULE CallArgs ------------------------------
(* What a call asks the node for: target, amount, method and parameters, out *)
(* of the way the call was written - through an interface with arguments by   *)
(* position and by name, by name of the method with a map, or as a transfer.   *)
(* A value is a sequence starting with its tag; "f" has no encoding.            *)
EXTENDS Integers, Sequences, TLC, Json

D == JsonDeserialize("calls.json")     \* letters, length

RECURSIVE Encodable(_)
Encodable(v) == CASE v[1] = "f" -> FALSE
                  [] v[1] = "l" -> \A i \in 1..Len(v[2]) : Encodable(v[2][i])
                  [] v[1] = "d" -> \A i \in 1..Len(v[2]) : Encodable(v[2][i][2])
                  [] OTHER -> TRUE

\* a letter: [s style, to, v amount, m method, a by position, k by name (pairs)]
Params(f) == IF f.k = << >> THEN <<"l", f.a>>
             ELSE IF f.a = << >> THEN <<"d", f.k>>
             ELSE <<"d", Append(f.k, <<".", <<"l", f.a>> >>)>>
Method(f) == IF f.m = "fallback" THEN "" ELSE f.m
Amount(pend, f) == IF f.s = "iface" THEN pend[f.to] ELSE f.v
Request(pend, f) == <<f.to, Amount(pend, f), Method(f), Params(f)>>

Targets == {D.letters[i].to : i \in 1..Len(D.letters)}
VARIABLES pend, reqs, out, p
vars == <<pend, reqs, out, p>>
Init == pend = [t \in Targets |-> 0] /\ reqs = << >> /\ out = << >> /\ p = << >>
Icx(f) == /\ f.s = "icx"
          /\ IF f.v < 0 THEN out' = Append(out, "error") /\ pend' = pend
             ELSE out' = Append(out, "set") /\ pend' = [pend EXCEPT ![f.to] = f.v]
          /\ UNCHANGED reqs
Call(f) == /\ f.s # "icx"
           /\ pend' = IF f.s = "iface" THEN [pend EXCEPT ![f.to] = 0] ELSE pend
           /\ IF Encodable(Params(f)) THEN reqs' = Append(reqs, Request(pend, f)) /\ out' = Append(out, "asked")
              ELSE out' = Append(out, "error") /\ UNCHANGED reqs
Do(i) == LET f == D.letters[i] IN (Icx(f) \/ Call(f)) /\ p' = Append(p, i)
Next == /\ Len(p) < D.length /\ \E i \in 1..Len(D.letters) : Do(i)
        /\ (Len(p') = D.length => PrintT("@@ " \o ToJson([p |-> p', out |-> out', reqs |-> reqs'])))
Spec == Init /\ [][Next]_vars

\* from the request alone, every argument can be told, and nothing else is there
Given(ps) == IF ps[1] = "l" THEN [a |-> ps[2], k |-> << >>]
             ELSE LET n == Len(ps[2]) IN
                  IF ps[2][n][1] = "." THEN [a |-> ps[2][n][2][2], k |-> SubSeq(ps[2], 1, n - 1)]
                  ELSE [a |-> << >>, k |-> ps[2]]
Asked == {i \in 1..Len(p) : out[i] = "asked"}
RECURSIVE Nth(_, _)
Nth(i, n) == IF out[i] = "asked" THEN (IF n = 1 THEN i ELSE Nth(i + 1, n - 1)) ELSE Nth(i + 1, n)
Complete == \A n \in 1..Len(reqs) :
  LET f == D.letters[p[Nth(1, n)]] IN
  /\ Given(reqs[n][4]) = [a |-> f.a, k |-> f.k] /\ reqs[n][1] = f.to
  /\ f.s # "iface" => reqs[n][2] = f.v
\* an amount set on an interface is spent by the next call through it, whatever becomes of the call
Once == \A t \in Targets : pend[t] # 0 =>
  \E i \in 1..Len(p) : /\ D.letters[p[i]].s = "icx" /\ D.letters[p[i]].to = t /\ D.letters[p[i]].v = pend[t]
                       /\ \A j \in i + 1..Len(p) : ~(D.letters[p[j]].s = "iface" /\ D.letters[p[j]].to = t)
=============================================================================
