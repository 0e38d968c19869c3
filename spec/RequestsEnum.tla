--------------------------- MODULE RequestsEnum ---------------------------
(* Every operation with every kind of value, guarded or not, and the programs     *)
(* given.  requests.json: ops, kinds [name |-> [c, n, code]], skip, words.                       *)
EXTENDS Integers, Sequences, Json, TLC
D == JsonDeserialize("requests.json")
Cl(k) == D.kinds[k].c
Sz(k) == D.kinds[k].n
Js(k) == D.kinds[k].json
Di(k) == D.kinds[k].text = "7"
Co(k) == D.kinds[k].code
R == INSTANCE Requests WITH Class <- Cl, Size <- Sz, Code <- Co, Json <- Js, Digits <- Di
Range(q) == {q[i] : i \in 1..Len(q)}
VARIABLES p, done
Init == /\ p \in ({<< <<o, k, g>> >> : o \in Range(D.ops), k \in DOMAIN D.kinds, g \in BOOLEAN} \ {<< <<q[1], q[2], g>> >> : q \in Range(D.skip), g \in BOOLEAN}) \cup Range(D.words)
        /\ done = FALSE
Run == ~done /\ done' = TRUE /\ UNCHANGED p /\ PrintT("@@ " \o ToJson([p |-> p, out |-> R!Outcome(p)]))
Spec == Init /\ [][Run]_<<p, done>>
O == R!Outcome(p)
\* an address asked with is one; an amount is a number, and not negative; nothing without a form is sent
Sound == \A i \in 1..Len(O.out) : LET m == O.out[i] IN
  /\ m.what = "call" => (m.to = "T" \/ Cl(m.to) = "addr") /\ Cl(m.amount) \in {"int", "bool"} /\ Sz(m.amount) >= 0
  /\ m.what = "balance" => Cl(m.to) = "addr"
  /\ m.what \in {"event", "set", "key", "name"} => Cl(m.arg) \in R!Formed
\* what fails is asked for by nothing: guarded, it leaves no trace
Nothing == Len(p) = 1 /\ p[1][3] => (O.status = 0 \/ p[1][1] = "ret")
=============================================================================
