----------------------------- MODULE TextsEnum -----------------------------
(* Every single operation, guarded or not, and the programs given.  Each is     *)
(* run by a number of nodes, in any order, each at a level of its own; they       *)
(* agree.  texts.json: ops, kinds, words.                                            *)
EXTENDS Texts, Json, TLC
D == JsonDeserialize("texts.json")
Range(q) == {q[i] : i \in 1..Len(q)}
Levels == {"error", "warn", "info", "debug", "trace"}
VARIABLES p, left, outs
vars == <<p, left, outs>>
Init == /\ p \in {<< <<o, k, g>> >> : o \in Range(D.ops), k \in Range(D.kinds), g \in BOOLEAN} \cup Range(D.words)
        /\ left = Levels /\ outs = {}
Run == /\ \E l \in left : /\ left' = left \ {l} /\ outs' = outs \cup {Outcome(p)}
                             /\ (IF left = {l} /\ l = "error" THEN PrintT("@@ " \o ToJson([p |-> p, out |-> Outcome(p)])) ELSE TRUE)
       /\ UNCHANGED p
Spec == Init /\ [][Run]_vars
Agreement == \A a, b \in outs : a = b
=============================================================================
