------------------------------ MODULE Loader ------------------------------
(* Which code an invocation runs.  The node keeps code in directories, one   *)
(* per deployed package, and names the directory with every invocation; the   *)
(* engine loads a directory the first time it is named and keeps the class.   *)
(* The node may name a directory before it is there, or while files are still *)
(* missing; once complete (good or broken) it is never written again.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

D == JsonDeserialize("loader.json")   \* paths, addrs, good, broken, partial, length, chains
Range(s) == {s[i] : i \in 1..Len(s)}
Paths == Range(D.paths)
Addrs == Range(D.addrs)
Good == Range(D.good)
Broken == Range(D.broken)
Partial == Range(D.partial)
Nothing == "none"

VARIABLES disk, cache, code, hist
vars == <<disk, cache, code, hist>>
Init == /\ disk = [p \in Paths |-> Nothing] /\ cache = disk
        /\ code \in {[a \in Addrs |-> D.paths[1]]} /\ hist = <<>>

\* what a directory gives when it is named
Loads(p) == cache[p] # Nothing \/ disk[p] \in Good
Class(p) == IF cache[p] # Nothing THEN cache[p] ELSE disk[p]
Codes(p) == CASE disk[p] = Nothing -> {2} [] disk[p] = "dot" -> {5} [] OTHER -> 1..40
Fail(p) == [ok |-> FALSE, codes |-> Codes(p)]
Keep(P) == [p \in Paths |-> IF p \in P /\ Loads(p) THEN Class(p) ELSE cache[p]]

\* the first contract of a chain calls the second, and so on; a failing one ends it
RECURSIVE Run(_)
Run(ch) == IF ch = <<>> THEN [ok |-> TRUE, v |-> "end", inner |-> <<>>]
           ELSE LET p == code[Head(ch)] IN
                IF Loads(p) THEN [ok |-> TRUE, v |-> Class(p), inner |-> <<Run(Tail(ch))>>] ELSE Fail(p)
RECURSIVE Entered(_)
Entered(ch) == IF ch = <<>> THEN {} ELSE LET p == code[Head(ch)] IN
               IF Loads(p) THEN {p} \cup Entered(Tail(ch)) ELSE {}

Rec(h) == hist' = Append(hist, h)
Put == \E p \in Paths, c \in Good \cup Broken \cup Partial :
         /\ disk[p] \in {Nothing} \cup Partial /\ disk[p] # c
         /\ disk' = [disk EXCEPT ![p] = c]
         /\ Rec([op |-> "put", p |-> p, c |-> c]) /\ UNCHANGED <<cache, code>>
Deploy == \E a \in Addrs, p \in Paths :
         /\ code[a] # p /\ code' = [code EXCEPT ![a] = p]
         /\ Rec([op |-> "deploy", a |-> a, p |-> p]) /\ UNCHANGED <<disk, cache>>
Invoke == \E i \in 1..Len(D.chains) : LET ch == D.chains[i] IN
         /\ cache' = Keep(Entered(ch))
         /\ Rec([op |-> "invoke", ch |-> ch, out |-> Run(ch)]) /\ UNCHANGED <<disk, code>>
Api == \E p \in Paths :
         /\ cache' = Keep({p})
         /\ Rec([op |-> "api", p |-> p, out |-> IF Loads(p) THEN [ok |-> TRUE, v |-> Class(p)] ELSE [ok |-> FALSE, codes |-> 1..40]])
         /\ UNCHANGED <<disk, code>>
More == Len(hist) < D.length /\ (Put \/ Deploy \/ Invoke \/ Api)
Out == Len(hist) = D.length /\ hist[D.length].op \in {"invoke", "api"} /\ PrintT("@@ " \o ToJson(hist)) /\ FALSE /\ UNCHANGED vars
Next == More \/ Out
Spec == Init /\ [][Next]_vars

\* the class kept for a directory is that of its files, for ever
Faithful == \A p \in Paths : cache[p] # Nothing => cache[p] = disk[p] /\ disk[p] \in Good
\* so what an invocation runs depends on nothing but the directory named for it
Last == hist[Len(hist)]
Named == hist # <<>> /\ Last.op = "invoke" =>
           LET p == code[Last.ch[1]] IN Last.out.ok = (disk[p] \in Good) /\ (Last.out.ok => Last.out.v = disk[p])
\* a failure to load keeps nothing back
Stable == [][\A p \in Paths : cache[p] # Nothing => cache'[p] = cache[p]]_vars
=============================================================================
