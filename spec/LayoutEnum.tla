----------------------------- MODULE LayoutEnum ----------------------------
(* Items of storage: layout.json gives wide (values), small (values put     *)
(* anywhere), indexes (of arrays), subs (most sub-databases), len (most keys),  *)
(* wides: for each length of the path, how many of it may be wide.              *)
EXTENDS Layout, Json
D == JsonDeserialize("layout.json")
VARIABLES it, shown
vars == <<it, shown>>
Range(s) == {s[i] : i \in 1..Len(s)}
Small == Range(D.small)
All == Range(D.wide) \cup Small
IsWide(v) == IF v \in Small THEN 0 ELSE 1
RECURSIVE Wides(_)
Wides(s) == IF s = <<>> THEN 0 ELSE IsWide(Head(s)) + Wides(Tail(s))
Whole(i) == <<i.name>> \o i.subs \o i.keys
\* (an array takes every index)
Open(i) == IF i.kind = "array" THEN <<i.name>> \o i.subs ELSE Whole(i)
Fits(i) == Wides(Open(i)) <= D.wides[Len(Open(i))]
Init == /\ it \in {Item(k, n, <<>>, <<>>) : k \in {"var", "dict", "array"}, n \in All} /\ shown = FALSE
AddSub == /\ it.keys = <<>> /\ Len(it.subs) < D.subs
          /\ \E s \in All : s[1] = "bytes" /\ it' = [it EXCEPT !.subs = Append(@, s)]
AddKey == /\ it.kind = "dict" /\ Len(it.keys) < D.len
          /\ \E k \in All : it' = [it EXCEPT !.keys = Append(@, k)]
Index == /\ it.kind = "array" /\ it.keys = <<>>
         /\ \E i \in Range(D.indexes) : it' = [it EXCEPT !.keys = <<i>>]
Grow == ~shown /\ (AddSub \/ AddKey \/ (Index /\ Wides(Open(it)) <= 1)) /\ Len(Whole(it')) <= Len(D.wides)
        /\ Fits(it') /\ shown' = FALSE
Whole1 == CASE it.kind = "var" -> TRUE [] it.kind = "dict" -> it.keys # <<>> [] OTHER -> Len(it.keys) = 1
Show == /\ ~shown /\ Whole1 /\ shown' = TRUE /\ UNCHANGED it
        /\ PrintT("@@ " \o ToJson([it |-> it, at |-> Preimage(it), holder |-> Preimage(Holder(it))]))
Next == Grow \/ Show
Spec == Init /\ [][Next]_vars
\* no two items share a place: the place tells the item
Distinct == ReadBack(Preimage(it)) = Same(it)
=============================================================================
