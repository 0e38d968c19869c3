---------------------------- MODULE AddressEnum ----------------------------
(* Texts and byte strings at and around addresses.  address.json: texts,      *)
(* chars (put or inserted anywhere), byteses, bytes (put or inserted            *)
(* anywhere), edits: how many edits from a given text or byte string.           *)
EXTENDS Address, Json
D == JsonDeserialize("address.json")
VARIABLES kind, s, n, shown
vars == <<kind, s, n, shown>>
Range(q) == {q[i] : i \in 1..Len(q)}
Init == /\ \/ kind = "text" /\ s \in Range(D.texts)
           \/ kind = "bytes" /\ s \in Range(D.byteses)
        /\ n = 0 /\ shown = FALSE
Alphabet == IF kind = "text" THEN Range(D.chars) ELSE Range(D.bytes)
Insert(i, c) == SubSeq(s, 1, i) \o <<c>> \o SubSeq(s, i + 1, Len(s))
Edit == /\ ~shown /\ n < D.edits /\ n' = n + 1 /\ UNCHANGED <<kind, shown>>
        /\ \/ \E i \in 1..Len(s), c \in Alphabet : s' = [s EXCEPT ![i] = c]
           \/ \E i \in 0..Len(s), c \in Alphabet : s' = Insert(i, c)
           \/ \E i \in 1..Len(s) : s' = SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
           \/ \E i \in 0..Len(s) : s' \in {SubSeq(s, 1, i), SubSeq(s, i + 1, Len(s))}
           \/ s' = s \o s
Result == IF kind = "text" THEN FromText(s) ELSE FromBytes(s)
Show == /\ ~shown /\ shown' = TRUE /\ UNCHANGED <<kind, s, n>>
        /\ PrintT("@@ " \o ToJson([k |-> kind, s |-> s, r |-> Result,
             t |-> IF Result[1] = "addr" THEN ToText(Result[2]) ELSE <<>>]))
Next == Edit \/ Show
Spec == Init /\ [][Next]_vars
\* both forms lead back to the address, and only they lead to it
Inverse ==
  Result[1] = "addr" =>
    LET a == Result[2] IN
    /\ FromText(ToText(a)) = Got(a) /\ FromBytes(ToBytes(a)) = Got(a) /\ Make(a.c, a.body) = Got(a)
    /\ IF kind = "text" THEN ToText(a) = s ELSE (IF Len(s) = 21 THEN ToBytes(a) = s ELSE ToBytes(a) = <<0>> \o s)
=============================================================================
