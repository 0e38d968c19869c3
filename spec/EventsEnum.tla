----------------------------- MODULE EventsEnum -----------------------------
(* Every declaration given with arguments by position, by name, both, too few,     *)
(* too many, doubled, unknown, and of every kind in every place.                     *)
(* events.json: decls, fit [type |-> values], vals (all), unknown (names), tables      *)
EXTENDS Events, Json, TLC
D == JsonDeserialize("events.json")
Range(q) == {q[i] : i \in 1..Len(q)}
Fit(d, i, k) == LET f == D.fit[d.ps[i][2]] IN f[((i + k) % Len(f)) + 1]
Kw(d, S, k, up) == LET n == Cardinality(S)
                       At(j) == CHOOSE i \in S : Cardinality({x \in S : x < i}) = (IF up THEN j - 1 ELSE n - j)
                   IN [j \in 1..n |-> <<d.ps[At(j)][1], Fit(d, At(j), k)>>]
Pos(d, n, k) == [i \in 1..n |-> IF i <= Len(d.ps) THEN Fit(d, i, k) ELSE D.vals[1]]
Shapes(d) == {[pos |-> Pos(d, n, 0), kw |-> Kw(d, S, 1, up)] : n \in 0..(Len(d.ps) + 1), S \in SUBSET (1..Len(d.ps)), up \in BOOLEAN}
Some(us) == [j \in 1..us |-> <<D.unknown[j], D.vals[1]>>]
Unknown(d) == {[pos |-> Pos(d, n, 1), kw |-> Kw(d, S, 0, TRUE) \o Some(us)]
               : n \in 0..Len(d.ps), S \in {{}} \cup {{i} : i \in 1..Len(d.ps)}, us \in 1..Len(D.unknown)}
Kinds(d) == {[pos |-> [Pos(d, Len(d.ps), 0) EXCEPT ![i] = v], kw |-> <<>>] : i \in 1..Len(d.ps), v \in Range(D.vals)}
  \cup {[pos |-> <<>>, kw |-> [j \in 1..Len(d.ps) |-> IF j = i THEN <<d.ps[j][1], v>> ELSE <<d.ps[j][1], Fit(d, j, 1)>>]]
        : i \in 1..Len(d.ps), v \in Range(D.vals)}
VARIABLES j, a, done
Init == /\ j \in 1..Len(D.decls) /\ done = FALSE
        /\ a \in Shapes(D.decls[j]) \cup Unknown(D.decls[j]) \cup Kinds(D.decls[j])
Out(ro) == Record(D.decls[j], a, ro)
Run == /\ ~done /\ done' = TRUE /\ UNCHANGED <<j, a>>
       /\ PrintT("@@ " \o ToJson([j |-> j, a |-> a, out |-> Out(FALSE), steps |-> [t \in 1..Len(D.tables) |-> Steps(D.tables[t], Out(FALSE))]]))
Spec == Init /\ [][Run]_<<j, a, done>>
\* each parameter is recorded once, the indexed ones first; nothing from a read-only frame; what is not recorded costs nothing
Whole == LET d == D.decls[j] o == Out(FALSE) IN
  /\ ~Out(TRUE).ok
  /\ o.ok => Len(o.ix) = d.x /\ Len(o.ix) + Len(o.data) = Len(d.ps) /\ o.size >= SignatureLen(d) /\ o.sig # Reserved
  /\ ~o.ok => \A t \in 1..Len(D.tables) : Steps(D.tables[t], o) = 0
\* the order of the arguments given by name says nothing
Turned(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Orderless == Record(D.decls[j], [a EXCEPT !.kw = Turned(@)], FALSE) = Out(FALSE)
=============================================================================
