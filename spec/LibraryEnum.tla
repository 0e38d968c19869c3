---------------------------- MODULE LibraryEnum ----------------------------
(* Programs of library calls under a step limit.  lib.json: T tables, api,     *)
(* revs, calls, length, limits (empty: without), atoms and depth of JSON values *)
(* to build, names of map entries.                                              *)
EXTENDS Library, Json, FiniteSets
D == JsonDeserialize("lib.json")
Range(q) == {q[i] : i \in 1..Len(q)}
VARIABLES rev, p, used, out, lim
vars == <<rev, p, used, out, lim>>
\* JSON values of the given depth
RECURSIVE Values(_)
Values(n) == IF n = 0 THEN Range(D.atoms)
             ELSE LET V == Values(n - 1) IN
                  V \cup {<<"list", << >> >>, <<"map", << >> >>}
                    \cup {<<"list", <<x>> >> : x \in V} \cup {<<"list", <<x, y>> >> : x \in V, y \in Range(D.few)}
                    \cup {<<"map", << <<a, x>> >> >> : a \in Range(D.names), x \in V}
                    \cup {<<"map", << <<a, x>>, <<b, y>> >> >> : <<a, b>> \in {c \in Range(D.names) \X Range(D.names) : c[1] # c[2]}, x \in V, y \in Range(D.few)}
\* texts one edit away from those given
Edits(s) == UNION {{SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)), SubSeq(s, 1, i - 1)} : i \in 1..Len(s)}
            \cup {[s EXCEPT ![i] = c] : i \in 1..Len(s), c \in Range(D.chars)}
            \cup {SubSeq(s, 1, i) \o <<c>> \o SubSeq(s, i + 1, Len(s)) : i \in 0..Len(s), c \in Range(D.chars)}
Calls == Range(D.calls) \cup {[f |-> "loads", v |-> t] : t \in UNION {Edits(s) : s \in Range(D.edit)}} \cup {[f |-> "dumps", v |-> x] : x \in Values(D.depth)}
           \cup {[f |-> "loads", v |-> Dump(x, z)] : x \in {y \in Values(D.depth) : Good(y)}, z \in BOOLEAN}
Init == /\ rev \in Range(D.revs) /\ p = << >> /\ used = 0 /\ out = << >>
        /\ lim \in (IF D.limits = << >> THEN {2000000000} ELSE Range(D.limits))
Failed == out # << >> /\ out[Len(out)][1] = "steps"
Do(c) == LET r == Apply(D.T, D.api, rev, c) IN
         /\ p' = Append(p, c)
         /\ IF used + r[3] > lim THEN used' = lim /\ out' = Append(out, <<"steps", 10>>)
            ELSE used' = used + r[3] /\ out' = Append(out, <<r[1], r[2]>>)
         /\ UNCHANGED <<rev, lim>>
End == Len(p') = D.length \/ (out' # << >> /\ out'[Len(out')][1] = "steps")
Next == /\ Len(p) < D.length /\ ~Failed /\ \E c \in Calls : Do(c)
        /\ (End => PrintT("@@ " \o ToJson([rev |-> rev, lim |-> lim, p |-> p', used |-> used', out |-> out'])))
Spec == Init /\ [][Next]_vars
Bounded == used <= lim
\* what was written is read back, whatever the spacing
RECURSIVE Named(_)
Named(v) == CASE v[1] = "list" -> \A i \in 1..Len(v[2]) : Named(v[2][i])
              [] v[1] = "map" -> \A i \in 1..Len(v[2]) : v[2][i][1][1] = "text" /\ Named(v[2][i][2])
              [] OTHER -> TRUE
RoundTrip == \A x \in Values(D.depth) : Good(x) /\ Named(x) => Load(Dump(x, TRUE)) = <<"json", x>> /\ Load(Dump(x, FALSE)) = <<"json", x>>
ASSUME D.check => RoundTrip
=============================================================================
