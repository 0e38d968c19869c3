------------------------------ MODULE TypeEnum ------------------------------
(* All type annotations up to a depth: which are accepted for a parameter,  *)
(* and how the interface describes them.                                     *)
EXTENDS Contract, Json
D == JsonDeserialize("types.json")
VARIABLES t, d, done
vars == <<t, d, done>>
Base == {<<b>> : b \in BaseTypes}
Bad == {<<"bad", D.bad[i]>> : i \in 1..Len(D.bad)}
Top == {<<"none">>, <<"ref">>}
Wide == {<<"struct", [i \in 1..n |-> <<"f" \o ToString(i), <<"int">> >>]>> : n \in {15, 16, 17}}
\* more that is no type of a parameter, alone and one level deep
Odd == {<<"bad", D.odd[i]>> : i \in 1..Len(D.odd)}
\* long chains of lists, structures and optionals
RECURSIVE Chain(_, _)
Link(w, x) == CASE w = 0 -> <<"list", x>> [] w = 1 -> <<"struct", << <<"x", x>> >> >>
                [] w = 2 -> <<"struct", << <<"y", <<"int">> >>, <<"x", x>> >> >> [] OTHER -> <<"opt", x>>
Chain(ws, x) == IF ws = <<>> THEN x ELSE Link(Head(ws), Chain(Tail(ws), x))
Chains == {Chain(ws, x) : ws \in UNION {[1..n -> 0..2] : n \in 3..(D.depth + 2)} \cup
                                 {<<1, 3, 1, 2>>, <<3, 1, 0, 1>>, <<2, 1, 1, 3>>, <<1, 1, 3, 0>>},
                         x \in {<<"int">>, <<"Address">>, <<"bad", "float">>, <<"bad", "dict">>}}
Init == /\ done = FALSE
        /\ \/ t \in Base \cup Bad \cup Top \cup Wide /\ d = 0
           \/ t \in Odd /\ d = D.depth - 1
           \/ t \in Chains /\ d = D.depth
Twice(a, b) == << "struct", << <<"x", a>>, <<"y", b>> >> >>
Inner == t \notin Top /\ d < D.depth
Wrap == /\ Inner /\ ~done /\ d' = d + 1 /\ done' = FALSE
        /\ \/ t' = <<"list", t>>
           \/ t[1] # "opt" /\ t' = <<"opt", t>>
           \/ t' = <<"struct", << <<"x", t>> >> >>
           \/ \E u \in Base \cup Bad : t' = <<"struct", << <<"x", t>>, <<"y", u>> >> >>
           \/ Core(t)[1] = "struct" /\ t' \in {Twice(t, t), Twice(Core(t), <<"list", Core(t)>>), Twice(<<"list", Core(t)>>, Core(t))}
           \/ \E u \in Base \cup Bad : t' = <<"struct", << <<"y", u>>, <<"x", t>> >> >>
M(r) == [n |-> "m", d |-> <<"readonly">>, ps |-> << <<"p", t, NoDef>> >>, r |-> r]
Show == /\ ~done /\ done' = TRUE /\ UNCHANGED <<t, d>>
        /\ PrintT("@@ " \o ToJson([t |-> t, ok |-> ParamType(t), out |-> Output(t),
             e |-> IF ParamType(t) THEN Input(<<"p", t, NoDef>>, TRUE) ELSE <<>>]))
Next == Wrap \/ Show
Spec == Init /\ [][Next]_vars
\* a described type can be told apart from the ones of another shape
Codes == ParamType(t) => Kind(t) \in {16 * i + j : i \in 0..(D.depth + 4), j \in {1, 2, 3, 4, 5, 8}}
=============================================================================
