----------------------------- MODULE CodecEnum -----------------------------
(* Values built from given leaves by lists, tuples and maps up to a depth.  *)
(* values.json: leaves, small (leaves put into containers), digits (bytes     *)
(* for integers), lens (lengths of long integers), keys (of maps), depth.     *)
EXTENDS Codec, Json
D == JsonDeserialize("values.json")
VARIABLES v, d, shown
vars == <<v, d, shown>>
Range(s) == {s[i] : i \in 1..Len(s)}
Byte == Range(D.digits)
Ints == UNION {[1..n -> Byte] : n \in 1..D.short}
Long == {<<a, b>> \o [i \in 1..n |-> c] : a \in Byte, b \in Byte, c \in {0, 90, 255}, n \in Range(D.lens)}
Init == /\ v \in Range(D.leaves) \cup {<<"int", b>> : b \in Ints \cup Long}
        /\ d = 0 /\ shown = FALSE
Small == Range(D.small)
Key(i) == D.keys[i]
Wrap == /\ ~shown /\ d < D.depth /\ (d > 0 \/ v \in Small) /\ d' = d + 1 /\ shown' = FALSE
        /\ \/ v' \in {<<"list", <<v>> >>, <<"tuple", <<v>> >>, <<"list", <<v, v>> >>}
           \/ \E i \in 1..Len(D.keys) : v' = <<"map", << <<Key(i), v>> >> >>
           \/ d = 0 /\ \E u \in Small : v' \in {<<"list", <<v, u>> >>, <<"tuple", <<u, v>> >>, <<"map", << <<Key(1), v>>, <<Key(2), u>> >> >>}
           \/ d = 1 /\ v' \in {<<"list", <<v, <<"nil">>, v>> >>, <<"map", << <<Key(1), v>>, <<Key(2), <<"list", <<>> >> >>, <<Key(3), v>> >> >>}
Show == /\ ~shown /\ shown' = TRUE /\ UNCHANGED <<v, d>>
        /\ PrintT("@@ " \o ToJson([v |-> v, ok |-> Encodable(v),
                   w |-> IF Encodable(v) THEN Encode(v) ELSE <<>>,
                   st |-> IF Storable(v) THEN <<Stored(v)>> ELSE <<>>,
                   n |-> IF Encodable(v) THEN Norm(v) ELSE <<>>]))
Next == Wrap \/ Show
Spec == Init /\ [][Next]_vars
Inverse == Encodable(v) => Decode(Encode(v)) = Norm(v) /\ Encode(Norm(v)) = Encode(v) /\ Norm(Norm(v)) = Norm(v)
\* the canonical integer is the same number, and no shorter string is
Shortest == v[1] = "int" /\ Len(v[2]) <= 3 =>
   LET c == Canon(v[2]) IN
   /\ Number(c) = Number(v[2])
   /\ \A n \in 1..(Len(c) - 1) : Number(SubSeq(c, Len(c) - n + 1, Len(c))) # Number(c)
=============================================================================
