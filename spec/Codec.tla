------------------------------- MODULE Codec -------------------------------
(* Values on the wire between node and engine, and in storage.              *)
(*                                                                           *)
(* Values: <<"nil">>, <<"bool", 0 or 1>>, <<"int", B>> (two's complement,     *)
(* big endian, any number of bytes >= 1), <<"bytes", B>>, <<"text", B>> (its   *)
(* UTF-8 form), <<"addr", B>> (21 bytes), <<"list", vs>>, <<"tuple", vs>>,      *)
(* <<"map", << <<B, v>> .. >> >>, and <<"bad", ..>>: anything else.           *)
(* B is a sequence of numbers 0..255.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NIL == 0  MAP == 1  LIST == 2  BYTES == 3  TEXT == 4  BOOL == 5  ADDR == 10  INT == 11

\* the shortest two's complement of the same number
RECURSIVE Canon(_)
Canon(b) == IF Len(b) > 1 /\ ((b[1] = 0 /\ b[2] < 128) \/ (b[1] = 255 /\ b[2] >= 128))
            THEN Canon(Tail(b)) ELSE b

RECURSIVE Encodable(_)
Encodable(v) ==
  CASE v[1] = "bad" -> FALSE
    [] v[1] \in {"list", "tuple"} -> \A i \in 1..Len(v[2]) : Encodable(v[2][i])
    [] v[1] = "map" -> \A i \in 1..Len(v[2]) : Encodable(v[2][i][2])
    [] OTHER -> TRUE
RECURSIVE Encode(_)
Encode(v) ==
  CASE v[1] = "nil" -> <<NIL>>
    [] v[1] = "bool" -> <<BOOL, <<v[2]>> >>
    [] v[1] = "int" -> <<INT, Canon(v[2])>>
    [] v[1] = "bytes" -> <<BYTES, v[2]>>
    [] v[1] = "text" -> <<TEXT, v[2]>>
    [] v[1] = "addr" -> <<ADDR, v[2]>>
    [] v[1] \in {"list", "tuple"} -> <<LIST, [i \in 1..Len(v[2]) |-> Encode(v[2][i])]>>
    [] v[1] = "map" -> <<MAP, [i \in 1..Len(v[2]) |-> <<v[2][i][1], Encode(v[2][i][2])>>]>>
RECURSIVE Decode(_)
Decode(w) ==
  CASE w[1] = NIL -> <<"nil">>
    [] w[1] = BOOL -> <<"bool", w[2][1]>>
    [] w[1] = INT -> <<"int", w[2]>>
    [] w[1] = BYTES -> <<"bytes", w[2]>>
    [] w[1] = TEXT -> <<"text", w[2]>>
    [] w[1] = ADDR -> <<"addr", w[2]>>
    [] w[1] = LIST -> <<"list", [i \in 1..Len(w[2]) |-> Decode(w[2][i])]>>
    [] w[1] = MAP -> <<"map", [i \in 1..Len(w[2]) |-> <<w[2][i][1], Decode(w[2][i][2])>>]>>
\* the value as the other side sees it
RECURSIVE Norm(_)
Norm(v) ==
  CASE v[1] = "int" -> <<"int", Canon(v[2])>>
    [] v[1] \in {"list", "tuple"} -> <<"list", [i \in 1..Len(v[2]) |-> Norm(v[2][i])]>>
    [] v[1] = "map" -> <<"map", [i \in 1..Len(v[2]) |-> <<v[2][i][1], Norm(v[2][i][2])>>]>>
    [] OTHER -> v

\* storage: the bytes alone, for the types storage can hold
Storable(v) == v[1] \in {"bool", "int", "bytes", "text", "addr"}
Stored(v) == Encode(v)[2]

\* the number of a short byte string
RECURSIVE Unsigned(_, _)
Unsigned(b, acc) == IF b = <<>> THEN acc ELSE Unsigned(Tail(b), acc * 256 + Head(b))
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 256 * Pow(n - 1)
Number(b) == IF b[1] >= 128 THEN Unsigned(b, 0) - Pow(Len(b)) ELSE Unsigned(b, 0)
=============================================================================
