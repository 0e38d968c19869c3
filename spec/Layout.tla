------------------------------- MODULE Layout ------------------------------
(* Where the items of a contract's storage live.                            *)
(*                                                                           *)
(* An item is a container (kind and name, made over a possibly nested        *)
(* sub-database) and, for its elements, keys.  Names and keys are values in    *)
(* the notation of Codec; what counts is their bytes.  The node keeps the      *)
(* item under the SHA3-256 hash of Preimage; the specification gives the        *)
(* preimage, and that it can be read back: no two items share one.              *)
EXTENDS Codec

\* a length-prefixed byte string
RECURSIVE Digits256(_)
Digits256(n) == IF n = 0 THEN <<>> ELSE Append(Digits256(n \div 256), n % 256)
Rlp(b) ==
  LET n == Len(b) IN
  IF n = 1 /\ b[1] < 128 THEN b
  ELSE IF n <= 55 THEN <<128 + n>> \o b
  ELSE LET d == Digits256(n) IN <<183 + Len(d)>> \o d \o b
RECURSIVE RlpAll(_)
RlpAll(bs) == IF bs = <<>> THEN <<>> ELSE Rlp(Head(bs)) \o RlpAll(Tail(bs))

\* keys and names: whole numbers (and what counts as one), texts, byte strings, addresses
Key(v) == v[1] \in {"int", "bool", "bytes", "text", "addr"}
Bytes(v) == CASE v[1] = "int" -> Canon(v[2]) [] v[1] = "bool" -> <<v[2]>> [] OTHER -> v[2]
AllBytes(vs) == [i \in 1..Len(vs) |-> Bytes(vs[i])]

Tag == [array |-> 0, dict |-> 1, var |-> 2]
\* kind, name, sub-databases from the outermost on, keys
Item(k, n, s, ks) == [kind |-> k, name |-> n, subs |-> s, keys |-> ks]
Path(it) == AllBytes(it.subs) \o AllBytes(it.keys)
Preimage(it) == <<Tag[it.kind]>> \o RlpAll(<<Bytes(it.name)>> \o Path(it))
\* the container itself: its size if it is an array, and what a search names
Holder(it) == [it EXCEPT !.keys = <<>>]

\* reading a preimage back
RECURSIVE Unsigned256(_, _)
Unsigned256(b, acc) == IF b = <<>> THEN acc ELSE Unsigned256(Tail(b), acc * 256 + Head(b))
RECURSIVE Parse(_)
Parse(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET h == s[1]
           cut(from, n) == <<SubSeq(s, from, from + n - 1)>> \o Parse(SubSeq(s, from + n, Len(s)))
       IN IF h < 128 THEN cut(1, 1)
          ELSE IF h <= 183 THEN cut(2, h - 128)
          ELSE LET w == h - 183 IN cut(2 + w, Unsigned256(SubSeq(s, 2, 1 + w), 0))
ReadBack(p) == [tag |-> p[1], path |-> Parse(Tail(p))]
Same(it) == [tag |-> Tag[it.kind], path |-> <<Bytes(it.name)>> \o Path(it)]
=============================================================================
