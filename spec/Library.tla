------------------------------ MODULE Library ------------------------------
(* The functions the contract library offers besides storage and calls:      *)
(* JSON in both directions, hashes, recovery of keys, addresses of keys; what *)
(* they return and what they are charged.  Texts are sequences of code        *)
(* points.  Hashes and curve points are given as tables (T): the              *)
(* specification says which entry is used when, and when there is none.       *)
EXTENDS Integers, Sequences, TLC

\* ------------------------------------------------------------------- JSON
\* values: <<"null">>, <<"true">>, <<"false">>, <<"num", code points of the digits>>,
\* <<"text", code points>>, <<"list", values>>, <<"map", <<name, value>> pairs>>, <<"none">>: has no
\* JSON.  Names are texts; when written also numbers, truth values and null, as texts
Lit == [null |-> <<110, 117, 108, 108>>, true |-> <<116, 114, 117, 101>>, false |-> <<102, 97, 108, 115, 101>>]
HexC == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
U4(n) == <<92, 117, HexC[1 + n \div 4096], HexC[1 + ((n \div 256) % 16)], HexC[1 + ((n \div 16) % 16)], HexC[1 + (n % 16)]>>
Esc(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>>
            [] c = 9 -> <<92, 116>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>>
            [] c >= 65536 -> U4(55296 + (c - 65536) \div 1024) \o U4(56320 + ((c - 65536) % 1024))
            [] c < 32 \/ c > 126 -> U4(c)
            [] OTHER -> <<c>>
RECURSIVE EscAll(_, _)
EscAll(s, i) == IF i > Len(s) THEN << >> ELSE Esc(s[i]) \o EscAll(s, i + 1)
Quote(s) == <<34>> \o EscAll(s, 1) \o <<34>>
Name(v) == IF v[1] \in DOMAIN Lit THEN Lit[v[1]] ELSE v[2]
RECURSIVE Good(_), Dump(_, _), DumpItems(_, _, _), DumpPairs(_, _, _)
Good(v) == CASE v[1] = "none" -> FALSE
             [] v[1] = "list" -> \A i \in 1..Len(v[2]) : Good(v[2][i])
             [] v[1] = "map" -> \A i \in 1..Len(v[2]) : v[2][i][1][1] \notin {"none", "list", "map"} /\ Good(v[2][i][2])
             [] OTHER -> TRUE
Comma(compact) == IF compact THEN <<44>> ELSE <<44, 32>>
Colon(compact) == IF compact THEN <<58>> ELSE <<58, 32>>
Dump(v, z) == CASE v[1] \in {"null", "true", "false"} -> Lit[v[1]]
                [] v[1] = "num" -> v[2]
                [] v[1] = "text" -> Quote(v[2])
                [] v[1] = "list" -> <<91>> \o DumpItems(v[2], 1, z) \o <<93>>
                [] v[1] = "map" -> <<123>> \o DumpPairs(v[2], 1, z) \o <<125>>
DumpItems(s, i, z) == IF i > Len(s) THEN << >>
                      ELSE (IF i > 1 THEN Comma(z) ELSE << >>) \o Dump(s[i], z) \o DumpItems(s, i + 1, z)
DumpPairs(s, i, z) == IF i > Len(s) THEN << >>
                      ELSE (IF i > 1 THEN Comma(z) ELSE << >>) \o Quote(Name(s[i][1])) \o Colon(z) \o Dump(s[i][2], z) \o DumpPairs(s, i + 1, z)

\* reading: a position and a value, or <<0>> where the text is no JSON
White(c) == c \in {9, 10, 13, 32}
Digit(c) == c \in 48..57
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
RECURSIVE Skip(_, _), Read(_, _), ReadText(_, _, _), ReadDigits(_, _), ReadItems(_, _, _), ReadPairs(_, _, _)
Skip(s, i) == IF i <= Len(s) /\ White(s[i]) THEN Skip(s, i + 1) ELSE i
Bad == <<0>>
HexV(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
Hex4(s, i) == LET v == [j \in 0..3 |-> HexV(At(s, i + j))] IN
              IF \E j \in 0..3 : v[j] < 0 THEN -1 ELSE 4096 * v[0] + 256 * v[1] + 16 * v[2] + v[3]
Unesc(c) == CASE c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 98 -> 8 [] c = 102 -> 12
              [] c \in {34, 47, 92} -> c [] OTHER -> -1
ReadText(s, i, acc) ==         \* after the opening quote
  LET c == At(s, i) IN
  IF c = 34 THEN <<i + 1, <<"text", acc>> >>
  ELSE IF c < 32 THEN Bad
  ELSE IF c # 92 THEN ReadText(s, i + 1, Append(acc, c))
  ELSE LET d == At(s, i + 1) IN
       IF d = 117
       THEN LET h == Hex4(s, i + 2) IN
            IF h < 0 THEN Bad
            ELSE IF h \in 55296..56319 /\ At(s, i + 6) = 92 /\ At(s, i + 7) = 117 /\ Hex4(s, i + 8) \in 56320..57343
            THEN ReadText(s, i + 12, Append(acc, 65536 + (h - 55296) * 1024 + (Hex4(s, i + 8) - 56320)))
            ELSE ReadText(s, i + 6, Append(acc, h))
       ELSE IF Unesc(d) < 0 THEN Bad ELSE ReadText(s, i + 2, Append(acc, Unesc(d)))
ReadDigits(s, i) == IF Digit(At(s, i)) THEN ReadDigits(s, i + 1) ELSE i
Starts(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
ReadItems(s, i, acc) ==
  LET r == Read(s, i) IN
  IF r = Bad THEN Bad
  ELSE LET j == Skip(s, r[1]) IN
       IF At(s, j) = 93 THEN <<j + 1, <<"list", Append(acc, r[2])>> >>
       ELSE IF At(s, j) = 44 THEN ReadItems(s, Skip(s, j + 1), Append(acc, r[2])) ELSE Bad
\* the last value given for a name stays, at the place of the first
SetPair(ps, n, v) == IF \E i \in 1..Len(ps) : ps[i][1] = n
                     THEN [i \in 1..Len(ps) |-> IF ps[i][1] = n THEN <<n, v>> ELSE ps[i]]
                     ELSE Append(ps, <<n, v>>)
ReadPairs(s, i, acc) ==
  IF At(s, i) # 34 THEN Bad
  ELSE LET n == ReadText(s, i + 1, << >>) IN
       IF n = Bad THEN Bad
       ELSE LET k == Skip(s, n[1]) IN
            IF At(s, k) # 58 THEN Bad
            ELSE LET r == Read(s, Skip(s, k + 1)) IN
                 IF r = Bad THEN Bad
                 ELSE LET j == Skip(s, r[1])
                          ps == SetPair(acc, n[2], r[2])
                      IN IF At(s, j) = 125 THEN <<j + 1, <<"map", ps>> >>
                         ELSE IF At(s, j) = 44 THEN ReadPairs(s, Skip(s, j + 1), ps) ELSE Bad
Read(s, i) ==
  LET c == At(s, i) IN
  CASE c = 34 -> ReadText(s, i + 1, << >>)
    [] c = 91 -> (LET j == Skip(s, i + 1) IN IF At(s, j) = 93 THEN <<j + 1, <<"list", << >> >> >> ELSE ReadItems(s, j, << >>))
    [] c = 123 -> (LET j == Skip(s, i + 1) IN IF At(s, j) = 125 THEN <<j + 1, <<"map", << >> >> >> ELSE ReadPairs(s, j, << >>))
    [] c = 110 /\ Starts(s, i, Lit.null) -> <<i + 4, <<"null">> >>
    [] c = 116 /\ Starts(s, i, Lit.true) -> <<i + 4, <<"true">> >>
    [] c = 102 /\ Starts(s, i, Lit.false) -> <<i + 5, <<"false">> >>
    [] Digit(c) \/ (c = 45 /\ Digit(At(s, i + 1))) ->
         LET d == IF c = 45 THEN i + 1 ELSE i
             e == IF s[d] = 48 THEN d + 1 ELSE ReadDigits(s, d)
             n == SubSeq(s, i, e - 1)
         IN <<e, <<"num", IF n = <<45, 48>> THEN <<48>> ELSE n>> >>
    [] OTHER -> Bad
Load(s) == LET r == Read(s, Skip(s, 1)) IN IF r # Bad /\ Skip(s, r[1]) > Len(s) THEN <<"json", r[2]>> ELSE <<"refused">>

\* surrogates alone are no characters and have no UTF-8
Whole(s) == \A i \in 1..Len(s) : s[i] \notin 55296..57343
RECURSIVE Utf8(_, _)
Utf8(s, i) == IF i > Len(s) THEN 0
              ELSE (IF s[i] < 128 THEN 1 ELSE IF s[i] < 2048 THEN 2 ELSE IF s[i] < 65536 THEN 3 ELSE 4) + Utf8(s, i + 1)

\* ------------------------------------------------------------------- calls
\* [f name, v argument], and the result <<what, value, steps>>: what is "ok", "none"
\* (nothing is returned) or "error" with the status; api: steps of one API call
Compact(rev) == (rev \div 256) % 2 = 1
Ratio(api, permille) == (api * permille) \div 1000
Json(api, permille, n) == Ratio(api, permille) + (Ratio(api, permille) * n) \div 100
Ceil32(n) == (n + 31) \div 32
Apply(T, api, rev, c) ==
  CASE c.f = "dumps" -> (IF ~Good(c.v) THEN <<"error", 1, 0>>
                        ELSE LET t == Dump(c.v, Compact(rev)) IN <<"ok", t, IF Compact(rev) THEN Json(api, 5000, Utf8(t, 1)) ELSE 0>>)
    [] c.f = "loads" -> (IF Compact(rev) /\ ~Whole(c.v) THEN <<"error", 1, 0>> ELSE
                        LET r == Load(c.v)
                            n == IF Compact(rev) THEN Json(api, 4000, Utf8(c.v, 1)) ELSE 0
                        IN IF r[1] = "json" THEN <<"ok", r[2], n>> ELSE <<"error", 1, n>>)
    [] c.f = "loadsother" -> <<"none", 0, 0>>       \* anything that is no text
    \* data are referred to by their place in the tables
    [] c.f \in {"sha3", "sha2"} -> (LET d == T.data[c.v] IN
         IF d.kind # "bytes" THEN <<"error", 6, 0>>
         ELSE <<"ok", d[c.f], api + (api * Ceil32(d.n)) \div 10>>)
    [] c.f = "address" -> (LET k == T.keys[c.v] IN
         IF k.kind # "bytes" \/ k.n \notin {33, 65} THEN <<"none", 0, 0>>
         ELSE LET n == Ratio(api, IF k.n = 33 THEN 15000 ELSE 1500) IN
              IF (k.n = 33 /\ k.first \in {2, 3} /\ k.point) \/ (k.n = 65 /\ k.first = 4)
              THEN <<"ok", k.address, n>> ELSE <<"none", 0, n>>)
    [] c.f = "recover" -> (LET g == T.sigs[c.v]
                              n == Ratio(api, 70000)
                          IN IF g.hn = 32 /\ g.sn = 65 /\ g.valid THEN <<"ok", IF g.compressed THEN g.short ELSE g.long, n>>
                             ELSE <<"none", 0, n>>)
=============================================================================
