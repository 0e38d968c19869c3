------------------------------ MODULE Params ------------------------------
(* What a contract method receives for the parameters of an invocation:     *)
(* conversion of texts by the declared type, and binding to the declared     *)
(* parameters.  A text is a sequence of one-character strings.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Upper == <<"A", "B", "C", "D", "E", "F">>
In(x, s) == \E i \in 1..Len(s) : s[i] = x
DigitOf(c) == IF In(c, Digits) THEN (CHOOSE i \in 1..16 : Digits[i] = c) - 1
              ELSE IF In(c, Upper) THEN (CHOOSE i \in 1..6 : Upper[i] = c) + 9 ELSE 99
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE Head(s) \o Text(Tail(s))
RECURSIVE Num(_, _, _)
Num(s, base, acc) == IF s = <<>> THEN acc ELSE Num(Tail(s), base, acc * base + DigitOf(Head(s)))
AllDigits(s, base) == s # <<>> /\ \A i \in 1..Len(s) : DigitOf(s[i]) < base
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Rest(s, n) == SubSeq(s, n + 1, Len(s))

Refused(codes) == [ok |-> FALSE, codes |-> codes]
Got(v) == [ok |-> TRUE, v |-> v]

\* a number: [-]0x<hex digits> or [-]<decimal digits>
Number(s) ==
  IF Starts(s, <<"0", "x">>) THEN IF AllDigits(Rest(s, 2), 16) THEN Got(Num(Rest(s, 2), 16, 0)) ELSE Refused({1, 6})
  ELSE IF Starts(s, <<"-", "0", "x">>) THEN IF AllDigits(Rest(s, 3), 16) THEN Got(0 - Num(Rest(s, 3), 16, 0)) ELSE Refused({1, 6})
  ELSE IF Starts(s, <<"-">>) THEN IF AllDigits(Rest(s, 1), 10) THEN Got(0 - Num(Rest(s, 1), 10, 0)) ELSE Refused({1, 6})
  ELSE IF AllDigits(s, 10) THEN Got(Num(s, 10, 0)) ELSE Refused({1, 6})
\* bytes: an even number of hex digits, after an optional 0x
RECURSIVE Lower(_)
Lower(s) == IF s = <<>> THEN "" ELSE Digits[DigitOf(Head(s)) + 1] \o Lower(Tail(s))
HexBytes(s) == LET b == IF Starts(s, <<"0", "x">>) THEN Rest(s, 2) ELSE s
               IN IF Len(b) % 2 = 0 /\ \A i \in 1..Len(b) : DigitOf(b[i]) < 16
                  THEN Got(Lower(b)) ELSE Refused({1, 6})
\* an address: hx or cx and 40 lower-case hex digits
AddressText(s) ==
  IF /\ Len(s) = 42 /\ s[1] \in {"h", "c"} /\ s[2] = "x"
     /\ \A i \in 3..42 : In(s[i], Digits)
  THEN Got(Text(s)) ELSE Refused({6})

\* w: what came over the wire: <<"t", text>> or <<kind, value>> of another kind; ty: declared type
Conv(ty, w) ==
  IF w[1] = "n" THEN Got(<<"n", "">>)
  ELSE LET t == IF ty[1] = "opt" THEN ty[2] ELSE ty
           raw == IF w[1] = "t" THEN <<"s", Text(w[2])>> ELSE w
           As(k, r) == IF r.ok THEN Got(<<k, r.v>>) ELSE r
       IN IF t[1] \notin {"int", "bool", "bytes", "Address", "ref", "str"} THEN Got(raw)
          ELSE IF w[1] # "t" THEN Refused({6})
          ELSE CASE t[1] = "int" -> (LET r == Number(w[2]) IN IF r.ok THEN Got(<<"i", ToString(r.v)>>) ELSE r)
                 [] t[1] = "bool" -> (LET r == Number(w[2]) IN IF r.ok THEN Got(<<"z", IF r.v = 0 THEN "0" ELSE "1">>) ELSE r)
                 [] t[1] = "bytes" -> As("b", HexBytes(w[2]))
                 [] t[1] \in {"Address", "ref"} -> As("a", AddressText(w[2]))
                 [] OTHER -> Got(raw)

\* ps: <<name, type, default>> of every declared parameter; default <<"no">>: none
Default(p) == p[3]
\* positional arguments are taken as they are
BindList(ps, args) ==
  IF Len(args) > Len(ps) \/ \E i \in (Len(args) + 1)..Len(ps) : ps[i][3] = <<"no">> THEN Refused({1, 6})
  ELSE Got([i \in 1..Len(ps) |-> IF i <= Len(args)
                                 THEN IF args[i][1] = "t" THEN <<"s", Text(args[i][2])>> ELSE args[i]
                                 ELSE <<ps[i][3][1], ps[i][3][2]>>])
\* named arguments are converted; unknown and missing names are refused
BindDict(ps, kw) ==
  LET Named(n) == {j \in 1..Len(kw) : kw[j][1] = n}
      V(i) == IF Named(ps[i][1]) = {} THEN Got(<<ps[i][3][1], ps[i][3][2]>>)
              ELSE Conv(ps[i][2], kw[CHOOSE j \in Named(ps[i][1]) : TRUE][2])
      unknown == \E j \in 1..Len(kw) : \A i \in 1..Len(ps) : ps[i][1] # kw[j][1]
      missing == \E i \in 1..Len(ps) : Named(ps[i][1]) = {} /\ ps[i][3] = <<"no">>
      given == {i \in 1..Len(ps) : Named(ps[i][1]) # {}}
      bad == {i \in given : ~V(i).ok}
  IN IF unknown \/ missing \/ bad # {}
     THEN Refused(UNION {V(i).codes : i \in bad} \cup (IF unknown \/ missing THEN {1, 6} ELSE {}))
     ELSE Got([i \in 1..Len(ps) |-> V(i).v])
=============================================================================
