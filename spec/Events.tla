------------------------------- MODULE Events -------------------------------
(* Events: what a declaration and the arguments given to it record.               *)
(* A declaration: [n name, ln its length in bytes, x number of indexed parameters,   *)
(* ps << <<name, type, default>> .. >>].  Values: <<kind, form, length of the form>>,  *)
(* kinds "i" "s" "b" "z" "a", and "n": nothing, of length 0.  The form is what is     *)
(* recorded.  Arguments: [pos values, kw << <<name, value>> .. >>].                     *)
EXTENDS Integers, Sequences, FiniteSets
NoDef == <<"no">>
Reserved == "ICXTransfer(Address,Address,int)"
TypeText(t) == IF t = "ref" THEN "Address" ELSE t
TypeLen(t) == CASE t \in {"int", "str"} -> 3 [] t = "bool" -> 4 [] t = "bytes" -> 5 [] OTHER -> 7
RECURSIVE Types(_, _), TypesLen(_, _)
Types(ps, i) == IF i > Len(ps) THEN "" ELSE (IF i = 1 THEN "" ELSE ",") \o TypeText(ps[i][2]) \o Types(ps, i + 1)
TypesLen(ps, i) == IF i > Len(ps) THEN 0 ELSE (IF i = 1 THEN 0 ELSE 1) + TypeLen(ps[i][2]) + TypesLen(ps, i + 1)
Signature(d) == d.n \o "(" \o Types(d.ps, 1) \o ")"
SignatureLen(d) == d.ln + 2 + TypesLen(d.ps, 1)
\* a truth value is a number
Fits(v, t) == CASE v[1] = "no" -> FALSE [] v[1] = "n" -> TRUE
                [] t = "int" -> v[1] \in {"i", "z"} [] t = "str" -> v[1] = "s" [] t = "bytes" -> v[1] = "b"
                [] t = "bool" -> v[1] = "z" [] OTHER -> v[1] = "a"
Named(a, n) == {j \in 1..Len(a.kw) : a.kw[j][1] = n}
Value(d, a, i) == IF i <= Len(a.pos) THEN a.pos[i]
                  ELSE IF Named(a, d.ps[i][1]) # {} THEN a.kw[CHOOSE j \in Named(a, d.ps[i][1]) : TRUE][2]
                  ELSE d.ps[i][3]
Given(d, a) ==
  /\ Len(a.pos) <= Len(d.ps)
  /\ \A j \in 1..Len(a.kw) : \E i \in 1..Len(d.ps) : d.ps[i][1] = a.kw[j][1] /\ i > Len(a.pos)
  /\ \A i \in 1..Len(d.ps) : Fits(Value(d, a, i), d.ps[i][2])
Form(v) == <<v[2], v[1] = "n">>
RECURSIVE Sum(_, _, _)
Sum(d, a, i) == IF i > Len(d.ps) THEN 0 ELSE Value(d, a, i)[3] + Sum(d, a, i + 1)
Nothing == [ok |-> FALSE]
Record(d, a, readonly) ==
  IF readonly \/ Signature(d) = Reserved \/ ~Given(d, a) THEN Nothing
  ELSE [ok |-> TRUE, sig |-> Signature(d), size |-> SignatureLen(d) + Sum(d, a, 1),
        ix |-> [i \in 1..d.x |-> Form(Value(d, a, i))],
        data |-> [i \in 1..(Len(d.ps) - d.x) |-> Form(Value(d, a, d.x + i))]]
Steps(C, o) == IF ~o.ok THEN 0 ELSE IF C.schema = 0 THEN C.eventLog * o.size ELSE C.logBase + C.log * o.size
=============================================================================
