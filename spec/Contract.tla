------------------------------ MODULE Contract ------------------------------
(* Contract classes: which declarations are accepted, the interface (API)   *)
(* the engine publishes for them, and what an invocation of a method does.  *)
(*                                                                           *)
(* Types: <<"int">>, <<"str">>, <<"bytes">>, <<"bool">>, <<"Address">>,      *)
(* <<"ref">> (the text 'Address'), <<"none">> (no annotation), <<"list", T>>,*)
(* <<"opt", T>>, <<"struct", fields>>, <<"bad", text>> (anything else), and  *)
(* <<"var", text>> for the other kinds of parameters (starred, keyword only).  *)
(* A member of a class: [n name, d decorators, ps parameters, r return type] *)
(* A contract: a sequence of layers (base classes first) of members.         *)
EXTENDS Params

NoDef == <<"no">>
BaseTypes == {"int", "str", "bytes", "bool", "Address"}

\* ------------------------------------------------------------------ types
MaxFields == 16
RECURSIVE Known(_)
Known(t) ==
  CASE t[1] \in BaseTypes -> TRUE
    [] t[1] = "list" -> Known(t[2])
    [] t[1] = "opt" -> t[2][1] # "opt" /\ Known(t[2])
    [] t[1] = "struct" -> Len(t[2]) <= MaxFields /\ \A i \in 1..Len(t[2]) : Known(t[2][i][2])
    [] OTHER -> FALSE
\* annotation of a parameter
ParamType(t) == t[1] \in {"none", "ref"} \/ Known(t)
KindCode(b) == CASE b = "int" -> 1 [] b = "str" -> 2 [] b = "bytes" -> 3 [] b = "bool" -> 4
                 [] b = "Address" -> 5 [] b = "ref" -> 5 [] b = "none" -> 2 [] b = "struct" -> 8
RECURSIVE Kind(_)
Kind(t) == IF t[1] = "list" THEN 16 + Kind(t[2]) ELSE IF t[1] = "opt" THEN Kind(t[2]) ELSE KindCode(t[1])
RECURSIVE Core(_)
Core(t) == IF t[1] \in {"list", "opt"} THEN Core(t[2]) ELSE t
Null == "null"
RECURSIVE Fields(_)
Fields(t) == [i \in 1..Len(t[2]) |->
               LET f == t[2][i] IN
               IF Core(f[2])[1] = "struct" THEN <<f[1], Kind(f[2]), Null, Fields(Core(f[2]))>>
               ELSE <<f[1], Kind(f[2]), Null>>]
ShortType(t) == CASE t[1] = "int" -> "i" [] t[1] = "str" -> "s" [] t[1] = "none" -> "s" [] t[1] = "bytes" -> "b"
                  [] t[1] = "bool" -> "z" [] t[1] \in {"Address", "ref"} -> "a" [] OTHER -> "?"
\* default values: none, None, or a value of exactly the declared type
DefaultFits(p) == p[3] = NoDef \/ p[3][1] = "n"
                  \/ p[3][1] = ShortType(IF p[2][1] = "opt" THEN p[2][2] ELSE p[2])

\* ------------------------------------------------------------ declarations
Count(s, X) == Cardinality({i \in 1..Len(s) : s[i] \in X})
Ext == {"external", "readonly"}
Ev == {"eventlog", "eventlog1", "eventlog2", "eventlog3", "eventlog4"}
Flags(m) ==
     (IF Count(m.d, Ext) > 0 THEN {"EXTERNAL"} ELSE {})
  \cup (IF Count(m.d, {"readonly"}) > 0 THEN {"READONLY"} ELSE {})
  \cup (IF Count(m.d, {"payable"}) > 0 THEN {"PAYABLE"} ELSE {})
  \cup (IF Count(m.d, {"payable"}) > 0 /\ m.n = "fallback" THEN {"FALLBACK"} ELSE {})
  \cup (IF Count(m.d, {"isolated"}) > 0 THEN {"ISOLATED"} ELSE {})
  \cup (IF Count(m.d, Ev) > 0 THEN {"EVENTLOG"} ELSE {})
  \cup (IF Count(m.d, {"interface"}) > 0 THEN {"INTERFACE"} ELSE {})
Indexed(m) == CASE Count(m.d, {"eventlog1"}) > 0 -> 1 [] Count(m.d, {"eventlog2"}) > 0 -> 2
                [] Count(m.d, {"eventlog3"}) > 0 -> 3 [] Count(m.d, {"eventlog4"}) > 0 -> 4 [] OTHER -> 0
Legal == {{"EXTERNAL"}, {"EXTERNAL", "PAYABLE"}, {"EXTERNAL", "READONLY"}, {"PAYABLE", "FALLBACK"},
          {"PAYABLE"}, {"EVENTLOG"}}
Init2 == {"on_install", "on_update"}
Hidden == {"__hidden__"}

\* errors of the decorators themselves: whatever they are applied to
Decorated(m) ==
  /\ Count(m.d, Ext) <= 1 /\ Count(m.d, {"payable"}) <= 1 /\ Count(m.d, {"isolated"}) <= 1
  /\ Count(m.d, Ev) <= 1 /\ Count(m.d, {"interface"}) <= 1
  /\ (m.n = "fallback" => Count(m.d, Ext) = 0)
  /\ (Count(m.d, Ev) > 0 =>
        /\ Indexed(m) <= 3 /\ Indexed(m) <= Len(m.ps)
        /\ \A i \in 1..Len(m.ps) : m.ps[i][2][1] \in BaseTypes \cup {"ref"})
Signature(m) == \A i \in 1..Len(m.ps) : ParamType(m.ps[i][2]) /\ DefaultFits(m.ps[i])
Exposed(m) == m.n \notin Hidden /\ (m.n \in Init2 \/ Flags(m) \ {"INTERFACE"} # {})
\* is the member acceptable in a class that has it (own or inherited)?
Valid(m) ==
  \/ ~Exposed(m)
  \/ /\ (IF m.n \in Init2 THEN Flags(m) = {} ELSE Flags(m) \in Legal)
     /\ Signature(m)
     /\ ("FALLBACK" \in Flags(m) => Len(m.ps) = 0 /\ m.r[1] = "none")

RECURSIVE Names(_)
Names(ls) == IF ls = <<>> THEN {} ELSE {Head(ls)[i].n : i \in 1..Len(Head(ls))} \cup Names(Tail(ls))
\* the member a name denotes: that of the last layer that has it
Member(ls, n) == LET k == CHOOSE k \in 1..Len(ls) : (\E i \in 1..Len(ls[k]) : ls[k][i].n = n)
                                /\ \A j \in (k + 1)..Len(ls) : \A i \in 1..Len(ls[j]) : ls[j][i].n # n
                 IN ls[k][CHOOSE i \in 1..Len(ls[k]) : ls[k][i].n = n]
Effective(ls) == {Member(ls, n) : n \in Names(ls)}
Upto(ls, k) == SubSeq(ls, 1, k)
\* every class of the chain must be well formed; the last one must be complete and
\* have something that can be called
Accepted(ls) ==
  /\ \A k \in 1..Len(ls) : \A i \in 1..Len(ls[k]) : Decorated(ls[k][i])
  /\ \A k \in 1..Len(ls) : \A m \in Effective(Upto(ls, k)) : Valid(m)
  /\ Init2 \subseteq Names(ls)
  /\ \E m \in Effective(ls) : m.n \notin Init2 \cup Hidden /\ Flags(m) \cap {"EXTERNAL", "PAYABLE"} # {}

\* -------------------------------------------------------------------- API
Input(p, indefault) ==
  LET dv == IF indefault /\ p[3] # NoDef /\ p[3][1] # "n" THEN p[3][4] ELSE Null
  IN IF Core(p[2])[1] = "struct" THEN <<p[1], Kind(p[2]), dv, Fields(Core(p[2]))>>
     ELSE <<p[1], Kind(p[2]), dv>>
\* of what a method returns, only the outermost form is described
Maps == {"_Cy", "_Cz", "_Cv", "_Cw", "dict", "Dict[str,int]", "dict[str, int]", "Dict", "dict[str, list]", "Dict[str, Address]"}
Lists == {"List[_Cv]", "list", "List", "list[int, str]", "list[list[int, int]]", "list[type]", "List[_Sub]"}
Output(t) == CASE t[1] \in BaseTypes \cup {"ref"} -> <<KindCode(t[1])>>
               [] t[1] = "list" -> <<6>> [] t[1] = "struct" -> <<7>>
               [] t[1] = "bad" /\ t[2] \in Maps -> <<7>> [] t[1] = "bad" /\ t[2] \in Lists -> <<6>> [] OTHER -> <<>>
Bits(m) == (IF "READONLY" \in Flags(m) THEN 1 ELSE 0) + (IF "EXTERNAL" \in Flags(m) THEN 2 ELSE 0)
           + (IF "PAYABLE" \in Flags(m) THEN 4 ELSE 0)
Entry(m) ==
  IF "EVENTLOG" \in Flags(m)
  THEN <<2, m.n, 0, Indexed(m), [i \in 1..Len(m.ps) |-> Input(m.ps[i], FALSE)], <<>> >>
  ELSE IF "FALLBACK" \in Flags(m) THEN <<1, m.n, Bits(m), 0, <<>>, <<>> >>
  ELSE <<0, m.n, Bits(m), Cardinality({i \in 1..Len(m.ps) : m.ps[i][3] = NoDef}),
         [i \in 1..Len(m.ps) |-> Input(m.ps[i], TRUE)],
         IF "READONLY" \in Flags(m) THEN Output(m.r) ELSE <<>> >>
Listed(m) == Exposed(m) /\ Flags(m) # {"PAYABLE"}
Api(ls) == {Entry(m) : m \in {x \in Effective(ls) : Listed(x)}}

\* ---------------------------------------------------------------- dispatch
\* call: [m method, v value, kind "list"|"dict", a arguments]
NoMethod == 3  NotPayable == 4
Entered(n, args) == [ok |-> TRUE, v |-> <<n, args>>]
Dispatch(ls, c) ==
  LET there == c.m \in Names(ls)
      m == Member(ls, c.m)
      bound == IF c.kind = "list" THEN BindList(m.ps, c.a) ELSE BindDict(m.ps, c.a)
      pay == c.v = 0 \/ "PAYABLE" \in Flags(m)
  IN IF ~Accepted(ls) THEN Refused(0..40 \ {0})
     ELSE IF c.m = "fallback"
     THEN IF there /\ "FALLBACK" \in Flags(m) THEN Entered("fallback", <<>>) ELSE Refused({NoMethod})
     ELSE IF ~there \/ (c.m \notin Init2 /\ "EXTERNAL" \notin Flags(m)) \/ c.m \in Hidden THEN Refused({NoMethod})
     ELSE IF ~pay \/ ~bound.ok
     THEN Refused((IF pay THEN {} ELSE {NotPayable}) \cup (IF bound.ok THEN {} ELSE bound.codes))
     ELSE Entered(c.m, bound.v)
=============================================================================
