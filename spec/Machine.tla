------------------------------ MODULE Machine ------------------------------
(* The execution engine, together with the node it talks to, as an abstract  *)
(* machine: a stack of invocation frames, each interpreting a list of        *)
(* operations a contract may perform (storage containers, events, calls,     *)
(* coin transfers, failures, step-charged utilities) under a step limit, and *)
(* a node that owns storage and balances, routes calls, and rolls back the   *)
(* effects of a failed frame.  Step accounting is "eager": a write knows the *)
(* size of the value it replaces at once.  The engine itself learns it later *)
(* (pipelined writes); module Pipeline shows that the two agree.             *)
(*                                                                           *)
(* Values are tuples <<type tag, text, encoded length, encoding>>; what a contract    *)
(* sees is the pair <<type tag, text>>.  Storage is a function from labels.  *)
EXTENDS Integers, Sequences, TLC

\* ------------------------------------------------------------ status codes
SystemError == 1   NotFound == 2   NoMethod == 3   NotPayable == 4
IllegalFormat == 5 BadParam == 6   BadAccess == 8  Denied == 9
OutOfStep == 10    OutOfBalance == 11
ScoreError == 32   CodeEnd == 999

Absent == <<>>
Dflt(t) == CASE t = "i" -> <<"i", "0">> [] t = "s" -> <<"s", "">>
             [] t = "z" -> <<"z", "0">> [] OTHER -> <<"n", "">>
Nil == <<"n", "">>
BoolT(b) == <<"z", IF b THEN "1" ELSE "0">>
IntT(i) == <<"i", ToString(i)>>
Tok(v, t) == IF v = Absent THEN Dflt(t) ELSE <<v[1], v[2]>>
Storable(v) == v[1] \in {"i", "s", "b", "z", "a"}

HexDigit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
Hex2(i) == HexDigit[(i \div 16) + 1] \o HexDigit[(i % 16) + 1]

Put(st, k, v) == (k :> v) @@ st
Rem(st, k) == [x \in DOMAIN st \ {k} |-> st[x]]
Rd(st, k) == IF k \in DOMAIN st THEN st[k] ELSE Absent

RECURSIVE Join(_, _)
Join(s, i) == IF i > Len(s) THEN "" ELSE "/" \o s[i] \o Join(s, i + 1)
\* c = [k kind, n name, t value type, d depth, p sub-database path]
Label(c, ks) == c.k \o "/" \o c.n \o Join(c.p, 1) \o Join(ks, 1)

\* -------------------------------------------------------------- step table
Base(C, k) == IF C.schema = 0 THEN 0
              ELSE CASE k = "get" -> C.getBase [] k = "set" -> C.setBase
                     [] k = "delete" -> C.deleteBase [] k = "log" -> C.logBase [] OTHER -> 0
Cost(C, k, n) == Base(C, k) + C[k] * n
Refund(C, old, new) == IF C.schema = 0 THEN (C.replace - C.set) * new
                       ELSE (C.setBase + C.deleteBase) \div 2 - C.setBase + C.delete * old

\* An operation works on e = [C, lim, u, ex, msg, st, r, rev]: cost table, limit,
\* steps used, exception code (0: none), message, own storage, result.
Fail(e, code) == [e EXCEPT !.ex = code, !.msg = "*"]
Charge(e, amt) == IF e.ex # 0 \/ amt = 0 THEN e
                  ELSE IF e.u + amt > e.lim THEN [e EXCEPT !.u = e.lim, !.ex = OutOfStep, !.msg = "*"]
                  ELSE [e EXCEPT !.u = e.u + amt]
Result(e, r) == IF e.ex # 0 THEN e ELSE [e EXCEPT !.r = r]

ReadL(e, k) == LET v == Rd(e.st, k) IN Charge(e, Cost(e.C, "get", IF v = Absent THEN 0 ELSE v[3]))

WriteL(e, k, v) ==
  IF e.ex # 0 THEN e
  ELSE IF ~e.wr THEN Fail(e, Denied)
  ELSE LET old == Rd(e.st, k)
           n == v[3]
           full == Cost(e.C, "set", n)
           back == IF old = Absent THEN 0 ELSE Refund(e.C, old[3], n)
           done == [e EXCEPT !.st = Put(e.st, k, v)]
           oldNonEmpty == old # Absent /\ old[3] > 0
       IN IF n = 0
          THEN \* an empty value is charged as a deletion of what it replaces
               IF old = Absent THEN done ELSE Charge(done, Cost(e.C, "delete", old[3]))
          ELSE IF e.u + full <= e.lim \/ full = 0 THEN [done EXCEPT !.u = e.u + full + back]
          ELSE \* not affordable before the refund: affordable with it?
               IF e.C.schema = 0
               THEN LET x == Charge(e, IF oldNonEmpty THEN e.C.replace * n ELSE e.C.set * n)
                    IN IF x.ex # 0 THEN x ELSE [done EXCEPT !.u = x.u]
               ELSE LET x == Charge(IF oldNonEmpty THEN [e EXCEPT !.u = e.u + back] ELSE e, full)
                    IN IF x.ex # 0 THEN x ELSE [done EXCEPT !.u = x.u]

DeleteL(e, k) ==
  IF e.ex # 0 THEN e
  ELSE IF ~e.wr THEN Fail(e, Denied)
  ELSE LET old == Rd(e.st, k)
           done == [e EXCEPT !.st = Rem(e.st, k)]
       IN IF old = Absent THEN done ELSE Charge(done, Cost(e.C, "delete", old[3]))

\* ------------------------------------------------------------- containers
SizeL(c) == Label(c, <<"#">>)
\* the shortest bytes of a number which is not negative
HexOf(i) == IF i < 128 THEN Hex2(i) ELSE IF i < 32768 THEN Hex2(i \div 256) \o Hex2(i % 256)
            ELSE Hex2(i \div 65536) \o Hex2((i \div 256) % 256) \o Hex2(i % 256)
ElemL(c, i) == Label(c, <<HexOf(i)>>)
SizeOf(st, c) == LET v == Rd(st, SizeL(c)) IN
                 IF v = Absent THEN 0 ELSE CHOOSE i \in 0..70000 : v[2] = ToString(i)
SizeVal(i) == <<"i", ToString(i), IF i < 128 THEN 1 ELSE IF i < 32768 THEN 2 ELSE 3, HexOf(i)>>

\* search as the node does it: element by element until found or unaffordable
RECURSIVE Scan(_, _, _, _, _, _, _)
Scan(e, c, v, i, cost, cnt, sz) ==
  IF i >= SizeOf(e.st, c) THEN <<FALSE, cnt, sz>>
  ELSE LET x == Rd(e.st, ElemL(c, i))
           n == IF x = Absent THEN 0 ELSE x[3]
           cost2 == cost + e.C.getBase + e.C.get * n
       IN IF x # Absent /\ x[1] = v[1] /\ x[2] = v[2] THEN <<TRUE, cnt + 1, sz + n>>
          ELSE IF cost2 > e.lim - e.u THEN <<FALSE, cnt + 1, sz + n>>
          ELSE Scan(e, c, v, i + 1, cost2, cnt + 1, sz + n)

RECURSIVE Iter(_, _, _, _, _)
Iter(e, c, i, n, acc) ==
  IF e.ex # 0 THEN e
  ELSE IF i >= n THEN Result(e, <<"l", acc>>)
  ELSE Iter(ReadL(e, ElemL(c, i)), c, i + 1, n, Append(acc, Tok(Rd(e.st, ElemL(c, i)), c.t)))

BadKey(ks) == \E i \in 1..Len(ks) : ks[i][1] \in {"n", "f"}
KeyText(ks) == [i \in 1..Len(ks) |-> ks[i][3]]

RECURSIVE Containers(_, _), Writes(_, _), IterW(_, _, _, _, _)
\* an array changed while it is read through: as many elements as there were at first,
\* each as it is when its turn comes
Writes(ops, e) == IF e.ex # 0 \/ ops = <<>> THEN e ELSE Writes(Tail(ops), Containers(Head(ops), e))
IterW(op, e, i, n, acc) ==
  IF e.ex # 0 THEN e
  ELSE IF i >= n THEN Result(e, <<"l", acc>>)
  ELSE LET e1 == ReadL(e, ElemL(op.c, i)) IN
       IterW(op, IF i = op.at THEN Writes(op.w, e1) ELSE e1, i + 1, n, Append(acc, Tok(Rd(e.st, ElemL(op.c, i)), op.c.t)))

Containers(op, e) ==
  LET c == op.c IN
  CASE op.op = "vset" -> IF ~Storable(op.v) THEN Fail(e, BadParam)
                         ELSE Result(WriteL(e, Label(c, <<>>), op.v), Nil)
    [] op.op = "vget" -> Result(ReadL(e, Label(c, <<>>)), Tok(Rd(e.st, Label(c, <<>>)), c.t))
    [] op.op = "vdel" -> Result(DeleteL(e, Label(c, <<>>)), Nil)
    [] op.op = "dset" -> IF BadKey(SubSeq(op.k, 1, Len(op.k) - 1)) THEN Fail(e, BadParam)
                         ELSE IF Len(op.k) < c.d THEN Fail(e, BadAccess)
                         ELSE IF BadKey(op.k) \/ ~Storable(op.v) THEN Fail(e, BadParam)
                         ELSE Result(WriteL(e, Label(c, KeyText(op.k)), op.v), Nil)
    [] op.op = "dget" -> IF BadKey(op.k) THEN Fail(e, BadParam)
                         ELSE IF Len(op.k) < c.d THEN Result(e, <<"s", "sub">>)
                         ELSE Result(ReadL(e, Label(c, KeyText(op.k))), Tok(Rd(e.st, Label(c, KeyText(op.k))), c.t))
    [] op.op = "ddel" -> IF BadKey(SubSeq(op.k, 1, Len(op.k) - 1)) THEN Fail(e, BadParam)
                         ELSE IF Len(op.k) < c.d THEN Fail(e, BadAccess)
                         ELSE IF BadKey(op.k) THEN Fail(e, BadParam)
                         ELSE Result(DeleteL(e, Label(c, KeyText(op.k))), Nil)
    [] op.op = "dhas" -> IF BadKey(op.k) THEN Fail(e, BadParam)
                         ELSE Result(ReadL(e, Label(c, KeyText(op.k))), BoolT(Rd(e.st, Label(c, KeyText(op.k))) # Absent))
    [] op.op = "diter" -> Fail(e, BadAccess)
    [] op.op = "aput" -> LET n == SizeOf(e.st, c)
                             e1 == ReadL(e, SizeL(c))
                         IN IF e1.ex = 0 /\ ~Storable(op.v) THEN Fail(e1, BadParam)
                            ELSE Result(WriteL(WriteL(e1, ElemL(c, n), op.v), SizeL(c), SizeVal(n + 1)), Nil)
    [] op.op = "apop" -> LET n == SizeOf(e.st, c)
                             e1 == ReadL(e, SizeL(c))
                         IN IF n = 0 THEN Result(e1, Nil)
                            ELSE LET v == Rd(e.st, ElemL(c, n - 1))
                                     e2 == ReadL(ReadL(e1, SizeL(c)), ElemL(c, n - 1))
                                     e3 == WriteL(DeleteL(e2, ElemL(c, n - 1)), SizeL(c), SizeVal(n - 1))
                                 IN Result(e3, Tok(v, c.t))
    [] op.op = "aget" -> LET n == SizeOf(e.st, c)
                             e1 == ReadL(e, SizeL(c))
                             i == IF op.i < 0 THEN op.i + n ELSE op.i
                         IN IF e1.ex # 0 THEN e1
                            ELSE IF i < 0 \/ i >= n THEN Fail(e1, BadParam)
                            ELSE Result(ReadL(e1, ElemL(c, i)), Tok(Rd(e.st, ElemL(c, i)), c.t))
    [] op.op = "aset" -> LET n == SizeOf(e.st, c)
                             e1 == ReadL(e, SizeL(c))
                             i == IF op.i < 0 THEN op.i + n ELSE op.i
                         IN IF e1.ex # 0 THEN e1
                            ELSE IF i < 0 \/ i >= n \/ ~Storable(op.v) THEN Fail(e1, BadParam)
                            ELSE Result(WriteL(e1, ElemL(c, i), op.v), Nil)
    [] op.op = "alen" -> Result(ReadL(e, SizeL(c)), IntT(SizeOf(e.st, c)))
    [] op.op = "aiter" -> Iter(ReadL(e, SizeL(c)), c, 0, SizeOf(e.st, c), <<>>)
    [] op.op = "aiterw" -> IterW(op, ReadL(e, SizeL(c)), 0, SizeOf(e.st, c), <<>>)
    [] op.op = "ahas" ->
         LET n == SizeOf(e.st, c)
             e1 == ReadL(e, SizeL(c))
         IN IF op.v[1] # c.t
            THEN \* compared one by one until equal: only a number and a truth value can be
                 LET same == {i \in 0..n - 1 : /\ {op.v[1], c.t} = {"i", "z"}
                                              /\ Tok(Rd(e.st, ElemL(c, i)), c.t)[2] = op.v[2]}
                     last == IF same = {} THEN n ELSE 1 + CHOOSE i \in same : \A j \in same : i <= j
                 IN Result(Iter(e1, c, 0, last, <<>>), BoolT(same # {}))
            ELSE IF e1.ex # 0 \/ n = 0 THEN Result(e1, BoolT(FALSE))
            ELSE LET s == Scan(e1, c, op.v, 0, 0, 0, 0)
                     e2 == IF s[2] > 1 THEN Charge(e1, Base(e.C, "get") * (s[2] - 1)) ELSE e1
                 IN Result(Charge([e2 EXCEPT !.scan = <<e1.lim - e1.u>>], Cost(e.C, "get", s[3])), BoolT(s[1]))

IsContainer(o) == o \in {"vset", "vget", "vdel", "dset", "dget", "ddel", "dhas", "diter",
                         "aput", "apop", "aget", "aset", "alen", "aiter", "aiterw", "ahas"}

\* ------------------------------------------------------ charged utilities
Ceil(n, d) == (n + d - 1) \div d
Ratio(C, permille) == (C.apiCall * permille) \div 1000
Utility(op, e) ==
  LET a == e.C.apiCall IN
  CASE op.op = "hash" -> Result(Charge(e, a + (a * Ceil(op.n, 32)) \div 10), IntT(32))
    [] op.op = "jd" -> LET j == Ratio(e.C, 5000) IN
                       Result(IF e.js THEN Charge(e, j + (j * (op.n + 2)) \div 100) ELSE e, <<"s", op.x>>)
    [] op.op = "jl" -> LET j == Ratio(e.C, 4000) IN
                       Result(IF e.js THEN Charge(e, j + (j * (op.n + 2)) \div 100) ELSE e, <<"s", op.x>>)
    [] op.op = "cak" -> Result(IF op.n = 33 THEN Charge(e, Ratio(e.C, 15000))
                               ELSE IF op.n = 65 THEN Charge(e, Ratio(e.C, 1500)) ELSE e, Nil)
    [] op.op = "rk" -> Result(Charge(e, Ratio(e.C, 70000)), Nil)
    [] op.op = "nop" -> Result(e, Nil)
IsUtility(o) == o \in {"hash", "jd", "jl", "cak", "rk", "nop"}

Clamp(c) == IF ScoreError + c < ScoreError THEN ScoreError
            ELSE IF ScoreError + c > CodeEnd THEN CodeEnd ELSE ScoreError + c

RECURSIVE SumLen(_, _)
SumLen(args, i) == IF i > Len(args) THEN 0 ELSE args[i][3] + SumLen(args, i + 1)

\* ------------------------------------------------------------------ events
\* what the contract declares: length of the signature; name, type and default of each parameter
Decl(sl, ps) == [sl |-> sl, ps |-> ps]
P(n, t) == <<n, t, Absent>>
EvDecl == [E0 |-> Decl(4, << >>),
           E1 |-> Decl(7, <<P("a", "i")>>),
           E2 |-> Decl(13, <<P("a", "s"), P("b", "b")>>),
           E3 |-> Decl(24, <<P("a", "a"), P("b", "z"), P("c", "i"), P("d", "s")>>),
           E4 |-> Decl(25, <<P("a", "b"), P("b", "i"), P("c", "s"), <<"d", "a", <<"n", "", 0, "">> >> >>),
           E5 |-> Decl(15, <<P("a", "i"), P("b", "i"), <<"c", "i", <<"i", "7", 1, "07">> >> >>),
           E6 |-> Decl(11, <<P("a", "s"), <<"b", "s", <<"s", "dd", 2, "6464">> >> >>)]
\* arguments by position and by name (in the order they are written) -> the recorded ones,
\* or <<Absent>> if the call does not fit the declaration
EvArgs(op) ==
  LET ps == EvDecl[op.e].ps
      n == Len(op.args)
      Named(x) == {j \in 1..Len(op.kw) : op.kw[j][1] = x}
      Pick(i) == IF i <= n THEN op.args[i]
                 ELSE IF Named(ps[i][1]) # {} THEN op.kw[CHOOSE j \in Named(ps[i][1]) : TRUE][2]
                 ELSE ps[i][3]
      Fits(v, t) == v # Absent /\ (v[1] \in {"n", t} \/ (v[1] = "z" /\ t = "i"))
      Conv(v, t) == IF v[1] = "z" /\ t = "i" THEN <<"i", v[2], v[3], v[4]>> ELSE v
  IN IF n + Len(op.kw) > Len(ps) \/ (\E i \in 1..n : i <= Len(ps) /\ Named(ps[i][1]) # {})
        \/ (\E j \in 1..Len(op.kw) : \A i \in 1..Len(ps) : ps[i][1] # op.kw[j][1])    \* no such parameter
        \/ (\E i \in 1..Len(ps) : ~Fits(Pick(i), ps[i][2]))
     THEN <<Absent>>
     ELSE [i \in 1..Len(ps) |-> Conv(Pick(i), ps[i][2])]

\* ------------------------------------------------------------------ frames
\* run = [costs, js, ro, to, m, from, value, limit, ops, store, bal, faults, ctx]
NoFrame == [enter |-> FALSE]
NewFrame(id, to, m, ops, from, value, lim, flag, st, bal) ==
  [id |-> id, to |-> to, m |-> m, ops |-> ops, from |-> from, value |-> value, lim |-> lim,
   flag |-> flag, fro |-> (m = "ask"), u |-> 0, pc |-> 1, te |-> 0, fee |-> 0,
   sst |-> st, sbal |-> bal, ret |-> Nil, cnt |-> 0, icx |-> << >>, entered |-> FALSE]
NewObs(f) == [to |-> f.to, m |-> f.m, flag |-> f.flag, value |-> f.value, limit |-> f.lim,
              res |-> <<>>, ev |-> <<>>, calls |-> <<>>, scans |-> <<>>, fee |-> 0, status |-> -1,
              steps |-> 0, val |-> Nil, msg |-> "*", marks |-> <<>>]

Top(m) == m.stack[Len(m.stack)]
SetTop(m, f) == [m EXCEPT !.stack = [m.stack EXCEPT ![Len(m.stack)] = f]]
Log(m, x) == [m EXCEPT !.obs[Top(m).id].res = Append(@, x)]

Start(R) ==
  LET f == NewFrame(1, R.to, R.m, R.ops, R.from, R.value, R.limit, R.ro, R.store, R.bal) IN
  [stack |-> <<f>>, store |-> R.store, bal |-> R.bal, obs |-> <<NewObs(f)>>, ncall |-> 0]

InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
Sender(f) == IF f.from = "" THEN Nil ELSE <<"a", f.from>>
Methods == {"run", "ask", "fallback"}
\* the owner as the node tells it to each frame: it may change under way
Owner(R, f) == LET os == R.ctx[f.to][1] IN os[((f.id - 1) % Len(os)) + 1]
Context(m, R, f) == <<"ctx", f.to, f.from, f.value>>

\* the answer of the node arrives at the calling frame
RECURSIVE Throw(_, _, _), Finish(_, _, _, _), Reply(_, _, _, _, _)
Throw(m, R, x) ==
  LET f == Top(m)
      \* what the contract sees: status, kind (u: user error, e: engine error, x: any other), text
      m1 == Log(m, <<"ex", IF x[1] = -1 THEN SystemError ELSE x[1], x[3], x[2]>>)
  IN IF f.te > 0 /\ f.pc <= f.te
     THEN SetTop(m1, [f EXCEPT !.pc = f.te + 1, !.te = 0])
     ELSE IF x[1] = -1   \* an exception that has no text: reported by the outer layer
     THEN Finish(SetTop(m1, [f EXCEPT !.u = f.lim]), R, SystemError, <<Nil, "*">>)
     ELSE Finish(m1, R, x[1], <<Nil, x[2]>>)
Finish(m, R, status, val) ==
  LET f == Top(m)
      ok == status = 0
      m1 == [m EXCEPT !.obs[f.id].status = status, !.obs[f.id].steps = f.u,
                      !.obs[f.id].val = val[1], !.obs[f.id].msg = val[2],
                      !.obs[f.id].fee = f.fee,
                      !.store = IF ok THEN @ ELSE f.sst, !.bal = IF ok THEN @ ELSE f.sbal,
                      !.stack = SubSeq(m.stack, 1, Len(m.stack) - 1)]
  IN IF m1.stack = <<>> THEN m1 ELSE Reply(m1, R, status, f.u + R.costs.contractCall, val)
Reply(m, R, status, steps, val) ==
  LET f == Top(m)
      op == f.ops[f.pc]
      lim == f.lim - f.u
      over == steps > lim
      g == [f EXCEPT !.u = IF over THEN f.lim ELSE f.u + steps]
      m1 == SetTop(m, g)
      code == IF over THEN SystemError ELSE status
      next == SetTop(m, [g EXCEPT !.pc = f.pc + 1])
      obsu == [next EXCEPT !.obs[f.id].marks = Append(@, g.u)]
  IN IF op.how = "send" THEN Log(obsu, <<"ok", BoolT(code = 0)>>)
     ELSE IF code = 0 THEN Log(obsu, <<"ok", IF op.how = "transfer" THEN Nil ELSE val[1]>>)
     ELSE Throw(m1, R, <<code, IF over THEN "*" ELSE val[2],
                         IF over THEN "x" ELSE IF code >= ScoreError THEN "u" ELSE "e">>)

PendIcx(f, to) == IF to \in DOMAIN f.icx THEN f.icx[to] ELSE 0

Call(m, R, op) ==
  LET f == Top(m)
      isI == op.how \in {"iface", "ifacekw"}
      v == IF isI THEN PendIcx(f, op.to) ELSE op.v
      meth == IF op.how \in {"transfer", "send", "fb"} THEN "" ELSE op.m
      params == CASE op.how = "call" -> "dict" [] op.how = "iface" -> "list"
                  [] op.how = "ifacekw" -> "dict" [] op.how = "fb" -> "list" [] OTHER -> "list"
      lim == f.lim - f.u
      cc == R.costs.contractCall
      n == m.ncall + 1
      f1 == IF isI THEN [f EXCEPT !.icx = Put(f.icx, op.to, 0)] ELSE f
      m1 == [SetTop(m, f1) EXCEPT !.ncall = n,
                !.obs[f.id].calls = Append(@, <<op.to, v, lim, meth, params>>)]
      fault == IF ToString(n) \in DOMAIN R.faults THEN R.faults[ToString(n)] ELSE <<>>
      sender == f.to
      Bal(a) == IF a \in DOMAIN m.bal THEN m.bal[a] ELSE 0
  IN IF fault # <<>>
     THEN Reply(m1, R, fault[1], IF fault[2] < 0 THEN lim - fault[2] ELSE fault[2],
                <<Nil, IF fault[1] = 0 THEN "" ELSE fault[3]>>)
     ELSE IF lim < cc THEN Reply(m1, R, OutOfStep, lim, <<Nil, "OutOfStep">>)
     ELSE IF v > 0 /\ f.flag THEN Reply(m1, R, Denied, cc, <<Nil, "ReadOnly">>)
     ELSE IF v > Bal(sender) THEN Reply(m1, R, OutOfBalance, cc, <<Nil, "OutOfBalance">>)
     ELSE LET b1 == IF v = 0 THEN m.bal ELSE Put(m.bal, sender, Bal(sender) - v)
              b2 == IF v = 0 THEN b1
                    ELSE Put(b1, op.to, (IF op.to \in DOMAIN b1 THEN b1[op.to] ELSE 0) + v)
          IN IF InSeq(op.to, R.eoas) THEN Reply([m1 EXCEPT !.bal = b2], R, 0, cc, <<Nil, "">>)
             ELSE IF ~InSeq(op.to, R.contracts) THEN Reply(m1, R, NotFound, cc, <<Nil, "NoContract">>)
             ELSE LET mm == IF meth = "" THEN "fallback" ELSE meth
                      g == NewFrame(Len(m.obs) + 1, op.to, mm, IF mm = "fallback" THEN <<>> ELSE op.body,
                                    sender, v, lim - cc, f.flag \/ mm = "ask", m.store, m.bal)
                  IN [m1 EXCEPT !.bal = b2, !.stack = Append(@, g), !.obs = Append(@, NewObs(g))]

\* one step of the machine
Step(m, R) ==
  LET f == Top(m) IN
  IF ~f.entered
  THEN IF f.m \notin Methods THEN Finish(m, R, NoMethod, <<Nil, "*">>)
       ELSE IF f.m = "ask" /\ f.value > 0 THEN Finish(m, R, NotPayable, <<Nil, "*">>)
       ELSE Log(SetTop(m, [f EXCEPT !.entered = TRUE]),
                <<"enter", f.m, Sender(f), IntT(f.value), <<"a", f.to>> >>)
  ELSE IF f.pc > Len(f.ops)
  THEN LET m1 == Log(m, <<"leave", Sender(f), IntT(f.value), <<"a", f.to>> >>) IN
       IF f.ret[1] = "f"   \* a value that has no encoding
       THEN Finish(SetTop(m1, [f EXCEPT !.u = f.lim]), R, SystemError, <<Nil, "*">>)
       ELSE Finish(m1, R, 0, <<f.ret, "">>)
  ELSE
  LET op == f.ops[f.pc]
      own == Rd(m.store, f.to)
      e0 == [C |-> R.costs, lim |-> f.lim, u |-> f.u, ex |-> 0, msg |-> "*", st |-> own,
             r |-> Nil, wr |-> ~f.flag /\ ~f.fro, js |-> R.js, scan |-> <<>>]
      Fin(e) == \* store the outcome of a local operation
        LET m1 == [SetTop(m, [f EXCEPT !.u = e.u]) EXCEPT !.store = IF e.st = own THEN @ ELSE Put(@, f.to, e.st),
                      !.obs[f.id].marks = Append(@, e.u), !.obs[f.id].scans = @ \o e.scan]
        IN IF e.ex # 0 THEN Throw(m1, R, <<e.ex, e.msg, "e">>)
           ELSE Log(SetTop(m1, [f EXCEPT !.u = e.u, !.pc = f.pc + 1]), <<"ok", e.r>>)
      Next1(g, r) == Log(SetTop(m, [g EXCEPT !.pc = f.pc + 1]), <<"ok", r>>)
  IN CASE op.op = "try" -> SetTop(m, [f EXCEPT !.te = f.pc + op.n, !.pc = f.pc + 1])
       [] op.op = "ret" -> Next1([f EXCEPT !.ret = <<op.v[1], op.v[2]>>], Nil)
       [] IsContainer(op.op) -> Fin(Containers(op, e0))
       [] IsUtility(op.op) -> Fin(Utility(op, e0))
       [] op.op = "ev" ->
            LET args == EvArgs(op)
                e1 == IF args = <<Absent>> \/ f.flag \/ f.fro THEN Fail(e0, IllegalFormat)
                      ELSE LET n == EvDecl[op.e].sl + SumLen(args, 1) IN
                           Charge(e0, IF R.costs.schema = 0 THEN R.costs.eventLog * n ELSE Cost(R.costs, "log", n))
                m1 == Fin(e1)
            IN IF e1.ex = 0
               THEN [m1 EXCEPT !.obs[f.id].ev = Append(@, <<op.e, [i \in 1..Len(args) |-> <<args[i][1], args[i][2]>>]>>)]
               ELSE m1
       [] op.op = "lazy" -> Next1(f, Nil)   \* what follows is done when the returned value is read
       [] op.op = "bal" -> Next1(f, IntT(IF op.a \in DOMAIN m.bal THEN m.bal[op.a] ELSE 0))
       [] op.op = "icx" -> IF op.v < 0 THEN Throw(m, R, <<BadParam, "*", "e">>)
                           ELSE Next1([f EXCEPT !.icx = Put(f.icx, op.to, op.v)], Nil)
       [] op.op = "fee" -> IF f.flag \/ f.fro \/ op.v < 0 \/ op.v > 100 THEN Throw(m, R, <<IllegalFormat, "*", "e">>)
                           ELSE Next1([f EXCEPT !.fee = op.v], Nil)
       [] op.op = "cnt" -> Next1([f EXCEPT !.cnt = @ + 1], IntT(f.cnt + 1))
       [] op.op = "feeget" -> Next1(f, IntT(f.fee))
       [] op.op = "revert" -> Throw(m, R, IF op.bad THEN <<BadParam, "*", "e">> ELSE <<Clamp(op.code), op.m, "u">>)
       [] op.op = "raise" -> Throw(m, R, CASE op.w = "score" -> <<Clamp(op.code), op.m, "u">>
                                           [] op.w = "badidx" -> <<BadParam, "*", "e">>
                                           [] op.w \in {"value", "assert"} -> <<SystemError, op.m, "x">>
                                           [] op.w = "coded" -> <<SystemError, op.m, "x">>   \* its code is none
                                           [] op.w \in {"weird", "weird2", "weird3", "weird4", "surr"} -> <<-1, "*", "x">>
                                           [] OTHER -> <<SystemError, "*", "x">>)
       [] op.op = "ctx" -> Next1(f, <<"l", << Sender(f), IntT(f.value), <<"a", f.to>>, Owner(R, f) >> \o Tail(R.ctx[f.to]) >>)
       [] op.op = "call" -> Call(m, R, op)

Done(m) == m.stack = <<>>
=============================================================================
