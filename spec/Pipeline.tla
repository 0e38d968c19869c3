------------------------------ MODULE Pipeline ------------------------------
(* How the engine really accounts for storage: a write is sent without       *)
(* waiting, and what it replaced is learnt later from an acknowledgement,    *)
(* in order, when the engine next has to receive something (a synchronous    *)
(* request, a limit to report, steps running out, too many pending writes,   *)
(* the end of the invocation).  Settling an acknowledgement may itself       *)
(* consume steps, which may settle further ones.  The engine is a stack of   *)
(* continuations; node and engine exchange messages over two FIFO channels   *)
(* and interleave freely.                                                    *)
(*                                                                           *)
(* Checked: every answer is taken for the request it answers (Matched); when *)
(* no deletion costs steps the outcome equals the eager accounting of module *)
(* Machine (Refines); nothing is left over at the end (Drained); no more     *)
(* than the limit is used.                                                   *)
EXTENDS Machine, Json, FiniteSets
D == JsonDeserialize("pipe.json")
\* letters: [op, key, n]; tables; limits: sequence of sequences per table; inits:
\* sequence of label -> value functions; maxh; maxlen
VARIABLES x, p, ph, k, used, h, e2n, n2e, st, exc, pc, te, log, status, ret, wr
vars == <<x, p, ph, k, used, h, e2n, n2e, st, exc, pc, te, log, status, ret, wr>>
T == D.tables[x.t]
Lim == x.lim
Op == D.letters[p[pc]]
Key(i) == "V/" \o i
Val(n) == D.vals[n + 1]            \* the value of n bytes

NoExc == <<>>
Push(s, c) == Append(s, c)
Pop(s) == SubSeq(s, 1, Len(s) - 1)
TopK == k[Len(k)]

Init == /\ \E t \in 1..Len(D.tables), i \in 1..Len(D.inits) :
              \E l \in 1..Len(D.limits[t]) : x = [t |-> t, i |-> i, lim |-> D.limits[t][l]]
        /\ st = D.inits[x.i] /\ p = D.prefix /\ ph = "build" /\ k = <<>> /\ used = 0 /\ h = <<>>
        /\ e2n = <<>> /\ n2e = <<>> /\ exc = NoExc /\ pc = 1 /\ te = 0 /\ log = <<>> /\ status = 0
        /\ ret = Absent /\ wr = 0
Build == /\ ph = "build" /\ Len(p) < D.maxlen
         /\ \E i \in 1..Len(D.letters) : p' = Append(p, i)
         /\ UNCHANGED <<x, ph, k, used, h, e2n, n2e, st, exc, pc, te, log, status, ret, wr>>
Go == /\ ph = "build" /\ Len(p) >= D.minlen /\ ph' = "run" /\ k' = <<[t |-> "op"]>>
      /\ UNCHANGED <<x, p, used, h, e2n, n2e, st, exc, pc, te, log, status, ret, wr>>

\* ------------------------------------------------------------------- node
Blocked == \/ k = <<>>
           \/ TopK.t = "drain" /\ Len(h) > TopK.rem /\ n2e = <<>>
           \/ TopK.t \in {"recv", "skip"} /\ n2e = <<>>
Node == /\ ph = "run" /\ e2n # <<>> /\ (D.sched = "lazy" => Blocked)
        /\ LET m == Head(e2n)
               old == Rd(st, Key(m.key))
           IN /\ e2n' = Tail(e2n)
              /\ IF m.t = "get"
                 THEN st' = st /\ n2e' = Append(n2e, [t |-> "get", id |-> m.id, v |-> old])
                 ELSE /\ st' = IF m.t = "del" THEN Rem(st, Key(m.key)) ELSE Put(st, Key(m.key), m.v)
                      /\ n2e' = IF m.cb THEN Append(n2e, [t |-> "ack", id |-> m.id, v |-> old]) ELSE n2e
        /\ UNCHANGED <<x, p, ph, k, used, h, exc, pc, te, log, status, ret, wr>>

\* ----------------------------------------------------------------- engine
\* one step of the engine, as a record of what changes
Cur == [k |-> k, used |-> used, h |-> h, out |-> e2n, inn |-> n2e, exc |-> exc, pc |-> pc, te |-> te,
        log |-> log, status |-> status, ret |-> ret, wr |-> wr, ph |-> ph]
Consume(amt, ty) == [t |-> "cons", amt |-> amt, ty |-> ty]
Sync(s, key) == \* send a request, then settle, then receive
  [s EXCEPT !.out = Append(@, [t |-> "get", key |-> key, id |-> s.wr + 1]), !.wr = @ + 1,
            !.k = Push(Push(@, [t |-> "recv", id |-> s.wr + 1]), [t |-> "drain", rem |-> 0])]
Send(s, key, v, cb) ==
  LET id == s.wr + 1
      del == v = Absent
      s1 == [s EXCEPT !.out = Append(@, [t |-> IF del THEN "del" ELSE "set", key |-> key, v |-> v, cb |-> cb # "", id |-> id]),
                      !.wr = id]
  IN IF cb = "" THEN s1
     ELSE LET s2 == [s1 EXCEPT !.h = Append(@, [id |-> id, cb |-> cb, n |-> IF del THEN 0 ELSE v[3]])]
          IN IF Len(s2.h) > D.maxh THEN [s2 EXCEPT !.k = Push(@, [t |-> "drain", rem |-> D.maxh])] ELSE s2

Result1(s, r) == [s EXCEPT !.log = Append(@, r), !.pc = @ + 1]

\* raise: unwind to the innermost place that handles it
RECURSIVE Raise(_, _)
Raise(s, e) ==
  LET c == s.k[Len(s.k)]
      s1 == [s EXCEPT !.k = Pop(@)]
  IN CASE c.t = "recv" -> [s1 EXCEPT !.k = Push(@, [t |-> "skip", id |-> c.id, e |-> e])]
       [] c.t = "try" /\ e.ty = "set" ->
            Sync([s1 EXCEPT !.used = @ + e.used - Lim, !.k = Push(@, [t |-> "fall", key |-> c.key, v |-> c.v])], c.key)
       [] c.t = "op" ->
            LET s2 == [s EXCEPT !.log = Append(@, "ex")] IN
            IF s.te > 0 /\ s.pc <= s.te THEN [s2 EXCEPT !.pc = s.te + 1, !.te = 0]
            ELSE [s2 EXCEPT !.status = OutOfStep, !.k = <<[t |-> "fin"], [t |-> "drain", rem |-> 0]>>]
       [] c.t = "fin" -> [s1 EXCEPT !.status = IF @ = 0 THEN OutOfStep ELSE @, !.ph = "end"]
       [] OTHER -> Raise(s1, e)

EngineStep ==
  LET s == Cur
      c == TopK
      q == [s EXCEPT !.k = Pop(@)]
  IN CASE c.t = "op" ->
          IF pc > Len(p) THEN [s EXCEPT !.k = <<[t |-> "fin"], [t |-> "drain", rem |-> 0]>>]
          ELSE LET o == Op IN (
            CASE o.op = "try" -> [s EXCEPT !.te = pc + o.n, !.pc = pc + 1]
              [] o.op = "chg" -> [s EXCEPT !.k = Push(Push(@, [t |-> "ok"]), Consume(o.n, "api"))]
              [] o.op = "get" -> Sync([s EXCEPT !.k = Push(Push(@, [t |-> "ok"]), [t |-> "got"])], o.key)
              [] o.op = "del" -> Send([s EXCEPT !.k = Push(@, [t |-> "ok"])], o.key, Absent, "delete")
              [] o.op = "set" ->
                   IF o.n = 0 THEN Send([s EXCEPT !.k = Push(@, [t |-> "ok"])], o.key, Val(0), "delete")
                   ELSE [s EXCEPT !.k = Push(Push(Push(@, [t |-> "ok"]), [t |-> "try", key |-> o.key, v |-> Val(o.n)]),
                                             Consume(Cost(T, "set", o.n), "set"))])
       [] c.t = "ok" -> Result1(q, "ok")
       [] c.t = "cons" -> IF c.amt = 0 THEN q
                          ELSE IF used + c.amt <= Lim THEN [q EXCEPT !.used = @ + c.amt]
                          ELSE IF h # <<>> THEN [s EXCEPT !.k = Push(@, [t |-> "drain", rem |-> 0])]
                          ELSE Raise([q EXCEPT !.used = Lim], [ty |-> c.ty, used |-> used])
       [] c.t = "drain" ->
            IF Len(h) <= c.rem THEN q
            ELSE LET m == Head(n2e)
                     hd == Head(h)
                     s1 == [s EXCEPT !.h = Tail(@), !.inn = Tail(@)]
                     bad == m.t # "ack" \/ m.id # hd.id
                     n == IF T.schema = 0 THEN hd.n ELSE m.v[3]
                 IN IF bad THEN [s1 EXCEPT !.ph = "desync"]
                    ELSE IF m.v = Absent THEN s1
                    ELSE IF hd.cb = "refund"
                    THEN [s1 EXCEPT !.used = @ + Refund(T, n, n)]
                    ELSE LET a == Cost(T, "delete", m.v[3]) IN
                         IF a = 0 THEN s1 ELSE [s1 EXCEPT !.k = Push(@, Consume(a, "delete"))]
       [] c.t = "recv" -> LET m == Head(n2e) IN
            IF m.t # "get" \/ m.id # c.id THEN [q EXCEPT !.ph = "desync"]
            ELSE [q EXCEPT !.inn = Tail(@), !.ret = m.v]
       [] c.t = "skip" -> LET m == Head(n2e) IN
            IF m.t # "get" \/ m.id # c.id THEN [q EXCEPT !.ph = "desync"]
            ELSE Raise([q EXCEPT !.inn = Tail(@)], c.e)
       [] c.t = "got" -> [q EXCEPT !.k = Push(@, Consume(Cost(T, "get", IF ret = Absent THEN 0 ELSE ret[3]), "get"))]
       [] c.t = "try" -> Send(q, c.key, c.v, "refund")     \* charged: send it
       [] c.t = "fall" ->
            LET old == ret # Absent /\ ret[3] > 0
                put == [t |-> "put", key |-> c.key, v |-> c.v]
                n == c.v[3]
            IN IF T.schema = 0
               THEN [q EXCEPT !.k = Push(Push(@, put), IF old THEN Consume(T.replace * n, "replace") ELSE Consume(T.set * n, "set"))]
               ELSE [q EXCEPT !.used = IF old THEN @ + Refund(T, ret[3], n) ELSE @,
                              !.k = Push(Push(@, put), Consume(Cost(T, "set", n), "set"))]
       [] c.t = "put" -> Send(q, c.key, c.v, "")
       [] c.t = "fin" -> [q EXCEPT !.ph = "end"]

Engine == /\ ph = "run" /\ ~Blocked /\ (D.sched = "node" => e2n = <<>>)
          /\ LET s == EngineStep IN
             /\ k' = s.k /\ used' = s.used /\ h' = s.h /\ e2n' = s.out /\ n2e' = s.inn /\ exc' = s.exc
             /\ pc' = s.pc /\ te' = s.te /\ log' = s.log /\ status' = s.status /\ ret' = s.ret /\ wr' = s.wr
             /\ ph' = s.ph
          /\ UNCHANGED <<x, p, st>>
Report == /\ ph = "end" /\ e2n = <<>>
          /\ IF D.print THEN PrintT("@@ " \o ToJson([x |-> x, p |-> p, used |-> used, status |-> status, log |-> log])) ELSE TRUE
          /\ ph' = "over" /\ UNCHANGED <<x, p, k, used, h, e2n, n2e, st, exc, pc, te, log, status, ret, wr>>
Flush == ph = "end" /\ e2n # <<>> /\ LET m == Head(e2n)
               old == Rd(st, Key(m.key)) IN
         /\ e2n' = Tail(e2n)
         /\ st' = IF m.t = "get" THEN st ELSE IF m.t = "del" THEN Rem(st, Key(m.key)) ELSE Put(st, Key(m.key), m.v)
         /\ n2e' = IF m.t = "get" \/ m.cb THEN Append(n2e, [t |-> m.t, id |-> m.id, v |-> old]) ELSE n2e
         /\ UNCHANGED <<x, p, ph, k, used, h, exc, pc, te, log, status, ret, wr>>
Next == Build \/ Go \/ Node \/ Engine \/ Flush \/ Report
Spec == Init /\ [][Next]_vars

\* -------------------------------------------------------------- properties
Matched == ph # "desync"
Bounded == used <= Lim \/ \E n \in 0..3, j \in 0..3 : Refund(T, n, j) > 0
Drained == ph \in {"end", "over"} => h = <<>> /\ n2e = <<>>
Stuck == (ph = "run" /\ Blocked) => e2n # <<>>
Pending == Len(h) <= D.maxh + 1

\* the eager accounting
E0(s) == [C |-> T, lim |-> Lim, u |-> s.u, ex |-> 0, msg |-> "*", st |-> s.st, r |-> Nil, wr |-> TRUE, js |-> FALSE]
RECURSIVE Eager(_, _)
Eager(s, i) ==
  IF i > Len(p) THEN s
  ELSE LET o == D.letters[p[i]]
           e == CASE o.op = "chg" -> Charge(E0(s), o.n)
                  [] o.op = "get" -> ReadL(E0(s), Key(o.key))
                  [] o.op = "del" -> DeleteL(E0(s), Key(o.key))
                  [] o.op = "set" -> WriteL(E0(s), Key(o.key), Val(o.n))
                  [] OTHER -> E0(s)
           s1 == [s EXCEPT !.u = e.u, !.st = e.st]
       IN IF o.op = "try" THEN Eager([s EXCEPT !.te = i + o.n], i + 1)
          ELSE IF e.ex = 0 THEN Eager([s1 EXCEPT !.log = Append(@, "ok")], i + 1)
          ELSE IF s.te > 0 /\ i <= s.te THEN Eager([s1 EXCEPT !.log = Append(@, "ex"), !.te = 0], s.te + 1)
          ELSE [s1 EXCEPT !.log = Append(@, "ex"), !.status = OutOfStep]
EagerEnd == Eager([u |-> 0, st |-> D.inits[x.i], te |-> 0, log |-> <<>>, status |-> 0], 1)
FreeDel == \A n \in 0..D.maxn : Cost(T, "delete", n) <= 0
HasTry == \E i \in 1..Len(p) : D.letters[p[i]].op = "try"
Refines == ph = "over" => LET e == EagerEnd IN
              /\ FreeDel => /\ e.u = used /\ e.status = status /\ e.log = log
                            /\ status = 0 => e.st = st
              \* a deletion that costs is found out late: what comes after it may
              \* already have given steps back, so that only success is certain
              /\ (~HasTry /\ e.status = 0) => used = e.u /\ status = 0 /\ e.st = st
=============================================================================
