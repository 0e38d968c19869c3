------------------------------- MODULE Texts -------------------------------
(* Values of a contract whose text is made by code of the contract, and what   *)
(* the engine does with them.  Making the text of such a value counts in the    *)
(* storage of the contract (x).  A node writes logs at some level; nothing here   *)
(* reads it: what happens to x, and how an invocation ends, is the same at all.    *)
(* kinds of values: "obj" an object, "sub" a text of a class of the contract,       *)
(* "list" and "dict" with such an object in it, "big" an integer with more digits     *)
(* than this Python turns into text, "plain" an ordinary text.                          *)
EXTENDS Integers, Sequences
Logs == {"debug", "info", "warning", "error", "exception", "tag"}
Objects == {"obj", "list", "dict"}
Ok(s, v) == [s EXCEPT !.ret = v]
Stop(s, code) == [s EXCEPT !.ex = code]
\* one operation <<what, kind of value>> on [x, ex, ret]: texts made, exception, value
Do(s, o, k) ==
  CASE o \in Logs -> (IF k = "big" THEN Stop(s, 1) ELSE IF k = "plain" THEN s ELSE [s EXCEPT !.x = @ + 1])
    [] o = "raise" -> Stop(s, 1)                \* with the value for a text, which is made for the answer if it isn't caught
    [] o = "own" -> Stop(s, 1)                  \* an exception of the contract
    [] o = "caught" -> s                        \* the same, raised and caught, with a log about it
    [] o = "score" -> Stop(s, IF k \in {"plain", "sub"} THEN 32 ELSE 1)
    [] o = "revert" -> (IF k = "big" THEN Stop(s, 6)    \* its text is made first
                        ELSE Stop(IF k \in Objects THEN [s EXCEPT !.x = @ + 1] ELSE s, 32))
    [] o = "ret" -> Ok(s, k)
    [] o = "pos" -> (IF k = "big" THEN Ok(s, "one") ELSE Stop(s, 1))     \* the callee wants a number
    [] o = "amount" -> (IF k = "big" THEN s ELSE Stop(s, 6))
    [] o = "nested" -> Stop(s, 1)               \* a callee ending with an exception of its own
    [] o = "ev" -> (IF k = "big" THEN [s EXCEPT !.ev = @ + 1] ELSE Stop(s, 5))
    [] o = "evs" -> (IF k \in {"plain", "sub"} THEN [s EXCEPT !.ev = @ + 1] ELSE Stop(s, 5))
    [] o = "key" -> (IF k \in Objects THEN Stop(s, 6) ELSE s)
    [] o = "json" -> (IF k \in Objects \cup {"big"} THEN Stop(s, 1) ELSE s)
    [] o = "fee" -> Stop(s, 5)
    [] o = "hash" -> Stop(s, 6)
    [] o = "bal" -> s
Blank == [x |-> 0, ev |-> 0, ex |-> 0, ret |-> "none"]
\* a program: <<what, kind, guarded>>; what is caught is gone
RECURSIVE Fold(_, _, _)
Fold(s, p, i) ==
  IF i > Len(p) THEN s
  ELSE LET n == Do(s, p[i][1], p[i][2]) IN
       IF n.ex # 0 /\ p[i][3] THEN Fold([n EXCEPT !.ex = 0], p, i + 1)
       ELSE IF n.ex # 0 THEN n ELSE Fold(n, p, i + 1)
Outcome(p) == LET s == Fold(Blank, p, 1)
                  c == IF s.ex # 0 THEN s.ex ELSE IF s.ret \in Objects THEN 1 ELSE 0
              IN [status |-> c, x |-> IF c = 0 THEN s.x ELSE 0, ev |-> s.ev, ret |-> IF c = 0 THEN s.ret ELSE "none"]
=============================================================================
