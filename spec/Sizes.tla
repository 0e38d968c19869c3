------------------------------- MODULE Sizes -------------------------------
(* Values of any size on their way between contracts, the node and the      *)
(* storage.  A value of a kind and size (in units of the kind) starts at the  *)
(* node ("given") or in the contract ("made"), takes hops, and ends as the    *)
(* result of the invocation.  Each hop is a number of messages, which carry     *)
(* the value unchanged: no size is too big for a message, whoever sends it, as    *)
(* the node cannot refuse to pass on what contracts give each other.                *)
(* sizes.json: kinds, sizes, hops, length.                                            *)
EXTENDS Integers, Sequences, TLC, Json
D == JsonDeserialize("sizes.json")
Range(q) == {q[i] : i \in 1..Len(q)}
VARIABLES kind, size, start, route, carried, ended
vars == <<kind, size, start, route, carried, ended>>
\* messages in which a hop carries it: what the engine sends, what the node does
Messages(h) ==
  CASE h = "call" -> <<"<CALL", ">INVOKE", "<RESULT", ">RESULT">>     \* passed by position, and handed back
    [] h = "named" -> <<"<CALL", ">INVOKE", "<RESULT", ">RESULT">>
    [] h = "store" -> <<"<SETVALUE", ">GETVALUE">>                    \* written and read again
    [] h = "event" -> <<"<EVENT">>
    [] h = "fail" -> <<"<CALL", ">INVOKE", "<RESULT", ">RESULT">>     \* the callee reverts with it as the message
\* which values can take it
Can(h) == CASE h = "store" -> kind \in {"bytes", "text", "int"}
            [] h = "event" -> kind \in {"bytes", "text", "int"}
            [] h = "fail" -> kind = "text"
            [] h = "named" -> kind # "bytes"                           \* by name, byte strings come as texts
            [] OTHER -> TRUE
Init == /\ kind \in Range(D.kinds) /\ size \in Range(D.sizes)
        /\ start \in {"given", "made"} /\ route = <<>> /\ ended = FALSE
        /\ carried = IF start = "given" THEN << <<">INVOKE", size>> >> ELSE <<>>
Hop == /\ ~ended /\ Len(route) < D.length
       /\ \E h \in Range(D.hops) : /\ Can(h) /\ route' = Append(route, h)
            /\ carried' = carried \o [i \in 1..Len(Messages(h)) |-> <<Messages(h)[i], size>>]
       /\ UNCHANGED <<kind, size, start, ended>>
End == /\ ~ended /\ ended' = TRUE
       /\ carried' = Append(carried, <<"<RESULT", size>>)
       /\ UNCHANGED <<kind, size, start, route>>
       /\ PrintT("@@ " \o ToJson([kind |-> kind, size |-> size, start |-> start, route |-> route, carried |-> carried']))
Next == Hop \/ End
Spec == Init /\ [][Next]_vars
Unchanged == \A i \in 1..Len(carried) : carried[i][2] = size
\* what one side of a call gets is what the other gave
Paired == \A i \in 1..(Len(carried) - 1) : carried[i][1] = "<CALL" => carried[i + 1] = <<">INVOKE", carried[i][2]>>
=============================================================================
