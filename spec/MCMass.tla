------------------------------- MODULE MCMass --------------------------------
(* The net of module Mass with few of everything: nothing is taken that is    *)
(* not there, and nothing gets lost.                                          *)
EXTENDS Mass

CONSTANTS Kind, Max
VARIABLES m, sent
vars == <<m, sent>>

Ops == CASE Kind = "dealer" -> {"register", "taken", "call", "stray", "answer", "again", "unregister", "gone", "orphan", "dropped", "parts", "progress", "leave"}
         [] Kind = "broker" -> {"attach", "subscribe", "publish", "unsubscribe", "depart", "topics", "still", "unheard", "ack"}
         [] Kind = "session" -> {"send", "reply", "twice", "invoke", "yield", "yielded", "event", "ended", "fail"}
Events ==
    UNION {IF o = "leave" THEN {[op |-> o, n |-> n, calls |-> c] : n \in 0..Max, c \in 0..Max}
           ELSE IF o \in {"send", "reply", "twice"} THEN {[op |-> o, n |-> n, t |-> t] : n \in 1..Max, t \in Requests}
           ELSE {[op |-> o, n |-> n] : n \in 1..Max} : o \in Ops}

Total(x, S) == LET RECURSIVE Sum(_) Sum(T) == IF T = {} THEN 0 ELSE LET p == CHOOSE p \in T : TRUE IN x[p] + Sum(T \ {p}) IN Sum(S)

Init == m = Empty /\ sent = [o \in Ops |-> 0]
\* a session does not ask twice for the end of the same thing
Polite(e) ==
    e.op = "send" => /\ e.t = "UNREGISTER" => m["waits UNREGISTER"] + e.n <= m.reg
                     /\ e.t = "UNSUBSCRIBE" => m["waits UNSUBSCRIBE"] + e.n <= m.live
Next ==
    \E e \in Events :
        /\ Enabled(m, e) /\ Polite(e) /\ sent[e.op] + e.n <= Max * (IF e.op \in {"send", "reply"} THEN 2 ELSE 1)
        /\ m' = After(m, e) /\ sent' = [sent EXCEPT ![e.op] = @ + e.n]
Spec == Init /\ [][Next]_vars

Counts == \A p \in Places : m[p] >= 0
Kept ==
    CASE Kind = "dealer" -> /\ m.reg + m.free + m.orphan = sent["register"]
                            /\ m.open + m.over + m.lost = sent["call"]
      [] Kind = "broker" -> /\ m.att + m.sub + sent["depart"] = sent["attach"]
                            /\ m.topic + sent["unheard"] = sent["topics"]
      [] Kind = "session" ->
            /\ Total(m, {"waits " \o t : t \in Requests} \cup {"had " \o t : t \in Requests}) = sent["send"]
            /\ m.live + m.ended = m["had SUBSCRIBE"] /\ m.ended = m["had UNSUBSCRIBE"]
            /\ m.reg + m["had UNREGISTER"] = m["had REGISTER"]
            /\ m.inv + m.yielded = sent["invoke"]
            /\ m["waits UNREGISTER"] <= m.reg /\ m["waits UNSUBSCRIBE"] <= m.live
=============================================================================
