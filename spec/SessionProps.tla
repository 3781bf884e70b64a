---------------------------- MODULE SessionProps ----------------------------
(* The properties of a client session, each as a condition on the last entry  *)
(* of a log L of events with their replies, given the entries before it.      *)
(* Nothing here refers to the state of module Session.                        *)
EXTENDS Wamp

Latest(L) == L[Len(L)]
Did(x, op, t) == x.op = op /\ x.t = t /\ x.r.k = "ok"

\* the reply of each request
ReplyOf == [CALL |-> "RESULT", REGISTER |-> "REGISTERED", UNREGISTER |-> "UNREGISTERED",
            PUBLISH |-> "PUBLISHED", SUBSCRIBE |-> "SUBSCRIBED", UNSUBSCRIBE |-> "UNSUBSCRIBED"]
Requests == DOMAIN ReplyOf

\* entry k ends the request of type mt under req
Ends(x, mt, req) ==
    \/ Did(x, "recv", ReplyOf[mt]) /\ x.req = req /\ (mt = "CALL" => ~x.pg)
    \/ Did(x, "recv", "ERROR") /\ x.mt = mt /\ x.req = req
\* before position i: the requests of type mt under req that wait for an answer
Pending(L, i, mt, req) ==
    {j \in 1..i-1 : Did(L[j], "send", mt) /\ L[j].req = req /\ (mt = "PUBLISH" => L[j].ack)
                    /\ \A k \in j+1..i-1 : ~Ends(L[k], mt, req)}

\* before position i: registration g is live
EndsReg(L, k, g) ==
    Did(L[k], "recv", "UNREGISTERED") /\ \E j \in Pending(L, k, "UNREGISTER", L[k].req) : L[j].reg = g
LiveReg(L, i, g) ==
    \E j \in 1..i-1 : Did(L[j], "recv", "REGISTERED") /\ L[j].reg = g /\ \A k \in j+1..i-1 : ~EndsReg(L, k, g)
EndsSub(L, k, g) ==
    Did(L[k], "recv", "UNSUBSCRIBED") /\ \E j \in Pending(L, k, "UNSUBSCRIBE", L[k].req) : L[j].sub = g
LiveSub(L, i, g) ==
    \E j \in 1..i-1 : Did(L[j], "recv", "SUBSCRIBED") /\ L[j].sub = g /\ \A k \in j+1..i-1 : ~EndsSub(L, k, g)

\* before position i: invocation v is open
EndsInv(x, v) ==
    \/ Did(x, "send", "YIELD") /\ x.inv = v /\ ~x.pg
    \/ Did(x, "send", "ERROR") /\ x.req = v
OpenInv(L, i, v) ==
    \E j \in 1..i-1 : Did(L[j], "recv", "INVOCATION") /\ L[j].inv = v /\ \A k \in j+1..i-1 : ~EndsInv(L[k], v)

Right(x, yes) == x.r.k = IF yes THEN "ok" ELSE "refused"

-----------------------------------------------------------------------------

P13(L) ==
    LET n == Len(L)  e == Latest(L)
    IN /\ (e.op = "recv" /\ ~e.bad) =>
            CASE \E mt \in Requests \ {"UNREGISTER", "UNSUBSCRIBE"} : e.t = ReplyOf[mt] ->
                    Right(e, \E mt \in Requests : e.t = ReplyOf[mt] /\ Pending(L, n, mt, e.req) # {})
              [] e.t = "UNREGISTERED" -> Right(e, \E j \in Pending(L, n, "UNREGISTER", e.req) : LiveReg(L, n, L[j].reg))
              [] e.t = "UNSUBSCRIBED" -> Right(e, \E j \in Pending(L, n, "UNSUBSCRIBE", e.req) : LiveSub(L, n, L[j].sub))
              [] e.t = "ERROR" -> Right(e, e.mt \in Requests /\ Pending(L, n, e.mt, e.req) # {})
              [] OTHER -> TRUE
       /\ (e.op = "send" /\ ~e.bad /\ e.t \in Requests) => e.r.k = "ok"

P14(L) ==
    LET n == Len(L)  e == Latest(L)
    IN (e.op = "recv" /\ ~e.bad) =>
            CASE e.t = "EVENT" -> Right(e, LiveSub(L, n, e.sub))
              [] e.t = "INVOCATION" -> Right(e, LiveReg(L, n, e.reg))
              [] OTHER -> TRUE

P15(L) ==
    LET n == Len(L)  e == Latest(L)
    IN (e.op = "send" /\ ~e.bad) =>
            CASE e.t = "YIELD" -> Right(e, OpenInv(L, n, e.inv))
              [] e.t = "ERROR" -> IF e.mt # "INVOCATION" THEN e.r.k = "refused"
                                  ELSE IF OpenInv(L, n, e.req) THEN e.r.k = "ok" ELSE e.r.k \in {"ok", "refused"}
              [] e.t \in Requests \cup {"GOODBYE"} -> TRUE
              [] OTHER -> e.r.k = "refused"

P16(L) ==
    LET e == Latest(L)
    IN /\ e.bad => e.r.k = "refused"
       /\ (e.t \in {"ABORT", "GOODBYE"} /\ e.op = "recv" /\ ~e.bad) => e.r.k = "ok"
       /\ (e.t = "GOODBYE" /\ e.op = "send" /\ ~e.bad) => e.r.k = "ok"
       /\ (e.op = "recv" /\ ~e.bad /\ e.t \notin {"ABORT", "GOODBYE", "ERROR", "EVENT", "INVOCATION"}
            /\ \A mt \in Requests : e.t # ReplyOf[mt]) => e.r.k = "refused"

\* the last entry does not use the request id of a request that waits for its reply
Proper(L) ==
    LET e == Latest(L)
    IN (e.op = "send" /\ ~e.bad /\ e.t \in Requests \ {"CALL"}) => Pending(L, Len(L), e.t, e.req) = {}

Broke(L) ==
    If(~P13(L), {"C13"}) \cup If(~P14(L), {"C14"}) \cup If(~P15(L), {"C15"}) \cup If(~P16(L), {"C16"})
=============================================================================
