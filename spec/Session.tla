------------------------------- MODULE Session -------------------------------
(* A client session: what it may send and what it accepts.                    *)
(*                                                                            *)
(* Events (the direction is from the client's point of view)                  *)
(*   send   t = CALL req, pg | REGISTER req | UNREGISTER req, reg             *)
(*              | PUBLISH req, ack | SUBSCRIBE req | UNSUBSCRIBE req, sub     *)
(*              | YIELD inv, pg | ERROR mt, req | GOODBYE | others            *)
(*          bad     the message cannot be serialized                          *)
(*   recv   t = RESULT req, pg | REGISTERED req, reg | UNREGISTERED req       *)
(*              | PUBLISHED req | SUBSCRIBED req, sub | UNSUBSCRIBED req      *)
(*              | INVOCATION inv, reg | EVENT sub | ERROR mt, req             *)
(*              | GOODBYE | ABORT | others                                    *)
(*          bad     the data cannot be decoded                                *)
EXTENDS Wamp

(* calls, register, publish, subscribe   requests that wait for their reply   *)
(* unregister, unsubscribe               the same, with the id they name      *)
(* regs, subs                            what is registered and subscribed    *)
(* invs                                  invocations to be answered           *)
SessionInit ==
    [calls |-> {}, register |-> {}, publish |-> {}, subscribe |-> {},
     unregister |-> NoFn, unsubscribe |-> NoFn, regs |-> {}, subs |-> {}, invs |-> {}]

\* messages that only a router sends
FromRouter == {"WELCOME", "CHALLENGE", "PUBLISHED", "SUBSCRIBED", "UNSUBSCRIBED", "EVENT", "RESULT", "REGISTERED",
               "UNREGISTERED", "INVOCATION", "INTERRUPT"}

Waiting(s, mt, req) ==
    CASE mt = "CALL" -> req \in s.calls
      [] mt = "REGISTER" -> req \in s.register
      [] mt = "UNREGISTER" -> req \in DOMAIN s.unregister
      [] mt = "PUBLISH" -> req \in s.publish
      [] mt = "SUBSCRIBE" -> req \in s.subscribe
      [] mt = "UNSUBSCRIBE" -> req \in DOMAIN s.unsubscribe
      [] OTHER -> FALSE

(* A request id is used again only when the request is answered, or for       *)
(* another part of a progressive call.                                        *)
InScope(s, e) ==
    (e.op = "send" /\ ~e.bad) =>
        CASE e.t = "CALL" -> TRUE
          [] e.t \in {"REGISTER", "UNREGISTER", "PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE"} -> ~Waiting(s, e.t, e.req)
          [] OTHER -> TRUE

\* what is left open: an ERROR about an invocation that is not there may be sent or refused
Free(s, e) == e.op = "send" /\ e.t = "ERROR" /\ ~e.bad /\ e.mt = "INVOCATION" /\ e.req \notin s.invs

Sends(s, e) ==
    CASE e.t \in {"CALL", "REGISTER", "UNREGISTER", "PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE", "GOODBYE"} -> TRUE
      [] e.t = "YIELD" -> e.inv \in s.invs
      [] e.t = "ERROR" -> e.mt = "INVOCATION"
      [] OTHER -> FALSE

Accepts(s, e) ==
    CASE e.t = "RESULT" -> e.req \in s.calls
      [] e.t = "REGISTERED" -> e.req \in s.register
      [] e.t = "UNREGISTERED" -> e.req \in DOMAIN s.unregister /\ s.unregister[e.req] \in s.regs
      [] e.t = "PUBLISHED" -> e.req \in s.publish
      [] e.t = "SUBSCRIBED" -> e.req \in s.subscribe
      [] e.t = "UNSUBSCRIBED" -> e.req \in DOMAIN s.unsubscribe /\ s.unsubscribe[e.req] \in s.subs
      [] e.t = "INVOCATION" -> e.reg \in s.regs
      [] e.t = "EVENT" -> e.sub \in s.subs
      [] e.t = "ERROR" -> Waiting(s, e.mt, e.req)
      [] OTHER -> e.t \in {"GOODBYE", "ABORT"}

Want(s, e) == IF ~e.bad /\ (IF e.op = "send" THEN Sends(s, e) ELSE Accepts(s, e)) THEN Ok ELSE Refused

-----------------------------------------------------------------------------

Sent(s, e) ==
    CASE e.t = "CALL" -> [s EXCEPT !.calls = @ \cup {e.req}]
      [] e.t = "REGISTER" -> [s EXCEPT !.register = @ \cup {e.req}]
      [] e.t = "UNREGISTER" -> [s EXCEPT !.unregister = Put(@, e.req, e.reg)]
      [] e.t = "PUBLISH" -> IF e.ack THEN [s EXCEPT !.publish = @ \cup {e.req}] ELSE s
      [] e.t = "SUBSCRIBE" -> [s EXCEPT !.subscribe = @ \cup {e.req}]
      [] e.t = "UNSUBSCRIBE" -> [s EXCEPT !.unsubscribe = Put(@, e.req, e.sub)]
      [] e.t = "YIELD" -> IF e.pg THEN s ELSE [s EXCEPT !.invs = @ \ {e.inv}]
      [] e.t = "ERROR" -> [s EXCEPT !.invs = @ \ {e.req}]
      [] OTHER -> s

Answered(s, mt, req) ==
    CASE mt = "CALL" -> [s EXCEPT !.calls = @ \ {req}]
      [] mt = "REGISTER" -> [s EXCEPT !.register = @ \ {req}]
      [] mt = "UNREGISTER" -> [s EXCEPT !.unregister = Drop(@, {req})]
      [] mt = "PUBLISH" -> [s EXCEPT !.publish = @ \ {req}]
      [] mt = "SUBSCRIBE" -> [s EXCEPT !.subscribe = @ \ {req}]
      [] mt = "UNSUBSCRIBE" -> [s EXCEPT !.unsubscribe = Drop(@, {req})]

Received(s, e) ==
    CASE e.t = "RESULT" -> IF e.pg THEN s ELSE Answered(s, "CALL", e.req)
      [] e.t = "REGISTERED" -> [Answered(s, "REGISTER", e.req) EXCEPT !.regs = @ \cup {e.reg}]
      [] e.t = "UNREGISTERED" -> [Answered(s, "UNREGISTER", e.req) EXCEPT !.regs = @ \ {s.unregister[e.req]}]
      [] e.t = "PUBLISHED" -> Answered(s, "PUBLISH", e.req)
      [] e.t = "SUBSCRIBED" -> [Answered(s, "SUBSCRIBE", e.req) EXCEPT !.subs = @ \cup {e.sub}]
      [] e.t = "UNSUBSCRIBED" -> [Answered(s, "UNSUBSCRIBE", e.req) EXCEPT !.subs = @ \ {s.unsubscribe[e.req]}]
      [] e.t = "INVOCATION" -> [s EXCEPT !.invs = @ \cup {e.inv}]
      [] e.t = "ERROR" -> Answered(s, e.mt, e.req)
      [] OTHER -> s

\* an attempt that fails changes nothing
After(s, e) ==
    IF Want(s, e).k = "refused" THEN s
    ELSE IF e.op = "send" THEN Sent(s, e) ELSE Received(s, e)

\* the clauses in which an observed event differs from what the session must do: {} if it is right
Judge(s, e) ==
    IF Free(s, e) THEN If(e.r.k \notin {"ok", "refused"}, {"kind"})
    ELSE If(e.r.k # Want(s, e).k, {IF Want(s, e).k = "ok" THEN "refused" ELSE "accepted"})
=============================================================================
