------------------------------- MODULE Broker -------------------------------
(* The broker: subscriptions and publications.                                *)
(*                                                                            *)
(* Events                                                                     *)
(*   attach, detach     s                                                     *)
(*   hassub             topic                                                 *)
(*   subscribe          s, req, topic                                         *)
(*   unsubscribe        s, req, sub                                           *)
(*   publish            s, req, topic, a, k, ack                              *)
(*   other              s, t            a message a broker does not handle    *)
(* The reply to a publish is                                                  *)
(*   [k |-> "pub", evs |-> the event or nothing, to |-> its recipients,       *)
(*                 acks |-> the acknowledgement or nothing]                   *)
(* where evs, to and acks are sequences, an event is a record of its fields   *)
(* and an acknowledgement a reply of kind "msg".                              *)
EXTENDS Wamp

(* att    attached sessions                                                   *)
(* subs   topic -> its subscription, while somebody is subscribed             *)
(* usub, upub   subscription and publication ids handed out so far            *)
BrokerInit == [att |-> {}, subs |-> NoFn, usub |-> {}, upub |-> {}]

-----------------------------------------------------------------------------

Members(b, topic) == IF topic \in DOMAIN b.subs THEN b.subs[topic].who ELSE {}
\* the topic of subscription sub (at most one)
TopicOf(b, sub) == {x \in DOMAIN b.subs : b.subs[x].id = sub}
Holds(b, s, sub) == \E x \in TopicOf(b, sub) : s \in b.subs[x].who

Published(e, id) == [k |-> "msg", t |-> "PUBLISHED", to |-> e.s, f |-> [req |-> e.req, id |-> id]]

\* the reply to a publish, except for the publication id
WantPub(b, e) ==
    [k |-> "pub", to |-> Members(b, e.topic), ack |-> e.ack,
     f |-> IF Members(b, e.topic) = {} THEN NoFn ELSE [sub |-> b.subs[e.topic].id, a |-> e.a, k |-> e.k]]

Want(b, e) ==
    CASE e.op = "attach" -> IF e.s \in b.att THEN Refused ELSE Ok
      [] e.op = "detach" -> IF e.s \in b.att THEN Ok ELSE Refused
      [] e.op = "hassub" -> Bool(Members(b, e.topic) # {})
      [] e.op = "subscribe" ->
            IF e.s \notin b.att THEN Refused
            ELSE IF Members(b, e.topic) # {}
                 THEN Msg("SUBSCRIBED", e.s, [req |-> e.req, id |-> b.subs[e.topic].id], "")
                 ELSE Msg("SUBSCRIBED", e.s, [req |-> e.req], "sub")
      [] e.op = "unsubscribe" ->
            IF e.s \notin b.att \/ ~Holds(b, e.s, e.sub) THEN Refused
            ELSE Msg("UNSUBSCRIBED", e.s, [req |-> e.req], "")
      [] e.op = "publish" -> IF e.s \notin b.att THEN Refused ELSE WantPub(b, e)
      [] OTHER -> Refused

-----------------------------------------------------------------------------

\* s is no longer subscribed to the topics in ts
Leave(b, s, ts) ==
    LET w == [x \in DOMAIN b.subs |-> IF x \in ts THEN [b.subs[x] EXCEPT !.who = @ \ {s}] ELSE b.subs[x]]
    IN [b EXCEPT !.subs = Drop(w, {x \in DOMAIN w : w[x].who = {}})]

Subscribe(b, e, id) ==
    IF Members(b, e.topic) # {} THEN [b EXCEPT !.subs[e.topic].who = @ \cup {e.s}]
    ELSE [b EXCEPT !.subs = Put(@, e.topic, [id |-> id, who |-> {e.s}]), !.usub = @ \cup {id}]

\* the publication ids in a reply
PubIds(r) == {r.evs[i].id : i \in DOMAIN r.evs} \cup {r.acks[i].f.id : i \in DOMAIN r.acks}

\* r is the reply as observed (or as the model makes it); only the ids it hands out matter here
After(b, e, r) ==
    LET w == Want(b, e)
    IN CASE w.k = "refused" -> b  \* a refused request changes nothing
         [] e.op = "attach" -> [b EXCEPT !.att = @ \cup {e.s}]
         [] e.op = "detach" -> [Leave(b, e.s, DOMAIN b.subs) EXCEPT !.att = @ \ {e.s}]
         [] e.op = "subscribe" -> Subscribe(b, e, r.f.id)
         [] e.op = "unsubscribe" -> Leave(b, e.s, TopicOf(b, e.sub))
         [] e.op = "publish" -> [b EXCEPT !.upub = @ \cup PubIds(r)]
         [] OTHER -> b

JudgePub(b, e) ==
    LET w == WantPub(b, e)  r == e.r
        hasev == Len(r.evs) > 0
    IN IF r.k # "pub" THEN {"kind"}
       ELSE If(Range(r.to) # w.to, {"recipients"}) \cup If(Len(r.to) # Cardinality(Range(r.to)), {"twice"})
            \cup If(w.to # {} /\ ~hasev, {"event"})
            \cup (IF w.to = {} \/ ~hasev THEN {}
                  ELSE UNION {If(x \notin DOMAIN r.evs[1] \/ (x \in DOMAIN r.evs[1] /\ r.evs[1][x] # w.f[x]), {x}) : x \in DOMAIN w.f}
                       \cup If(~ValidId(r.evs[1].idn), {"range"}) \cup If(r.evs[1].id \in b.upub, {"fresh"}))
            \cup If(Len(r.acks) # (IF w.ack THEN 1 ELSE 0), {"ack"})
            \cup (IF ~w.ack \/ Len(r.acks) # 1 THEN {}
                  ELSE LET a == r.acks[1]
                       IN IF a.k # "msg" \/ a.t # "PUBLISHED" THEN {"ack type"}
                          ELSE If(a.to # e.s, {"ack to"}) \cup If(a.f.req # e.req, {"ack req"})
                               \cup If(w.to # {} /\ hasev /\ a.f.id # r.evs[1].id, {"ack id"})
                               \cup If(~ValidId(a.f.idn), {"range"}) \cup If(a.f.id \in b.upub, {"fresh"}))

\* the clauses in which an observed event differs from what the broker must do: {} if it is right
Judge(b, e) ==
    IF e.op = "publish" /\ e.s \in b.att THEN JudgePub(b, e) ELSE Clauses(Want(b, e), e.r, b.usub)
=============================================================================
