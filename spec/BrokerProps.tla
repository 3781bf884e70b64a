----------------------------- MODULE BrokerProps -----------------------------
(* The properties of the broker, each as a condition on the last entry of a   *)
(* log L of events with their replies, given the entries before it.  Nothing  *)
(* here refers to the state of module Broker.                                 *)
EXTENDS Wamp

Latest(L) == L[Len(L)]
Done(x, op, s) == x.op = op /\ x.s = s /\ x.r.k = "ok"
Is(x, t) == x.r.k = "msg" /\ x.r.t = t

AttachedAt(L, i, s) ==
    \E j \in 1..i-1 : Done(L[j], "attach", s) /\ \A k \in j+1..i-1 : ~Done(L[k], "detach", s)

\* the subscription confirmed at j was ended at k
Unsubs(L, j, k) == L[k].op = "unsubscribe" /\ L[k].s = L[j].s /\ Is(L[k], "UNSUBSCRIBED") /\ L[k].sub = L[j].r.f.id
SubEnds(L, j, k) == Unsubs(L, j, k) \/ Done(L[k], "detach", L[j].s)
\* before position i: where the standing subscriptions to topic x were confirmed
SubsAt(L, i, x) ==
    {j \in 1..i-1 : L[j].op = "subscribe" /\ L[j].topic = x /\ Is(L[j], "SUBSCRIBED")
                    /\ \A k \in j+1..i-1 : ~SubEnds(L, j, k)}
Subscribers(L, i, x) == {L[j].s : j \in SubsAt(L, i, x)}
SubIds(L, i, x) == {L[j].r.f.id : j \in SubsAt(L, i, x)}

Publishes(L, e) == e.op = "publish" /\ AttachedAt(L, Len(L), e.s)

\* how the last subscription of s to x ended, if it did
EndedBy(L, n, s, x, how) ==
    LET js == {j \in 1..n-1 : L[j].op = "subscribe" /\ L[j].topic = x /\ L[j].s = s /\ Is(L[j], "SUBSCRIBED")}
    IN js # {} /\ LET j == CHOOSE j \in js : \A h \in js : h <= j
                      ks == {k \in j+1..n-1 : SubEnds(L, j, k)}
                  IN ks # {} /\ L[CHOOSE k \in ks : \A h \in ks : k <= h].op = how

-----------------------------------------------------------------------------

P07(L) ==
    LET n == Len(L)  e == Latest(L)  r == e.r
        who == Subscribers(L, n, e.topic)
    IN Publishes(L, e) =>
        /\ r.k = "pub"
        /\ Range(r.to) = who /\ Len(r.to) = Cardinality(who)
        /\ who # {} =>
            /\ Len(r.evs) = 1
            /\ {r.evs[1].sub} = SubIds(L, n, e.topic)
            /\ r.evs[1].a = e.a /\ r.evs[1].k = e.k

P08(L) ==
    LET e == Latest(L)  r == e.r
    IN Publishes(L, e) =>
        IF ~e.ack THEN r.k = "pub" => Len(r.acks) = 0
        ELSE /\ r.k = "pub" /\ Len(r.acks) = 1
             /\ r.acks[1].k = "msg" /\ r.acks[1].t = "PUBLISHED" /\ r.acks[1].to = e.s
             /\ r.acks[1].f.req = e.req
             /\ (Len(r.to) > 0 /\ Len(r.evs) > 0) => r.acks[1].f.id = r.evs[1].id

P09(L) ==
    LET n == Len(L)  e == Latest(L)  r == e.r
    IN CASE e.op = "subscribe" /\ AttachedAt(L, n, e.s) ->
                /\ Is(e, "SUBSCRIBED") /\ r.to = e.s /\ r.f.req = e.req
                /\ LET ids == SubIds(L, n, e.topic) IN ids # {} => {r.f.id} = ids
                /\ \A j \in 1..n-1 :
                    (L[j].op = "subscribe" /\ L[j].topic # e.topic /\ Is(L[j], "SUBSCRIBED") /\ L[j].r.f.id = r.f.id) =>
                        \E k \in j+1..n-1 : SubEnds(L, j, k)
         [] e.op = "unsubscribe" ->
                LET own == \E j \in 1..n-1 :
                        /\ L[j].op = "subscribe" /\ L[j].s = e.s /\ Is(L[j], "SUBSCRIBED") /\ L[j].r.f.id = e.sub
                        /\ \A k \in j+1..n-1 : ~SubEnds(L, j, k)
                IN IF own THEN Is(e, "UNSUBSCRIBED") /\ r.to = e.s /\ r.f.req = e.req ELSE r.k = "refused"
         [] e.op = "hassub" -> r.k = "bool" /\ (r.v <=> SubsAt(L, n, e.topic) # {})
         [] Publishes(L, e) /\ r.k = "pub" ->
                \* an UNSUBSCRIBE ended the subscription it named, and nothing else did
                LET standing == SubsAt(L, n, e.topic)
                    who == {L[j].s : j \in standing}
                    to == Range(r.to)
                IN /\ \A s \in to \ who : ~EndedBy(L, n, s, e.topic, "unsubscribe")
                   /\ \A j \in standing :
                        L[j].s \notin to =>
                            \A k \in j+1..n-1 : L[k].op # "unsubscribe" /\ (L[k].op = "subscribe" => L[k].topic # e.topic)
         [] OTHER -> TRUE

P10(L) ==
    LET n == Len(L)  e == Latest(L)  r == e.r
        left(s) == \E j \in 1..n-1 : Done(L[j], "detach", s)
    IN /\ (e.op = "detach" /\ AttachedAt(L, n, e.s)) => r.k = "ok"
       \* nothing is addressed to a departed session, and it can do nothing
       /\ r.k = "msg" => (left(r.to) => AttachedAt(L, n, r.to))
       /\ r.k = "pub" =>
            /\ \A i \in DOMAIN r.to : left(r.to[i]) => AttachedAt(L, n, r.to[i])
            /\ \A i \in DOMAIN r.acks : r.acks[i].k = "msg" /\ left(r.acks[i].to) => AttachedAt(L, n, r.acks[i].to)
       /\ (e.op \in {"publish", "subscribe", "unsubscribe"} /\ left(e.s) /\ ~AttachedAt(L, n, e.s)) => r.k = "refused"
       \* its subscriptions are gone
       /\ (e.op = "publish" /\ r.k = "pub") =>
            LET who == Subscribers(L, n, e.topic)
            IN \A s \in Range(r.to) \ who : ~EndedBy(L, n, s, e.topic, "detach")
       /\ (e.op = "unsubscribe" /\ r.k # "refused") =>
            \A j \in 1..n-1 :
                (L[j].op = "subscribe" /\ L[j].s = e.s /\ Is(L[j], "SUBSCRIBED") /\ L[j].r.f.id = e.sub) =>
                    ~EndedBy(L, n, e.s, L[j].topic, "detach")
       /\ (e.op = "hassub" /\ SubsAt(L, n, e.topic) = {}) =>
            ((\E j \in 1..n-1 : L[j].op = "subscribe" /\ EndedBy(L, n, L[j].s, e.topic, "detach")) => r # Bool(TRUE))
       \* those of others are not
       /\ LET departures(j) == \E k \in j+1..n-1 : L[k].op = "detach" /\ L[k].r.k = "ok"
          IN CASE Publishes(L, e) /\ r.k = "pub" ->
                    LET to == Range(r.to)
                    IN \A j \in SubsAt(L, n, e.topic) : L[j].s \notin to => ~departures(j)
               [] e.op = "hassub" /\ r # Bool(TRUE) -> \A j \in SubsAt(L, n, e.topic) : ~departures(j)
               [] e.op = "unsubscribe" /\ r.k = "refused" ->
                    \A j \in 1..n-1 :
                        (L[j].op = "subscribe" /\ L[j].s = e.s /\ Is(L[j], "SUBSCRIBED") /\ L[j].r.f.id = e.sub
                            /\ \A k \in j+1..n-1 : ~SubEnds(L, j, k)) => ~departures(j)
               [] OTHER -> TRUE

P11(L) ==
    LET n == Len(L)  e == Latest(L)
    IN CASE e.op = "attach" -> e.r.k = IF AttachedAt(L, n, e.s) THEN "refused" ELSE "ok"
         [] e.op = "detach" -> ~AttachedAt(L, n, e.s) => e.r.k = "refused"
         [] e.op = "hassub" -> TRUE
         [] e.op = "other" -> e.r.k = "refused"
         [] OTHER -> ~AttachedAt(L, n, e.s) => e.r.k = "refused"

PubIdsAt(x) ==
    IF x.op # "publish" \/ x.r.k # "pub" THEN {}
    ELSE {x.r.evs[i].id : i \in DOMAIN x.r.evs} \cup {x.r.acks[i].f.id : i \in {i \in DOMAIN x.r.acks : x.r.acks[i].k = "msg" /\ x.r.acks[i].t = "PUBLISHED"}}

P12(L) ==
    LET n == Len(L)  e == Latest(L)  r == e.r
    IN /\ (e.op = "subscribe" /\ Is(e, "SUBSCRIBED") /\ SubsAt(L, n, e.topic) = {}) =>
            ValidId(r.f.idn) /\ \A j \in 1..n-1 : Is(L[j], "SUBSCRIBED") => L[j].r.f.id # r.f.id
       /\ (e.op = "publish" /\ r.k = "pub") =>
            /\ Len(r.to) > 0 => \A i \in DOMAIN r.evs :
                ValidId(r.evs[i].idn) /\ \A j \in 1..n-1 : r.evs[i].id \notin PubIdsAt(L[j])
            /\ \A i \in DOMAIN r.acks : (r.acks[i].k = "msg" /\ r.acks[i].t = "PUBLISHED") =>
                ValidId(r.acks[i].f.idn) /\ \A j \in 1..n-1 : r.acks[i].f.id \notin PubIdsAt(L[j])

Broke(L) ==
    If(~P07(L), {"C07"}) \cup If(~P08(L), {"C08"}) \cup If(~P09(L), {"C09"}) \cup If(~P10(L), {"C10"})
    \cup If(~P11(L), {"C11"}) \cup If(~P12(L), {"C12"})
=============================================================================
