------------------------------ MODULE MCBroker ------------------------------
(* The broker with small constants: every reachable state and every event in  *)
(* it.  The properties are stated on the log of what was handed in and what   *)
(* came back, without looking at the broker's state.                          *)
EXTENDS Broker, BrokerProps, Json, TLCExt

CONSTANTS Sess, Topic, MaxSub, MaxGone, MaxLog

VARIABLES b, log, gone  \* gone bounds the departures
vars == <<b, log, gone>>

SubName(n) == "r" \o ToString(n)
PubName == "b" \o ToString(Len(log) + 1)

RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN Append(Listed(S \ {x}), x)

\* what a broker that numbers its ids replies
Reply(e) ==
    LET w == Want(b, e)
    IN IF w.k = "pub"
       THEN [k |-> "pub", to |-> Listed(w.to),
             evs |-> IF w.to = {} THEN <<>> ELSE <<w.f @@ [id |-> PubName, idn |-> <<0, 1>>]>>,
             acks |-> IF ~w.ack THEN <<>> ELSE <<[k |-> "msg", t |-> "PUBLISHED", to |-> e.s,
                                                f |-> [req |-> e.req, id |-> PubName, idn |-> <<0, 1>>]]>>]
       ELSE IF w.k # "msg" THEN w
       ELSE [k |-> "msg", t |-> w.t, to |-> w.to,
             f |-> w.f @@ (IF w.t = "SUBSCRIBED" THEN [id |-> SubName(Cardinality(b.usub) + 1), idn |-> <<0, 1>>] ELSE NoFn)]

Step(e) == LET r == Reply(e) IN b' = After(b, e, r) /\ log' = Append(log, e @@ [r |-> r])
Do(e) == Step(e) /\ UNCHANGED gone

Attach(s) == Do([op |-> "attach", s |-> s])
Depart(s) ==
    /\ s \in b.att => gone < MaxGone
    /\ Step([op |-> "detach", s |-> s]) /\ gone' = IF s \in b.att THEN gone + 1 ELSE gone
HasSub(x) == Do([op |-> "hassub", topic |-> x])
SubscribeAct(s, x) ==
    /\ Cardinality(b.usub) < MaxSub \/ Members(b, x) # {} \/ s \notin b.att
    /\ Do([op |-> "subscribe", s |-> s, req |-> "7", topic |-> x])
UnsubscribeAct(s, g) == Do([op |-> "unsubscribe", s |-> s, req |-> "7", sub |-> g])
PublishAct(s, x, ack) == Do([op |-> "publish", s |-> s, req |-> "7", topic |-> x, a |-> "x", k |-> Absent, ack |-> ack])
Other(s) == Do([op |-> "other", s |-> s, t |-> "CALL"])

Init == b = BrokerInit /\ log = <<>> /\ gone = 0
Next ==
    \/ \E s \in Sess :
        \/ Attach(s) \/ Depart(s) \/ Other(s)
        \/ \E x \in Topic : SubscribeAct(s, x) \/ \E ack \in BOOLEAN : PublishAct(s, x, ack)
        \/ \E g \in b.usub \cup {"r0"} : UnsubscribeAct(s, g)
    \/ \E x \in Topic : HasSub(x)
Spec == Init /\ [][Next]_vars

View == <<b.att, b.subs, b.usub, gone>>

Subscriptions ==
    \A x \in Topic :
        /\ Subscribers(log, Len(log) + 1, x) = Members(b, x)
        /\ SubIds(log, Len(log) + 1, x) = IF Members(b, x) = {} THEN {} ELSE {b.subs[x].id}
Attachments == \A s \in Sess : (s \in b.att) <=> AttachedAt(log, Len(log) + 1, s)
Tidy == \A x \in DOMAIN b.subs : b.subs[x].who # {} /\ b.subs[x].who \subseteq b.att
Distinct == \A x, y \in DOMAIN b.subs : b.subs[x].id = b.subs[y].id => x = y

C07 == [][P07(log')]_vars
C08 == [][P08(log')]_vars
C09 == [][P09(log')]_vars
C10 == [][P10(log')]_vars
C11 == [][P11(log')]_vars
C12 == [][P12(log')]_vars

(* The verdict on real executions is complete and the properties blamed for a *)
(* wrong reply are the broken ones: over all replies a broker could give,     *)
(* Judge objects exactly when one of the properties is broken.                *)
Ack(s, q, i, n) == [k |-> "msg", t |-> "PUBLISHED", to |-> s, f |-> [req |-> q, id |-> i, idn |-> n]]
Used == IF b.upub = {} THEN {} ELSE {CHOOSE i \in b.upub : TRUE}
WrongReplies(e, r) ==
    {Refused, Ok} \cup {Bool(v) : v \in BOOLEAN}
    \cup {[k |-> "msg", t |-> "SUBSCRIBED", to |-> s, f |-> [req |-> q, id |-> g, idn |-> n]] :
            s \in Sess, q \in {"7", "8"}, g \in b.usub \cup {"r9"}, n \in {<<0, 1>>, <<0, 0>>}}
    \cup {[k |-> "msg", t |-> "UNSUBSCRIBED", to |-> s, f |-> [req |-> q]] : s \in Sess, q \in {"7", "8"}}
    \cup (IF e.op # "publish" THEN {} ELSE
          {[k |-> "pub", to |-> to, evs |-> evs, acks |-> acks] :
            to \in {<<>>} \cup {<<s>> : s \in Sess} \cup {<<s, u>> : s, u \in Sess},
            evs \in {<<>>} \cup {<<[sub |-> g, a |-> a, k |-> Absent, id |-> i, idn |-> n]>> :
                                    g \in b.usub \cup {"r9"}, a \in {"x", "z"}, i \in {"b9"} \cup Used, n \in {<<0, 1>>, <<0, 0>>}},
            acks \in {<<>>, <<Ok>>, <<Ack(e.s, "8", "b9", <<0, 1>>)>>, <<Ack(e.s, "7", "b8", <<0, 0>>)>>}
                     \cup {<<Ack(s, "7", i, <<0, 1>>)>> : s \in Sess, i \in {"b8", "b9"} \cup Used}})
VerdictRight ==
    [][LET n == Len(log')
           e == log'[n]
       IN \A w \in WrongReplies(e, e.r) :
            LET e2 == [e EXCEPT !.r = w]
                x == Broke(Append(log, e2))
                j == Judge(b, e2)
            IN ((x # {}) <=> (j # {})) \/ (PrintT(<<"MM", e.op, Want(b, e), w, x, j>>) /\ FALSE)]_vars

Short == Len(log) <= MaxLog
Emit == PrintT("E " \o ToJson(<<TLCFP(View), log'[Len(log')], TLCFP(View')>>))
=============================================================================
