------------------------------- MODULE System -------------------------------
(* Client sessions that talk to one dealer and one broker over FIFO links, in *)
(* any interleaving of sending, routing and receiving.  The parts are those   *)
(* of modules Session, Dealer and Broker.                                     *)
(*                                                                            *)
(* Events                                                                     *)
(*   send   s, t, ...                a client hands a message to its session, *)
(*                                   which puts it on the link to the router  *)
(*   route  s, t, ..., outs          the router takes the next message of s   *)
(*                                   and puts its answers (to, t, ...) on the *)
(*                                   links to the clients                     *)
(*   recv   s, t, ...                the session of s gets the next message   *)
(*   leave  s                        the connection of s ends: the router is  *)
(*                                   told, what is on the links of s is lost  *)
(*   join   s                        a new client.  It may have the id of one *)
(*                                   that left; s names the client, not the   *)
(*                                   id                                       *)
(*   probe  held, router, waiting    when all links are empty: what clients   *)
(*                                   hold, what the router holds for them,    *)
(*                                   and what they wait for                   *)
EXTENDS Wamp

D == INSTANCE Dealer
B == INSTANCE Broker
C == INSTANCE Session

(* cs    the client sessions            asked  invocations that may be        *)
(* d, b  the dealer and the broker             answered progressively         *)
(* up, down   the links                 n      requests sent by each client   *)
(* here, gone the clients that are connected, and that no longer are          *)
(* lost       calls <<client, request>> whose callee left                     *)
(* void       invocations whose caller left                                   *)
SystemInit(S, start) ==
    [cs |-> [s \in S |-> C!SessionInit], asked |-> [s \in S |-> {}], n |-> [s \in S |-> 0],
     d |-> [D!DealerInit EXCEPT !.att = start], b |-> [B!BrokerInit EXCEPT !.att = start],
     up |-> [s \in S |-> <<>>], down |-> [s \in S |-> <<>>], here |-> start, gone |-> {}, lost |-> {}, void |-> {}]

Leave(y, s) ==
    LET mine == {i \in DOMAIN y.d.calls : y.d.calls[i].callee = s}
        asked == {i \in DOMAIN y.d.calls : y.d.calls[i].caller = s}
        e == [op |-> "detach", s |-> s]
    IN [y EXCEPT !.d = D!After(@, e, Ok), !.b = B!After(@, e, Ok), !.up[s] = <<>>, !.down[s] = <<>>,
                 !.here = @ \ {s}, !.gone = @ \cup {s},
                 !.lost = @ \cup {<<y.d.calls[i].caller, y.d.calls[i].req>> : i \in mine}, !.void = @ \cup asked]
Join(y, s) ==
    LET e == [op |-> "attach", s |-> s]
    IN [y EXCEPT !.d = D!After(@, e, Ok), !.b = B!After(@, e, Ok), !.here = @ \cup {s}]

IsRequest(m) == m.t \in {"CALL", "REGISTER", "UNREGISTER", "PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE"}

(* What a client that follows the protocol sends: it gives up only what it    *)
(* holds, once, it answers invocations it has received and has not finally    *)
(* answered, progressively only if that was asked for.                        *)
Follows(y, s, m) ==
    CASE m.t = "UNREGISTER" -> m.reg \in y.cs[s].regs /\ m.reg \notin Range(y.cs[s].unregister)
      [] m.t = "UNSUBSCRIBE" -> m.sub \in y.cs[s].subs /\ m.sub \notin Range(y.cs[s].unsubscribe)
      [] m.t = "YIELD" -> m.inv \in y.cs[s].invs /\ (m.pg => m.inv \in y.asked[s])
      [] m.t = "ERROR" -> m.req \in y.cs[s].invs
      [] OTHER -> TRUE

Send(y, s, m) ==
    [y EXCEPT !.cs[s] = C!After(@, m @@ [op |-> "send", bad |-> FALSE]),
              !.up[s] = Append(@, m),
              !.n[s] = IF IsRequest(m) THEN @ + 1 ELSE @]

-----------------------------------------------------------------------------
(* The router *)

ForDealer(m) == m.t \in {"CALL", "YIELD", "REGISTER", "UNREGISTER", "ERROR"}
DealerEvent(s, m) ==
    CASE m.t = "CALL" -> [op |-> "call", s |-> s, req |-> m.req, proc |-> m.proc, a |-> m.a, k |-> m.k, p |-> Absent,
                          rp |-> m.rp, pg |-> FALSE]
      [] m.t = "YIELD" -> [op |-> "yield", s |-> s, inv |-> m.inv, a |-> m.a, k |-> m.k, p |-> Absent, pg |-> m.pg]
      [] m.t = "REGISTER" -> [op |-> "register", s |-> s, req |-> m.req, proc |-> m.proc]
      [] m.t = "UNREGISTER" -> [op |-> "unregister", s |-> s, req |-> m.req, reg |-> m.reg]
      [] m.t = "ERROR" -> [op |-> "error", s |-> s, mt |-> m.mt, inv |-> m.req, uri |-> m.uri, a |-> m.a, k |-> m.k,
                           det |-> Absent]
BrokerEvent(s, m) ==
    CASE m.t = "PUBLISH" -> [op |-> "publish", s |-> s, req |-> m.req, topic |-> m.topic, a |-> m.a, k |-> m.k, ack |-> m.ack]
      [] m.t = "SUBSCRIBE" -> [op |-> "subscribe", s |-> s, req |-> m.req, topic |-> m.topic]
      [] m.t = "UNSUBSCRIBE" -> [op |-> "unsubscribe", s |-> s, req |-> m.req, sub |-> m.sub]

\* the ids a router that numbers them hands out
RegName(y) == "r" \o ToString(Cardinality(y.d.ureg) + 1)
InvName(y) == "i" \o ToString(Cardinality(y.d.uinv) + 1)
SubName(y) == "t" \o ToString(Cardinality(y.b.usub) + 1)

DealerReply(y, w) ==
    IF w.k # "msg" THEN w
    ELSE [w EXCEPT !.f = @ @@ (CASE w.t = "REGISTERED" -> [id |-> RegName(y)]
                                 [] w.t = "INVOCATION" -> [id |-> InvName(y)]
                                 [] OTHER -> NoFn)]

\* a message of the dealer as the client session sees it
ToClient(w) ==
    CASE w.t = "INVOCATION" -> [to |-> w.to, t |-> w.t, inv |-> w.f.id, reg |-> w.f.reg, rp |-> w.f.rp,
                                a |-> w.f.a, k |-> w.f.k]
      [] w.t = "RESULT" -> [to |-> w.to, t |-> w.t, req |-> w.f.req, pg |-> w.f.pg, a |-> w.f.a, k |-> w.f.k]
      [] w.t = "ERROR" -> [to |-> w.to, t |-> w.t, mt |-> w.f.mt, req |-> w.f.req, uri |-> w.f.uri] @@ [x \in {"a", "k"} \cap DOMAIN w.f |-> w.f[x]]
      [] w.t = "REGISTERED" -> [to |-> w.to, t |-> w.t, req |-> w.f.req, reg |-> w.f.id]
      [] w.t = "UNREGISTERED" -> [to |-> w.to, t |-> w.t, req |-> w.f.req]
      [] w.t = "SUBSCRIBED" -> [to |-> w.to, t |-> w.t, req |-> w.f.req, sub |-> w.f.id]
      [] w.t = "UNSUBSCRIBED" -> [to |-> w.to, t |-> w.t, req |-> w.f.req]

RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN Append(Listed(S \ {x}), x)

\* what the router answers to message m of s, and what it is then
Answered(y, s, m) ==
    IF ForDealer(m) THEN
        LET e == DealerEvent(s, m)
            w == DealerReply(y, D!Want(y.d, e))
        IN [outs |-> IF w.k = "msg" THEN <<ToClient(w)>> ELSE <<>>, k |-> w.k,
            y |-> [y EXCEPT !.d = D!After(y.d, e, w)]]
    ELSE IF m.t = "PUBLISH" THEN
        LET e == BrokerEvent(s, m)
            w == B!WantPub(y.b, e)
            evs == [i \in 1..Cardinality(w.to) |-> [to |-> Listed(w.to)[i], t |-> "EVENT", sub |-> w.f.sub, a |-> w.f.a, k |-> w.f.k]]
        IN [outs |-> evs \o (IF w.ack THEN <<[to |-> s, t |-> "PUBLISHED", req |-> m.req]>> ELSE <<>>), k |-> "pub", y |-> y]
    ELSE
        LET e == BrokerEvent(s, m)
            w0 == B!Want(y.b, e)
            w == IF w0.k = "msg" /\ w0.t = "SUBSCRIBED" THEN [w0 EXCEPT !.f = @ @@ [id |-> SubName(y)]] ELSE w0
        IN [outs |-> IF w.k = "msg" THEN <<ToClient(w)>> ELSE <<>>, k |-> w.k,
            y |-> [y EXCEPT !.b = B!After(y.b, e, w)]]

RECURSIVE Deliver(_, _)
Deliver(down, outs) ==
    IF outs = <<>> THEN down
    ELSE Deliver([down EXCEPT ![Head(outs).to] = Append(@, Head(outs))], Tail(outs))

Route(y, s) ==
    LET r == Answered([y EXCEPT !.up[s] = Tail(@)], s, Head(y.up[s]))
    IN [r.y EXCEPT !.down = Deliver(@, r.outs)]

-----------------------------------------------------------------------------

ClientEvent(m) == m @@ [op |-> "recv", bad |-> FALSE]
Accepted(y, s, m) == C!Accepts(y.cs[s], ClientEvent(m))

Recv(y, s) ==
    LET m == Head(y.down[s])
    IN [y EXCEPT !.down[s] = Tail(@),
                 !.cs[s] = C!After(@, ClientEvent(m)),
                 !.asked[s] = IF m.t = "INVOCATION" /\ m.rp THEN @ \cup {m.inv} ELSE @]

-----------------------------------------------------------------------------

Quiet(y) == \A s \in DOMAIN y.up : y.up[s] = <<>> /\ y.down[s] = <<>>

Held(y) ==
    UNION {{[s |-> s, kind |-> "reg", id |-> g] : g \in y.cs[s].regs} \cup {[s |-> s, kind |-> "sub", id |-> g] : g \in y.cs[s].subs}
           : s \in y.here}
RouterHolds(y) ==
    {[s |-> y.d.regs[p].owner, kind |-> "reg", id |-> y.d.regs[p].id] : p \in DOMAIN y.d.regs}
    \cup UNION {{[s |-> s, kind |-> "sub", id |-> y.b.subs[x].id] : s \in y.b.subs[x].who} : x \in DOMAIN y.b.subs}
Waits(y) ==
    UNION {{[s |-> s, mt |-> mt, req |-> q] :
              q \in CASE mt = "CALL" -> y.cs[s].calls
                      [] mt = "REGISTER" -> y.cs[s].register
                      [] mt = "UNREGISTER" -> DOMAIN y.cs[s].unregister
                      [] mt = "PUBLISH" -> y.cs[s].publish
                      [] mt = "SUBSCRIBE" -> y.cs[s].subscribe
                      [] mt = "UNSUBSCRIBE" -> DOMAIN y.cs[s].unsubscribe}
           : s \in y.here, mt \in {"CALL", "REGISTER", "UNREGISTER", "PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE"}}
=============================================================================
