------------------------------ MODULE MCSystem ------------------------------
(* The whole system with small constants: every interleaving.                 *)
EXTENDS System, SystemProps, Json, TLCExt

CONSTANTS Sess, Start, Procs, Topics, MaxReq, MaxSess, MaxYield, MaxLeave, KeepLog

VARIABLES y, log, yields
vars == <<y, log, yields>>

\* without the log there are fewer states, for the liveness properties
Logged(e) == IF KeepLog THEN Append(log, e) ELSE log

RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN y.n[x] + Total(S \ {x})
Req(s) == ToString(y.n[s] + 1)

SendAct(s, m) ==
    /\ s \in y.here /\ Follows(y, s, m)
    /\ IsRequest(m) => Total(Sess) < MaxReq /\ y.n[s] < MaxSess
    /\ y' = Send(y, s, m)
    /\ log' = Logged(m @@ [op |-> "send", s |-> s, r |-> Ok])

\* what clients say, different every time
Said(what) == [a |-> what, k |-> what \o "k"]

Requests(s) ==
    \/ \E p \in Procs : \/ SendAct(s, [t |-> "REGISTER", req |-> Req(s), proc |-> p])
                        \/ \E rp \in BOOLEAN : SendAct(s, [t |-> "CALL", req |-> Req(s), proc |-> p, rp |-> rp, pg |-> FALSE]
                                                               @@ Said("c" \o s \o Req(s)))
    \/ \E g \in y.cs[s].regs : SendAct(s, [t |-> "UNREGISTER", req |-> Req(s), reg |-> g])
    \/ \E x \in Topics : \/ SendAct(s, [t |-> "SUBSCRIBE", req |-> Req(s), topic |-> x])
                         \/ \E ack \in BOOLEAN : SendAct(s, [t |-> "PUBLISH", req |-> Req(s), topic |-> x, ack |-> ack]
                                                                @@ Said("p" \o s \o Req(s)))
    \/ \E g \in y.cs[s].subs : SendAct(s, [t |-> "UNSUBSCRIBE", req |-> Req(s), sub |-> g])
Answers(s) ==
    \E i \in y.cs[s].invs :
        \/ SendAct(s, [t |-> "YIELD", inv |-> i, pg |-> FALSE] @@ Said("y" \o i)) /\ UNCHANGED yields
        \/ yields < MaxYield /\ SendAct(s, [t |-> "YIELD", inv |-> i, pg |-> TRUE] @@ Said("g" \o i)) /\ yields' = yields + 1
        \/ SendAct(s, [t |-> "ERROR", mt |-> "INVOCATION", req |-> i, uri |-> "u" \o i] @@ Said("e" \o i)) /\ UNCHANGED yields
RouteAct(s) ==
    /\ y.up[s] # <<>>
    /\ y' = Route(y, s)
    /\ LET r == Answered([y EXCEPT !.up[s] = Tail(@)], s, Head(y.up[s]))
       IN log' = Logged(Head(y.up[s]) @@ [op |-> "route", s |-> s, outs |-> r.outs, r |-> [k |-> r.k]])
RecvAct(s) ==
    /\ y.down[s] # <<>>
    /\ y' = Recv(y, s)
    /\ log' = Logged(Head(y.down[s]) @@ [op |-> "recv", s |-> s, r |-> IF Accepted(y, s, Head(y.down[s])) THEN Ok ELSE Refused])
Probe ==
    /\ Quiet(y) /\ y' = y
    /\ log' = Logged([op |-> "probe", held |-> Listed(Held(y)), router |-> Listed(RouterHolds(y)), waiting |-> Listed(Waits(y))])

LeaveAct(s) ==
    /\ s \in y.here /\ Cardinality(y.gone) < MaxLeave
    /\ y' = Leave(y, s)
    /\ log' = Logged([op |-> "leave", s |-> s, r |-> Ok])
JoinAct(s) ==
    /\ s \notin y.here \cup y.gone
    /\ y' = Join(y, s)
    /\ log' = Logged([op |-> "join", s |-> s, r |-> Ok])

Init == y = SystemInit(Sess, Start) /\ log = <<>> /\ yields = 0
Next ==
    \/ \E s \in Sess : \/ Requests(s) /\ UNCHANGED yields
                       \/ Answers(s)
                       \/ (RouteAct(s) \/ RecvAct(s) \/ LeaveAct(s) \/ JoinAct(s)) /\ UNCHANGED yields
    \/ Probe /\ UNCHANGED yields
Spec == Init /\ [][Next]_vars
\* messages are not left on the links for ever
Fair == /\ \A s \in Sess : WF_vars(RouteAct(s) /\ UNCHANGED yields) /\ WF_vars(RecvAct(s) /\ UNCHANGED yields)
FairSpec == Spec /\ Fair

View == <<y, yields>>

\* every message on a link to a client will be accepted if the ones before it are received first
NeverRefused == \A s \in Sess : y.down[s] # <<>> => Accepted(y, s, Head(y.down[s]))
(* The router refuses nothing that a client sends which keeps to the          *)
(* protocol, except answers to calls of clients that have left.               *)
NothingRefused ==
    \A s \in Sess :
        y.up[s] # <<>> =>
            LET m == Head(y.up[s])
            IN \/ Answered(y, s, m).k # "refused"
               \/ m.t = "YIELD" /\ m.inv \in y.void
               \/ m.t = "ERROR" /\ m.req \in y.void
Agreement ==
    Quiet(y) =>
        /\ Held(y) = RouterHolds(y)
        /\ \A w \in Waits(y) : w.mt = "CALL"
        /\ y.d.att = y.here /\ y.b.att = y.here
        /\ \A s \in y.here :
            /\ y.cs[s].calls = {y.d.calls[i].req : i \in {i \in DOMAIN y.d.calls : y.d.calls[i].caller = s}}
                               \cup {c[2] : c \in {c \in y.lost : c[1] = s}}
            /\ y.cs[s].invs \ y.void = {i \in DOMAIN y.d.calls : y.d.calls[i].callee = s}
Keeping == [][Proper(log')]_vars
C17 == [][P17(log')]_vars
C32 == [][P32(log')]_vars
\* once no client sends any more, all links run empty
Drains == []<>Quiet(y)
\* and every request is answered by then, unless it is a call (whose callee may never answer)
Served == []<>(\A w \in Waits(y) : w.mt = "CALL")

Emit == PrintT("E " \o ToJson(<<TLCFP(View), log'[Len(log')], TLCFP(View')>>))
=============================================================================
