---------------------------- MODULE SystemProps -----------------------------
(* Properties C17 and C32 as conditions on the last entry of a log L of what  *)
(* happened between clients and router, and the rules a client keeps to.      *)
(* Nothing here refers to the state of module System.                         *)
EXTENDS Wamp, SequencesExt

Latest(L) == L[Len(L)]
Sent(x, s, t) == x.op = "send" /\ x.s = s /\ x.t = t /\ x.r.k = "ok"
Got(x, s, t) == x.op = "recv" /\ x.s = s /\ x.t = t /\ x.r.k = "ok"

Final(x, s, i) ==
    \/ Sent(x, s, "YIELD") /\ x.inv = i /\ ~x.pg
    \/ Sent(x, s, "ERROR") /\ x.req = i

Routed(x, s, i) ==
    /\ x.op = "route" /\ x.s = s /\ x.r.k # "refused"
    /\ \/ x.t = "YIELD" /\ x.inv = i /\ ~x.pg
       \/ x.t = "ERROR" /\ x.req = i

(* CALL req of s has reached a callee which has not answered it, or has left  *)
(* before its answer was routed                                               *)
Unanswered(L, s, req) ==
    \E j \in DOMAIN L :
        /\ L[j].op = "route" /\ L[j].s = s /\ L[j].t = "CALL" /\ L[j].req = req
        /\ \E o \in DOMAIN L[j].outs :
              /\ L[j].outs[o].t = "INVOCATION"
              /\ LET c == L[j].outs[o].to
                     i == L[j].outs[o].inv
                 IN \/ \A k \in j+1..Len(L) : ~Final(L[k], c, i)
                    \/ /\ \E k \in j+1..Len(L) : L[k].op = "leave" /\ L[k].s = c
                       /\ \A k \in j+1..Len(L) : ~Routed(L[k], c, i)

P17(L) ==
    LET e == Latest(L)
    IN /\ e.op = "recv" => e.r.k = "ok"
       /\ e.op = "probe" =>
            /\ Range(e.held) = Range(e.router)
            /\ \A w \in Range(e.waiting) : w.mt = "CALL" /\ Unanswered(L, w.s, w.req)

-----------------------------------------------------------------------------

(* C32: what one client says is what the other hears.  Nothing is said about  *)
(* which client that is: the log tells it, for the links are FIFO.  The n-th  *)
(* message that a client gets is the n-th one the router put on its link, in  *)
(* answer to the r-th message it took from a client, which is the r-th one    *)
(* that client sent.                                                          *)

\* where the n-th message for s was put on its link
Put32(L, s, n) ==
    LET To(x) == IF x.op = "route" THEN Len(SelectSeq(x.outs, LAMBDA o : o.to = s)) ELSE 0
        Step(acc, j) == IF acc.at # 0 THEN acc
                        ELSE IF To(L[j]) >= acc.left THEN [acc EXCEPT !.at = j]
                        ELSE [acc EXCEPT !.left = @ - To(L[j])]
    IN FoldLeft(Step, [left |-> n, at |-> 0], [j \in DOMAIN L |-> j]).at

\* the message that the last entry, a message received, goes back to; or none
Source(L) ==
    LET e == Latest(L)
        n == Cardinality({j \in DOMAIN L : L[j].op = "recv" /\ L[j].s = e.s})
        at == Put32(L, e.s, n)
        u == L[at].s
        r == Cardinality({j \in 1..at : L[j].op = "route" /\ L[j].s = u})
        sent == SelectSeq(L, LAMBDA x : x.op = "send" /\ x.s = u /\ x.r.k = "ok")
    IN IF at = 0 \/ r > Len(sent) THEN <<>> ELSE <<sent[r]>>

Carries == [CALL |-> "INVOCATION", YIELD |-> "RESULT", PUBLISH |-> "EVENT", ERROR |-> "ERROR"]

P32(L) ==
    LET e == Latest(L)
        src == Source(L)
        m == src[1]
    IN e.op = "recv" =>
        /\ src # <<>>
        /\ e.r.k = "ok" /\ e.t \in {"INVOCATION", "RESULT", "EVENT"} => m.t \in DOMAIN Carries /\ Carries[m.t] = e.t
        /\ m.t \in DOMAIN Carries /\ e.t = Carries[m.t] =>
              /\ e.r.k = "ok"
              /\ e.a = m.a /\ e.k = m.k
              /\ e.t = "INVOCATION" => e.rp = m.rp
              /\ e.t = "RESULT" => e.pg = m.pg
              /\ e.t = "ERROR" => e.uri = m.uri

Broke(L) == If(~P17(L), {"C17"}) \cup If(~P32(L), {"C32"})

-----------------------------------------------------------------------------

Gave(x, s, t, f, id) == x.op = "send" /\ x.s = s /\ x.t = t /\ x[f] = id

\* what s holds as far as it knows, and has not asked to give up
Keeps(L, s, got, give, f, id) ==
    \E j \in DOMAIN L : Got(L[j], s, got) /\ L[j][f] = id /\ \A k \in j+1..Len(L) : ~Gave(L[k], s, give, f, id)

(* the last entry is something that a client may do which keeps to the        *)
(* protocol, and which uses each request id once                              *)
Proper(L) ==
    LET e == Latest(L)
        M == SubSeq(L, 1, Len(L) - 1)
    IN e.op \in {"send", "leave", "join"} =>
        /\ \A j \in DOMAIN M : ~(M[j].op = "leave" /\ M[j].s = e.s)
        /\ e.op = "send" /\ e.t \in {"CALL", "REGISTER", "UNREGISTER", "PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE"} =>
              \A j \in DOMAIN M : ~(M[j].op = "send" /\ M[j].s = e.s /\ M[j].t \notin {"YIELD", "ERROR"} /\ M[j].req = e.req)
        /\ CASE e.op # "send" -> TRUE
             [] e.t = "UNREGISTER" -> Keeps(M, e.s, "REGISTERED", "UNREGISTER", "reg", e.reg)
             [] e.t = "UNSUBSCRIBE" -> Keeps(M, e.s, "SUBSCRIBED", "UNSUBSCRIBE", "sub", e.sub)
             [] e.t \in {"YIELD", "ERROR"} ->
                  LET i == IF e.t = "YIELD" THEN e.inv ELSE e.req
                  IN \E j \in DOMAIN M : /\ Got(M[j], e.s, "INVOCATION") /\ M[j].inv = i
                                         /\ \A k \in j+1..Len(M) : ~Final(M[k], e.s, i)
                                         /\ (e.t = "YIELD" /\ e.pg) => M[j].rp
             [] OTHER -> TRUE
=============================================================================
