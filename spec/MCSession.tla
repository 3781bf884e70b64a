------------------------------ MODULE MCSession ------------------------------
(* The client session with small constants: every reachable state and every   *)
(* event in it.  Empty constants leave parts of the session out.              *)
EXTENDS Session, SessionProps, Json, TLCExt

CONSTANTS CallReqs, RegReqs, PubReqs, SubReqs, Regs, Subs, Invs, MaxLog

VARIABLES s, log
vars == <<s, log>>

\* an open choice is made the way the library makes it
Reply(e) == IF Free(s, e) THEN Ok ELSE Want(s, e)

Do(e) ==
    /\ InScope(s, e)
    /\ s' = After(s, e) /\ log' = Append(log, e @@ [r |-> Reply(e)])
Send(t, f) == Do([op |-> "send", t |-> t, bad |-> FALSE] @@ f)
Recv(t, f) == Do([op |-> "recv", t |-> t, bad |-> FALSE] @@ f)

Calling(q) ==
    \/ \E pg \in BOOLEAN : Send("CALL", [req |-> q, pg |-> pg]) \/ Recv("RESULT", [req |-> q, pg |-> pg])
    \/ Recv("ERROR", [mt |-> "CALL", req |-> q])
Registering(q) ==
    \/ Send("REGISTER", [req |-> q])
    \/ \E g \in Regs : Recv("REGISTERED", [req |-> q, reg |-> g]) \/ Send("UNREGISTER", [req |-> q, reg |-> g])
    \/ Recv("UNREGISTERED", [req |-> q])
    \/ \E mt \in {"REGISTER", "UNREGISTER"} : Recv("ERROR", [mt |-> mt, req |-> q])
Publishing(q) ==
    \/ \E ack \in BOOLEAN : Send("PUBLISH", [req |-> q, ack |-> ack])
    \/ Recv("PUBLISHED", [req |-> q])
    \/ Recv("ERROR", [mt |-> "PUBLISH", req |-> q])
Subscribing(q) ==
    \/ Send("SUBSCRIBE", [req |-> q])
    \/ \E g \in Subs : Recv("SUBSCRIBED", [req |-> q, sub |-> g]) \/ Send("UNSUBSCRIBE", [req |-> q, sub |-> g])
    \/ Recv("UNSUBSCRIBED", [req |-> q])
    \/ \E mt \in {"SUBSCRIBE", "UNSUBSCRIBE"} : Recv("ERROR", [mt |-> mt, req |-> q])
Serving(v) ==
    \/ \E g \in Regs : Recv("INVOCATION", [inv |-> v, reg |-> g])
    \/ \E pg \in BOOLEAN : Send("YIELD", [inv |-> v, pg |-> pg])
    \/ \E mt \in {"INVOCATION", "CALL", "REGISTER"} : Send("ERROR", [mt |-> mt, req |-> v])
Failing ==
    \/ \E q \in CallReqs : Do([op |-> "send", t |-> "CALL", bad |-> TRUE, req |-> q, pg |-> FALSE])
    \/ \E q \in PubReqs : Do([op |-> "send", t |-> "PUBLISH", bad |-> TRUE, req |-> q, ack |-> TRUE])
    \/ \E q \in RegReqs : \/ Do([op |-> "send", t |-> "REGISTER", bad |-> TRUE, req |-> q])
                          \/ \E g \in Regs : Do([op |-> "send", t |-> "UNREGISTER", bad |-> TRUE, req |-> q, reg |-> g])
    \/ \E q \in SubReqs : \/ Do([op |-> "send", t |-> "SUBSCRIBE", bad |-> TRUE, req |-> q])
                          \/ \E g \in Subs : Do([op |-> "send", t |-> "UNSUBSCRIBE", bad |-> TRUE, req |-> q, sub |-> g])
    \/ \E v \in Invs : \/ Do([op |-> "send", t |-> "YIELD", bad |-> TRUE, inv |-> v, pg |-> FALSE])
                       \/ Do([op |-> "send", t |-> "ERROR", bad |-> TRUE, mt |-> "INVOCATION", req |-> v])
    \/ \E t \in {"RESULT", "garbage"} : Do([op |-> "recv", t |-> t, bad |-> TRUE])
Passing ==
    \/ Recv("GOODBYE", NoFn) \/ Recv("ABORT", NoFn) \/ Send("GOODBYE", NoFn)
    \/ \E t \in {"RESULT", "EVENT", "WELCOME"} : Send(t, NoFn)
    \/ \E t \in {"CALL", "SUBSCRIBE", "HELLO"} : Recv(t, NoFn)
    \/ \E q \in CallReqs \cup RegReqs \cup SubReqs : Recv("ERROR", [mt |-> "INVOCATION", req |-> q])

Init == s = SessionInit /\ log = <<>>
Next ==
    \/ \E q \in CallReqs : Calling(q)
    \/ \E q \in RegReqs : Registering(q)
    \/ \E q \in PubReqs : Publishing(q)
    \/ \E q \in SubReqs : Subscribing(q) \/ \E g \in Subs : Recv("EVENT", [sub |-> g])
    \/ \E v \in Invs : Serving(v)
    \/ Failing
    \/ Passing
Spec == Init /\ [][Next]_vars

View == s

Requested ==
    \A mt \in Requests, q \in CallReqs \cup RegReqs \cup PubReqs \cup SubReqs :
        Waiting(s, mt, q) <=> Pending(log, Len(log) + 1, mt, q) # {}
Live ==
    /\ \A g \in Regs : (g \in s.regs) <=> LiveReg(log, Len(log) + 1, g)
    /\ \A g \in Subs : (g \in s.subs) <=> LiveSub(log, Len(log) + 1, g)
    /\ \A v \in Invs : (v \in s.invs) <=> OpenInv(log, Len(log) + 1, v)

C13 == [][P13(log')]_vars
C14 == [][P14(log')]_vars
C15 == [][P15(log')]_vars
C16 == [][P16(log')]_vars
\* a failed attempt is as if it had not been made
FailedIsNothing == [][Latest(log').r.k = "refused" => s' = s]_vars

\* over all replies, Judge objects exactly when one of the properties is broken
VerdictRight ==
    [][LET n == Len(log')
           e == log'[n]
       IN \A k \in {"ok", "refused", "odd"} :
            LET e2 == [e EXCEPT !.r = [k |-> k]]
                x == Broke(Append(log, e2))
                j == Judge(s, e2)
            IN ((x # {}) <=> (j # {})) \/ (PrintT(<<"MM", e.op, e, Want(s, e), e2, x, j>>) /\ FALSE)]_vars

\* what is in scope by the state is so by the log
Scoped == [][Proper(log')]_vars
Short == Len(log) <= MaxLog
Emit == PrintT("E " \o ToJson(<<TLCFP(View), log'[Len(log')], TLCFP(View')>>))
=============================================================================
