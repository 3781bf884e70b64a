------------------------------ MODULE MCDealer ------------------------------
(* The dealer with small constants: every reachable state and every event in  *)
(* it.  The properties are stated on the log of what was handed in and what   *)
(* came back, without looking at the dealer's state.                          *)
EXTENDS Dealer, DealerProps, Json, TLCExt

CONSTANTS Sess, Procs, Reqs, MaxReg, MaxInv, MaxGone, MaxLog

VARIABLES d, log, gone  \* gone bounds the departures
vars == <<d, log, gone>>

RegName(n) == "r" \o ToString(n)
InvName(n) == "i" \o ToString(n)

Reply(e) ==
    LET w == Want(d, e)
        id == IF New(w) = "reg" THEN RegName(Cardinality(d.ureg) + 1) ELSE InvName(Cardinality(d.uinv) + 1)
    IN IF w.k # "msg" THEN w
       ELSE [k |-> "msg", t |-> w.t, to |-> w.to,
             f |-> w.f @@ (IF w.t \in {"REGISTERED", "INVOCATION"} THEN [id |-> id, idn |-> <<0, 1>>] ELSE NoFn)]

Step(e) ==
    /\ InScope(d, e)
    /\ LET r == Reply(e)
       IN d' = After(d, e, r) /\ log' = Append(log, e @@ [r |-> r])
Do(e) == Step(e) /\ UNCHANGED gone

Attach(s) == Do([op |-> "attach", s |-> s])
Leave(s) ==
    /\ s \in d.att => gone < MaxGone
    /\ Step([op |-> "detach", s |-> s]) /\ gone' = IF s \in d.att THEN gone + 1 ELSE gone
HasReg(p) == Do([op |-> "hasreg", proc |-> p])
RegisterAct(s, q, p) ==
    /\ Cardinality(d.ureg) < MaxReg \/ Owned(d, p) \/ s \notin d.att
    /\ Do([op |-> "register", s |-> s, req |-> q, proc |-> p])
UnregisterAct(s, q, g) == Do([op |-> "unregister", s |-> s, req |-> q, reg |-> g])
CallAct(s, q, p, rp, pg) ==
    LET e == [op |-> "call", s |-> s, req |-> q, proc |-> p, a |-> "x", k |-> Absent, p |-> "y", rp |-> rp, pg |-> pg]
    IN (Cardinality(d.uinv) < MaxInv \/ New(Want(d, e)) # "inv") /\ Do(e)
YieldAct(s, i, pg) == Do([op |-> "yield", s |-> s, inv |-> i, a |-> "x", k |-> "z", p |-> Absent, pg |-> pg])
ErrorAct(s, i) ==
    Do([op |-> "error", s |-> s, mt |-> "INVOCATION", inv |-> i, uri |-> "u", a |-> "x", k |-> "z", det |-> "w"])
ErrorOther(s, i) ==
    Do([op |-> "error", s |-> s, mt |-> "CALL", inv |-> i, uri |-> "u", a |-> "x", k |-> "z", det |-> "w"])
Other(s) == Do([op |-> "other", s |-> s, t |-> "PUBLISH"])

OneReq == CHOOSE q \in Reqs : TRUE

Init == d = DealerInit /\ log = <<>> /\ gone = 0
Next ==
    \/ \E s \in Sess :
        \/ Attach(s) \/ Leave(s) \/ Other(s)
        \/ \E p \in Procs : RegisterAct(s, OneReq, p)
        \/ \E g \in d.ureg \cup {"r0"} : UnregisterAct(s, OneReq, g)
        \/ \E q \in Reqs, p \in Procs, rp, pg \in BOOLEAN : CallAct(s, q, p, rp, pg)
        \/ \E i \in d.uinv \cup {"i0"} :
            \/ \E pg \in BOOLEAN : YieldAct(s, i, pg)
            \/ ErrorAct(s, i)
        \/ \E i \in DOMAIN d.calls : ErrorOther(s, i)
    \/ \E p \in Procs : HasReg(p)
Spec == Init /\ [][Next]_vars

View == <<d, gone>>

Registrations ==
    \A p \in Procs :
        LET js == RegsAt(log, Len(log) + 1, p)
        IN /\ Cardinality(js) = IF Owned(d, p) THEN 1 ELSE 0
           /\ \A j \in js : d.regs[p].owner = log[j].s /\ d.regs[p].id = log[j].r.f.id
Answerables == \A i \in d.uinv : (i \in DOMAIN d.calls) <=> Live(log, Len(log) + 1, i)
Attachments == \A s \in Sess : (s \in d.att) <=> AttachedAt(log, Len(log) + 1, s)
Tidy == \A i \in DOMAIN d.calls : {d.calls[i].caller, d.calls[i].callee} \subseteq d.att
OneOpen == \A s \in Sess, q \in Reqs : Cardinality(Open(d, s, q)) <= 1

C01 == [][P01(log')]_vars
C02 == [][P02(log')]_vars
C03 == [][P03(log')]_vars
C04 == [][P04(log')]_vars
C05 == [][P05(log')]_vars
C06 == [][P06(log')]_vars
C11 == [][P11(log')]_vars
C12 == [][P12(log')]_vars
(* The verdict on real executions is complete and the properties blamed for a *)
(* wrong reply are the broken ones: over all replies a dealer could give,     *)
(* Judge objects exactly when one of the properties is broken.                *)
Bad(x) == IF ToString(x) \in {"TRUE", "FALSE"} THEN ~x ELSE "bad"
WrongReplies(e, r) ==
    {Refused, Ok} \cup {Bool(b) : b \in BOOLEAN}
    \cup {[k |-> "msg", t |-> "ERROR", to |-> s, f |-> [mt |-> "CALL", req |-> "7", uri |-> "wamp.error.no_such_procedure",
                                                      a |-> "x", k |-> "z", det |-> "w"]] : s \in Sess}
    \cup {[k |-> "msg", t |-> "RESULT", to |-> s, f |-> [req |-> "7", a |-> "x", k |-> "z", p |-> Absent, pg |-> b]] :
            s \in Sess, b \in BOOLEAN}
    \cup (IF e.op # "call" THEN {} ELSE
          {[k |-> "msg", t |-> "INVOCATION", to |-> s, f |-> [id |-> i, idn |-> <<0, 1>>, reg |-> g, a |-> e.a, k |-> e.k,
                                                            p |-> e.p, rp |-> e.rp, pg |-> e.pg]] :
            s \in Sess, i \in d.uinv \cup {"i9"}, g \in d.ureg})
    \cup (IF e.op # "register" THEN {} ELSE
          {[k |-> "msg", t |-> "REGISTERED", to |-> s, f |-> [id |-> g, idn |-> <<0, 1>>, req |-> e.req]] :
            s \in Sess, g \in d.ureg \cup {"r9"}})
    \cup (IF e.op # "unregister" THEN {} ELSE
          {[k |-> "msg", t |-> "UNREGISTERED", to |-> s, f |-> [req |-> e.req]] : s \in Sess})
    \cup (IF r.k # "msg" THEN {} ELSE
          {[r EXCEPT !.to = s] : s \in Sess}
          \cup {[r EXCEPT !.f = Put(r.f, x, Bad(r.f[x]))] : x \in DOMAIN r.f \ {"idn", "id"}}
          \cup (IF "id" \in DOMAIN r.f
                THEN {[r EXCEPT !.f = Put(r.f, "id", i)] : i \in d.uinv \cup d.ureg}
                     \cup (IF New(Want(d, e)) = "" THEN {} ELSE {[r EXCEPT !.f = Put(r.f, "idn", <<0, 0>>)]}) ELSE {}))
VerdictRight ==
    [][LET n == Len(log')
           e == log'[n]
       IN \A w \in WrongReplies(e, e.r) :
            LET e2 == [e EXCEPT !.r = w]
                b == Broke(Append(log, e2))
                j == Judge(d, e2)
            IN ((b # {}) <=> (j # {})) \/ (PrintT(<<"MM", e.op, Want(d, e), w, b, j>>) /\ FALSE)]_vars

\* what is in scope by the state is so by the log
Scoped == [][Proper(log')]_vars
Short == Len(log) <= MaxLog
Emit == PrintT("E " \o ToJson(<<TLCFP(View), log'[Len(log')], TLCFP(View')>>))
=============================================================================
