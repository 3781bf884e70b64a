----------------------------- MODULE DealerProps -----------------------------
(* The properties of the dealer, each as a condition on the last entry of a   *)
(* log L of events with their replies, given the entries before it.  Nothing  *)
(* here refers to the state of module Dealer.                                 *)
EXTENDS Wamp

Latest(L) == L[Len(L)]
Done(x, op, s) == x.op = op /\ x.s = s /\ x.r.k = "ok"
Is(x, t) == x.r.k = "msg" /\ x.r.t = t

\* before position i: s is attached
AttachedAt(L, i, s) ==
    \E j \in 1..i-1 : Done(L[j], "attach", s) /\ \A k \in j+1..i-1 : ~Done(L[k], "detach", s)

\* the registration made at j was ended at k
RegEnds(L, j, k) ==
    \/ L[k].op = "unregister" /\ Is(L[k], "UNREGISTERED") /\ L[k].reg = L[j].r.f.id
    \/ Done(L[k], "detach", L[j].s)
\* before position i: where the standing registrations of p were made
RegsAt(L, i, p) ==
    {j \in 1..i-1 : L[j].op = "register" /\ L[j].proc = p /\ Is(L[j], "REGISTERED")
                    /\ \A k \in j+1..i-1 : ~RegEnds(L, j, k)}

\* before position i: the CALLs that were sent on as invocation v
Parts(L, i, v) == {j \in 1..i-1 : L[j].op = "call" /\ Is(L[j], "INVOCATION") /\ L[j].r.f.id = v}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
First(L, i, v) == Min(Parts(L, i, v))

Answers(L, k, v) == L[k].op \in {"yield", "error"} /\ L[k].inv = v /\ L[k].r.k = "msg"
Final(L, k, v) == Answers(L, k, v) /\ (L[k].op = "error" \/ ~L[k].r.f.pg)
Answered(L, i, v) == \E k \in First(L, i, v)..i-1 : Final(L, k, v)
\* the caller or the callee left since
Departed(L, i, v) ==
    LET j == First(L, i, v)
    IN \E k \in j+1..i-1 : Done(L[k], "detach", L[j].s) \/ Done(L[k], "detach", L[j].r.to)
\* a further part of the call could not be sent on as this invocation
Broken(L, i, v) ==
    \E k \in First(L, i, v)+1..i-1 :
        LET m == Max(Parts(L, k, v))
        IN /\ L[m].pg /\ L[k].op = "call" /\ L[k].s = L[m].s /\ L[k].req = L[m].req
           /\ L[k].r.k = "msg" /\ ~(Is(L[k], "INVOCATION") /\ L[k].r.f.id = v)
           \* that call was not already over then
           /\ ~\E h \in First(L, i, v)..k-1 : Final(L, h, v)
Live(L, i, v) ==
    Parts(L, i, v) # {} /\ ~Answered(L, i, v) /\ ~Departed(L, i, v) /\ ~Broken(L, i, v)

-----------------------------------------------------------------------------

P01(L) ==
    LET n == Len(L)  e == Latest(L)  r == e.r
    IN (e.op = "call" /\ AttachedAt(L, n, e.s)) =>
        IF RegsAt(L, n, e.proc) # {}
        THEN \E j \in RegsAt(L, n, e.proc) :
                /\ Is(e, "INVOCATION") /\ r.to = L[j].s /\ r.f.reg = L[j].r.f.id
                /\ r.f.a = e.a /\ r.f.k = e.k /\ r.f.p = e.p /\ r.f.rp = e.rp /\ r.f.pg = e.pg
        ELSE /\ Is(e, "ERROR") /\ r.to = e.s /\ r.f.req = e.req
             /\ r.f.mt = "CALL" /\ r.f.uri = "wamp.error.no_such_procedure"

\* e is an answer by the session that the call e.inv, which can be answered, was sent to
Rightful(L, n, e) ==
    /\ e.op \in {"yield", "error"} /\ (e.op = "error" => e.mt = "INVOCATION")
    /\ Live(L, n, e.inv) /\ L[First(L, n, e.inv)].r.to = e.s
\* another session tried to answer call v, or there was another call
Confusable(L, n, v) ==
    LET c == First(L, n, v)
    IN \E j \in 1..n-1 : \/ j > c /\ L[j].op \in {"yield", "error"} /\ L[j].inv = v /\ L[j].s # L[c].r.to
                         \/ L[j].op = "call" /\ Is(L[j], "INVOCATION") /\ L[j].r.f.id # v

P02(L) ==
    LET n == Len(L)  e == Latest(L)  r == e.r
    IN /\ (e.op \in {"yield", "error"} /\ r.k # "refused") =>
            /\ Parts(L, n, e.inv) # {}
            /\ LET c == L[First(L, n, e.inv)]
               IN /\ c.r.to = e.s /\ r.k = "msg" /\ r.to = c.s
                  /\ IF e.op = "yield" THEN r.t = "RESULT" /\ r.f.p = e.p
                     ELSE /\ e.mt = "INVOCATION" /\ r.t = "ERROR"
                          /\ r.f.mt = "CALL" /\ r.f.uri = e.uri /\ r.f.det = e.det
                  /\ r.f.req = c.req /\ r.f.a = e.a /\ r.f.k = e.k
       /\ (Rightful(L, n, e) /\ Confusable(L, n, e.inv)) => r.k # "refused"

P03(L) ==
    LET n == Len(L)  e == Latest(L)  r == e.r
    IN (e.op \in {"yield", "error"} /\ Parts(L, n, e.inv) # {}) =>
        LET c == L[First(L, n, e.inv)]
        IN /\ Answered(L, n, e.inv) => r.k = "refused"
           /\ Rightful(L, n, e) => r.k = "msg"
           /\ (e.op = "yield" /\ Is(e, "RESULT")) => (r.f.pg <=> (e.pg /\ c.rp))

\* the invocations (at most one) that a CALL e at n must go to as a further part
Continues(L, n, e) ==
    {L[j].r.f.id : j \in {j \in 1..n-1 :
        /\ L[j].op = "call" /\ L[j].s = e.s /\ L[j].req = e.req /\ L[j].pg /\ Is(L[j], "INVOCATION")
        /\ j = Max(Parts(L, n, L[j].r.f.id)) /\ Live(L, n, L[j].r.f.id)
        /\ \E g \in RegsAt(L, n, e.proc) : L[g].r.f.id = L[j].r.f.reg}}

P04(L) ==
    LET n == Len(L)  e == Latest(L)  r == e.r
    IN /\ (e.op = "call" /\ AttachedAt(L, n, e.s)) =>
            LET mine == Continues(L, n, e)
            IN IF mine # {} THEN Is(e, "INVOCATION") /\ mine = {r.f.id} /\ r.to = L[First(L, n, r.f.id)].r.to
               ELSE Is(e, "INVOCATION") =>
                        ~\E j \in Parts(L, n, r.f.id) : L[j].s = e.s /\ L[j].req = e.req
       /\ (e.op \in {"yield", "error"} /\ Parts(L, n, e.inv) # {} /\ Broken(L, n, e.inv)) => r.k = "refused"
       /\ (Rightful(L, n, e) /\ Cardinality(Parts(L, n, e.inv)) > 1) => r.k # "refused"

\* somebody tried in vain to take or end the registration made at j
Contested(L, n, j) ==
    \E k \in j+1..n-1 : \/ L[k].op = "register" /\ L[k].proc = L[j].proc
                        \/ L[k].op = "unregister" /\ L[k].reg = L[j].r.f.id
\* how the last registration of p ended
Ended(L, n, p, how) ==
    LET js == {j \in 1..n-1 : L[j].op = "register" /\ L[j].proc = p /\ Is(L[j], "REGISTERED")}
    IN js # {} /\ LET j == Max(js)
                      ks == {k \in j+1..n-1 : RegEnds(L, j, k)}
                  IN ks # {} /\ L[Min(ks)].op = how

P05(L) ==
    LET n == Len(L)  e == Latest(L)  r == e.r
    IN CASE e.op = "register" /\ AttachedAt(L, n, e.s) ->
                /\ r.k = "msg" /\ r.to = e.s
                /\ IF RegsAt(L, n, e.proc) = {} THEN r.t = "REGISTERED"
                   ELSE r.t = "ERROR" /\ r.f.mt = "REGISTER" /\ r.f.uri = "wamp.error.procedure_already_exists"
                /\ r.f.req = e.req
         [] e.op = "unregister" ->
                LET own == \E j \in 1..n-1 :
                            /\ L[j].op = "register" /\ L[j].s = e.s /\ Is(L[j], "REGISTERED") /\ L[j].r.f.id = e.reg
                            /\ j \in RegsAt(L, n, L[j].proc)
                IN IF own THEN Is(e, "UNREGISTERED") /\ r.to = e.s /\ r.f.req = e.req ELSE r.k = "refused"
         [] e.op = "hasreg" -> r.k = "bool" /\ (r.v <=> RegsAt(L, n, e.proc) # {})
         [] e.op = "call" /\ AttachedAt(L, n, e.s) ->
                IF RegsAt(L, n, e.proc) = {} THEN Ended(L, n, e.proc, "unregister") => ~Is(e, "INVOCATION")
                ELSE \A j \in RegsAt(L, n, e.proc) : Contested(L, n, j) =>
                        Is(e, "INVOCATION") /\ r.to = L[j].s /\ r.f.reg = L[j].r.f.id
         [] OTHER -> TRUE

\* somebody left after j
Survives(L, n, j) == \E k \in j+1..n-1 : L[k].op = "detach" /\ L[k].r.k = "ok"

P06(L) ==
    LET n == Len(L)  e == Latest(L)  r == e.r
    IN /\ r.k = "msg" => AttachedAt(L, n, r.to) \/ ~\E j \in 1..n-1 : Done(L[j], "detach", r.to)
       /\ (e.op = "detach" /\ AttachedAt(L, n, e.s)) => r.k = "ok"
       \* what departed sessions had is gone
       /\ (e.op \in {"yield", "error"} /\ Parts(L, n, e.inv) # {} /\ Departed(L, n, e.inv)) => r.k = "refused"
       /\ (e.op = "call" /\ Is(e, "INVOCATION") /\ Parts(L, n, r.f.id) # {}) => ~Departed(L, n, r.f.id)
       /\ (e.op \in {"call", "register", "hasreg"} /\ RegsAt(L, n, e.proc) = {} /\ Ended(L, n, e.proc, "detach")) =>
            /\ e.op = "call" => ~Is(e, "INVOCATION")
            /\ (e.op = "register" /\ AttachedAt(L, n, e.s)) => Is(e, "REGISTERED")
            /\ e.op = "hasreg" => r # Bool(TRUE)
       /\ (e.op \in {"call", "register"} /\ ~AttachedAt(L, n, e.s) /\ \E j \in 1..n-1 : Done(L[j], "detach", e.s)) =>
            r.k = "refused"
       \* what others have is not
       /\ e.op \in {"call", "register", "hasreg"} =>
            \A j \in RegsAt(L, n, e.proc) : Survives(L, n, j) =>
                /\ (e.op = "call" /\ AttachedAt(L, n, e.s)) => Is(e, "INVOCATION") /\ r.to = L[j].s
                /\ e.op = "register" => ~Is(e, "REGISTERED")
                /\ e.op = "hasreg" => r = Bool(TRUE)
       /\ (Rightful(L, n, e) /\ Survives(L, n, First(L, n, e.inv))) => r.k # "refused"

P11(L) ==
    LET n == Len(L)  e == Latest(L)
    IN CASE e.op = "attach" -> e.r.k = IF AttachedAt(L, n, e.s) THEN "refused" ELSE "ok"
         [] e.op = "detach" -> ~AttachedAt(L, n, e.s) => e.r.k = "refused"
         [] e.op = "hasreg" -> TRUE
         [] e.op = "other" -> e.r.k = "refused"
         [] e.op = "error" /\ e.mt # "INVOCATION" -> e.r.k = "refused"
         [] OTHER -> ~AttachedAt(L, n, e.s) => e.r.k = "refused"

P12(L) ==
    LET n == Len(L)  e == Latest(L)
    IN /\ Is(e, "REGISTERED") =>
            ValidId(e.r.f.idn) /\ \A j \in 1..n-1 : Is(L[j], "REGISTERED") => L[j].r.f.id # e.r.f.id
       /\ (e.op = "call" /\ Is(e, "INVOCATION")) =>
            e.r.f.id \in Continues(L, n, e) \/ (Parts(L, n, e.r.f.id) = {} /\ ValidId(e.r.f.idn))

(* the last entry is no CALL that uses the request id of a progressive call   *)
(* for something else                                                         *)
Proper(L) ==
    LET n == Len(L)  e == Latest(L)
    IN e.op = "call" =>
        \A j \in 1..n-1 :
            (/\ L[j].op = "call" /\ L[j].s = e.s /\ L[j].req = e.req /\ L[j].pg /\ Is(L[j], "INVOCATION")
             /\ j = Max(Parts(L, n, L[j].r.f.id)) /\ Live(L, n, L[j].r.f.id)) =>
                LET c == L[First(L, n, L[j].r.f.id)] IN c.proc = e.proc /\ c.rp = e.rp

Broke(L) ==
    If(~P01(L), {"C01"}) \cup If(~P02(L), {"C02"}) \cup If(~P03(L), {"C03"}) \cup If(~P04(L), {"C04"})
    \cup If(~P05(L), {"C05"}) \cup If(~P06(L), {"C06"}) \cup If(~P11(L), {"C11"}) \cup If(~P12(L), {"C12"})
=============================================================================
