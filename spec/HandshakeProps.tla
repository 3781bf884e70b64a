--------------------------- MODULE HandshakeProps ---------------------------
(* The properties of the handshake, each as a condition on the last entry of  *)
(* a log L of events with their replies, given the entries before it.         *)
(* Nothing here refers to the states of module Handshake.                     *)
EXTENDS Wamp

Latest(L) == L[Len(L)]
Ans(x) == IF x.r.k = "msg" THEN x.r.t ELSE x.r.k
AtServer(x) == x.op \in {"hello", "authenticate", "abort", "other", "garbage"}
AtClient(x) == x.op \in {"chello", "cchallenge", "cwelcome", "cabort", "cother", "cgarbage"}
No == [sid |-> Absent, realm |-> Absent, authid |-> Absent, authrole |-> Absent]

\* entries 1..n of server handshake h, and the one with which it was set up
Of(L, n, h) == {j \in 1..n : AtServer(L[j]) /\ L[j].h = h}
WithAuth(L, h) == \E j \in DOMAIN L : L[j].op = "new" /\ L[j].h = h /\ L[j].auth
Challenged(L, n, h) == {j \in Of(L, n, h) : Ans(L[j]) = "CHALLENGE"}
Welcomed(L, n, h) == {j \in Of(L, n, h) : Ans(L[j]) = "WELCOME"}
GaveUp(L, n, h) == {j \in Of(L, n, h) : Ans(L[j]) = "ABORT" \/ (L[j].op = "abort" /\ Ans(L[j]) = "ok")}
Over(L, n, h) == Welcomed(L, n, h) \cup GaveUp(L, n, h)
Begun(L, n, h) == Challenged(L, n, h) \cup Over(L, n, h)

Approved(L, n, h) ==
    UNION {{L[j].saw[i].q : i \in {i \in DOMAIN L[j].saw : L[j].saw[i].k = "approve"}}
           : j \in {j \in Of(L, n, h) : L[j].op \in {"hello", "authenticate"}}}

\* the HELLO that AUTHENTICATE n answers to
Asked(L, n, h) == CHOOSE j \in Challenged(L, n - 1, h) : TRUE
Waits(L, n, h) == Challenged(L, n - 1, h) # {} /\ Over(L, n - 1, h) = {}
Fresh(L, n, h) == Begun(L, n - 1, h) = {}

KeyOf(q) == IF q.m = "wampcra" THEN q.ans.secret ELSE q.key
\* AUTHENTICATE n is the right proof by the right key, over whatever challenge
RightKey(L, n) ==
    LET e == L[n]  q == L[Asked(L, n, e.h)]
    IN q.m \in {"wampcra", "cryptosign"} /\ e.proof.form = "ok" /\ e.proof.key = KeyOf(q)
RightChal(L, n) == L[n].proof.chal = L[Asked(L, n, L[n].h)].r.f.chal

\* entry n asks for a method that is decided right away, or (cryptosign, wampcra) before the challenge
DecidedAtHello(e) == e.m \in {"anonymous", "wampcra", "cryptosign"}

P18(L) ==
    LET n == Len(L)  e == Latest(L)
    IN (AtServer(e) /\ WithAuth(L, e.h)) =>
        /\ Ans(e) = "WELCOME" =>
            IF e.op = "hello" THEN e.m = "anonymous" /\ e.ask \in Approved(L, n, e.h)
            ELSE /\ e.op = "authenticate" /\ Challenged(L, n - 1, e.h) # {}
                 /\ LET q == L[Asked(L, n, e.h)]
                    IN IF q.m = "ticket" THEN e.ask \in Approved(L, n, e.h)
                       ELSE RightKey(L, n) /\ q.ask \in Approved(L, n, e.h)
        /\ (e.op = "hello" /\ Fresh(L, n, e.h) /\ DecidedAtHello(e) /\ (e.form # "ok" \/ e.ans.k # "approve")) =>
            Ans(e) \in {"refused", "ABORT"} \cup If(e.form # "ok", {"CHALLENGE"})
        /\ (e.op = "authenticate" /\ Waits(L, n, e.h)) =>
            LET q == L[Asked(L, n, e.h)]
            IN (IF q.m = "ticket" THEN e.ans.k # "approve" ELSE ~RightKey(L, n)) => Ans(e) \in {"refused", "ABORT"}

P19(L) ==
    LET n == Len(L)  e == Latest(L)
    IN /\ (e.op = "crowd" => {e.r.whole, e.r.part} = {e.r.n})
       /\ AtServer(e) =>
        /\ (Ans(e) = "CHALLENGE" /\ e.op = "hello" /\ e.m \in {"wampcra", "cryptosign"}) =>
            \A j \in 1..n-1 : (AtServer(L[j]) /\ Ans(L[j]) = "CHALLENGE" /\ L[j].r.f.chal # Absent) =>
                L[j].r.f.chal # e.r.f.chal /\ L[j].r.f.nonce # e.r.f.nonce
        /\ (Ans(e) = "CHALLENGE" /\ e.op = "hello" /\ e.m = "wampcra") =>
            e.r.f.authid = e.ans.authid /\ e.r.f.authrole = e.ans.authrole
        /\ (e.op = "authenticate" /\ Waits(L, n, e.h)) =>
            LET q == L[Asked(L, n, e.h)]
            IN /\ (RightKey(L, n) /\ ~RightChal(L, n)) => Ans(e) = "ABORT"
               /\ (Ans(e) = "WELCOME" /\ q.m \in {"wampcra", "cryptosign"}) => e.proof.form = "ok" /\ RightChal(L, n)
               /\ (Ans(e) = "WELCOME" /\ q.m = "wampcra") => e.r.f.sid = q.r.f.sid

P20(L) ==
    LET n == Len(L)  e == Latest(L)
    IN AtServer(e) =>
        /\ e.r.ab = (GaveUp(L, n, e.h) # {})
        /\ GaveUp(L, n - 1, e.h) # {} => Ans(e) \notin {"CHALLENGE", "WELCOME"}
        /\ GaveUp(L, n, e.h) # {} => e.r.det = No

P21(L) ==
    LET n == Len(L)  e == Latest(L)
    IN AtServer(e) =>
        /\ e.op = "hello" =>
            /\ Ans(e) \in {"refused", "ABORT", "CHALLENGE", "WELCOME"}
            /\ ~Fresh(L, n, e.h) => Ans(e) = "refused"
            /\ (WithAuth(L, e.h) /\ e.m \notin {"anonymous", "ticket", "wampcra", "cryptosign"}) => Ans(e) = "refused"
            /\ (Ans(e) = "CHALLENGE" /\ WithAuth(L, e.h)) => e.r.f.m = e.m
        /\ e.op = "authenticate" =>
            /\ Ans(e) \in {"refused", "ABORT", "WELCOME"}
            /\ ~Waits(L, n, e.h) => Ans(e) = "refused"
        /\ e.op = "abort" =>
            Ans(e) \in IF Welcomed(L, n - 1, e.h) # {} THEN {"refused"}
                       ELSE IF GaveUp(L, n - 1, e.h) # {} THEN {"ok", "refused"} ELSE {"ok"}
        /\ e.op \in {"other", "garbage"} => Ans(e) = "refused"
        /\ e.r.fin # "-" => e.r.fin = (IF Ans(e) \in {"WELCOME", "ABORT"} \/ (e.op = "abort" /\ Ans(e) = "ok") THEN "T" ELSE "F")
        \* what was refused has not advanced the handshake
        /\ (\E j \in Of(L, n - 1, e.h) : Ans(L[j]) = "refused") =>
            /\ (e.op = "hello" /\ Fresh(L, n, e.h)) =>
                (~WithAuth(L, e.h) \/ (e.m = "anonymous" /\ e.ans.k = "approve") => Ans(e) = "WELCOME")
                /\ (WithAuth(L, e.h) /\ (e.m = "ticket" \/ (e.m \in {"wampcra", "cryptosign"} /\ e.form = "ok" /\ e.ans.k = "approve"))
                      => Ans(e) = "CHALLENGE")
            /\ (e.op = "authenticate" /\ Waits(L, n, e.h)) =>
                LET q == L[Asked(L, n, e.h)]
                IN (IF q.m = "ticket" THEN e.ans.k = "approve" ELSE RightKey(L, n) /\ RightChal(L, n)) => Ans(e) = "WELCOME"

\* the HELLO that led to the WELCOME n, and what was granted then
HelloOf(L, n) == IF L[n].op = "hello" \/ Challenged(L, n - 1, L[n].h) = {} THEN L[n] ELSE L[Asked(L, n, L[n].h)]
GrantOf(L, n) ==
    LET q == HelloOf(L, n)
    IN IF ~WithAuth(L, L[n].h) THEN [authid |-> "=anonymous", authrole |-> "=anonymous"]
       ELSE IF q.op = "hello" /\ q.m = "ticket" THEN L[n].ans ELSE q.ans
DetOf(L, n) ==
    [sid |-> L[n].r.f.sid, realm |-> IF HelloOf(L, n).op = "hello" THEN HelloOf(L, n).realm ELSE Absent, authid |-> GrantOf(L, n).authid, authrole |-> GrantOf(L, n).authrole]

\* client handshake h: its entries, where it began anew, what happened since
COf(L, n, h) == {j \in 1..n : AtClient(L[j]) /\ L[j].h = h}
Setup(L, h) == LET j == CHOOSE j \in DOMAIN L : L[j].op = "cnew" /\ L[j].h = h IN L[j]
Since(L, n, h, kind) ==
    \E j \in COf(L, n, h) : /\ Ans(L[j]) = kind
                            /\ \A k \in COf(L, n, h) : (k > j) => Ans(L[k]) \notin {"HELLO", "app", "ok"}
\* waiting for a WELCOME: HELLO was sent, and since then neither ABORT nor WELCOME arrived
Hoping(L, n, h) == Since(L, n, h, "HELLO")
HasAnswered(L, n, h) ==
    \E j \in COf(L, n, h) : Ans(L[j]) = "AUTHENTICATE" /\ \A k \in COf(L, n, h) : k > j => Ans(L[k]) \notin {"HELLO", "app", "ok"}
Joined(L, n, h) == Since(L, n, h, "ok")
EverJoined(L, n, h) == \E j \in COf(L, n, h) : Ans(L[j]) = "ok"
CDet(L, j) == [sid |-> L[j].sid, realm |-> Setup(L, L[j].h).realm, authid |-> L[j].authid, authrole |-> L[j].authrole]

\* the details that the end w told last
Told(L, n, w) ==
    LET S == {j \in 1..n : (IF w.at = "s" THEN AtServer(L[j]) ELSE AtClient(L[j])) /\ L[j].h = w.h}
    IN IF S = {} THEN No ELSE L[CHOOSE j \in S : \A k \in S : k <= j].r.det

P22(L) ==
    LET n == Len(L)  e == Latest(L)
    IN /\ AtServer(e) =>
            /\ Ans(e) = "WELCOME" /\ e.op \in {"hello", "authenticate"} =>
                e.r.f.authid = GrantOf(L, n).authid /\ e.r.f.authrole = GrantOf(L, n).authrole
            /\ (\A j \in Welcomed(L, n, e.h) : L[j].op \in {"hello", "authenticate"}) =>
                IF Welcomed(L, n, e.h) = {} THEN e.r.det = No
                ELSE \A j \in Welcomed(L, n, e.h) : e.r.det = DetOf(L, j)
       /\ AtClient(e) =>
            /\ ~EverJoined(L, n, e.h) => e.r.det = No
            \* (begun anew, it may have forgotten or still know)
            /\ (Joined(L, n, e.h) \/ (EverJoined(L, n, e.h) /\ e.r.det # No)) =>
                \A j \in COf(L, n, e.h) :
                    (L[j].op = "cwelcome" /\ Ans(L[j]) = "ok" /\ \A k \in COf(L, n, e.h) : k > j => Ans(L[k]) # "ok") => e.r.det = CDet(L, j)
       /\ (e.op = "compare" /\ Told(L, n, e.one) # No /\ Told(L, n, e.two) # No) =>
            e.r.same = IF Told(L, n, e.one) = Told(L, n, e.two) THEN "T" ELSE "F"
       /\ (e.op = "pair" /\ Welcomed(L, n, e.hs) # {} /\ Joined(L, n, e.h)) =>
            \A j \in Welcomed(L, n, e.hs), k \in COf(L, n, e.h) :
                (Ans(L[k]) = "ok" /\ L[k].op = "cwelcome" /\ L[j].op \in {"hello", "authenticate"}) => DetOf(L, j) = CDet(L, k)

P23(L) ==
    LET n == Len(L)  e == Latest(L)
    IN AtClient(e) =>
        /\ e.op = "cwelcome" => Ans(e) = (IF Hoping(L, n - 1, e.h) THEN "ok" ELSE "refused")
        /\ e.op = "cchallenge" =>
            Ans(e) = IF Hoping(L, n - 1, e.h) /\ ~HasAnswered(L, n - 1, e.h) /\ e.form = "ok" THEN "AUTHENTICATE" ELSE "refused"
        /\ e.op \in {"cother", "cgarbage"} => Ans(e) = "refused"
        /\ e.op = "chello" => Ans(e) = (IF e.bad THEN "refused" ELSE "HELLO")
        /\ e.op = "cabort" => Ans(e) = "app" /\ e.r.f.reason = e.reason /\ e.r.f.a = e.a /\ e.r.f.k = e.k

P24(L) ==
    LET n == Len(L)  e == Latest(L)
    IN /\ (AtServer(e) /\ \A j \in Of(L, n - 1, e.h) : Ans(L[j]) # "refused") =>
            /\ (e.op = "hello" /\ Fresh(L, n, e.h)) =>
                (~WithAuth(L, e.h) \/ (e.m = "anonymous" /\ e.ans.k = "approve") => Ans(e) = "WELCOME")
                /\ (WithAuth(L, e.h) /\ (e.m = "ticket" \/ (e.m \in {"wampcra", "cryptosign"} /\ e.form = "ok" /\ e.ans.k = "approve"))
                      => Ans(e) = "CHALLENGE")
            /\ (e.op = "authenticate" /\ Waits(L, n, e.h)) =>
                LET q == L[Asked(L, n, e.h)]
                IN (IF q.m = "ticket" THEN e.ans.k = "approve" ELSE RightKey(L, n) /\ RightChal(L, n)) => Ans(e) = "WELCOME"
       /\ AtClient(e) =>
            /\ (e.op = "chello" /\ Ans(e) = "HELLO") =>
                LET x == Setup(L, e.h)
                IN e.r.f.realm = x.realm /\ e.r.f.m = x.m /\ e.r.f.authid = x.authid /\ e.r.f.extra = x.extra
            /\ (e.op = "cchallenge" /\ Ans(e) = "AUTHENTICATE") => e.r.f.valid
       /\ (e.op = "pair" /\ e.right) => Welcomed(L, n, e.hs) # {} /\ Joined(L, n, e.h)

RolesRight(g, f, names) == f.roles = g.roles /\ (g.usual => f.names = names)
Denied(L, n) ==
    LET e == L[n]
    IN /\ WithAuth(L, e.h) /\ e.op \in {"hello", "authenticate"} /\ e.ans.k = "reject"
       /\ IF e.op = "hello" THEN Fresh(L, n, e.h) /\ e.form = "ok" /\ DecidedAtHello(e)
          ELSE Waits(L, n, e.h) /\ L[Asked(L, n, e.h)].m = "ticket"
NotProven(L, n) ==
    LET e == L[n] IN e.op = "authenticate" /\ Waits(L, n, e.h) /\ L[Asked(L, n, e.h)].m # "ticket"

Uris ==
    {<<"INVALID_ARGUMENT", "=wamp.error.invalid_argument">>, <<"INVALID_URI", "=wamp.error.invalid_uri">>,
     <<"PROCEDURE_ALREADY_EXISTS", "=wamp.error.procedure_already_exists">>,
     <<"AUTHENTICATION_FAILED", "=wamp.error.authentication_failed">>, <<"CLOSE_REALM", "=wamp.close.close_realm">>}

P30(L) ==
    LET n == Len(L)  e == Latest(L)
    IN /\ e.op = "named" => <<e.n, e.r.v>> \in Uris
       /\ (AtServer(e) /\ Ans(e) = "WELCOME") =>
            \A j \in 1..n-1 : (L[j].op = "new" /\ L[j].h = e.h) => RolesRight(L[j], e.r.f, "broker,dealer")
       /\ (AtServer(e) /\ (Denied(L, n) \/ (NotProven(L, n) /\ e.proof.form = "ok" /\ KeyOf(L[Asked(L, n, e.h)]) # Absent /\ ~(RightKey(L, n) /\ RightChal(L, n))))) => Ans(e) = "ABORT"
       /\ (AtServer(e) /\ Ans(e) = "ABORT") =>
            /\ (Denied(L, n) \/ NotProven(L, n)) => e.r.f.reason = "=wamp.error.authentication_failed"
            /\ Denied(L, n) => e.r.f.a = e.ans.why
       /\ (e.op = "chello" /\ Ans(e) = "HELLO") => RolesRight(e, e.r.f, "callee,caller,publisher,subscriber")

Broke(L) ==
    If(~P18(L), {"C18"}) \cup If(~P19(L), {"C19"}) \cup If(~P20(L), {"C20"}) \cup If(~P21(L), {"C21"})
    \cup If(~P22(L), {"C22"}) \cup If(~P23(L), {"C23"}) \cup If(~P24(L), {"C24"}) \cup If(~P30(L), {"C30"})
=============================================================================
