----------------------------- MODULE MCHandshake -----------------------------
(* Handshakes with small constants: every reachable state and every message   *)
(* in it, including proofs taken from other handshakes.                       *)
EXTENDS Handshake, HandshakeProps, Json, TLCExt

CONSTANTS Srv, Cli, Keys, CMethods, MaxHello

VARIABLES y, log, hellos
vars == <<y, log, hellos>>

ChalName == "c" \o ToString(Cardinality(y.issued) + 1)
SidName(h) == "s" \o h

Full(e) ==
    LET x == y.srv[e.h]
        al == Allowed(x, e)
        \* where two answers are right, the library's
        kd == IF e.op = "abort" THEN (IF "ok" \in al THEN "ok" ELSE "refused")
              ELSE IF e.op = "hello" /\ e.form # "ok" /\ "CHALLENGE" \in al THEN "refused"
              ELSE IF "ABORT" \in al THEN "ABORT" ELSE CHOOSE k \in al : TRUE
        f == CASE kd = "CHALLENGE" ->
                    [m |-> e.m, chal |-> IF e.m = "ticket" THEN Absent ELSE ChalName,
                     nonce |-> IF e.m = "ticket" THEN Absent ELSE "n" \o ChalName,
                     sid |-> IF e.m = "wampcra" THEN SidName(e.h) ELSE Absent,
                     authid |-> IF e.m = "wampcra" THEN e.ans.authid ELSE Absent,
                     authrole |-> IF e.m = "wampcra" THEN e.ans.authrole ELSE Absent]
               [] kd = "WELCOME" -> [sid |-> SidName(e.h), authid |-> Grant(x, e).authid, authrole |-> Grant(x, e).authrole,
                                  roles |-> x.roles, names |-> ServerRoles]
               [] kd = "ABORT" -> [reason |-> Failed, a |-> IF e.op = "hello" \/ x.m = "ticket" THEN e.ans.why ELSE Absent]
               [] OTHER -> NoFn
        r0 == IF kd \in {"refused", "ok"} THEN [k |-> kd] ELSE [k |-> "msg", t |-> kd, f |-> f]
        z == SAfter(x, e, r0)
    IN r0 @@ [fin |-> IF kd = "refused" THEN "-" ELSE IF kd = "CHALLENGE" THEN "F" ELSE "T", ab |-> z.st = "aborted", det |-> z.det]

CFull(e) ==
    LET x == y.cli[e.h]
        kd == CHOOSE k \in CAllowed(x, e) : TRUE
        f == CASE kd = "HELLO" -> [realm |-> x.realm, m |-> x.m, authid |-> x.authid, extra |-> x.extra, roles |-> e.roles, names |-> ClientRoles]
               [] kd = "AUTHENTICATE" -> [valid |-> TRUE]
               [] kd = "app" -> [reason |-> e.reason, a |-> e.a, k |-> e.k]
               [] OTHER -> NoFn
        r0 == IF kd \in {"HELLO", "AUTHENTICATE"} THEN [k |-> "msg", t |-> kd, f |-> f]
              ELSE IF kd = "app" THEN [k |-> kd, f |-> f] ELSE [k |-> kd]
    IN r0 @@ [det |-> CAfter(x, e, r0).det]

Step(e, r) == y' = After(y, e, r) /\ log' = Append(log, e @@ [r |-> r])
Server(e) == Step(e, Full(e)) /\ UNCHANGED hellos
Client(e) == Step(e, CFull(e))

NewSrv(h) == h \notin DOMAIN y.srv /\ \E auth \in BOOLEAN :
    Step([op |-> "new", h |-> h, auth |-> auth, usual |-> auth = (h = "1"), roles |-> IF auth = (h = "1") THEN "U" ELSE "R1"], Ok)
Given(k) == [k |-> k, authid |-> "A", authrole |-> "G", secret |-> "k1", why |-> IF k = "reject" THEN "w" ELSE Absent]
Saw(ask, k) == <<[q |-> ask, k |-> k]>>
Hello(h) ==
    \E m \in Methods \cup {"?"}, form \in {"ok", "bad"}, k \in {"approve", "reject", "wrong"}, key \in Keys :
        /\ (form = "bad" => m = "cryptosign" /\ k = "approve") /\ (k = "wrong" => m = "wampcra")
        /\ (m \in {"?", "ticket"} => k = "approve") /\ (key # "k1" => m = "cryptosign" /\ form = "ok" /\ k = "approve")
        /\ Server([op |-> "hello", h |-> h, m |-> m, realm |-> "R", key |-> key, form |-> form, ask |-> "q" \o m, ans |-> Given(k),
                   saw |-> IF m \in {"?", "ticket"} \/ form # "ok" \/ y.srv[h].st # "none" \/ ~y.srv[h].auth
                           THEN <<>> ELSE Saw("q" \o m, k)])
Authenticate(h) ==
    \E form \in {"ok", "bad"}, key \in Keys, chal \in y.issued \cup {"c0"}, k \in {"approve", "reject"} :
        /\ (form = "bad" => key = "k1" /\ chal = "c0" /\ k = "approve")
        /\ (k = "reject" => form = "ok" /\ key = "k1" /\ chal = "c0")
        /\ Server([op |-> "authenticate", h |-> h, proof |-> [form |-> form, key |-> key, chal |-> chal], ask |-> "qt", ans |-> Given(k),
                   saw |-> IF y.srv[h].st = "challenged" /\ y.srv[h].m = "ticket" THEN Saw("qt", k) ELSE <<>>])
AtSrv(h) ==
    \/ Hello(h) \/ Authenticate(h)
    \/ Server([op |-> "abort", h |-> h]) \/ Server([op |-> "other", h |-> h, t |-> "WELCOME"]) \/ Server([op |-> "garbage", h |-> h])

CNew(h) ==
    /\ h \notin DOMAIN y.cli
    /\ \E m \in CMethods : Step([op |-> "cnew", h |-> h, m |-> m, realm |-> "R", authid |-> "A", extra |-> "x"], Ok)
AtCli(h) ==
    \/ hellos < MaxHello /\ hellos' = hellos + 1 /\ \E roles \in {"U", "R1"} : Client([op |-> "chello", h |-> h, bad |-> FALSE, roles |-> roles, usual |-> roles = "U"])
    \/ /\ UNCHANGED hellos
       /\ \/ Client([op |-> "chello", h |-> h, bad |-> TRUE, roles |-> "U", usual |-> TRUE])
          \/ \E form \in {"ok", "bad"} :
                (y.cli[h].m = "anonymous" => form = "bad") /\ Client([op |-> "cchallenge", h |-> h, form |-> form])
          \/ \E i \in {"1", "2"} : Client([op |-> "cwelcome", h |-> h, sid |-> "s" \o i, authid |-> "A" \o i, authrole |-> "G"])
          \/ Client([op |-> "cabort", h |-> h, reason |-> "u", a |-> "x", k |-> "z"])
          \/ Client([op |-> "cother", h |-> h, t |-> "HELLO"])
          \/ Client([op |-> "cgarbage", h |-> h])

Init == y = AllInit /\ log = <<>> /\ hellos = 0
Next ==
    \/ \E h \in Srv : (NewSrv(h) /\ UNCHANGED hellos) \/ (h \in DOMAIN y.srv /\ AtSrv(h))
    \/ \E h \in Cli : (CNew(h) /\ UNCHANGED hellos) \/ (h \in DOMAIN y.cli /\ AtCli(h))
Spec == Init /\ [][Next]_vars

View == <<y, hellos>>

\* no session without approval and, for cryptosign and wampcra, without the proof for this very challenge
Justified ==
    \A h \in DOMAIN y.srv :
        (y.srv[h].st = "welcomed" /\ y.srv[h].auth) =>
            \E j \in Of(log, Len(log), h) :
                /\ Ans(log[j]) = "WELCOME"
                /\ \/ log[j].op = "hello" /\ log[j].ans.k = "approve"
                   \/ y.srv[h].m = "ticket" /\ log[j].ans.k = "approve"
                   \/ log[j].proof = [form |-> "ok", key |-> y.srv[h].key, chal |-> y.srv[h].chal]
States ==
    /\ \A h \in DOMAIN y.srv :
        /\ (y.srv[h].st = "aborted") <=> GaveUp(log, Len(log), h) # {}
        /\ (y.srv[h].st = "welcomed") <=> Welcomed(log, Len(log), h) # {}
        /\ (y.srv[h].st = "challenged") <=> Challenged(log, Len(log), h) # {} /\ Over(log, Len(log), h) = {}
    /\ \A h \in DOMAIN y.cli :
        /\ (y.cli[h].st = "joined") <=> Joined(log, Len(log), h)
        /\ (y.cli[h].st \in {"hello", "auth"}) <=> Hoping(log, Len(log), h)
\* one challenge is issued in at most one handshake
OwnChallenge ==
    \A g, h \in DOMAIN y.srv : (g # h /\ y.srv[g].chal # Absent) => y.srv[g].chal # y.srv[h].chal
\* nothing leads out of the two final states
Ends == [][\A h \in DOMAIN y.srv : y.srv[h].st \in {"welcomed", "aborted"} => y'.srv[h].st = y.srv[h].st]_vars

C18 == [][P18(log')]_vars
C19 == [][P19(log')]_vars
C20 == [][P20(log')]_vars
C21 == [][P21(log')]_vars
C22 == [][P22(log')]_vars
C23 == [][P23(log')]_vars
C24 == [][P24(log')]_vars
C30 == [][P30(log')]_vars

(* The verdict on real executions is complete and the properties blamed for a *)
(* wrong reply are the broken ones: over all replies there could be, Judge    *)
(* objects exactly when one of the properties is broken.                      *)
SReplies(e, r) ==
    LET dets == {NoDet, r.det} \cup {[sid |-> SidName(e.h), realm |-> q, authid |-> a, authrole |-> "G"] : q \in {"R", "Q"}, a \in {"A", "B"}}
        flags == {[fin |-> fin, ab |-> ab, det |-> det] : fin \in {"-", "T", "F"}, ab \in BOOLEAN, det \in dets}
        kinds == {[k |-> "refused"], [k |-> "ok"], [k |-> "hang"]}
                 \cup {[k |-> "msg", t |-> "WELCOME", f |-> [sid |-> i, authid |-> a, authrole |-> "G", roles |-> q, names |-> nn]] :
                           i \in {SidName(e.h), "s0"}, a \in {"A", "B"}, q \in {"U", "R1"}, nn \in {ServerRoles, "dealer"}}
                 \cup {[k |-> "msg", t |-> "ABORT", f |-> [reason |-> u, a |-> a]] : u \in {Failed, "=x"}, a \in {Absent, "w"}}
                 \cup (IF e.op # "hello" THEN {} ELSE
                       {[k |-> "msg", t |-> "CHALLENGE", f |-> [m |-> m, chal |-> c, nonce |-> nn, sid |-> SidName(e.h), authid |-> a, authrole |-> "G"]] :
                         m \in {e.m, "zz"}, c \in y.issued \cup {ChalName}, nn \in y.nonces \cup {"n" \o ChalName}, a \in {"A", "B"}})
    IN {x @@ [fin |-> r.fin, ab |-> r.ab, det |-> r.det] : x \in kinds} \cup {r} \cup
       {[z \in DOMAIN r |-> IF z \in DOMAIN x THEN x[z] ELSE r[z]] : x \in flags}
CReplies(e, r) ==
    LET dets == {NoDet, r.det, [sid |-> "s1", realm |-> "Q", authid |-> "A1", authrole |-> "G"]}
        kinds == {[k |-> "refused"], [k |-> "ok"], [k |-> "hang"]}
                 \cup (IF e.op = "cabort" THEN {[k |-> "app", f |-> [reason |-> u, a |-> a, k |-> "z"]] : u \in {"u", "v"}, a \in {"x", "w"}} ELSE {})
                 \cup {[k |-> "msg", t |-> "AUTHENTICATE", f |-> [valid |-> b]] : b \in BOOLEAN}
                 \cup {[k |-> "msg", t |-> "HELLO", f |-> [realm |-> q, m |-> y.cli[e.h].m, authid |-> "A", extra |-> "x", roles |-> z, names |-> nn]] :
                        q \in {"R", "Q"}, z \in {"U", "R1"}, nn \in {ClientRoles, "caller"}}
    IN {x @@ [det |-> d] : x \in kinds, d \in dets}
VerdictRight ==
    [][LET n == Len(log')
           e == log'[n]
       IN (IsServer(e) \/ IsClient(e)) =>
          \A w \in (IF IsServer(e) THEN SReplies(e, e.r) ELSE CReplies(e, e.r)) :
            LET e2 == [e EXCEPT !.r = w]
                b == Broke(Append(log, e2))
                j == Judge(y, e2)
            IN ((b # {}) <=> (j # {})) \/ (PrintT(<<"MM", e.op, Want(y, e), w, e.r, b, j>>) /\ FALSE)]_vars

Emit == PrintT("E " \o ToJson(<<TLCFP(View), log'[Len(log')], TLCFP(View')>>))
=============================================================================
