------------------------------ MODULE Handshake ------------------------------
(* The opening handshake, seen from the server (the acceptor) and from the    *)
(* client (the joiner).  Several handshakes take place at the same time; h    *)
(* says which one an event belongs to.                                        *)
(*                                                                            *)
(* Events at the server                                                       *)
(*   new           auth, roles, usual    is an authenticator configured, and  *)
(*                                       what is the server to announce (the  *)
(*                                       usual: because it was not told)?     *)
(*   hello         m, realm, key, form, ask, ans, saw                         *)
(*   authenticate  proof, ask, ans, saw                                       *)
(*   abort                                                                    *)
(*   other t, garbage                    another message, undecodable data    *)
(* m is the method asked for first, key the announced public key, form is     *)
(* "ok" unless the HELLO lacks a usable key where one is needed.  ask is the  *)
(* request that the authenticator has to be asked, ans its answer to that     *)
(* (ans.k is "approve" or something else; authid, authrole and secret are     *)
(* what it grants, why is what its error says) and saw are the requests that it was in fact asked, each   *)
(* with its answer.  A proof says with which key it was made over which       *)
(* challenge; its form is "ok" unless it is no proof at all.  A CHALLENGE has  *)
(* its text (chal) and the random part of it (nonce).                         *)
(*                                                                            *)
(* Events at the client                                                       *)
(*   cnew        m, realm, authid, extra                                      *)
(*   chello      bad, roles, usual       is asked for its HELLO               *)
(*   cchallenge  form                                                         *)
(*   cwelcome    sid, authid, authrole                                        *)
(*   cabort      reason, a, k                                                 *)
(*   cother t, cgarbage                                                       *)
(*   compare     one, two                the details at two ends, with ==     *)
(*   pair        hs, right               the end of an exchange with server   *)
(*                                       handshake hs; right says that the    *)
(*                                       client has the right credentials     *)
(* Replies also say whether the server reported the handshake as final (fin)  *)
(* and as aborted (ab), and the session details afterwards (det).             *)
EXTENDS Wamp

Methods == {"anonymous", "ticket", "wampcra", "cryptosign"}
NoDet == [sid |-> Absent, realm |-> Absent, authid |-> Absent, authrole |-> Absent]
Failed == "=wamp.error.authentication_failed"
ServerRoles == "broker,dealer"
ClientRoles == "callee,caller,publisher,subscriber"
\* roles are announced as given; if none are, always the same usual ones
Announced(roles, usual, f, names) == f.roles = roles /\ (usual => f.names = names)
NoGrant == [authid |-> "=anonymous", authrole |-> "=anonymous", secret |-> Absent]
Kind(r) == IF r.k = "msg" THEN r.t ELSE r.k

-----------------------------------------------------------------------------
(* The server *)

ServerInit(e) ==
    [auth |-> e.auth, roles |-> e.roles, usual |-> e.usual, st |-> "none", m |-> Absent, realm |-> Absent, ask |-> Absent, key |-> Absent, grant |-> NoGrant,
     chal |-> Absent, sid |-> Absent, approved |-> {}, det |-> NoDet]

ProofRight(x, e) == e.proof.form = "ok" /\ e.proof.key = x.key /\ e.proof.chal = x.chal

\* the kinds of reply that are right
Allowed(x, e) ==
    CASE x.st = "welcomed" -> {"refused"}
      [] e.op = "hello" ->
            IF x.st # "none" THEN {"refused"}
            ELSE IF ~x.auth THEN {"WELCOME"}
            ELSE IF e.m \notin Methods THEN {"refused"}
            ELSE IF e.m = "ticket" THEN {"CHALLENGE"}
            ELSE IF e.form # "ok" THEN {"refused", "ABORT", "CHALLENGE"}
            ELSE IF e.ans.k = "reject" THEN {"ABORT"}
            ELSE IF e.ans.k # "approve" THEN {"refused", "ABORT"}
            ELSE IF e.m = "anonymous" THEN {"WELCOME"} ELSE {"CHALLENGE"}
      [] e.op = "authenticate" ->
            IF x.st # "challenged" THEN {"refused"}
            ELSE IF x.m = "ticket" THEN (IF e.ans.k = "approve" THEN {"WELCOME"} ELSE IF e.ans.k = "reject" THEN {"ABORT"} ELSE {"refused", "ABORT"})
            ELSE IF ProofRight(x, e) THEN {"WELCOME"}
            ELSE IF e.proof.form = "ok" /\ x.key # Absent THEN {"ABORT"}  \* a proof for another challenge, or by another key
            ELSE {"refused", "ABORT"}
      [] e.op = "abort" -> IF x.st = "aborted" THEN {"ok", "refused"} ELSE {"ok"}
      [] OTHER -> {"refused"}

Consulted(x, e) ==
    IF e.op \in {"hello", "authenticate"}
    THEN [x EXCEPT !.approved = @ \cup {e.saw[i].q : i \in {i \in DOMAIN e.saw : e.saw[i].k = "approve"}}]
    ELSE x

\* what is granted, and by which request, if this event ends in WELCOME
Grant(x, e) == IF ~x.auth THEN NoGrant ELSE IF e.op = "hello" \/ x.m = "ticket" THEN e.ans ELSE x.grant
Needed(x, e) == IF e.op = "hello" \/ x.m = "ticket" THEN e.ask ELSE x.ask

\* an ABORT that is due to the authenticator, or to a wrong proof
TellsWhy(x, e) ==
    IF ~x.auth \/ e.op \notin {"hello", "authenticate"} THEN ""
    ELSE IF e.op = "hello"
    THEN (IF x.st = "none" /\ e.m \in {"anonymous", "wampcra", "cryptosign"} /\ e.form = "ok" /\ e.ans.k = "reject" THEN "denied" ELSE "")
    ELSE IF x.m = "ticket" THEN (IF e.ans.k = "reject" THEN "denied" ELSE "") ELSE "proof"

SAfter(x0, e, r) ==
    LET x == Consulted(x0, e)
    IN CASE Kind(r) = "CHALLENGE" ->
              [x EXCEPT !.st = "challenged", !.m = e.m, !.realm = e.realm, !.ask = e.ask, !.grant = e.ans,
                        !.key = IF e.m = "wampcra" THEN e.ans.secret ELSE e.key,
                        !.chal = r.f.chal, !.sid = r.f.sid]
         [] Kind(r) = "WELCOME" ->
              [x EXCEPT !.st = "welcomed",
                        !.det = [sid |-> r.f.sid, realm |-> IF e.op = "hello" THEN e.realm ELSE x.realm,
                                 authid |-> Grant(x, e).authid, authrole |-> Grant(x, e).authrole]]
         [] Kind(r) \in {"ABORT", "ok"} -> [x EXCEPT !.st = "aborted"]
         [] OTHER -> x

\* the clauses in which an observed event is wrong; issued and nonces are the challenges seen before
SJudge(x0, e, issued, nonces) ==
    LET x == Consulted(x0, e)
        r == e.r
        kd == Kind(r)
    IN IF kd \notin Allowed(x, e) THEN {"kind"}
       ELSE LET y == SAfter(x0, e, r)
            IN (IF kd # "CHALLENGE" THEN {}
                ELSE If(r.f.m # e.m, {"method"})
                     \cup If(e.m \in {"wampcra", "cryptosign"} /\ (r.f.chal \in issued \/ r.f.nonce \in nonces), {"fresh"})
                     \cup If(e.m = "wampcra" /\ (r.f.authid # e.ans.authid \/ r.f.authrole # e.ans.authrole), {"names"}))
               \cup (IF kd # "WELCOME" THEN {}
                     ELSE If(x.auth /\ Needed(x, e) \notin x.approved, {"approved"})
                          \cup If(r.f.authid # y.det.authid \/ r.f.authrole # y.det.authrole, {"granted"})
                          \cup If(x.st = "challenged" /\ x.m = "wampcra" /\ r.f.sid # x.sid, {"sid"}))
               \cup If(kd = "WELCOME" /\ ~Announced(x.roles, x.usual, r.f, ServerRoles), {"roles"})
               \cup (IF kd # "ABORT" THEN {}
                     ELSE If(TellsWhy(x, e) # "" /\ r.f.reason # Failed, {"reason"})
                          \cup If(TellsWhy(x, e) = "denied" /\ e.ans.why # r.f.a, {"why"}))
               \cup If(r.fin # "-" /\ r.fin # (IF kd \in {"WELCOME", "ABORT", "ok"} THEN "T" ELSE "F"), {"final"})
               \cup If(r.ab # (y.st = "aborted"), {"aborted"})
               \cup If(r.det # y.det, {"details"})

-----------------------------------------------------------------------------
(* The client *)

ClientInit(e) ==
    [m |-> e.m, realm |-> e.realm, authid |-> e.authid, extra |-> e.extra, st |-> "none", det |-> NoDet, old |-> FALSE]

CAllowed(x, e) ==
    CASE e.op = "chello" -> IF e.bad THEN {"refused"} ELSE {"HELLO"}
      [] e.op = "cchallenge" -> IF x.st = "hello" /\ e.form = "ok" THEN {"AUTHENTICATE"} ELSE {"refused"}
      [] e.op = "cwelcome" -> IF x.st \in {"hello", "auth"} THEN {"ok"} ELSE {"refused"}
      [] e.op = "cabort" -> {"app"}
      [] OTHER -> {"refused"}

\* old: joined before, and a new handshake was begun or an ABORT came; they may be forgotten then
CAfter(x, e, r) ==
    CASE Kind(r) = "HELLO" -> [x EXCEPT !.st = "hello", !.old = @ \/ x.st = "joined"]
      [] Kind(r) = "AUTHENTICATE" -> [x EXCEPT !.st = "auth"]
      [] Kind(r) = "ok" -> [x EXCEPT !.st = "joined", !.old = FALSE,
                                     !.det = [sid |-> e.sid, realm |-> x.realm, authid |-> e.authid, authrole |-> e.authrole]]
      [] Kind(r) = "app" -> [x EXCEPT !.st = "aborted", !.old = @ \/ x.st = "joined"]
      [] OTHER -> x

CJudge(x, e) ==
    LET r == e.r
        kd == Kind(r)
    IN IF kd \notin CAllowed(x, e) THEN {"kind"}
       ELSE LET y == CAfter(x, e, r)
            IN (IF kd # "HELLO" THEN {}
                ELSE If(r.f.realm # x.realm, {"realm"}) \cup If(r.f.m # x.m, {"method"})
                     \cup If(r.f.authid # x.authid, {"authid"}) \cup If(r.f.extra # x.extra, {"extra"})
                     \cup If(~Announced(e.roles, e.usual, r.f, ClientRoles), {"roles"}))
               \cup If(kd = "AUTHENTICATE" /\ ~r.f.valid, {"proof"})
               \cup (IF kd # "app" THEN {}
                     ELSE If(r.f.reason # e.reason, {"reason"}) \cup If(r.f.a # e.a, {"a"}) \cup If(r.f.k # e.k, {"k"}))
               \cup If(r.det # y.det /\ ~(y.old /\ r.det = NoDet), {"details"})

-----------------------------------------------------------------------------
(* All handshakes *)

AllInit == [srv |-> NoFn, cli |-> NoFn, issued |-> {}, nonces |-> {}]

IsServer(e) == e.op \in {"hello", "authenticate", "abort", "other", "garbage"}
IsClient(e) == e.op \in {"chello", "cchallenge", "cwelcome", "cabort", "cother", "cgarbage"}

After(y, e, r) ==
    CASE e.op = "new" -> [y EXCEPT !.srv = Put(@, e.h, ServerInit(e))]
      [] e.op = "cnew" -> [y EXCEPT !.cli = Put(@, e.h, ClientInit(e))]
      [] IsServer(e) -> [y EXCEPT !.srv[e.h] = SAfter(@, e, r),
                                  !.issued = IF Kind(r) = "CHALLENGE" /\ r.f.chal # Absent THEN @ \cup {r.f.chal} ELSE @,
                                  !.nonces = IF Kind(r) = "CHALLENGE" /\ r.f.chal # Absent THEN @ \cup {r.f.nonce} ELSE @]
      [] IsClient(e) -> [y EXCEPT !.cli[e.h] = CAfter(@, e, r)]
      [] OTHER -> y

\* the details at an end: at is "s" or "c", h the handshake
DetAt(y, w) == IF w.at = "s" THEN y.srv[w.h].det ELSE y.cli[w.h].det
Settled(y, w) == DetAt(y, w) # NoDet /\ (w.at = "c" => ~y.cli[w.h].old)
YesNo(b) == IF b THEN "T" ELSE "F"

\* with the right credentials both ends reach the same session
Together(y, e) == y.srv[e.hs].st = "welcomed" /\ y.cli[e.h].st = "joined"

\* the URIs that the library names for applications
UriNamed(n) ==
    CASE n = "INVALID_ARGUMENT" -> "=wamp.error.invalid_argument"
      [] n = "INVALID_URI" -> "=wamp.error.invalid_uri"
      [] n = "PROCEDURE_ALREADY_EXISTS" -> "=wamp.error.procedure_already_exists"
      [] n = "AUTHENTICATION_FAILED" -> "=wamp.error.authentication_failed"
      [] n = "CLOSE_REALM" -> "=wamp.close.close_realm"

Judge(y, e) ==
    CASE IsServer(e) -> SJudge(y.srv[e.h], e, y.issued, y.nonces)
      [] IsClient(e) -> CJudge(y.cli[e.h], e)
      [] e.op = "compare" ->
            If(Settled(y, e.one) /\ Settled(y, e.two) /\ e.r.same # YesNo(DetAt(y, e.one) = DetAt(y, e.two)), {"same"})
      [] e.op = "pair" ->
            If(e.right /\ ~Together(y, e), {"joined"})
            \cup If(Together(y, e) /\ y.srv[e.hs].det # y.cli[e.h].det, {"differ"})
      [] e.op = "named" -> If(e.r.v # UriNamed(e.n), {"uri"})
      [] e.op = "crowd" -> If(e.r.whole # e.r.n \/ e.r.part # e.r.n, {"fresh"})
      [] OTHER -> {}
Want(y, e) ==
    CASE IsServer(e) -> [k |-> "one of", of |-> Allowed(y.srv[e.h], e), was |-> y.srv[e.h].st]
      [] IsClient(e) -> [k |-> "one of", of |-> CAllowed(y.cli[e.h], e), was |-> y.cli[e.h].st]
      [] OTHER -> [k |-> e.op]
=============================================================================
