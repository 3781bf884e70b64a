------------------------------- MODULE Dealer -------------------------------
(* The dealer: registrations and remote procedure calls.                      *)
(*                                                                            *)
(* Events                                                                     *)
(*   attach, detach     s                                                     *)
(*   hasreg             proc                                                  *)
(*   register           s, req, proc                                          *)
(*   unregister         s, req, reg                                           *)
(*   call               s, req, proc, a, k, p, rp, pg                         *)
(*   yield              s, inv, a, k, p, pg                                   *)
(*   error              s, mt, inv, uri, a, k, det                            *)
(*   other              s, t            a message a dealer does not handle    *)
(* a, k, p are arguments, keyword arguments and opaque payload; rp and pg are *)
(* receive_progress and progress; mt is the type of the message an ERROR is   *)
(* about.                                                                     *)
(*                                                                            *)
(* Want says what must come back, After what the dealer is then, Judge in     *)
(* what an observed reply is wrong.                                           *)
EXTENDS Wamp

(* att    attached sessions                                                   *)
(* regs   procedure -> its registration                                       *)
(* calls  invocation -> the call it stands for, while it can be answered      *)
(* ureg, uinv   registration and invocation ids handed out so far             *)
DealerInit == [att |-> {}, regs |-> NoFn, calls |-> NoFn, ureg |-> {}, uinv |-> {}]

-----------------------------------------------------------------------------

Owned(d, p) == p \in DOMAIN d.regs
OwnedBy(d, s, reg) == {p \in DOMAIN d.regs : d.regs[p].id = reg /\ d.regs[p].owner = s}

\* the call of s under request id req that waits for further parts (at most one)
Open(d, s, req) == {i \in DOMAIN d.calls : d.calls[i].caller = s /\ d.calls[i].req = req /\ d.calls[i].open}

\* the invocation that a CALL continues (at most one)
Continued(d, e) ==
    {i \in Open(d, e.s, e.req) : Owned(d, e.proc) /\ d.regs[e.proc].id = d.calls[i].reg}

Answerable(d, s, i) == i \in DOMAIN d.calls /\ d.calls[i].callee = s

\* WAMP lets a caller reuse a request id only for another part of the same progressive call
InScope(d, e) ==
    e.op = "call" =>
        \A i \in Open(d, e.s, e.req) : d.calls[i].proc = e.proc /\ d.calls[i].rp = e.rp

-----------------------------------------------------------------------------

Want(d, e) ==
    CASE e.op = "attach" -> IF e.s \in d.att THEN Refused ELSE Ok
      [] e.op = "detach" -> IF e.s \in d.att THEN Ok ELSE Refused
      [] e.op = "hasreg" -> Bool(Owned(d, e.proc))
      [] e.op = "register" ->
            IF e.s \notin d.att THEN Refused
            ELSE IF Owned(d, e.proc)
                 THEN Msg("ERROR", e.s, [mt |-> "REGISTER", req |-> e.req, uri |-> "wamp.error.procedure_already_exists"], "")
                 ELSE Msg("REGISTERED", e.s, [req |-> e.req], "reg")
      [] e.op = "unregister" ->
            IF e.s \notin d.att \/ OwnedBy(d, e.s, e.reg) = {} THEN Refused
            ELSE Msg("UNREGISTERED", e.s, [req |-> e.req], "")
      [] e.op = "call" ->
            IF e.s \notin d.att THEN Refused
            ELSE IF ~Owned(d, e.proc)
                 THEN Msg("ERROR", e.s, [mt |-> "CALL", req |-> e.req, uri |-> "wamp.error.no_such_procedure"], "")
            ELSE LET g == d.regs[e.proc]
                     f == [reg |-> g.id, a |-> e.a, k |-> e.k, p |-> e.p, rp |-> e.rp, pg |-> e.pg]
                     c == Continued(d, e)
                 IN IF c = {} THEN Msg("INVOCATION", g.owner, f, "inv")
                    ELSE Msg("INVOCATION", g.owner, Put(f, "id", CHOOSE i \in c : TRUE), "")
      [] e.op = "yield" ->
            IF ~Answerable(d, e.s, e.inv) THEN Refused
            ELSE LET c == d.calls[e.inv]
                 IN Msg("RESULT", c.caller, [req |-> c.req, a |-> e.a, k |-> e.k, p |-> e.p, pg |-> e.pg /\ c.rp], "")
      [] e.op = "error" ->
            IF e.mt # "INVOCATION" \/ ~Answerable(d, e.s, e.inv) THEN Refused
            ELSE LET c == d.calls[e.inv]
                 IN Msg("ERROR", c.caller,
                        [mt |-> "CALL", req |-> c.req, uri |-> e.uri, a |-> e.a, k |-> e.k, det |-> e.det], "")
      [] OTHER -> Refused

-----------------------------------------------------------------------------

Forget(d, is) == [d EXCEPT !.calls = Drop(@, is)]

Detach(d, s) ==
    LET mine == {p \in DOMAIN d.regs : d.regs[p].owner = s}
        lost == {i \in DOMAIN d.calls : s \in {d.calls[i].caller, d.calls[i].callee}}
    IN [Forget(d, lost) EXCEPT !.att = @ \ {s}, !.regs = Drop(@, mine)]

Register(d, e, id) ==
    [d EXCEPT !.regs = Put(@, e.proc, [id |-> id, owner |-> e.s]), !.ureg = @ \cup {id}]

Unregister(d, e) == [d EXCEPT !.regs = Drop(@, OwnedBy(d, e.s, e.reg))]

Call(d, e, id) ==
    LET c == Continued(d, e)
        b == Forget(d, Open(d, e.s, e.req) \ c)  \* the rest of such a call cannot reach its callee any more
    IN IF ~Owned(d, e.proc) THEN b
       ELSE IF c # {} THEN [b EXCEPT !.calls[CHOOSE x \in c : TRUE].open = e.pg]
       ELSE [b EXCEPT !.calls = Put(@, id, [caller |-> e.s, callee |-> d.regs[e.proc].owner, req |-> e.req,
                                            reg |-> d.regs[e.proc].id, proc |-> e.proc, open |-> e.pg, rp |-> e.rp]),
                      !.uinv = @ \cup {id}]

\* r is the reply as observed (or as the model makes it); only the id it hands out matters here
After(d, e, r) ==
    LET w == Want(d, e)
    IN IF w.k = "refused" THEN d  \* a refused request changes nothing
       ELSE CASE e.op = "attach" -> [d EXCEPT !.att = @ \cup {e.s}]
              [] e.op = "detach" -> Detach(d, e.s)
              [] e.op = "register" -> IF w.t = "ERROR" THEN d ELSE Register(d, e, r.f.id)
              [] e.op = "unregister" -> Unregister(d, e)
              [] e.op = "call" -> Call(d, e, IF New(w) = "inv" THEN r.f.id ELSE "")
              [] e.op = "yield" -> IF w.f.pg THEN d ELSE Forget(d, {e.inv})
              [] e.op = "error" -> Forget(d, {e.inv})
              [] OTHER -> d

Used(d, new) == IF new = "reg" THEN d.ureg ELSE IF new = "inv" THEN d.uinv ELSE {}

\* the clauses in which an observed event differs from what the dealer must do: {} if it is right
Judge(d, e) == LET w == Want(d, e) IN Clauses(w, e.r, Used(d, New(w)))
=============================================================================
