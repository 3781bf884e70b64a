-------------------------------- MODULE Wamp --------------------------------
(* Vocabulary shared by all modules.                                          *)
(*                                                                            *)
(* Sessions, procedures, topics, URIs, request ids and handed-out ids are     *)
(* strings: only their identity matters, and ids go up to 2^53 while TLC      *)
(* integers have 32 bits.  Where the size of an id matters it is also given   *)
(* as <<hi, lo>> with value hi * 2^27 + lo.  Application values (arguments,   *)
(* keyword arguments, payloads, details) are strings too: the harness gives   *)
(* equal values (equal also in type) equal names, and "~" to an absent one.   *)
(*                                                                            *)
(* An event is what a user of the library does to an object (attach a         *)
(* session, hand in a message); its field r is what came back.  A reply is    *)
(*    [k |-> "refused"]                    an exception was raised            *)
(*    [k |-> "ok"]                         returned without a message         *)
(*    [k |-> "bool", v |-> b]              a query was answered               *)
(*    [k |-> "msg", t |-> type, to |-> session, f |-> fields]                 *)
(* and the harness uses other kinds (for instance "hang") for anything else.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Absent == "~"

NoFn == [x \in {} |-> x]
Put(f, key, v) == (key :> v) @@ f
Drop(f, keys) == [x \in DOMAIN f \ keys |-> f[x]]
Range(f) == {f[x] : x \in DOMAIN f}
If(b, s) == IF b THEN s ELSE {}

Refused == [k |-> "refused"]
Ok == [k |-> "ok"]
Bool(b) == [k |-> "bool", v |-> b]
\* new names the id that the reply hands out: "" (none) or a class of ids
Msg(t, to, f, new) == [k |-> "msg", t |-> t, to |-> to, f |-> f, new |-> new]

New(w) == IF w.k = "msg" THEN w.new ELSE ""

Limb == 134217728  \* 2^27
IdMax == <<67108864, 0>>  \* 2^53
ValidId(n) ==
    /\ n[1] >= 0 /\ n[2] >= 0 /\ n[2] < Limb
    /\ n # <<0, 0>>
    /\ n[1] < IdMax[1] \/ n = IdMax

(* The clauses in which reply r differs from the wanted reply w.  used is the *)
(* set of ids of the class w.new that were handed out before.                 *)
Clauses(w, r, used) ==
    IF r.k # w.k THEN {"kind"}
    ELSE IF w.k = "bool" THEN If(r.v # w.v, {"value"})
    ELSE IF w.k # "msg" THEN {}
    ELSE IF r.t # w.t THEN {"type"}
    ELSE If(r.to # w.to, {"to"})
         \cup UNION {IF x \notin DOMAIN r.f THEN {x} ELSE If(r.f[x] # w.f[x], {x}) : x \in DOMAIN w.f}
         \cup If(w.new # "" /\ r.f.id \in used, {"fresh"})
         \cup If(w.new # "" /\ ~ValidId(r.f.idn), {"range"})
=============================================================================
