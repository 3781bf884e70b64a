-------------------------------- MODULE Opaque --------------------------------
(* Messages that carry an opaque payload, made over dictionaries that the     *)
(* application keeps and uses for several of them.  The options (details) of  *)
(* a message name the serializer of its payload under x_payload_serializer;   *)
(* a dictionary is seen as the token o of the rest and what it has under that *)
(* name, x (Absent if nothing).                                               *)
EXTENDS Wamp

Carriers == {"CALL", "INVOCATION", "YIELD", "RESULT"}
NoEntries == [o |-> "{}", x |-> Absent]

\* dicts: what the application put into each dictionary; made: each message as it was made
OpaqueInit == [dicts |-> <<>>, made |-> <<>>]

(* Events:                                                                    *)
(*   dict    c                 a dictionary with content c is made            *)
(*   make    t, d, ser, p      a message over dictionary d (0: none given)    *)
(*                             with payload serializer ser (Absent: none) and *)
(*                             p, the payload with its binary flag            *)
(*   read    m                 what message m says: o, x, ser, p              *)
(*   encode  m                 what its encoding says: o, x                   *)
(*   look    d                 what is in dictionary d now: o, x              *)
Content(s, d) == IF d = 0 THEN NoEntries ELSE s.dicts[d]
Announced(s, m) ==
    LET g == s.made[m]
        c == Content(s, g.d)
    IN IF g.ser = Absent THEN c ELSE [c EXCEPT !.x = g.ser]

Sees(c) == [k |-> "sees", o |-> c.o, x |-> c.x]
Want(s, e) ==
    CASE e.op = "read" -> LET a == Announced(s, e.m) IN [k |-> "says", o |-> a.o, x |-> a.x, ser |-> s.made[e.m].ser, p |-> s.made[e.m].p]
      [] e.op = "encode" -> Sees(Announced(s, e.m))
      [] e.op = "look" -> Sees(Content(s, e.d))
      [] OTHER -> Ok

After(s, e) ==
    CASE e.op = "dict" -> [s EXCEPT !.dicts = Append(s.dicts, e.c)]
      [] e.op = "make" -> [s EXCEPT !.made = Append(s.made, [t |-> e.t, d |-> e.d, ser |-> e.ser, p |-> e.p])]
      [] OTHER -> s

Judge(s, e) ==
    LET w == Want(s, e)
    IN IF e.r.k # w.k THEN {"kind"}
       ELSE {n \in DOMAIN w \ {"k"} : n \notin DOMAIN e.r \/ e.r[n] # w[n]}
=============================================================================
