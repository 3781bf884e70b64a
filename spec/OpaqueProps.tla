------------------------------ MODULE OpaqueProps ------------------------------
(* The property of messages with an opaque payload, on the log of what was    *)
(* made and read.                                                             *)
EXTENDS Wamp

\* the places in the log of the events of this kind, in order
Places(L, op) == SelectSeq([i \in 1..Len(L) |-> i], LAMBDA i : L[i].op = op)
Dict(L, d) == L[Places(L, "dict")[d]].c
Made(L, m) == L[Places(L, "make")[m]]

Entry(L, g, r) ==
    IF g.ser # Absent THEN r.x = g.ser
    ELSE IF g.d = 0 THEN r.x = Absent ELSE r.x = Dict(L, g.d).x
Rest(L, g, r) == IF g.d = 0 THEN r.o = "{}" ELSE r.o = Dict(L, g.d).o

P31(L) ==
    LET e == L[Len(L)]
    IN CASE e.op = "read" -> LET g == Made(L, e.m) IN e.r.k = "says" /\ Rest(L, g, e.r) /\ Entry(L, g, e.r) /\ e.r.ser = g.ser /\ e.r.p = g.p
         [] e.op = "encode" -> LET g == Made(L, e.m) IN e.r.k = "sees" /\ Rest(L, g, e.r) /\ Entry(L, g, e.r)
         [] e.op = "look" -> e.r.k = "sees" /\ e.r.o = Dict(L, e.d).o /\ e.r.x = Dict(L, e.d).x
         [] OTHER -> e.r.k = "ok"

Broke(L) == If(~P31(L), {"C31"})
=============================================================================
