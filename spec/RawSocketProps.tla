---------------------------- MODULE RawSocketProps -----------------------------
(* The properties of the rawsocket transport, as relations between numbers    *)
(* and bytes.                                                                 *)
EXTENDS RawSocket

Bytes == 0..255
\* these bytes announce p and a limit that size allows, and no smaller power of two
Announces(b, p, size) ==
    /\ Len(b) = 4 /\ b[1] = 127 /\ b[3] = 0 /\ b[4] = 0
    /\ \E n \in 0..15 : b[2] = 16 * n + p /\ Pow2(n) * 512 <= size /\ size < Pow2(n) * 1024
LargestLimit(b, p) == b = <<127, 240 + p, 0, 0>>
Fair(size, limit) == (\E n \in 9..24 : limit = Pow2(n)) /\ limit <= size /\ size < 2 * limit
P28(e) ==
    CASE e.op = "announce" ->
           IF e.size < 512 THEN e.r.k = "refused"
           ELSE IF e.size >= TwoTop THEN e.r.k = "refused" \/ (e.r.k = "ok" /\ LargestLimit(e.r.b, e.p))
           ELSE e.r.k = "ok" /\ Announces(e.r.b, e.p, e.size)
      [] e.op = "announces" -> e.r.k = "ok" /\ Announces(e.r.b, e.p, e.lo) /\ Announces(e.r.b, e.p, e.hi)
      [] e.op = "meet" ->
           IF e.size < 512 THEN e.r.k = "refused"
           ELSE IF e.size >= TwoTop THEN e.r.k = "refused" \/ (e.r.k = "ok" /\ e.r.p = e.p /\ e.r.size = Top)
           ELSE e.r.k = "ok" /\ e.r.p = e.p /\ Fair(e.size, e.r.size)
      [] e.op = "hear" ->
           IF Len(e.b) = 4 /\ e.b[1] = 127 /\ e.b[3] + e.b[4] = 0
           THEN e.r.k = "ok" /\ e.r.p \in 0..15 /\ \E n \in 0..15 : e.b[2] = 16 * n + e.r.p /\ e.r.size = Pow2(9 + n)
           ELSE e.r.k = "refused"
      [] OTHER -> TRUE

\* the header says this, most significant byte first
Heads(b, kind, len) ==
    /\ Len(b) = 4 /\ b[1] = kind /\ \A i \in 2..4 : b[i] \in Bytes
    /\ b[4] + 256 * b[3] + 65536 * b[2] = len
P29(e) ==
    CASE e.op = "head" -> IF e.len < 0 \/ e.len >= Top THEN e.r.k = "refused" ELSE e.r.k = "ok" /\ Heads(e.r.b, e.kind, e.len)
      [] e.op = "unhead" -> e.r.k = "ok" /\ Heads(e.b, e.r.kind, e.r.len)
      [] e.op = "frame" ->
           IF e.len < 0 \/ e.len >= Top THEN e.r.k = "refused" ELSE e.r.k = "ok" /\ e.r.kind = e.kind /\ e.r.len = e.len
      [] e.op = "heads" -> e.r.k = "ok" /\ e.r.v = e.lo /\ e.lo + e.n <= Top
      [] e.op = "unheads" -> e.r.k = "ok" /\ e.r.len = e.v
      [] OTHER -> TRUE

Broke(e) == If(~P28(e), {"C28"}) \cup If(~P29(e), {"C29"})
=============================================================================
