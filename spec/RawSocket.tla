------------------------------ MODULE RawSocket -------------------------------
(* The rawsocket transport: the handshake in which each side announces its    *)
(* serializer and the largest message it takes, and the headers of frames.    *)
(* A byte is a number from 0 to 255.                                          *)
EXTENDS Wamp

Magic == 127
Min == 512
Top == 16777216         \* 2^24: lengths are below, and no larger limit can be announced
TwoTop == 33554432
FrameTypes == 0..2

RECURSIVE Pow2(_), Log2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)

\* what announces this limit, or the next lower one that can be announced
Announce(p, size) ==
    IF size < Min THEN Refused ELSE [k |-> "ok", b |-> <<Magic, (Log2(size) - 9) * 16 + p, 0, 0>>]
Heard(b) ==
    IF Len(b) # 4 \/ b[1] # Magic \/ b[3] # 0 \/ b[4] # 0 THEN Refused
    ELSE [k |-> "ok", p |-> b[2] % 16, size |-> Pow2(9 + b[2] \div 16)]

Header(kind, len) ==
    IF len \notin 0..(Top - 1) THEN Refused ELSE [k |-> "ok", b |-> <<kind, len \div 65536, (len \div 256) % 256, len % 256>>]
Number(b) == b[2] * 65536 + b[3] * 256 + b[4]
Frame(b) == [k |-> "ok", kind |-> b[1], len |-> Number(b)]

-----------------------------------------------------------------------------
(* The verdict on an observed event:                                          *)
(*   announce  p, size      a handshake encoded                               *)
(*   hear      b            bytes decoded as a handshake                      *)
(*   meet      p, size      encoded and decoded                               *)
(*   head      kind, len    a header encoded                                  *)
(*   unhead    b            four bytes decoded as a header                    *)
(*   frame     kind, len    encoded and decoded                               *)
(* and, for very many of these at once,                                       *)
(*   announces p, lo, hi    every limit from lo to hi was encoded as b        *)
(*   heads     kind, lo, n  the lengths lo, lo + 1 ... (n of them) as kind and the numbers v, v + 1 ... *)
(*   unheads   kind, v, n   the other way round                               *)
(* A limit of 2^25 or more may also be refused.                               *)

Judge(e) ==
    LET r == e.r
        Is(w, what) == IF r.k # w.k THEN {"kind"} ELSE If(r # w, {what})
    IN CASE e.op = "announce" ->
              IF e.size >= TwoTop
              THEN If(r.k # "refused" /\ r # Announce(e.p, Top), {"limit"})
              ELSE Is(Announce(e.p, e.size), "bytes")
         [] e.op = "announces" -> If(\E size \in {e.lo, e.hi} : r # Announce(e.p, size), {"bytes"})
         [] e.op = "hear" -> Is(Heard(e.b), "meaning")
         [] e.op = "meet" ->
              IF e.size >= TwoTop
              THEN If(r.k # "refused" /\ r # Heard(Announce(e.p, Top).b), {"limit"})
              ELSE Is(IF e.size < Min THEN Refused ELSE Heard(Announce(e.p, e.size).b), "meaning")
         [] e.op = "head" -> Is(Header(e.kind, e.len), "bytes")
         [] e.op = "heads" -> If(r.k # "ok" \/ r.v # e.lo \/ e.lo + e.n > Top, {"bytes"})
         [] e.op = "unhead" -> Is(Frame(e.b), "meaning")
         [] e.op = "unheads" -> If(r.k # "ok" \/ r.len # e.v, {"meaning"})
         [] OTHER -> Is(IF Header(e.kind, e.len) = Refused THEN Refused ELSE [k |-> "ok", kind |-> e.kind, len |-> e.len], "meaning")
Want(e) ==
    CASE e.op = "announce" -> Announce(e.p, e.size)
      [] e.op = "announces" -> Announce(e.p, e.hi)
      [] e.op = "hear" -> Heard(e.b)
      [] e.op = "meet" -> IF e.size < Min THEN Refused ELSE Heard(Announce(e.p, e.size).b)
      [] e.op = "head" -> Header(e.kind, e.len)
      [] e.op = "unhead" -> Frame(e.b)
      [] e.op = "heads" -> [k |-> "ok", v |-> e.lo]
      [] e.op = "unheads" -> [k |-> "ok", len |-> e.v]
      [] OTHER -> IF Header(e.kind, e.len) = Refused THEN Refused ELSE [k |-> "ok", kind |-> e.kind, len |-> e.len]
=============================================================================
