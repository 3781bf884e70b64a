------------------------------- MODULE Payload --------------------------------
(* Application payloads: arguments and keyword arguments in one byte string.  *)
(* Of the codecs, "raw" carries one byte string; the others carry an array of *)
(* at most a list and a dictionary.  Arguments are seen as a token a (Absent  *)
(* if there are none), their number n, and, if there is one, its class x and  *)
(* its token xv.                                                              *)
EXTENDS Wamp

Structured == {"json", "msgpack", "cbor"}
Codecs == Structured \cup {"raw"}

NoArgs == [k |-> "ok", a |-> Absent, kw |-> Absent]
EmptyPayload == [k |-> "none"]
Is(c, v) == [c |-> c, v |-> v]

\* a byte string that holds this array
Holds(arr) == [k |-> "ok", top |-> "list", arr |-> arr]
Encode(codec, m) ==
    CASE codec \in Structured ->
           Holds(IF m.kw # Absent THEN <<Is("list", IF m.a = Absent THEN "[]" ELSE m.a), Is("dict", m.kw)>>
                 ELSE IF m.a # Absent THEN <<Is("list", m.a)>> ELSE <<>>)
      [] codec = "raw" ->
           IF m.a = Absent /\ m.kw = Absent THEN EmptyPayload
           ELSE IF m.a # Absent /\ m.n = 1 /\ m.x = "bytes" /\ m.kw \in {Absent, "{}"} THEN [k |-> "bytes", v |-> m.xv]
           ELSE Refused
      [] OTHER -> Refused

\* p: what a payload holds, the token av of a list of just it, and whether it is empty
Decode(codec, p) ==
    CASE codec = "raw" -> [k |-> "ok", a |-> p.av, kw |-> Absent]
      [] codec \notin Codecs -> Refused
      [] p.empty -> NoArgs
      [] p.top # "list" -> Refused
      [] p.arr = <<>> -> NoArgs
      [] Len(p.arr) > 2 \/ p.arr[1].c # "list" \/ (Len(p.arr) = 2 /\ p.arr[2].c # "dict") -> Refused
      [] OTHER -> [k |-> "ok", a |-> p.arr[1].v, kw |-> IF Len(p.arr) = 2 THEN p.arr[2].v ELSE Absent]

\* what arguments become on the way
Kept(codec, m) ==
    CASE codec \in Structured -> [k |-> "ok", a |-> IF m.a = Absent /\ m.kw # Absent THEN "[]" ELSE m.a, kw |-> m.kw]
      [] Encode(codec, m).k = "bytes" -> [k |-> "ok", a |-> m.a, kw |-> Absent]
      [] OTHER -> Refused

-----------------------------------------------------------------------------
(* The verdict on an observed event:                                          *)
(*   enc    c, m       arguments encoded                                      *)
(*   dec    c, p       a payload decoded                                      *)
(*   round  c, m       arguments encoded and decoded                          *)
(*   junk   c          a payload decoded that is not of the format            *)

\* no arguments at all: no payload, or one that says so; the raw codec may refuse them
Nothing(e) == e.m.a = Absent /\ e.m.kw = Absent
\* an empty dictionary of keyword arguments without arguments is no case of the raw codec
Unclear(e) == e.c = "raw" /\ e.m.a = Absent /\ e.m.kw = "{}"
Loose(r) == IF r.k = "ok" /\ r.kw = "{}" THEN [r EXCEPT !.kw = Absent] ELSE r

Judge(e) ==
    LET r == e.r
    IN CASE e.op = "enc" ->
              IF e.c \in Codecs /\ (Unclear(e) \/ (Nothing(e) /\ (r.k = "none" \/ (e.c = "raw" /\ r.k = "refused")))) THEN {}
              ELSE LET w == Encode(e.c, e.m)
                   IN IF r.k # w.k THEN {"kind"} ELSE If(r # w, {"payload"})
         [] e.op = "round" ->
              IF e.c = "raw" /\ (Unclear(e) \/ Nothing(e)) THEN {}
              ELSE LET w == Kept(e.c, e.m)
                   IN IF r.k # w.k THEN {"kind"}
                      ELSE If((IF e.c = "raw" THEN Loose(r) ELSE r) # w, {"arguments"})
         [] e.op = "dec" ->
              LET w == Decode(e.c, e.p)
              IN IF r.k # w.k THEN {"kind"}
                 ELSE If((IF e.c = "raw" THEN Loose(r) ELSE r) # w, {"arguments"})
         [] OTHER -> If(r.k # "refused", {"kind"})
Want(e) ==
    CASE e.op = "enc" -> Encode(e.c, e.m)
      [] e.op = "round" -> Kept(e.c, e.m)
      [] e.op = "dec" -> Decode(e.c, e.p)
      [] OTHER -> Refused
=============================================================================
