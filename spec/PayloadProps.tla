----------------------------- MODULE PayloadProps ------------------------------
(* The property of the payload codecs, as a relation between what goes in and *)
(* what comes out; the encoding itself is only known to be an array.          *)
EXTENDS Payload

\* the array says these arguments
Says(arr, a, kw) ==
    /\ Len(arr) <= 2
    /\ a # Absent => Len(arr) >= 1 /\ arr[1] = Is("list", a)
    /\ kw # Absent => Len(arr) = 2 /\ arr[2] = Is("dict", kw)
    /\ (a = Absent /\ kw # Absent) => arr[1] = Is("list", "[]")
    /\ kw = Absent => Len(arr) = (IF a = Absent THEN 0 ELSE 1)
\* arguments that the raw codec can carry
RawFits(m) == m.a # Absent /\ m.n = 1 /\ m.x = "bytes" /\ m.kw \in {Absent, "{}"}
RawOpen(m) == m.a = Absent /\ m.kw \in {Absent, "{}"}
WellFormed(p) ==
    \/ p.empty
    \/ /\ p.top = "list" /\ Len(p.arr) <= 2
       /\ Len(p.arr) >= 1 => p.arr[1].c = "list"
       /\ Len(p.arr) = 2 => p.arr[2].c = "dict"

P27(e) ==
    CASE e.op = "enc" ->
           CASE e.c \in Structured ->
                  (e.m.a = Absent /\ e.m.kw = Absent /\ e.r.k = "none") \/ (e.r.k = "ok" /\ e.r.top = "list" /\ Says(e.r.arr, e.m.a, e.m.kw))
             [] e.c = "raw" ->
                  IF RawFits(e.m) THEN e.r.k = "bytes" /\ e.r.v = e.m.xv
                  ELSE IF RawOpen(e.m) THEN e.m.kw # Absent \/ e.r.k \in {"none", "refused"}
                  ELSE e.r.k = "refused"
             [] OTHER -> e.r.k = "refused"
      [] e.op = "round" ->
           CASE e.c \in Structured ->
                  e.r.k = "ok" /\ e.r.kw = e.m.kw /\ (e.r.a = e.m.a \/ (e.m.a = Absent /\ e.m.kw # Absent /\ e.r.a = "[]"))
                  /\ (e.m.kw # Absent => e.r.a # Absent)
             [] e.c = "raw" ->
                  IF RawFits(e.m) THEN e.r.k = "ok" /\ e.r.a = e.m.a /\ e.r.kw \in {Absent, "{}"}
                  ELSE RawOpen(e.m) \/ e.r.k = "refused"
             [] OTHER -> e.r.k = "refused"
      [] e.op = "dec" ->
           CASE e.c = "raw" -> e.r.k = "ok" /\ e.r.a = e.p.av /\ e.r.kw \in {Absent, "{}"}
             [] e.c \in Structured /\ WellFormed(e.p) ->
                  e.r.k = "ok" /\ IF e.p.empty THEN e.r.a = Absent /\ e.r.kw = Absent ELSE Says(e.p.arr, e.r.a, e.r.kw) /\ (e.r.kw # Absent => e.r.a # Absent)
             [] OTHER -> e.r.k = "refused"
      [] OTHER -> e.r.k = "refused"

Broke(e) == If(~P27(e), {"C27"})
=============================================================================
