------------------------------ MODULE TraceIdGen -------------------------------
(* Checks what the real generators gave.  Events:                             *)
(*   new    g          a generator is made                                    *)
(*   jump   g, to      a generator is set to have given to last               *)
(*   next   g, r       a generator is asked                                   *)
(*   draw   r          a session id is drawn                                  *)
(*   drawn             enough were drawn: every part of the range was reached *)
EXTENDS IdGen, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

Last == <<67108864, 0>>  \* 2^53 = 2^26 * 2^27

VARIABLES t, l, d, ones, over
vars == <<t, l, d, ones, over>>

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bit(v, i) == IF i < 27 THEN (v[2] \div Pow2(i)) % 2 ELSE (v[1] \div Pow2(i - 27)) % 2
\* ones: the bits <<i, b>> seen in drawn ids less one
Bits(v) == {<<i, Bit(Pred(v), i)>> : i \in 0..52}
AllBits == (0..52) \X {0, 1}

Init == t \in 1..Len(Traces) /\ l = 0 /\ d = NoFn /\ ones = {} /\ over = FALSE

Wrong(e) ==
    CASE e.op = "next" -> IF e.r.k # "ok" THEN {"kind"} ELSE IF ~Valid(e.r.id) THEN {"range"} ELSE IF e.r.id # NextId(d[e.g]) THEN {"count"} ELSE {}
      [] e.op = "draw" -> IF e.r.k # "ok" THEN {"kind"} ELSE IF ~Valid(e.r.id) THEN {"range"} ELSE {}
      [] e.op = "drawn" -> IF ones # AllBits THEN {"spread"} ELSE {}
      [] OTHER -> IF e.r.k # "ok" THEN {"kind"} ELSE {}

Next ==
    /\ ~over /\ l < Len(Traces[t])
    /\ t' = t /\ l' = l + 1
    /\ LET e == Traces[t][l + 1]
           wrong == Wrong(e)
       IN IF wrong # {}
          THEN over' = TRUE /\ UNCHANGED <<d, ones>>
               /\ PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, wrong |-> wrong, broke |-> {"C12"},
                    want |-> IF e.op = "next" THEN [k |-> "ok", id |-> NextId(d[e.g])] ELSE [k |-> "ok"]]))
          ELSE /\ over' = FALSE
               /\ d' = CASE e.op = "new" -> New(d, e.g) [] e.op = "jump" -> [d EXCEPT ![e.g] = e.to] [] e.op = "next" -> Ask(d, e.g) [] OTHER -> d
               /\ ones' = IF e.op = "draw" /\ e.spread THEN ones \cup Bits(e.r.id) ELSE ones

Spec == Init /\ [][Next]_vars
=============================================================================
