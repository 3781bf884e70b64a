----------------------------- MODULE TraceSystem -----------------------------
(* Checks executions recorded from real client sessions and a real router:    *)
(* every trace is followed event by event; at the first one that breaks a     *)
(* property the trace ends.  There is one state per event followed, so the    *)
(* number of distinct states tells how much was judged.                       *)
EXTENDS SystemProps, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, over
vars == <<t, l, over>>

(* With FOLLOW=1: what is broken by the events after the first wrong one.     *)
Further == 60
Later ==
    LET left == Len(Traces[t]) - l - 1
    IN IF IOEnv.FOLLOW # "1" THEN <<>>
       ELSE [i \in 1..(IF left < Further THEN left ELSE Further) |-> LET L == SubSeq(Traces[t], 1, l + 1 + i) IN IF Proper(L) THEN Broke(L) ELSE {"out"}]

Init == t \in 1..Len(Traces) /\ l = 0 /\ over = FALSE

Next ==
    /\ ~over /\ l < Len(Traces[t])
    /\ t' = t /\ l' = l + 1
    /\ LET L == SubSeq(Traces[t], 1, l + 1)
       IN IF ~Proper(L)
          THEN over' = TRUE /\ PrintT("OUT " \o ToJson([t |-> t, l |-> l + 1]))
          ELSE IF Broke(L) # {}
          THEN over' = TRUE /\ PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, wrong |-> {Latest(L).op}, broke |-> Broke(L),
                                                       want |-> [k |-> "agreement"], later |-> Later]))
          ELSE over' = FALSE

Spec == Init /\ [][Next]_vars
=============================================================================
