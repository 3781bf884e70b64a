------------------------------- MODULE TraceRawSocket -------------------------------
(* Checks what the real rawsocket transport did: every event of a trace        *)
(* is judged; at the first wrong one the trace ends with the clauses that are *)
(* wrong and the properties broken.  There is one state per event followed.   *)
EXTENDS RawSocketProps, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, over
vars == <<t, l, over>>

(* With FOLLOW=1: what is broken by the events after the first wrong one,      *)
(* which is seen from the log alone.                                          *)
Further == 40
Later ==
    LET left == Len(Traces[t]) - l - 1
    IN IF IOEnv.FOLLOW # "1" THEN <<>>
       ELSE [i \in 1..(IF left < Further THEN left ELSE Further) |-> Broke(Traces[t][l + 1 + i])]

Init == t \in 1..Len(Traces) /\ l = 0 /\ over = FALSE

Next ==
    /\ ~over /\ l < Len(Traces[t])
    /\ t' = t /\ l' = l + 1
    /\ LET e == Traces[t][l + 1]
           wrong == Judge(e)
       IN IF wrong # {}
          THEN over' = TRUE
               /\ PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, wrong |-> wrong, want |-> Want(e), broke |-> Broke(e), later |-> Later]))
          ELSE over' = FALSE

Spec == Init /\ [][Next]_vars
=============================================================================
