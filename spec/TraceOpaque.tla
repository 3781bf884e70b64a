------------------------------ MODULE TraceOpaque ------------------------------
(* Follows what the real messages said, event by event, as the specification  *)
(* has it; at the first wrong reply the trace ends with the clauses that are  *)
(* wrong and the properties broken.                                           *)
EXTENDS Opaque, OpaqueProps, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, d, over
vars == <<t, l, d, over>>

Further == 40
Later ==
    LET left == Len(Traces[t]) - l - 1
    IN IF IOEnv.FOLLOW # "1" THEN <<>>
       ELSE [i \in 1..(IF left < Further THEN left ELSE Further) |-> Broke(SubSeq(Traces[t], 1, l + 1 + i))]

Init == t \in 1..Len(Traces) /\ l = 0 /\ d = OpaqueInit /\ over = FALSE

Next ==
    /\ ~over /\ l < Len(Traces[t])
    /\ t' = t /\ l' = l + 1
    /\ LET e == Traces[t][l + 1]
           wrong == Judge(d, e)
       IN IF wrong # {}
          THEN over' = TRUE /\ d' = d
               /\ PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, wrong |-> wrong, want |-> Want(d, e),
                                          broke |-> Broke(SubSeq(Traces[t], 1, l + 1)), later |-> Later]))
          ELSE over' = FALSE /\ d' = After(d, e)

Spec == Init /\ [][Next]_vars
=============================================================================
