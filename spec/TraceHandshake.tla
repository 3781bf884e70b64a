---------------------------- MODULE TraceHandshake ----------------------------
(* Checks executions recorded from the real handshakes: every trace is       *)
(* followed event by event and each reply is judged; at the first wrong one   *)
(* the trace ends with the clauses that are wrong and the properties broken.  *)
(* There is one state per event followed, so the number of distinct states    *)
(* tells how much was judged.                                                 *)
EXTENDS Handshake, HandshakeProps, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, d, over
vars == <<t, l, d, over>>

(* With FOLLOW=1: what is broken by the events after the first wrong one,      *)
(* which is seen from the log alone.                                          *)
Further == 40
Later ==
    LET left == Len(Traces[t]) - l - 1
    IN IF IOEnv.FOLLOW # "1" THEN <<>>
       ELSE [i \in 1..(IF left < Further THEN left ELSE Further) |-> Broke(SubSeq(Traces[t], 1, l + 1 + i))]

Init == t \in 1..Len(Traces) /\ l = 0 /\ d = AllInit /\ over = FALSE

Next ==
    /\ ~over /\ l < Len(Traces[t])
    /\ t' = t /\ l' = l + 1
    /\ LET e == Traces[t][l + 1]
           wrong == Judge(d, e)
       IN IF wrong # {}
          THEN over' = TRUE /\ d' = d
               /\ PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, wrong |-> wrong, want |-> Want(d, e),
                                          broke |-> Broke(SubSeq(Traces[t], 1, l + 1)), later |-> Later]))
          ELSE over' = FALSE /\ d' = After(d, e, e.r)

Spec == Init /\ [][Next]_vars
=============================================================================
