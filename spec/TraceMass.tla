------------------------------ MODULE TraceMass ------------------------------
(* Checks executions of many requests of one kind at a time.                  *)
EXTENDS Mass, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, m, over
vars == <<t, l, m, over>>

Later == [i \in 1..(IF IOEnv.FOLLOW = "1" THEN Len(Traces[t]) - l - 1 ELSE 0) |-> Broke(Traces[t][l + 1 + i])]

Init == t \in 1..Len(Traces) /\ l = 0 /\ m = Empty /\ over = FALSE
Next ==
    /\ ~over /\ l < Len(Traces[t])
    /\ t' = t /\ l' = l + 1
    /\ LET e == Traces[t][l + 1]
       IN IF ~Enabled(m, e)
          THEN over' = TRUE /\ m' = m /\ PrintT("OUT " \o ToJson([t |-> t, l |-> l + 1]))
          ELSE IF Judge(e) # {}
          THEN over' = TRUE /\ m' = m
               /\ PrintT("BAD " \o ToJson([t |-> t, l |-> l + 1, wrong |-> Judge(e), want |-> Want(e), broke |-> Broke(e), later |-> Later]))
          ELSE over' = FALSE /\ m' = After(m, e)
Spec == Init /\ [][Next]_vars
=============================================================================
