-------------------------------- MODULE IdGen ---------------------------------
(* Generators of ids.  A session-scope generator counts 1, 2, 3 ... and       *)
(* starts again with 1 after the largest id; generators do not influence one  *)
(* another.  Session ids are drawn at random.  An id is <<hi, lo>> with value *)
(* hi * LimbSize + lo; the value of a generator is the id it gave last.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS LimbSize, LastId

Zero == <<0, 0>>
Succ(v) == IF v[2] + 1 = LimbSize THEN <<v[1] + 1, 0>> ELSE <<v[1], v[2] + 1>>
Pred(v) == IF v[2] = 0 THEN <<v[1] - 1, LimbSize - 1>> ELSE <<v[1], v[2] - 1>>
Less(v, w) == v[1] < w[1] \/ (v[1] = w[1] /\ v[2] < w[2])
Valid(v) == v[1] >= 0 /\ v[2] >= 0 /\ v[2] < LimbSize /\ v # Zero /\ (v = LastId \/ Less(v, LastId))

NextId(v) == IF v = LastId THEN Succ(Zero) ELSE Succ(v)

NoFn == [x \in {} |-> x]
\* the state: what each generator gave last
New(d, g) == (g :> Zero) @@ d
Ask(d, g) == [d EXCEPT ![g] = NextId(d[g])]
=============================================================================
