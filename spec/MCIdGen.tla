------------------------------- MODULE MCIdGen --------------------------------
(* Several generators asked in every order, around the largest id.            *)
EXTENDS IdGen, Json

CONSTANTS Gens, MaxAsked
Last == <<1, 2>>

VARIABLES d, last, asked
vars == <<d, last, asked>>

Init == d = NoFn /\ last = [g |-> "", id |-> Zero] /\ asked = NoFn

Make(g) == g \notin DOMAIN d /\ d' = New(d, g) /\ asked' = (g :> <<>>) @@ asked /\ UNCHANGED last
Get(g) ==
    /\ g \in DOMAIN d /\ Len(asked[g]) < MaxAsked
    /\ d' = Ask(d, g) /\ last' = [g |-> g, id |-> d'[g]] /\ asked' = [asked EXCEPT ![g] = Append(@, d'[g])]
Next == \E g \in Gens : Make(g) \/ Get(g)
Spec == Init /\ [][Next]_vars

Value(v) == v[1] * LimbSize + v[2]
Range == Value(LastId)
\* the n-th id of a generator is n, counted around
Counts == \A g \in DOMAIN asked : \A n \in DOMAIN asked[g] : Value(asked[g][n]) = 1 + ((n - 1) % Range)
InRange == \A g \in DOMAIN asked : \A n \in DOMAIN asked[g] : Valid(asked[g][n])
\* no id again before all others
NoRepeat == \A g \in DOMAIN asked : \A n, m \in DOMAIN asked[g] : (n < m /\ m - n < Range) => asked[g][n] # asked[g][m]
Independent == [][\A g \in Gens : Get(g) => \A h \in DOMAIN d \ {g} : d'[h] = d[h]]_vars
SuccPred == \A g \in DOMAIN d : d[g] # Zero => Succ(Pred(d[g])) = d[g]
=============================================================================
