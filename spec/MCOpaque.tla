------------------------------- MODULE MCOpaque -------------------------------
(* Every way to make MaxMade messages over MaxDicts dictionaries, every       *)
(* reading of them, and every wrong reading.                                  *)
EXTENDS Opaque, OpaqueProps, Json, TLCExt

CONSTANTS Types, Sers, MaxDicts, MaxMade

VARIABLES s, log
vars == <<s, log>>

Contents == {[o |-> o, x |-> x] : o \in {"{}", "{k}"}, x \in {Absent, "i9"}}
Payloads == {"none", "p"}

Reading(e) == e.op \in {"read", "encode", "look"}
\* readings change nothing: only the latest is kept
Did(e) ==
    LET e2 == Put(e, "r", Want(s, e))
    IN /\ log' = Append(SelectSeq(log, LAMBDA x : ~Reading(x)), e2)
       /\ s' = After(s, e2)

Making ==
    \/ Len(s.dicts) < MaxDicts /\ Len(s.made) = 0 /\ \E c \in Contents : Did([op |-> "dict", c |-> c])
    \/ Len(s.made) < MaxMade /\ \E t \in Types, d \in 0..Len(s.dicts), ser \in Sers \cup {Absent}, p \in Payloads :
            Did([op |-> "make", t |-> t, d |-> d, ser |-> ser, p |-> p])
Seeing ==
    \/ \E m \in DOMAIN s.made, op \in {"read", "encode"} : Did([op |-> op, m |-> m])
    \/ \E d \in DOMAIN s.dicts : Did([op |-> "look", d |-> d])
Init == s = OpaqueInit /\ log = <<>>
Next == Making \/ Seeing
Spec == Init /\ [][Next]_vars

C31 == [][P31(log')]_vars
\* a reading leaves everything as it was
SeeingIsNothing == [][Reading(log'[Len(log')]) => s' = s]_vars

Tokens == {Absent, "{}", "{k}", "i1", "i9", "none", "p", "?"}
Answers(w) ==
    {Ok, Refused, [k |-> "hang"], w} \cup {[w EXCEPT ![n] = v] : n \in DOMAIN w \ {"k"}, v \in Tokens}
VerdictRight ==
    [][LET e == log'[Len(log')]
       IN \A r \in Answers(e.r) :
            LET L == [log' EXCEPT ![Len(log')] = [e EXCEPT !.r = r]]
            IN ((Judge(s, L[Len(L)]) = {}) <=> (Broke(L) = {})) \/ (PrintT(<<"MM", e, r>>) /\ FALSE)]_vars

View == s
Emit == PrintT("E " \o ToJson(<<TLCFP(View), log'[Len(log')], TLCFP(View')>>))
=============================================================================
