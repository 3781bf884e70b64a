------------------------------ MODULE MCPayload -------------------------------
(* Every combination of codec and arguments, encoded, spoilt in up to         *)
(* MaxSpoil places, and decoded with any codec.                               *)
EXTENDS PayloadProps, Json

CONSTANT MaxSpoil

VARIABLES m, made, p, spoilt, out
vars == <<m, made, p, spoilt, out>>

Classes == {"id", "int", "bool", "float", "str", "bytes", "list", "dict", "null"}
Asked == Codecs \cup {"none such"}
Msgs ==
    {[a |-> a, n |-> n, x |-> x, xv |-> "x" \o x, kw |-> kw] :
        a \in {Absent, "[]", "[1]", "[2]"}, n \in 0..2, x \in {"bytes", "str", "list", "null", ""}, kw \in {Absent, "{}", "{k}"}}
Sensible(g) ==
    /\ g.n = (CASE g.a \in {Absent, "[]"} -> 0 [] g.a = "[1]" -> 1 [] OTHER -> 2)
    /\ g.n = 1 <=> g.x # ""

None == [k |-> "none", av |-> "[]", empty |-> TRUE, top |-> "", arr |-> <<>>]
\* the payload that an encoding is
AsPayload(r) ==
    CASE r.k = "ok" -> [k |-> "ok", av |-> "[y]", empty |-> FALSE, top |-> r.top, arr |-> r.arr]
      [] r.k = "bytes" -> [k |-> "bytes", av |-> "[" \o r.v \o "]", v |-> r.v, empty |-> FALSE, top |-> "junk", arr |-> <<>>]
      [] OTHER -> None

Init ==
    /\ m \in {g \in Msgs : Sensible(g)} /\ made \in Asked
    /\ p = AsPayload(Encode(made, m)) /\ spoilt = 0 /\ out = [k |-> "nothing yet"]

Plain(c) == Is(c, "z" \o c)
Spoil ==
    /\ spoilt < MaxSpoil /\ out.k = "nothing yet" /\ p.k = "ok" /\ spoilt' = spoilt + 1
    /\ UNCHANGED <<m, made, out>>
    /\ \/ \E i \in DOMAIN p.arr, c \in Classes : p' = [p EXCEPT !.arr[i] = Plain(c)]
       \/ \E c \in Classes : p' = [p EXCEPT !.arr = Append(p.arr, Plain(c))]
       \/ \E c \in Classes : p' = [p EXCEPT !.arr = <<Plain(c)>> \o p.arr]
       \/ \E i \in DOMAIN p.arr : p' = [p EXCEPT !.arr = SubSeq(p.arr, 1, i - 1) \o SubSeq(p.arr, i + 1, Len(p.arr))]
       \/ \E c \in Classes \ {"list"} : p' = [p EXCEPT !.top = c, !.arr = <<>>]
       \/ p' = [p EXCEPT !.empty = TRUE, !.top = "", !.arr = <<>>]
\* payloads do not say which codec made them
Take(c) ==
    /\ out.k = "nothing yet" /\ p.k # "none" /\ (p.k = "bytes" => c \notin Structured)
    /\ out' = Decode(c, p) /\ UNCHANGED <<m, made, p, spoilt>>
Next == Spoil \/ \E c \in Asked : Take(c)
Spec == Init /\ [][Next]_vars

C27 == [][\A c \in Asked : Take(c) => P27([op |-> "dec", c |-> c, p |-> p, r |-> out'])]_vars
Sound == (spoilt = 0) => P27([op |-> "enc", c |-> made, m |-> m, r |-> Encode(made, m)])
Inverse ==
    (spoilt = 0 /\ p.k # "none") =>
        /\ P27([op |-> "round", c |-> made, m |-> m, r |-> Decode(made, p)]) \/ made = "raw"
        /\ made \in Structured => Decode(made, p) = Kept(made, m)
Faithful ==
    (out.k = "ok" /\ p.top = "list" /\ out.a # p.av /\ ~p.empty) => Encode("json", [a |-> out.a, kw |-> out.kw]).arr = p.arr

\* the verdict objects exactly to what breaks the property
Fine(e) == ((Judge(e) = {}) <=> (Broke(e) = {})) \/ (PrintT(<<"MM", e, Judge(e), Broke(e), Want(e)>>) /\ FALSE)
Tokens == {Absent, "[]", "[1]", "{}", "{k}", "w", "zlist", p.av}
Answers == {[k |-> "ok", a |-> a, kw |-> kw] : a \in Tokens, kw \in Tokens} \cup {Refused, [k |-> "hang"]}
VerdictRight ==
    out.k = "nothing yet" =>
        /\ p.k # "none" => \A c \in Asked : \A r \in Answers : Fine([op |-> "dec", c |-> c, p |-> p, r |-> r])
        /\ spoilt = 0 => \A c \in Asked : \A r \in Answers : Fine([op |-> "round", c |-> c, m |-> m, r |-> r])
        /\ p.k # "none" => \A c \in Asked : Fine([op |-> "enc", c |-> c, m |-> m,
                r |-> IF p.k = "ok" THEN [k |-> "ok", top |-> p.top, arr |-> p.arr] ELSE [k |-> "bytes", v |-> p.v]])
        /\ \A c \in Asked, r \in {Refused, EmptyPayload, [k |-> "hang"], [k |-> "bytes", v |-> "w"]} : Fine([op |-> "enc", c |-> c, m |-> m, r |-> r])

Emit == PrintT("A " \o ToJson([p |-> p'])) \/ TRUE
=============================================================================
