------------------------------- MODULE MCWire --------------------------------
(* Every type of message with every combination of absent and present fields, *)
(* encoded, spoilt in up to MaxSpoil places, and decoded.                     *)
EXTENDS WireProps, Json

CONSTANTS Types, MaxSpoil

VARIABLES t, f, arr, top, spoilt, out
vars == <<t, f, arr, top, spoilt, out>>

Classes == {"id", "int", "bool", "float", "str", "bytes", "list", "dict", "null"}
Plain(c) == [c |-> c, v |-> "x" \o c]
NoDetails == [key \in AllKeys |-> [c |-> Absent]] @@ [roles |-> [c |-> Absent, names |-> <<>>], more |-> 0]

Values(k) ==
    CASE k \in {"id", "int"} -> {"i7"} [] k = "str" -> {"s"} [] k = "dict" -> {"{}", "{o}"}
      [] k = "args" -> {Absent, "[]", "[1]"} [] k = "kwargs" -> {Absent, "{}", "{k}"} [] OTHER -> {"?"}
Messages(ty) ==
    LET names == FieldNames(ty)
        kind(n) == IF \E i \in DOMAIN Format[ty] : Format[ty][i].n = n
                   THEN LET i == CHOOSE i \in DOMAIN Format[ty] : Format[ty][i].n = n IN Format[ty][i].k ELSE n
        vals(n) == CASE kind(n) \in {"authid", "authrole", "authmethod"} -> {Absent, "s"}
                     [] kind(n) = "authmethods" -> {Absent, "[m]"}
                     [] kind(n) = "authextra" -> {Absent, "{}", "{e}"}
                     [] kind(n) = "roles" -> {"{r}"}
                     [] OTHER -> Values(kind(n))
        every == UNION {vals(n) : n \in names}
    IN {g \in [names -> every] : \A n \in names : g[n] \in vals(n)}

\* an array as it goes over the wire also shows the names of the roles
Named(a) ==
    [i \in DOMAIN a |->
        IF a[i].c = "num" THEN [a[i] EXCEPT !.c = "id"]
        ELSE IF a[i].c # "dict" THEN a[i]
        ELSE IF "d" \notin DOMAIN a[i] THEN a[i] @@ [d |-> NoDetails]
        ELSE [c |-> a[i].c, v |-> "{hello}",
              d |-> [key \in DOMAIN a[i].d |-> IF key = "roles" THEN a[i].d.roles @@ [names |-> <<"caller">>] ELSE a[i].d[key]]]]
WithD(x) == IF x.c = "dict" THEN x @@ [d |-> NoDetails] ELSE x

Init ==
    /\ t \in Types /\ f \in Messages(t)
    /\ arr = Named(Encode(t, f)) /\ top = "list" /\ spoilt = 0 /\ out = [k |-> "none"]

Replace(i, x) == arr' = [arr EXCEPT ![i] = x]
Spoil ==
    /\ spoilt < MaxSpoil /\ out.k = "none" /\ spoilt' = spoilt + 1
    /\ UNCHANGED <<t, f, out>>
    /\ \/ /\ UNCHANGED top
          /\ \/ \E i \in DOMAIN arr, c \in Classes : c # arr[i].c /\ Replace(i, WithD(Plain(c)))
             \/ arr # <<>> /\ arr' = SubSeq(arr, 1, Len(arr) - 1)
             \/ \E c \in Classes : arr' = Append(arr, WithD(Plain(c)))
             \/ /\ arr # <<>>
                /\ \/ \E u \in MTypes \ {t} : Replace(1, Code(u))
                   \/ Replace(1, [c |-> "id", v |-> "i7"])
             \/ \E i \in DOMAIN arr :
                /\ spoilt = 0 /\ i > 1 /\ Format[t][i - 1].k \in {"hello", "welcome"}
                /\ LET d == arr[i].d
                   IN \/ \E key \in DOMAIN d \ {"roles", "more"}, c \in Classes \cup {Absent} : Replace(i, [arr[i] EXCEPT !.d[key] = Plain(c)])
                      \/ \E c \in Classes \cup {Absent} : Replace(i, [arr[i] EXCEPT !.d.roles = Plain(c) @@ [names |-> <<>>]])
                      \/ \E rs \in {<<>>, <<"dealer", "broker">>, <<"boss">>, <<"caller", "Caller">>} :
                            Replace(i, [arr[i] EXCEPT !.d.roles.names = rs])
                      \/ Replace(i, [arr[i] EXCEPT !.d.more = 1])
       \/ \E c \in Classes \ {"list"} : top' = c /\ UNCHANGED arr
\* as: the type the receiver expects, if it does
Receive(as) == out.k = "none" /\ out' = Decode(top, arr, as) /\ UNCHANGED <<t, f, arr, top, spoilt>>
Next == Spoil \/ \E as \in {"any", t} \cup (IF spoilt = 0 THEN MTypes ELSE {}) : Receive(as)
Spec == Init /\ [][Next]_vars

\* of a HELLO or WELCOME whose message is not spoilt
Entry(as) == [op |-> "decode", top |-> top, arr |-> arr, as |-> as, r |-> out']
\* the array of a message says it, and nothing else does
Sound == spoilt = 0 => P25([op |-> "encode", t |-> t, f |-> f, r |-> [k |-> "ok", top |-> top, arr |-> arr]])
Inverse == (spoilt = 0 /\ out.k = "msg") => out.t = t /\ P25([op |-> "round", t |-> t, f |-> f, r |-> out])
\* what can be decoded is the encoding of what comes out
Faithful ==
    (out.k = "msg" /\ Only(arr, out.t)) => SameArray(arr, Encode(out.t, out.f))
\* no two types share an array
Unambiguous == out.k = "msg" => \A u \in MTypes \ {out.t} : Decode(top, arr, u).k = "refused"
C25 == [][\A as \in {"any", t} : Receive(as) => P25(Entry(as))]_vars
C26 == [][\A as \in {"any", t} : Receive(as) => P26(Entry(as))]_vars

\* the verdict objects exactly to what breaks a property
Answers(r) ==
    {r, Refused, [k |-> "hang"]}
    \cup {[k |-> "msg", t |-> t, f |-> g] : g \in {f} \cup {[f EXCEPT ![n] = v] : n \in DOMAIN f, v \in {"w", Absent}}}
    \cup (IF r.k # "msg" THEN {} ELSE {[k |-> "msg", t |-> r.t, f |-> [r.f EXCEPT ![n] = v]] : n \in DOMAIN r.f, v \in {"w", Absent}})
Fine(e) == ((Judge(e) = {}) <=> (Broke(e) = {})) \/ (PrintT(<<"MM", e, Judge(e), Broke(e), Want(e)>>) /\ FALSE)
VerdictRight ==
    /\ \A as \in {"any", t} : \A r \in Answers(Decode(top, arr, as)) :
        Fine([op |-> "decode", top |-> top, arr |-> arr, as |-> as, r |-> r])
    /\ (spoilt = 0 /\ out.k = "none") => \A r \in Answers([k |-> "msg", t |-> t, f |-> f]) : Fine([op |-> "round", t |-> t, f |-> f, r |-> r])
    /\ out.k = "none" => \A g \in {f} \cup {[f EXCEPT ![n] = v] : n \in DOMAIN f, v \in {"w", "[]", "{}"}} :
        Fine([op |-> "encode", t |-> t, f |-> g, r |-> [k |-> "ok", top |-> top, arr |-> arr]])

Emit == out'.k = "none" \/ PrintT("A " \o ToJson([t |-> t, f |-> f, top |-> top, arr |-> arr, k |-> out'.k]))
=============================================================================
