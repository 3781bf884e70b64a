------------------------------ MODULE WireProps ------------------------------
(* The properties of messages on the wire, as relations between messages and  *)
(* arrays; how to get from one to the other is not said here.  Of module Wire *)
(* only the table of formats is used.                                         *)
EXTENDS Wire

\* x is what field n of kind k with token v becomes
Stands(x, k, v) ==
    x.v = v /\ IF k = "int" THEN x.c \in {"id", "int"} ELSE x.c = (IF k = "args" THEN "list" ELSE IF k = "kwargs" THEN "dict" ELSE k)
StandsDetails(x, k, f) ==
    /\ x.c = "dict" /\ x.d.roles.c = "dict" /\ x.d.roles.v = f.roles
    /\ \A key \in Kept(k) : IF f[key] = Absent THEN x.d[key].c = Absent ELSE x.d[key].c = KeysOf(k)[key] /\ x.d[key].v = f[key]
HasField(t, n) == \E i \in DOMAIN Format[t] : Format[t][i].n = n
Given(t, f, n) == HasField(t, n) /\ f[n] # Absent

\* the array says the message: its code, then each field in its place
Says(arr, t, f) ==
    LET fmt == Format[t]
        size == Required(t) + (IF Given(t, f, "kw") THEN 2 ELSE IF Given(t, f, "a") THEN 1 ELSE 0)
    IN /\ Len(arr) = 1 + size /\ arr[1].c = "id" /\ arr[1].v = "i" \o ToString(Codes[t])
       /\ \A i \in 1..size :
            LET x == arr[i + 1]
            IN CASE fmt[i].k \in {"hello", "welcome"} -> StandsDetails(x, fmt[i].k, f)
                 [] fmt[i].k = "args" -> IF f.a = Absent THEN x.c = "list" /\ x.v = "[]" ELSE Stands(x, "args", f.a)
                 [] OTHER -> Stands(x, fmt[i].k, f[fmt[i].n])
\* nothing but that
Only(arr, t) == \A i \in DOMAIN Format[t] :
    Format[t][i].k \in {"hello", "welcome"} =>
        arr[i + 1].d.more = 0 /\ \A key \in AllKeys \ Kept(Format[t][i].k) : arr[i + 1].d[key].c = Absent

Equal(t, f, g) ==
    /\ DOMAIN f = DOMAIN g
    /\ \A n \in DOMAIN f :
        \/ f[n] = g[n]
        \/ n = "a" /\ f.a = Absent /\ f.kw # Absent /\ g.a = "[]"
        \/ t = "WELCOME" /\ n = "authextra" /\ {f[n], g[n]} = {Absent, "{}"}
    /\ (Given(t, f, "kw") /\ f.a = Absent) => g.a = "[]"

\* which arrays are messages
WellFormed(arr) ==
    /\ Len(arr) >= 1 /\ arr[1].c = "id"
    /\ \E t \in MTypes :
        /\ arr[1].v = "i" \o ToString(Codes[t])
        /\ Len(arr) \in (1 + Required(t))..(1 + Len(Format[t]))
        /\ \A i \in 2..Len(arr) :
            LET k == Format[t][i - 1].k
                x == arr[i]
            IN /\ k = "id" => x.c = "id"
               /\ k = "int" => x.c \in {"id", "int"}
               /\ k = "str" => x.c = "str"
               /\ k = "args" => x.c = "list"
               /\ k \in {"dict", "kwargs", "hello", "welcome"} => x.c = "dict"
               /\ (k \in {"hello", "welcome"} /\ x.c = "dict") =>
                    /\ x.d.roles.c = "dict" /\ x.d.roles.names # <<>>
                    /\ \A j \in DOMAIN x.d.roles.names :
                        x.d.roles.names[j] \in {"callee", "caller", "publisher", "subscriber", "dealer", "broker"}
                    /\ x.d.authid.c \in {Absent, "str"} /\ x.d.authrole.c \in {Absent, "str"} /\ x.d.authextra.c \in {Absent, "dict"}
                    /\ IF k = "hello" THEN x.d.authmethods.c \in {Absent, "list"} ELSE x.d.authmethod.c \in {Absent, "str"}
IsOf(arr, as) == as = "any" \/ arr[1].v = "i" \o ToString(Codes[as])

P25(e) ==
    /\ e.op = "encode" => e.r.k = "ok" /\ e.r.top = "list" /\ Says(e.r.arr, e.t, e.f) /\ Only(e.r.arr, e.t)
    /\ e.op = "round" => e.r.k = "msg" /\ e.r.t = e.t /\ Equal(e.t, e.f, e.r.f)
    /\ (e.op = "decode" /\ e.top = "list" /\ e.r.k = "msg" /\ WellFormed(e.arr) /\ IsOf(e.arr, e.as)) =>
            e.r.t \in MTypes /\ DOMAIN e.r.f = FieldNames(e.r.t) /\ (Given(e.r.t, e.r.f, "kw") => e.r.f.a # Absent) 
            /\ \E g \in {e.r.f} \cup {[e.r.f EXCEPT !.authextra = x] : x \in IF e.r.t = "WELCOME" THEN {Absent, "{}"} ELSE {}} :
                (g = e.r.f \/ {g.authextra, e.r.f.authextra} = {Absent, "{}"}) /\ Says(e.arr, e.r.t, g)
P26(e) ==
    /\ e.op = "decode" =>
        IF e.top = "list" /\ WellFormed(e.arr) /\ IsOf(e.arr, e.as) THEN e.r.k = "msg" ELSE e.r.k = "refused"
    /\ e.op = "junk" => e.r.k = "refused"

Broke(e) == If(~P25(e), {"C25"}) \cup If(~P26(e), {"C26"})
=============================================================================
