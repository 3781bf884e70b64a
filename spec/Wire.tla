-------------------------------- MODULE Wire ---------------------------------
(* Messages and the arrays that stand for them on the wire.                   *)
(*                                                                            *)
(* A message has a type and fields, each with a token for its value.  An      *)
(* array has elements, each with a class c and a token v for its value.       *)
(* Classes: "id" an integer from 1 to 2^53, "int" another integer, "bool",    *)
(* "float", "str", "bytes", "list", "dict" and "null".  The details of HELLO  *)
(* and WELCOME are seen key by key in d, where the class Absent stands for a  *)
(* missing key and more is the number of other keys.  So is every dictionary, *)
(* for it might stand in that place.                                          *)
EXTENDS Wamp

El(n, k) == [n |-> n, k |-> k]
Payload == <<El("a", "args"), El("kw", "kwargs")>>

\* the elements after the type code
Format ==
    [HELLO        |-> <<El("realm", "str"), El("hello", "hello")>>,
     WELCOME      |-> <<El("session", "id"), El("welcome", "welcome")>>,
     ABORT        |-> <<El("details", "dict"), El("reason", "str")>> \o Payload,
     CHALLENGE    |-> <<El("method", "str"), El("extra", "dict")>>,
     AUTHENTICATE |-> <<El("signature", "str"), El("extra", "dict")>>,
     GOODBYE      |-> <<El("details", "dict"), El("reason", "str")>>,
     ERROR        |-> <<El("type", "int"), El("request", "id"), El("details", "dict"), El("error", "str")>> \o Payload,
     PUBLISH      |-> <<El("request", "id"), El("options", "dict"), El("topic", "str")>> \o Payload,
     PUBLISHED    |-> <<El("request", "id"), El("publication", "id")>>,
     SUBSCRIBE    |-> <<El("request", "id"), El("options", "dict"), El("topic", "str")>>,
     SUBSCRIBED   |-> <<El("request", "id"), El("subscription", "id")>>,
     UNSUBSCRIBE  |-> <<El("request", "id"), El("subscription", "id")>>,
     UNSUBSCRIBED |-> <<El("request", "id")>>,
     EVENT        |-> <<El("subscription", "id"), El("publication", "id"), El("details", "dict")>> \o Payload,
     CALL         |-> <<El("request", "id"), El("options", "dict"), El("procedure", "str")>> \o Payload,
     CANCEL       |-> <<El("request", "id"), El("options", "dict")>>,
     RESULT       |-> <<El("request", "id"), El("details", "dict")>> \o Payload,
     REGISTER     |-> <<El("request", "id"), El("options", "dict"), El("procedure", "str")>>,
     REGISTERED   |-> <<El("request", "id"), El("registration", "id")>>,
     UNREGISTER   |-> <<El("request", "id"), El("registration", "id")>>,
     UNREGISTERED |-> <<El("request", "id")>>,
     INVOCATION   |-> <<El("request", "id"), El("registration", "id"), El("details", "dict")>> \o Payload,
     INTERRUPT    |-> <<El("request", "id"), El("options", "dict")>>,
     YIELD        |-> <<El("request", "id"), El("options", "dict")>> \o Payload]

Codes ==
    [HELLO |-> 1, WELCOME |-> 2, ABORT |-> 3, CHALLENGE |-> 4, AUTHENTICATE |-> 5, GOODBYE |-> 6, ERROR |-> 8,
     PUBLISH |-> 16, PUBLISHED |-> 17, SUBSCRIBE |-> 32, SUBSCRIBED |-> 33, UNSUBSCRIBE |-> 34, UNSUBSCRIBED |-> 35,
     EVENT |-> 36, CALL |-> 48, CANCEL |-> 49, RESULT |-> 50, REGISTER |-> 64, REGISTERED |-> 65, UNREGISTER |-> 66,
     UNREGISTERED |-> 67, INVOCATION |-> 68, INTERRUPT |-> 69, YIELD |-> 70]

MTypes == DOMAIN Format
Code(t) == [c |-> "id", v |-> "i" \o ToString(Codes[t])]
Roles == {"callee", "caller", "publisher", "subscriber", "dealer", "broker"}
\* the classes that the authentication details must have
HelloKeys == [authid |-> "str", authrole |-> "str", authmethods |-> "list", authextra |-> "dict"]
WelcomeKeys == [authid |-> "str", authrole |-> "str", authmethod |-> "str", authextra |-> "dict"]
AllKeys == DOMAIN HelloKeys \cup DOMAIN WelcomeKeys
KeysOf(k) == IF k = "hello" THEN HelloKeys ELSE WelcomeKeys
\* those that a message has as fields
Kept(k) == IF k = "hello" THEN {"authid", "authmethods", "authextra"} ELSE {"authid", "authrole", "authmethod", "authextra"}

FieldNames(t) ==
    UNION {IF Format[t][i].k \in {"hello", "welcome"} THEN Kept(Format[t][i].k) \cup {"roles"} ELSE {Format[t][i].n} : i \in DOMAIN Format[t]}

IsOptional(k) == k \in {"args", "kwargs"}
Required(t) == Cardinality({i \in DOMAIN Format[t] : ~IsOptional(Format[t][i].k)})

DetailsFit(d, k) ==
    /\ d.roles.c = "dict" /\ Range(d.roles.names) # {} /\ Range(d.roles.names) \subseteq Roles
    /\ \A key \in DOMAIN KeysOf(k) : d[key].c \in {Absent, KeysOf(k)[key]}
Fits(x, k) ==
    CASE k = "id" -> x.c = "id"
      [] k = "int" -> x.c \in {"id", "int"}
      [] k = "str" -> x.c = "str"
      [] k = "args" -> x.c = "list"
      [] k \in {"dict", "kwargs"} -> x.c = "dict"
      [] OTHER -> x.c = "dict" /\ DetailsFit(x.d, k)

-----------------------------------------------------------------------------
(* Encoding *)

EmptyList == [c |-> "list", v |-> "[]"]
\* "num" is any integer
ClassOf(k) == CASE k \in {"id", "str", "dict"} -> k [] k = "int" -> "num" [] k = "args" -> "list" [] OTHER -> "dict"

RECURSIVE EncodeFrom(_, _, _)
EncodeFrom(t, f, i) ==
    IF i > Len(Format[t]) THEN <<>>
    ELSE LET x == Format[t][i]
             rest == EncodeFrom(t, f, i + 1)
         IN IF x.k \in {"hello", "welcome"}
            THEN <<[c |-> "dict",
                    d |-> [key \in AllKeys |->
                             IF key \notin Kept(x.k) \/ f[key] = Absent THEN [c |-> Absent] ELSE [c |-> KeysOf(x.k)[key], v |-> f[key]]]
                          @@ [roles |-> [c |-> "dict", v |-> f.roles], more |-> 0]]>> \o rest
            ELSE IF f[x.n] # Absent THEN <<[c |-> ClassOf(x.k), v |-> f[x.n]]>> \o rest
            ELSE IF rest # <<>> THEN <<EmptyList>> \o rest ELSE <<>>
Encode(t, f) == <<Code(t)>> \o EncodeFrom(t, f, 1)

\* is x the element y that was made here?
Same(x, y) ==
    /\ x.c = y.c \/ (y.c = "num" /\ x.c \in {"id", "int"})
    /\ IF "d" \in DOMAIN y
       THEN /\ x.d.more = 0 /\ x.d.roles.c = "dict" /\ x.d.roles.v = y.d.roles.v
            /\ \A key \in AllKeys : x.d[key].c = y.d[key].c /\ (x.d[key].c = Absent \/ x.d[key].v = y.d[key].v)
       ELSE x.v = y.v
SameArray(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Same(x[i], y[i])

-----------------------------------------------------------------------------
(* Decoding *)

TypeOf(arr) == LET ts == {t \in MTypes : Len(arr) > 0 /\ arr[1] = Code(t)} IN IF ts = {} THEN "none" ELSE CHOOSE t \in ts : TRUE
Fields(t, arr) ==
    LET plain == {i \in DOMAIN Format[t] : Format[t][i].k \notin {"hello", "welcome"}}
        At(i) == IF i + 1 > Len(arr) THEN Absent ELSE arr[i + 1].v
        named == [n \in {Format[t][i].n : i \in plain} |-> At(CHOOSE i \in plain : Format[t][i].n = n)]
        dets == {i \in DOMAIN Format[t] : Format[t][i].k \in {"hello", "welcome"}}
    IN IF dets = {} THEN named
       ELSE LET i == CHOOSE i \in dets : TRUE
                d == arr[i + 1].d
            IN named @@ [key \in Kept(Format[t][i].k) |-> IF d[key].c = Absent THEN Absent ELSE d[key].v] @@ [roles |-> d.roles.v]

\* as: a type if only this one is expected, or "any"
Decode(top, arr, as) ==
    LET t == TypeOf(arr)
    IN IF top # "list" \/ t = "none" \/ as \notin {t, "any"} THEN Refused
       ELSE IF Len(arr) - 1 < Required(t) \/ Len(arr) - 1 > Len(Format[t]) THEN Refused
       ELSE IF \E i \in 2..Len(arr) : ~Fits(arr[i], Format[t][i - 1].k) THEN Refused
       ELSE [k |-> "msg", t |-> t, f |-> Fields(t, arr)]

\* no arguments but keyword arguments: an empty list of arguments
Norm(f) == IF "a" \in DOMAIN f /\ f.a = Absent /\ f.kw # Absent THEN [f EXCEPT !.a = "[]"] ELSE f
\* a WELCOME without authextra may be taken for one with an empty authextra
Filled(t, f) == IF t = "WELCOME" /\ "authextra" \in DOMAIN f /\ f.authextra = Absent THEN [f EXCEPT !.authextra = "{}"] ELSE f

-----------------------------------------------------------------------------
(* The verdict on an observed event:                                          *)
(*   encode  t, f               answered with an array                        *)
(*   decode  top, arr, as       answered with a message                       *)
(*   round   t, f               encoded and decoded                           *)
(*   junk                       data that is no encoding of anything          *)

Judge(e) ==
    LET r == e.r
    IN CASE e.op = "encode" ->
              IF r.k # "ok" THEN {"kind"} ELSE If(r.top # "list" \/ ~SameArray(r.arr, Encode(e.t, e.f)), {"array"})
         [] e.op = "round" ->
              IF r.k # "msg" THEN {"kind"} ELSE If(r.t # e.t, {"type"}) \cup If(Filled(r.t, r.f) # Filled(e.t, Norm(e.f)), {"fields"})
         [] e.op = "decode" ->
              LET w == Decode(e.top, e.arr, e.as)
              IN IF r.k # w.k THEN {"kind"} ELSE IF r.k # "msg" THEN {}
                 ELSE If(r.t # w.t, {"type"}) \cup If(Filled(r.t, r.f) # Filled(w.t, w.f), {"fields"})
         [] OTHER -> If(r.k # "refused", {"kind"})
Want(e) ==
    CASE e.op = "encode" -> [k |-> "ok", arr |-> Encode(e.t, e.f)]
      [] e.op = "round" -> [k |-> "msg", t |-> e.t, f |-> Norm(e.f)]
      [] e.op = "decode" -> Decode(e.top, e.arr, e.as)
      [] OTHER -> Refused
=============================================================================
