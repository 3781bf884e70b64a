"""Building and reading WAMP messages for the dealer, broker and session drivers."""

from wampproto import messages, serializers

from core import ABSENT, canon, idtok, limbs, opt

M = messages
NAMES = {
    M.Hello: "HELLO",
    M.Welcome: "WELCOME",
    M.Abort: "ABORT",
    M.Challenge: "CHALLENGE",
    M.Authenticate: "AUTHENTICATE",
    M.Goodbye: "GOODBYE",
    M.Error: "ERROR",
    M.Publish: "PUBLISH",
    M.Published: "PUBLISHED",
    M.Subscribe: "SUBSCRIBE",
    M.Subscribed: "SUBSCRIBED",
    M.Unsubscribe: "UNSUBSCRIBE",
    M.Unsubscribed: "UNSUBSCRIBED",
    M.Event: "EVENT",
    M.Call: "CALL",
    M.Cancel: "CANCEL",
    M.Result: "RESULT",
    M.Register: "REGISTER",
    M.Registered: "REGISTERED",
    M.Unregister: "UNREGISTER",
    M.Unregistered: "UNREGISTERED",
    M.Invocation: "INVOCATION",
    M.Interrupt: "INTERRUPT",
    M.Yield: "YIELD",
}
# the numbers of the WAMP specification
CODES = {
    1: "HELLO",
    2: "WELCOME",
    3: "ABORT",
    4: "CHALLENGE",
    5: "AUTHENTICATE",
    6: "GOODBYE",
    8: "ERROR",
    16: "PUBLISH",
    17: "PUBLISHED",
    32: "SUBSCRIBE",
    33: "SUBSCRIBED",
    34: "UNSUBSCRIBE",
    35: "UNSUBSCRIBED",
    36: "EVENT",
    48: "CALL",
    49: "CANCEL",
    50: "RESULT",
    64: "REGISTER",
    65: "REGISTERED",
    66: "UNREGISTER",
    67: "UNREGISTERED",
    68: "INVOCATION",
    69: "INTERRUPT",
    70: "YIELD",
}
NUMBERS = {v: k for k, v in CODES.items()}


def name(msg):
    for cls, n in NAMES.items():
        if isinstance(msg, cls):
            return n
    return "?" + type(msg).__name__


def flag(d, key):
    try:
        return bool(d.get(key, False))
    except Exception:
        return False


def payload(msg):
    """The opaque payload of a message."""
    if msg.payload is None:
        return ABSENT
    return canon([msg.payload, msg.payload_serializer, bool(msg.payload_is_binary())])


def mtype(v):
    return CODES.get(v, "?" + repr(v)) if not isinstance(v, bool) else "?bool"


def read(f, broken):
    """Part of a message; one that cannot be read is wrong."""
    try:
        return f()
    except Exception:
        return broken


READ = {
    "req": lambda m: idtok(m.request_id),
    "reg": lambda m: idtok(m.registration_id),
    "sub": lambda m: idtok(m.subscription_id),
    "a": lambda m: opt(m.args),
    "k": lambda m: opt(m.kwargs),
    "p": lambda m: payload(m),
    "rp": lambda m: flag(m.details, "receive_progress"),
    "pg": lambda m: flag(m.details, "progress"),
    "mt": lambda m: mtype(m.message_type),
    "uri": lambda m: canon(m.uri) if not isinstance(m.uri, str) else uri(m.uri),
    "det": lambda m: opt(m.details),
}
SAID = {
    "INVOCATION": ("request_id", "reg a k p rp pg"),
    "RESULT": (None, "req a k p pg"),
    "ERROR": (None, "mt req uri a k det"),
    "REGISTERED": ("registration_id", "req"),
    "SUBSCRIBED": ("subscription_id", "req"),
    "PUBLISHED": ("publication_id", "req"),
    "UNREGISTERED": (None, "req"),
    "UNSUBSCRIBED": (None, "req"),
    "EVENT": ("publication_id", "sub a k"),
}


def new(msg):
    """The id that a message hands out."""
    return read(lambda: getattr(msg, SAID[name(msg)][0]), "?unreadable")


def fields(msg):
    """What the specification says about a message the library made."""
    new, said = SAID.get(name(msg), (None, ""))
    f = {x: read(lambda: READ[x](msg), x in ("rp", "pg") or "?unreadable") for x in said.split()}
    if new:
        f["id"] = read(lambda: idtok(getattr(msg, new)), "?unreadable")
        f["idn"] = read(lambda: limbs(getattr(msg, new)), [-1, 0])
    return f


def uri(u):
    return u if u.isascii() and "~" not in u and len(u) < 80 and '"' not in u and "\\" not in u else canon(u)


SERIALIZERS = [None, serializers.JSONSerializer(), serializers.MsgPackSerializer(), serializers.CBORSerializer()]


def wire(msg, ser):
    """The message as it arrives over the wire, if it can go over it; otherwise as it is."""
    s = SERIALIZERS[ser % 4]
    if s is None:
        return msg
    try:
        return s.deserialize(s.serialize(msg))
    except Exception:
        return msg


def one_of_each(req=1):
    """A message of every type."""
    roles = {"caller": {}}
    return {
        "HELLO": lambda: M.Hello(M.HelloFields("realm1", roles, "a", ["anonymous"], {})),
        "WELCOME": lambda: M.Welcome(M.WelcomeFields(req, {"dealer": {}}, "a", "r", "m")),
        "ABORT": lambda: M.Abort(M.AbortFields({}, "wamp.close.x")),
        "CHALLENGE": lambda: M.Challenge(M.ChallengeFields("ticket", {})),
        "AUTHENTICATE": lambda: M.Authenticate(M.AuthenticateFields("sig", {})),
        "GOODBYE": lambda: M.Goodbye(M.GoodbyeFields({}, "wamp.close.normal")),
        "ERROR": lambda: M.Error(M.ErrorFields(68, req, "com.x.e")),
        "PUBLISH": lambda: M.Publish(M.PublishFields(req, "t", [1], None, {"acknowledge": True})),
        "PUBLISHED": lambda: M.Published(M.PublishedFields(req, req)),
        "SUBSCRIBE": lambda: M.Subscribe(M.SubscribeFields(req, "t")),
        "SUBSCRIBED": lambda: M.Subscribed(M.SubscribedFields(req, req)),
        "UNSUBSCRIBE": lambda: M.Unsubscribe(M.UnsubscribeFields(req, req)),
        "UNSUBSCRIBED": lambda: M.Unsubscribed(M.UnsubscribedFields(req)),
        "EVENT": lambda: M.Event(M.EventFields(req, req)),
        "CALL": lambda: M.Call(M.CallFields(req, "p")),
        "CANCEL": lambda: M.Cancel(M.CancelFields(req, {})),
        "RESULT": lambda: M.Result(M.ResultFields(req)),
        "REGISTER": lambda: M.Register(M.RegisterFields(req, "p")),
        "REGISTERED": lambda: M.Registered(M.RegisteredFields(req, req)),
        "UNREGISTER": lambda: M.Unregister(M.UnregisterFields(req, req)),
        "UNREGISTERED": lambda: M.Unregistered(M.UnregisteredFields(req)),
        "INVOCATION": lambda: M.Invocation(M.InvocationFields(req, req)),
        "INTERRUPT": lambda: M.Interrupt(M.InterruptFields(req, {})),
        "YIELD": lambda: M.Yield(M.YieldFields(req)),
    }


def addressed(v):
    """A MessageWithRecipient as a reply."""
    if v is None:
        return {"k": "ok"}
    try:
        msg, to = v.message, v.recipient
    except AttributeError:
        return {"k": "odd"}
    return {"k": "msg", "t": name(msg), "to": idtok(to), "f": fields(msg)}
