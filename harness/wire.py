"""Drives the messages and serializers for Wire.tla: C25 and C26.

A trace is a sequence of independent events on one set of serializer objects.
What a message says is read off the constructor arguments and the properties of
the real message; what an array says is read off the array, decoded from the
bytes with the bare libraries.
"""

import io
import json
import re
import sys

import cbor2
import msgpack
from wampproto import messages as M
from wampproto import serializers

import scripted
from core import ABSENT, background, canon, config, guarded, only_property, tlc
from wampio import CODES, NAMES, NUMBERS

driver = "wire"
trace_module = "TraceWire"
unchanged = None

CLASSES = {n: c for c, n in NAMES.items()}
# the fields: (name in the specification, argument of the constructor, property of the message)
FIELDS = {
    "HELLO": [(n, n, n) for n in ("realm", "roles", "authid", "authmethods", "authextra")],
    "WELCOME": [("session", "session_id", "session_id")]
    + [(n, n, n) for n in ("roles", "authid", "authrole", "authmethod", "authextra")],
    "ABORT": [(n, n, n) for n in ("details", "reason")],
    "CHALLENGE": [("method", "authmethod", "authmethod"), ("extra", "extra", "extra")],
    "AUTHENTICATE": [(n, n, n) for n in ("signature", "extra")],
    "GOODBYE": [(n, n, n) for n in ("details", "reason")],
    "ERROR": [("type", "message_type", "message_type"), ("request", "request_id", "request_id")]
    + [("details", "details", "details"), ("error", "uri", "uri")],
    "PUBLISH": "request options topic a kw",
    "PUBLISHED": "request publication",
    "SUBSCRIBE": "request options topic",
    "SUBSCRIBED": "request subscription",
    "UNSUBSCRIBE": "request subscription",
    "UNSUBSCRIBED": "request",
    "EVENT": "subscription publication details a kw",
    "CALL": "request options procedure a kw",
    "CANCEL": "request options",
    "RESULT": "request details a kw",
    "REGISTER": "request options procedure",
    "REGISTERED": "request registration",
    "UNREGISTER": "request registration",
    "UNREGISTERED": "request",
    "INVOCATION": "request registration details a kw",
    "INTERRUPT": "request options",
    "YIELD": "request options a kw",
}
LONG = {"a": "args", "kw": "kwargs"}
LONG.update({n: n + "_id" for n in ("request", "publication", "subscription", "registration")})
for _t, _f in FIELDS.items():
    if isinstance(_f, str):
        FIELDS[_t] = [(n, LONG.get(n, n), LONG.get(n, n)) for n in _f.split()]
for _t in ("ABORT", "ERROR"):
    FIELDS[_t] += [("a", "args", "args"), ("kw", "kwargs", "kwargs")]
PAYLOADS = [t for t, f in FIELDS.items() if ("a", "args", "args") in f]
IDS = ("request", "publication", "subscription", "registration", "session")
DICTS = ("options", "details", "extra")
OPTIONAL = ("authid", "authrole", "authmethod", "authmethods", "a", "kw")
KEYS = ("authid", "authrole", "authmethods", "authmethod", "authextra")
ROLES = ("callee", "caller", "publisher", "subscriber", "dealer", "broker")
REQUESTS = [NUMBERS[n] for n in ("CALL", "INVOCATION", "REGISTER", "UNREGISTER", "SUBSCRIBE", "UNSUBSCRIBE", "PUBLISH")]

SER = [serializers.JSONSerializer, serializers.MsgPackSerializer, serializers.CBORSerializer]


def raw_dump(ser, v):
    return [json.dumps, msgpack.packb, cbor2.dumps][ser](v)


def raw_load(ser, data):
    if ser == 0:
        return json.loads(data)
    if ser == 1:
        return msgpack.unpackb(data)
    f = io.BytesIO(data)
    v = cbor2.load(f)
    if f.tell() != len(data):
        raise Leftover()
    return v


def untagged(data):
    """Raises if this CBOR has a tag, which no value used here needs."""
    f = io.BytesIO(data)

    def head():
        b = f.read(1)[0]
        major, n = b >> 5, b & 31
        if n == 31:
            return major, None
        return major, int.from_bytes(f.read(1 << n - 24), "big") if n >= 24 else n

    def item(within=None):
        major, n = head()
        if major == 7 and n is None:
            return False
        if major == 6:
            raise ValueError("a tag")
        if major in (2, 3) and n is not None:
            f.seek(n, 1)
        elif n is None:
            while item():
                pass
        elif major in (4, 5):
            for _ in range(n * (major - 3)):
                item()
        return True

    item()


class Leftover(Exception):
    """Bytes after a CBOR value, which may be refused or ignored."""


# ---------------------------------------------------------------- values in scripts


def pack(v):
    """A value as JSON, for scripts."""
    if isinstance(v, (bytes, bytearray)):
        return {"$y": bytes(v).hex()}
    if isinstance(v, list):
        return [pack(x) for x in v]
    if isinstance(v, dict):
        return {"$d": [[pack(k), pack(x)] for k, x in v.items()]}
    return v


def unpack(v):
    if isinstance(v, list):
        return [unpack(x) for x in v]
    if isinstance(v, dict):
        return bytes.fromhex(v["$y"]) if "$y" in v else {unpack(k): unpack(x) for k, x in v["$d"]}
    return v


def token(n, v):
    if v is None and (n in OPTIONAL or n in ("authextra", "roles")):
        return ABSENT
    return canon(v)


def said(t, kw):
    """The fields of a message made with these arguments."""
    f = {}
    for n, arg, _ in FIELDS[t]:
        v = kw.get(arg)
        f[n] = "{}" if v is None and n in DICTS or (t, n, v) == ("WELCOME", "authextra", None) else token(n, v)
    return f


def read(msg):
    """A real message as the specification sees it."""
    t = next((n for n, c in CLASSES.items() if type(msg) is c), "?" + type(msg).__name__)
    f = {}
    for n, _, prop in FIELDS.get(t, []):
        try:
            f[n] = token(n, getattr(msg, prop))
        except Exception as e:
            f[n] = "?" + type(e).__name__
    return {"k": "msg", "t": t, "f": f}


def element_class(v):
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "id" if 1 <= v <= 2**53 else "int"
    for c, n in ((float, "float"), (str, "str"), (bytes, "bytes"), (list, "list"), (dict, "dict")):
        if type(v) is c:
            return n
    return "other"


def element(v):
    x = {"c": element_class(v), "v": canon(v)}
    if x["c"] == "dict":
        d = {k: {"c": element_class(v[k]), "v": canon(v[k])} if k in v else {"c": ABSENT} for k in KEYS}
        roles = v.get("roles")
        d["roles"] = {"c": element_class(roles) if "roles" in v else ABSENT, "v": canon(roles), "names": []}
        if isinstance(roles, dict):
            d["roles"]["names"] = [k if isinstance(k, str) and re.fullmatch("[A-Za-z_]{1,30}", k) else "?" for k in roles]
        d["more"] = len([k for k in v if k not in KEYS and k != "roles"])
        x["d"] = d
    return x


def plain(v):
    """Only what every implementation of the format means the same by."""
    if isinstance(v, list):
        return all(map(plain, v))
    if isinstance(v, dict):
        return all(isinstance(k, str) and plain(x) for k, x in v.items())
    if isinstance(v, int):
        return -(2**63) <= v < 2**64
    return v is None or type(v) in (bool, str, bytes) or (type(v) is float and v == v and abs(v) != float("inf"))


def judged(arr):
    """Is the verdict on this array certain?"""
    if not isinstance(arr, list):
        return True
    # a detail that is null may count as missing
    return not any(isinstance(v, dict) and any(k in v and v[k] is None for k in KEYS) for v in arr)


# ---------------------------------------------------------------- running


class World:
    def __init__(self, profile):
        self.share = profile.get("share", False)
        self.ser = [c() for c in SER]
        self.late = profile.get("late", False)
        self.pool = {}
        self.seen = {}  # the messages decoded, by id of the reply, to be read again
        self.trace = []

    def shared(self, v):
        if self.share and isinstance(v, (dict, list)):
            return self.pool.setdefault(canon(v), v)
        return v

    def make(self, e):
        kw = {k: unpack(v) for k, v in e["kw"].items()}
        f = said(e["t"], kw)
        kw = {k: self.shared(v) for k, v in kw.items()}
        cls = CLASSES[e["t"]]
        maker = getattr(M, cls.__name__ + "Fields")
        return f, lambda: cls(maker(**kw))

    def meddle(self, msg):
        """What an application may do to a message it got."""
        for prop in {p for fields in FIELDS.values() for _, _, p in fields}:
            v = getattr(msg, prop, None)
            if isinstance(v, dict):
                v["meddled"] = 1
            if isinstance(v, list):
                v.append("meddled")

    def decoded(self, f):
        if self.meddling:
            kind, v = guarded(f)
            if kind == "ok":
                guarded(lambda: self.meddle(v))
        kind, v = guarded(f)
        if kind == "raised":
            return {"k": "refused"}
        if kind == "hang":
            return {"k": kind}
        r = read(v)
        self.seen[id(r)] = (r, v)
        return r

    def finish(self):
        """The trace; what was decoded must still say the same."""
        if self.late:
            for ev in self.trace:
                r, v = self.seen.get(id(ev["r"]), (None, None))
                if r is ev["r"]:
                    ev["r"] = read(v)
        return self.trace

    def array(self, ser, data):
        if not isinstance(data, (str,) if ser == 0 else (bytes, bytearray)):
            return {"k": "odd", "top": type(data).__name__, "arr": []}
        try:
            v = raw_load(ser, data)
            if ser == 2:
                untagged(data)
        except Exception:
            return {"k": "odd", "top": "undecodable", "arr": []}
        return {"k": "ok", "top": element_class(v), "arr": [element(x) for x in v] if isinstance(v, list) else []}

    def step(self, e):
        """The event that happened, or None if nothing can be said about it."""
        op, s = e["op"], self.ser
        self.meddling = e.get("meddle", False)
        if op == "aside":  # something that is not judged and must not be felt later
            cls = CLASSES[e["t"]]
            kw = {k: unpack(v) for k, v in e["kw"].items()}
            kw.update(serializer=e["ser"], payload=b"abc", binary=True)
            guarded(lambda: cls(getattr(M, cls.__name__ + "Fields")(**kw)).marshal())
            ev = {"op": "junk", "r": {"k": "refused"}}
            self.trace.append(ev)
            return ev
        if op == "encode":
            f, make = self.make(e)
            kind, data = guarded(lambda: s[e["ser"]].serialize(make()))
            r = self.array(e["ser"], data) if kind == "ok" else {"k": kind, "top": "", "arr": []}
            ev = {"op": op, "t": e["t"], "f": f, "r": r}
        elif op == "round":
            f, make = self.make(e)
            if e["ser"] < 0:
                ev = {"op": op, "t": e["t"], "f": f, "r": self.decoded(lambda: CLASSES[e["t"]].parse(make().marshal()))}
            else:
                ser, more = s[e["ser"]], e.get("again", 0)

                def go():
                    m = make()
                    for _ in range(more + 1):
                        m = ser.deserialize(ser.serialize(m))
                    return m

                ev = {"op": op, "t": e["t"], "f": f, "r": self.decoded(go)}
        elif op == "array":  # an array or other value, given as such or over the wire
            v = unpack(e["v"])
            if e["ser"] >= 0:
                try:
                    data = raw_dump(e["ser"], v)
                except Exception:
                    return None
                ev = self.bytes(e["ser"], data)
            elif not judged(v):
                return None
            else:
                ev = {"op": "decode", "top": element_class(v), "arr": [element(x) for x in v] if isinstance(v, list) else []}
                ev.update({"as": e["as"], "r": self.decoded(lambda: CLASSES[e["as"]].parse(v))})
        else:  # bytes
            data = bytes.fromhex(e["data"])
            if e["ser"] == 0:
                try:
                    data = data.decode()
                except UnicodeDecodeError:
                    return None
            ev = self.bytes(e["ser"], data)
        if ev is not None:
            self.trace.append(ev)
        return ev

    def bytes(self, ser, data):
        try:
            v = raw_load(ser, data)
        except Leftover:
            return None
        except Exception:
            v = self
        if v is not self and not (plain(v) and judged(v)):
            return None
        r = self.decoded(lambda: self.ser[ser].deserialize(data))
        if v is self:
            return {"op": "junk", "r": r}
        top = element_class(v)
        return {"op": "decode", "top": top, "arr": [element(x) for x in v] if top == "list" else [], "as": "any", "r": r}


def execute(script):
    x = World(script["profile"])
    for e in script["events"]:
        if x.step(e) is None:
            x.trace.append({"op": "junk", "r": {"k": "refused"}})  # keeps the places
    return x.finish()


# ---------------------------------------------------------------- values

STRINGS = ["", "a", "com.example.add", "\u00e4\u20ac\U0001f600", "x" * 31, "x" * 32, "x" * 255, "\x00", "a\nb\"\\/", "1", "null"]
STRINGS += ["\u2028\u2029", "\ufeffx", "i48", "~", "com..x", " ", "\x7f\x80", "x" * 256, "\U0010ffff", "e\u0301", "\u00e9"]
NUMS = [0, 1, -1, 23, 24, 127, 128, -32, -33, -128, -129, 255, 256, 65535, 65536, 2**31 - 1, 2**31, -(2**31), 2**32 - 1]
NUMS += [2**32, 2**53 - 1, 2**53, 2**53 + 1, -(2**53), 2**63 - 1, 2**63, -(2**63), 2**64 - 1]
FLOATS = [0.0, -0.0, 1.0, 1.5, -2.25, 1e-300, 1.7976931348623157e308, 5e-324, 0.1, 1 / 3, 2.0**53, 1e22, 16777217.0, 65504.0]
BYTES = [b"", b"\x00", b"abc", bytes(range(256)), b"\xff" * 31, b"x" * 65536]
ID = [1, 2, 23, 24, 127, 128, 255, 256, 65535, 65536, 2**31, 2**32 - 1, 2**32, 2**52, 2**53 - 1, 2**53]


def string(r):
    if r.random() < 0.7:
        return r.choice(STRINGS)
    if r.random() < 0.02:
        return "y" * r.choice([65535, 65536])
    return "".join(chr(r.choice([r.randrange(32, 127), r.randrange(0, 0xD800), r.randrange(0xE000, 0x110000)])) for _ in range(r.randrange(12)))


def number(r):
    return r.choice(NUMS) if r.random() < 0.7 else r.randrange(-(2**63), 2**64)


def ident(r):
    return r.choice(ID) if r.random() < 0.7 else r.randrange(1, 2**53 + 1)


def value(r, binary, depth=4):
    k = r.randrange(10)
    if k < 2:
        return string(r)
    if k < 4:
        return number(r)
    if k == 4:
        return r.choice(FLOATS) if r.random() < 0.6 else r.uniform(-1e9, 1e9)
    if k == 5:
        return r.choice([None, True, False])
    if k == 6:
        return r.choice(BYTES[:5]) if binary else string(r)
    if depth <= 0:
        return r.choice([[], {}, 0])
    return array(r, binary, depth - 1) if k < 8 else table(r, binary, depth - 1)


def array(r, binary, depth=3):
    if r.random() < 0.03:
        return [r.choice([0, None, "a"])] * r.choice([15, 16, 17, 23, 24, 255, 256, 257])
    if r.random() < 0.02:
        v = []
        for _ in range(r.choice([20, 60])):
            v = [v] if r.random() < 0.5 else {"n": v}
        return [v]
    return [value(r, binary, depth) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]


def table(r, binary, depth=3):
    if r.random() < 0.03:
        return {str(i): i for i in range(r.choice([15, 16, 17, 23, 24, 255, 256, 257]))}
    keys = ["x", "progress", "receive_progress", "acknowledge", "roles", "authid", "args", "", "\u00e9", "x_payload_serializer"]
    d = {}
    for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
        d[r.choice(keys) if r.random() < 0.7 else string(r)] = value(r, binary, depth)
    return d


def features(r, binary):
    names = r.sample(ROLES, r.choice([1, 1, 2, 3, 6]))
    return {n: r.choice([{}, {}, {"features": {"progressive_call_results": True}}, table(r, binary, 1)]) for n in names}


def arguments(r, t, binary):
    """Arguments of a constructor; those that may be left out sometimes are."""
    kw = {}
    for n, arg, _ in FIELDS[t]:
        if n in IDS:
            v = ident(r)
        elif n == "type":
            v = r.choice(REQUESTS) if r.random() < 0.6 else r.choice([0, 1, 8, 49, 64, 65, 70, 255, 2**31, 2**53 + 1, -1])
        elif n == "roles":
            v = features(r, binary)
        elif n in DICTS:
            v = table(r, binary) if t in ("ABORT", "GOODBYE") or r.random() < 0.8 else None
        elif n == "a":
            v = r.choice([None, [], 1, 1])
            v = array(r, binary) if v == 1 else v
        elif n == "kw":
            v = r.choice([None, {}, 1, 1])
            v = table(r, binary) if v == 1 else v
        elif n == "authextra":
            v = table(r, binary) if r.random() < 0.7 else None
        elif n == "authmethods":
            v = r.choice([None, [], ["anonymous"], ["ticket", "wampcra"], [string(r)]])
        elif n in OPTIONAL:
            v = r.choice([None, string(r)])
        else:
            v = string(r)
        if v is not None:
            kw[arg] = v
    return kw


def proper(r, t, binary):
    """A well-formed array, made without the library."""
    kw = arguments(r, t, binary)
    if t == "HELLO":
        d = {k: v for k, v in kw.items() if k != "realm"}
        if r.random() < 0.3:
            d["authrole"] = string(r)
        arr = [kw["realm"], shuffled(r, d)]
    elif t == "WELCOME":
        d = {k: v for k, v in kw.items() if k != "session_id"}
        arr = [kw["session_id"], shuffled(r, d)]
    else:
        arr = []
        order = [n for n, _, _ in FIELDS[t]]
        if t != "ABORT":
            assert order[-1] == "kw" or "kw" not in order
        for n, arg, _ in FIELDS[t]:
            v = kw.get(arg)
            if n == "a" and v is None and "kwargs" in kw:
                v = []
            if v is None and n in DICTS:
                v = {}
            if v is not None:
                arr.append(v)
    if t in ("HELLO", "WELCOME") and r.random() < 0.3:
        arr[-1][r.choice(["x", "authprovider", "resumed", "\u00e4"])] = value(r, binary, 1)
    return [NUMBERS[t], *arr]


def shuffled(r, d):
    keys = list(d)
    r.shuffle(keys)
    return {k: d[k] for k in keys}


def of_class(r, c, binary):
    return {
        "id": lambda: ident(r),
        "int": lambda: r.choice([0, -1, 2**53 + 1, -(2**53), 2**63 - 1, 2**64 - 1, -5]),
        "bool": lambda: r.random() < 0.5,
        "float": lambda: r.choice([1.0, 1.5, 48.0, 0.0, 2.0**53, -1.0]),
        "str": lambda: r.choice(["1", "", "x", "[]", "{}", "com.example"]),
        "bytes": lambda: r.choice([b"", b"1", b"com.example", b"[]"]),
        "list": lambda: r.choice([[], [1], ["x", {}], [[]]]),
        "dict": lambda: r.choice([{}, {"x": 1}, {"0": 1}]),
        "null": lambda: None,
    }[c]()


def spoil(r, arr, binary):
    """An array with something changed."""
    arr = list(arr)
    classes = [c for c in ("id", "int", "bool", "float", "str", "bytes", "list", "dict", "null") if binary or c != "bytes"]
    k = r.randrange(8)
    if k < 3 and arr:
        i = r.randrange(len(arr))
        arr[i] = of_class(r, r.choice(classes), binary)
    elif k == 3:
        arr = arr[: r.randrange(len(arr) + 1)]
    elif k == 4:
        for _ in range(r.choice([1, 1, 2, 3])):
            arr.append(r.choice([[], {}, None, value(r, binary, 1)]))
    elif k == 5 and arr:
        arr[0] = r.choice([0, 7, 9, 15, 18, 31, 37, 47, 51, 63, 71, 72, 255, -1, 2**40, True, 1.0, "1", "48", None, [1], *CODES])
        if r.random() < 0.5:
            arr[0] = r.choice(list(CODES)) + r.choice([-1, 1]) * r.choice([32, 64, 128, 256, 1 << 16, 1 << 31, 1 << 32, 1 << 63])
    elif k == 6 and arr:
        i = r.randrange(len(arr))
        arr.insert(i, of_class(r, r.choice(classes), binary))
    elif arr:
        i = r.randrange(len(arr))
        if isinstance(arr[i], dict) and arr[0] in (1, 2) and len(arr) > 2:
            d = dict(arr[i])
            key = r.choice([*KEYS, "roles", "roles"])
            if key == "roles" and r.random() < 0.7:
                d["roles"] = r.choice([{}, {"boss": {}}, {"Caller": {}}, {"caller": {}, "x": {}}, {"dealer": {}}, {"caller ": {}}, {"router": {}}, {"": {}}])
            elif r.random() < 0.15:
                d.pop(key, None)
            else:
                d[key] = of_class(r, r.choice([c for c in classes if c != "null" or key == "roles"]), binary)
            arr[i] = d
        else:
            del arr[i]
    return arr


def pick_type(r):
    return r.choice(list(FIELDS))


def codes(r, first):
    """Well-formed arrays but for the type code."""
    x = World({"late": r.random() < 0.5})
    events = []
    for n in range(first, first + 64):
        near = [t for t in FIELDS if (n - NUMBERS[t]) % 64 == 0] or [pick_type(r)]
        for t in near:
            v = proper(r, t, True)
            e = {"op": "array", "ser": r.choice([-1, 1, 2]), "v": pack([n, *v[1:]])}
            if e["ser"] < 0:
                e["as"] = t
            if x.step(e) is not None:
                events.append(e)
    return {"profile": {"late": x.late}, "events": events}, x.finish()


def messages(r, count):
    """Messages encoded and decoded."""
    x = World({"share": r.random() < 0.5, "late": r.random() < 0.5})
    events = []
    for _ in range(count):
        t, ser = pick_type(r), r.randrange(3)
        op = r.choice(["encode", "round", "round"])
        if r.random() < 0.1:
            t, op = r.choice(PAYLOADS), "aside"
        if op == "round" and r.random() < 0.15:
            ser = -1
        e = {"op": op, "t": t, "ser": ser, "kw": {k: pack(v) for k, v in arguments(r, t, ser != 0).items()}}
        if op != "aside" and events and r.random() < 0.25:
            e = dict(r.choice([x for x in events if x["op"] != "aside"] or [e]), op=op)
        elif op == "round":
            e["again"] = r.choice([0, 0, 1])
            if ser >= 0 and r.random() < 0.15 and not x.share:
                e["meddle"] = True
        events.append(e)
        x.step(e)
    return {"profile": {"share": x.share, "late": x.late}, "events": events}, x.finish()


def arrays(r, count):
    """Arrays, right and wrong."""
    x = World({"late": r.random() < 0.5})
    events = []
    while len(events) < count:
        t, ser = pick_type(r), r.choice([-1, 0, 1, 2])
        binary = ser != 0
        v = proper(r, t, binary)
        for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
            v = spoil(r, v, binary)
        if r.random() < 0.03:
            v = of_class(r, r.choice(["id", "float", "str", "dict", "null", "bool"]), binary)
        e = {"op": "array", "ser": ser, "v": pack(v)}
        if ser < 0:
            e["as"] = t if r.random() < 0.8 else pick_type(r)
        if ser >= 0 and r.random() < 0.2:
            e["meddle"] = True
        if x.step(e) is not None:
            events.append(e)
    return {"profile": {"late": x.late}, "events": events}, x.finish()


def damage(r, count):
    """Encodings of right arrays with bytes lost, added or changed."""
    x = World({"late": r.random() < 0.5})
    events = []
    while len(events) < count:
        t, ser = pick_type(r), r.randrange(3)
        data = raw_dump(ser, proper(r, t, ser != 0))
        if len(data) > 400:
            continue
        data = bytearray(data.encode() if ser == 0 else data)
        k = r.randrange(6)
        if k == 0:
            data = data[: r.randrange(len(data))]
        elif k == 1 and ser != 2:
            data = data + r.choice([b"\x00", b"]", b"[1]", b" ", b"\xc0"] if ser == 0 else [b"\x00", b"\xc0", bytes(data)])
        elif k == 2:
            data = data[r.randrange(1, 3) :]
        else:
            for _ in range(r.choice([1, 1, 2])):
                i = r.randrange(min(len(data), r.choice([2, 12, 400])))
                data[i] = r.choice(b'[]{},:"0123456789tfn \\') if ser == 0 else r.randrange(256)
        if r.random() < 0.05:
            data = bytes(r.randrange(256) for _ in range(r.randrange(8)))
        e = {"op": "bytes", "ser": ser, "data": bytes(data).hex()}
        if x.step(e) is not None:
            events.append(e)
    return {"profile": {"late": x.late}, "events": events}, x.finish()


class Otherwise:
    """Encodes values in ways that mean the same but that the usual encoders do not choose."""

    def __init__(self, r):
        self.r = r

    def json(self, v):
        r = self.r

        def blank():
            return r.choice(["", "", "", " ", "\n", "\t ", "\r\n"])

        def text(s):
            out = []
            for ch in s:
                k = r.random()
                if k < 0.15 or ch < " " or ch in '"\\':
                    n = ch.encode("utf-16-be", "surrogatepass")
                    h = "".join(f"\\u{n[i : i + 2].hex()}" for i in range(0, len(n), 2))
                    out.append(h.upper().replace("\\U", "\\u") if r.random() < 0.5 else h)
                elif ch == "/" and k < 0.5:
                    out.append("\\/")
                else:
                    out.append(ch)
            return '"' + "".join(out) + '"'

        def go(v):
            if isinstance(v, str):
                return text(v)
            if isinstance(v, list):
                return "[" + blank() + (blank() + "," + blank()).join(map(go, v)) + blank() + "]"
            if isinstance(v, dict):
                return "{" + blank() + (blank() + "," + blank()).join(text(k) + blank() + ":" + blank() + go(x) for k, x in v.items()) + "}"
            if isinstance(v, float) and v == int(v) and abs(v) < 1e15 and r.random() < 0.5:
                return f"{v:.3f}" if r.random() < 0.5 else f"{v:e}"
            return json.dumps(v)

        return (blank() + go(v) + blank()).encode("utf-8", "surrogatepass")

    def wide(self, n, first, widths):
        """n in one of the ways that have room for it."""
        fit = [(code, w) for code, w in widths if n < 1 << 8 * w]
        code, w = self.r.choice(fit)
        return bytes([first + code]) + n.to_bytes(w, "big")

    def msgpack(self, v):
        r = self.r
        if isinstance(v, bool) or v is None or r.random() < 0.4 and not isinstance(v, (list, dict)):
            return msgpack.packb(v)
        if isinstance(v, int):
            if v >= 0 and (v >= 2**63 or r.random() < 0.6):
                return self.wide(v, 0, [(0xCC, 1), (0xCD, 2), (0xCE, 4), (0xCF, 8)])
            code, w = r.choice([(c, w) for c, w in ((0xD0, 1), (0xD1, 2), (0xD2, 4), (0xD3, 8)) if -(1 << 8 * w - 1) <= v < 1 << 8 * w - 1])
            return bytes([code]) + v.to_bytes(w, "big", signed=True)
        if isinstance(v, float):
            return msgpack.packb(v, use_single_float=True) if msgpack.unpackb(msgpack.packb(v, use_single_float=True)) == v else msgpack.packb(v)
        if isinstance(v, str):
            b = v.encode()
            return self.wide(len(b), 0, [(0xD9, 1), (0xDA, 2), (0xDB, 4)]) + b
        if isinstance(v, bytes):
            return self.wide(len(v), 0, [(0xC4, 1), (0xC5, 2), (0xC6, 4)]) + v
        items = [x for kv in v.items() for x in kv] if isinstance(v, dict) else v
        start, short = ((0xDE, 0x80) if isinstance(v, dict) else (0xDC, 0x90))
        head = bytes([short | len(v)]) if len(v) < 16 and r.random() < 0.5 else self.wide(len(v), start, [(0, 2), (1, 4)])
        return head + b"".join(map(self.msgpack, items))

    def head(self, major, n):
        if n < 24 and self.r.random() < 0.5:
            return bytes([major << 5 | n])
        return self.wide(n, major << 5, [(24, 1), (25, 2), (26, 4), (27, 8)])

    def cbor(self, v):
        r = self.r
        if isinstance(v, bool) or v is None:
            return cbor2.dumps(v)
        if isinstance(v, int):
            return self.head(0, v) if v >= 0 else self.head(1, -1 - v)
        if isinstance(v, float):
            return cbor2.dumps(v, canonical=True) if r.random() < 0.5 else cbor2.dumps(v)
        if isinstance(v, (str, bytes)):
            major = 3 if isinstance(v, str) else 2
            if r.random() < 0.3:  # in pieces
                cut = r.randint(0, len(v))
                return bytes([major << 5 | 31]) + self.whole(major, v[:cut]) + self.whole(major, v[cut:]) + b"\xff"
            return self.whole(major, v)
        items = [x for kv in v.items() for x in kv] if isinstance(v, dict) else v
        major = 5 if isinstance(v, dict) else 4
        body = b"".join(map(self.cbor, items))
        if r.random() < 0.4:
            return bytes([major << 5 | 31]) + body + b"\xff"
        return self.head(major, len(v)) + body

    def whole(self, major, v):
        b = v.encode() if isinstance(v, str) else v
        return self.head(major, len(b)) + b


def otherwise(r, count):
    """Arrays, right and mostly right, as other encoders may write them."""
    x = World({"late": r.random() < 0.5})
    events = []
    enc = Otherwise(r)
    while len(events) < count:
        t, ser = pick_type(r), r.randrange(3)
        v = proper(r, t, ser != 0)
        if r.random() < 0.3:
            v = spoil(r, v, ser != 0)
        try:
            data = (enc.json, enc.msgpack, enc.cbor)[ser](v)
            same = raw_load(ser, data.decode() if ser == 0 else data)
        except Exception:
            continue  # not to be written in this format
        if canon(same) != canon(v) or len(data) > 5000:
            continue
        e = {"op": "bytes", "ser": ser, "data": data.hex()}
        if x.step(e) is not None:
            events.append(e)
    return {"profile": {"late": x.late}, "events": events}, x.finish()


def nested(depth):
    v = 0
    for i in range(depth):
        v = [v] if i % 2 else {"n": v}
    return v


def lists(depth):
    v = []
    for _ in range(depth):
        v = [v]
    return v


def large_values(ser):
    """Values so large, long or deep that the formats change how they write them, or limits may apply."""
    vs = [["z" * n] for n in (1000, 4096, 10000, 65535, 65536, 1 << 20, 1 << 22)]
    vs += [[0] * n for n in (1000, 4097, 65535, 65536, 300000)]
    vs += [[{str(i): 0 for i in range(n)}] for n in (1025, 65536, 140000)]
    vs += [["\u20ac" * 40000], ["\u00e4" * 65536], [nested(20)], [nested(120)], [nested(400)], [lists(300)], [[[] for _ in range(3000)]]]
    if ser:
        vs += [[b"b" * n] for n in (1000, 4096, 65535, 65536, 1 << 20, 1 << 22)]
    return vs


def large(r, ser, n):
    """Large values in the messages that carry an application's values."""
    x = World({"late": r.random() < 0.5})
    events = []
    for v in large_values(ser)[n::4]:
        t = r.choice(PAYLOADS)
        kw = arguments(r, t, ser != 0)
        kw["args"] = v
        if r.random() < 0.5:
            kw["kwargs"] = {"v": v[0], "w": 0}
        for op in ("encode", "round"):
            e = {"op": op, "t": t, "ser": ser, "kw": {k: pack(v) for k, v in kw.items()}}
            events.append(e)
            x.step(e)
    t = r.choice(["PUBLISH", "CALL", "HELLO", "AUTHENTICATE", "ERROR"])
    kw = arguments(r, t, ser != 0)
    for k, v in kw.items():
        if isinstance(v, str):
            kw[k] = "u" * r.choice([256, 5000, 70000])
        if isinstance(v, dict) and k != "roles":
            kw[k] = {f"k{i}": "v" * 20 for i in range(r.choice([17, 300, 2000]))}
    e = {"op": "round", "t": t, "ser": ser, "kw": {k: pack(v) for k, v in kw.items()}}
    events.append(e)
    x.step(e)
    return {"profile": {"late": x.late}, "events": events}, x.finish()


# ---------------------------------------------------------------- behaviours of the specification


def concrete(r, x, binary):
    """A value like this element of the specification."""
    if x["c"] == "id" and re.fullmatch(r"i\d+", x["v"]):
        return int(x["v"][1:])
    if x["c"] == "dict" and "d" in x and (x["d"]["roles"]["c"] != ABSENT or x["v"] == "{hello}"):
        d = {}
        for key in KEYS:
            c = x["d"][key]["c"]
            if c == "null":
                return None
            if c != ABSENT:
                d[key] = of_class(r, c, binary)
        roles = x["d"]["roles"]
        if roles["c"] == "dict":
            d["roles"] = {n: r.choice([{}, {"features": {}}]) for n in roles["names"]}
        elif roles["c"] != ABSENT:
            d["roles"] = of_class(r, roles["c"], binary)
        if x["d"]["more"]:
            d["x"] = 1
        return shuffled(r, d)
    return of_class(r, x["c"], binary)


def from_model(c, prints, times):
    seen, events = set(), []
    r = scripted.rng(c, "wire", "model")
    for key, p in sorted(((json.dumps([p["top"], p["arr"]], sort_keys=True), p) for p in prints), key=lambda x: (x[0], x[1]["t"])):
        if key in seen:
            continue
        seen.add(key)
        for _ in range(times):
            ser = r.choice([-1, 0, 1, 2])
            if p["top"] == "list":
                v = [concrete(r, e, ser != 0) for e in p["arr"]]
            else:
                v = of_class(r, p["top"], ser != 0)
            e = {"op": "array", "ser": ser, "v": pack(v)}
            if ser < 0:
                e["as"] = p["t"] if r.random() < 0.7 else pick_type(r)
            events.append(e)
    r.shuffle(events)
    scripts, traces = [], []
    for k in range(0, len(events), 60):
        x = World({"late": r.random() < 0.5})
        kept = [e for e in events[k : k + 60] if x.step(e) is not None]
        scripts.append({"profile": {"late": x.late}, "events": kept})
        traces.append(x.finish())
    return scripts, traces, len(seen)


# cbor2 5.7.0 cannot decode texts of more than 131072 bytes if a character of several bytes is cut where it reads piecewise
failing = {
    "CBOR text of 131073 bytes": {
        "profile": {},
        "events": [{"op": "round", "t": "CALL", "ser": 2, "kw": {"request_id": 1, "procedure": "p", "args": ["\u20ac" * 43691]}}],
    }
}


def check(c):
    for name, script in failing.items():
        scripted.run(c, me, f"wire, {name}", [script])
    cfg = only_property(config("MCWire"), c.pid)
    model = background(tlc, "MCWire", cfg + "\nACTION_CONSTRAINT Emit\n", workers=4, timeout=3000)
    n = 12000 if c.thorough else 1000
    for kind, gen, share, length in (
        ("messages", messages, 1, 30),
        ("arrays", arrays, 1, 30),
        ("damaged encodings", damage, 0.7, 30),
        ("other encodings", otherwise, 0.3, 30),
        ("type codes", codes, 0.04, None),
    ):
        scripts, traces = [], []
        for i in range(int(n * share)):
            s, t = gen(scripted.rng(c, "wire", kind, i), 64 * (i % 40 - 20) if length is None else length)
            scripts.append(s)
            traces.append(t)
        for k in range(0, len(scripts), 3000):
            scripted.run(c, me, f"wire, {kind}", scripts[k : k + 3000], traces[k : k + 3000])
    both = [large(scripted.rng(c, "wire", "large", i), i % 3, i // 3 % 4) for i in range(120 if c.thorough else 12)]
    scripted.run(c, me, "wire, large messages", *map(list, zip(*both)))
    res = model()
    c.model("wire", res)
    if not c.violations:
        scripts, traces, count = from_model(c, res.prints["A"], 6 if c.thorough else 1)
        c.details["model_arrays_decoded"] = count
        scripted.run(c, me, "wire, arrays of the specification", scripts, traces)
    if c.thorough:
        text = config("MCWire").replace("INVARIANTS ", "INVARIANTS VerdictRight ")
        c.model("verdicts", tlc("MCWire", text, timeout=3000))
        for t in ("HELLO", "WELCOME", "ERROR", "INVOCATION", "RESULT", "CHALLENGE", "UNSUBSCRIBED"):
            c.model(f"wire, twice spoilt {t}", tlc("MCWire", config("MCWire", Types='{"%s"}' % t, MaxSpoil=2), timeout=3000))


me = sys.modules[__name__]
