"""Messages that carry an opaque payload, over dictionaries that are used again (Opaque.tla): C31.

The application makes dictionaries and messages over them, reads and encodes the
messages in any order, and looks into its dictionaries.
"""

import sys

import scripted
from core import ABSENT, background, canon, config, guarded, opt, only_property, tlc, tours, tset
from wire import CLASSES, M, pack, plain, raw_load, serializers, table, unpack

driver = "opaque"
trace_module = "TraceOpaque"
unchanged = None

KEY = "x_payload_serializer"
MORE = {
    "CALL": dict(request_id=1, procedure="p"),
    "INVOCATION": dict(request_id=1, registration_id=1),
    "YIELD": dict(request_id=1),
    "RESULT": dict(request_id=1),
    "ERROR": dict(message_type=48, request_id=1, uri="e"),
    "PUBLISH": dict(request_id=1, topic="t"),
    "EVENT": dict(subscription_id=1, publication_id=1),
    "SUBSCRIBE": dict(request_id=1, topic="t"),
    "REGISTER": dict(request_id=1, procedure="p"),
    "CANCEL": dict(request_id=1),
    "INTERRUPT": dict(request_id=1),
    "ABORT": dict(reason="r"),
    "GOODBYE": dict(reason="r"),
}
DETAILS = {"INVOCATION", "RESULT", "ERROR", "EVENT", "ABORT", "GOODBYE"}
CARRIERS = ("CALL", "INVOCATION", "YIELD", "RESULT")
PLACE = {"CALL": 2, "INVOCATION": 3, "YIELD": 2, "RESULT": 2, "ERROR": 3, "PUBLISH": 2, "EVENT": 3, "SUBSCRIBE": 2}
PLACE.update({"REGISTER": 2, "CANCEL": 2, "INTERRUPT": 2, "ABORT": 1, "GOODBYE": 1})
NOTHING = canon([None, False])


def content(d):
    """A dictionary as the specification sees it."""
    if not isinstance(d, dict):
        return {"o": "?" + type(d).__name__, "x": ABSENT}
    return {"o": canon({k: v for k, v in d.items() if k != KEY}), "x": canon(d[KEY]) if KEY in d else ABSENT}


class Execution:
    def __init__(self):
        self.dicts, self.made, self.trace = [], [], []
        self.serializers = [serializers.JSONSerializer(), serializers.MsgPackSerializer(), serializers.CBORSerializer()]

    def make(self, e):
        t = e["t"]
        word = "details" if t in DETAILS else "options"
        kw = dict(MORE[t])
        if e["d"]:
            kw[word] = self.dicts[e["d"] - 1]
        elif t in ("ERROR", "ABORT", "GOODBYE", "SUBSCRIBE", "REGISTER", "CANCEL", "INTERRUPT"):
            kw[word] = {}
        if e["ser"] is not None:
            kw["serializer"] = e["ser"]
        if e["p"] is not None:
            kw["payload"], kw["binary"] = bytes.fromhex(e["p"][0]) if e["p"][0] is not None else None, e["p"][1]
        return CLASSES[t](getattr(M, CLASSES[t].__name__ + "Fields")(**kw))

    def step(self, e):
        op = e["op"]
        if op == "dict":
            self.dicts.append(unpack(e["v"]))
            ev = {"op": op, "c": content(unpack(e["v"])), "r": {"k": "ok"}}
        elif op == "make":
            kind, m = guarded(lambda: self.make(e))
            self.made.append((e["t"], m))
            ev = {"op": op, "t": e["t"], "d": e["d"], "ser": opt(e["ser"]), "r": {"k": {"ok": "ok", "raised": "refused"}.get(kind, kind)}}
            ev["p"] = NOTHING if e["p"] is None else canon([None if e["p"][0] is None else bytes.fromhex(e["p"][0]), e["p"][1]])
        elif op == "look":
            ev = {"op": op, "d": e["d"], "r": {"k": "sees", **content(self.dicts[e["d"] - 1])}}
        else:
            t, m = self.made[e["m"] - 1]
            if op == "read":

                def go():
                    d = m.details if t in DETAILS else m.options
                    if t not in CARRIERS:
                        return {"k": "says", **content(d), "ser": ABSENT, "p": NOTHING}
                    p = canon([m.payload, m.payload_is_binary()])
                    return {"k": "says", **content(d), "ser": opt(m.payload_serializer), "p": p}

            else:

                def go():
                    return {"k": "sees", **content(raw_load(e["ser"], self.serializers[e["ser"]].serialize(m))[PLACE[t]])}

            kind, r = guarded(go)
            ev = {"op": op, "m": e["m"], "r": r if kind == "ok" else {"k": "refused" if kind == "raised" else kind}}
        self.trace.append(ev)
        return ev


def execute(script):
    """Shrinking may take away what later events name: those are left out."""
    x = Execution()
    for e in script["events"]:
        if e.get("d", 0) > len(x.dicts) or e.get("m", 0) > len(x.made):
            x.trace.append({"op": "dict", "c": {"o": "{}", "x": ABSENT}, "r": {"k": "ok"}})
            x.dicts.append({})
        else:
            x.step(e)
    return x.trace


def dictionary(r):
    for _ in range(50):
        d = {} if r.random() < 0.2 else table(r, False, 1)
        if r.random() < 0.3:
            d[r.choice(["progress", "receive_progress", "acknowledge", "timeout"])] = r.choice([True, False, 5])
        d.pop(KEY, None)
        if r.random() < 0.3:
            d[KEY] = r.choice([0, 1, 2, 9, "1", None, False])
        if plain(d):
            return d
    return {}


def serializer(r):
    return r.choice([None, None, 0, 1, 2, 3, 1, 2, 15, 256, 2**31])


def opaque(r):
    k = r.randrange(6)
    if k == 0:
        return None
    data = r.choice([None, b"", b"\x00", b"abc", bytes(range(256)), b"\xff" * r.randrange(1, 40)])
    return [None if data is None else data.hex(), r.random() < 0.5]


def wander(r, n):
    x, events = Execution(), []
    types = list(MORE) if r.random() < 0.6 else [r.choice(CARRIERS)]

    def do(**e):
        events.append(e)
        x.step(e)

    do(op="dict", v=pack(dictionary(r)))
    while len(events) < n:
        k = r.random()
        if k < 0.05:
            do(op="dict", v=pack(dictionary(r)))
        elif k < 0.3 or not x.made:
            t = r.choice(types) if r.random() < 0.6 else r.choice(CARRIERS)
            t = t if r.random() < 0.9 or len(types) > 1 else r.choice(list(MORE))
            carrier = t in CARRIERS
            do(op="make", t=t, d=r.randint(0, len(x.dicts)), ser=serializer(r) if carrier else None, p=opaque(r) if carrier else None)
        elif k < 0.6:
            do(op="read", m=r.randint(1, len(x.made)))
        elif k < 0.9:
            do(op="encode", m=r.randint(1, len(x.made)), ser=r.randrange(3))
        else:
            do(op="look", d=r.randint(1, len(x.dicts)))
    for i in range(len(x.made)):
        do(op=r.choice(["read", "encode"]), m=i + 1, ser=r.randrange(3))
    return {"profile": {}, "events": events}, x.trace


def concretize(walks, r):
    """The walks of the model, with actual dictionaries, serializers and payloads."""
    scripts = []
    for walk in walks:
        rest = {"{}": {}, "{k}": {"k": r.choice([1, "v", True, [], None])}}
        nine = r.choice([9, 0, 1, "x"])
        sers = {"i0": r.choice([0, 3]), "i1": r.choice([1, 2, 255])}
        swap = dict(zip(("CALL", "RESULT"), r.sample(CARRIERS, 2)))
        events = []
        for e in walk:
            if e["op"] == "dict":
                d = dict(rest[e["c"]["o"]])
                if e["c"]["x"] != ABSENT:
                    d[KEY] = nine
                events.append({"op": "dict", "v": pack(d)})
            elif e["op"] == "make":
                p = opaque(r) if e["p"] == "p" else None
                events.append({"op": "make", "t": swap[e["t"]], "d": e["d"], "ser": sers.get(e["ser"]), "p": p})
            elif e["op"] == "look":
                events.append({"op": "look", "d": e["d"]})
            else:
                events.append({"op": e["op"], "m": e["m"], "ser": r.randrange(3)})
        scripts.append({"profile": {}, "events": events})
    return scripts


DEEP = dict(MaxDicts=2, MaxMade=2)
DEEPER = dict(Types=tset(["CALL"]), MaxDicts=1, MaxMade=3)


def check(c):
    text = only_property(config("MCOpaque"), c.pid)
    model = background(tlc, "MCOpaque", text + "\nACTION_CONSTRAINT Emit\n", workers=4, timeout=3000)
    scripts, traces = [], []
    for i in range(12000 if c.thorough else 1500):
        r = scripted.rng(c, "opaque", i)
        s, t = wander(r, r.choice([6, 12, 25, 40]))
        scripts.append(s)
        traces.append(t)
    for k in range(0, len(scripts), 3000):
        scripted.run(c, me, "messages, random", scripts[k : k + 3000], traces[k : k + 3000])
    res = model()
    c.model("opaque payloads", res)
    if not c.violations:
        walks, covered, total = tours(res.prints["E"], None if c.thorough else 40000, rng=scripted.rng(c, "tour", "opaque"))
        c.details["tours"] = {"opaque payloads": {"transitions_carried_out": covered, "of": total, "walks": len(walks)}}
        scripted.run(c, me, "messages, tour", concretize(walks, scripted.rng(c, "opaque", "values")))
    if c.thorough:
        for name, consts in (("two dictionaries", DEEP), ("three messages", DEEPER)):
            c.model(f"opaque payloads, {name}", tlc("MCOpaque", only_property(config("MCOpaque", **consts), c.pid), timeout=3000))
        c.model("verdicts", tlc("MCOpaque", config("MCOpaque").replace("C31", "VerdictRight C31"), timeout=3000))


me = sys.modules[__name__]
