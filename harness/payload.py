"""Drives the payload codecs for Payload.tla: C27."""

import json
import sys

from wampproto.serializers import payload as P

import scripted
from core import ABSENT, background, canon, config, guarded, tlc
from wire import Leftover, Otherwise, array, element_class, large_values, of_class, pack, plain, raw_dump, raw_load, table, unpack, value

driver = "payload"
trace_module = "TracePayload"
unchanged = None

CODECS = {0: "raw", 1: "json", 2: "msgpack", 3: "cbor"}


def codec(n):
    return CODECS.get(n, "none such") if type(n) is int else "none such"


def said(args, kwargs):
    one = args[0] if args is not None and len(args) == 1 else self_
    return {
        "a": ABSENT if args is None else canon(args),
        "n": len(args or []),
        "x": "" if one is self_ else element_class(one),
        "xv": "" if one is self_ else canon(one),
        "kw": ABSENT if kwargs is None else canon(kwargs),
    }


self_ = object()


def answered(kind, v):
    if kind == "raised":
        return {"k": "refused"}
    if kind == "hang":
        return {"k": "hang"}
    try:
        a, kw = v
    except Exception:
        return {"k": "odd"}
    return {"k": "ok", "a": ABSENT if a is None else canon(a), "kw": ABSENT if kw is None else canon(kw)}


def contents(n, data):
    """What a payload holds, as the bare libraries see it; None if nothing can be said about it."""
    p = {"av": canon([data]), "empty": len(data) == 0, "top": "", "arr": []}
    if n in (1, 2, 3) and data:
        try:
            v = raw_load(n - 1, data)
        except Leftover:
            return None
        except Exception:
            return "junk"
        if not plain(v):
            return None
        p["top"] = element_class(v)
        p["arr"] = [{"c": element_class(x), "v": canon(x)} for x in v] if isinstance(v, list) else []
    return p


def encoded(n, kind, data):
    if kind != "ok":
        return {"k": "refused" if kind == "raised" else "hang"}
    if data is None:
        return {"k": "none"}
    if not isinstance(data, (bytes, bytearray)):
        return {"k": "odd"}
    if n not in (1, 2, 3):
        return {"k": "bytes", "v": canon(bytes(data))}
    p = contents(n, bytes(data))
    return {"k": "ok", "top": p["top"], "arr": p["arr"]} if isinstance(p, dict) else {"k": "undecodable"}


def step(e, trace):
    n = e["c"]
    c = codec(n)
    if e["op"] == "enc":
        a, kw = unpack(e["a"]), unpack(e["kw"])
        m = said(a, kw)
        ev = {"op": "enc", "c": c, "m": m, "r": encoded(n, *guarded(lambda: P.serialize_payload(n, a, kw)))}
    elif e["op"] == "round":
        a, kw = unpack(e["a"]), unpack(e["kw"])
        m = said(a, kw)

        def go():
            data = P.serialize_payload(n, a, kw)
            return P.deserialize_payload(n, b"" if data is None else data)

        ev = {"op": "round", "c": c, "m": m, "r": answered(*guarded(go))}
    else:
        data = bytes.fromhex(e["data"])
        p = contents(n, data)
        if p is None:
            return None
        if e.get("meddle"):  # what an application may do to what it got
            how, v = guarded(lambda: P.deserialize_payload(n, data))
            guarded(lambda: (v[0].append("meddled"), v[1].update(meddled=1)))
        r = answered(*guarded(lambda: P.deserialize_payload(n, data)))
        ev = {"op": "junk", "c": c, "r": r} if p == "junk" else {"op": "dec", "c": c, "p": p, "r": r}
    trace.append(ev)
    return ev


def execute(script):
    trace = []
    for e in script["events"]:
        if step(e, trace) is None:
            trace.append({"op": "junk", "c": "none such", "r": {"k": "refused"}})  # keeps the places
    return trace


def pick(r):
    return r.choice([0, 1, 2, 3]) if r.random() < 0.93 else r.choice([4, 5, 7, -1, 16, 255, 2**40, None, "1"])


def call(r, n):
    binary = n in (0, 2, 3)
    a = r.choice([None, [], 1, 1, 1])
    a = array(r, binary) if a == 1 else a
    kw = r.choice([None, {}, 1, 1])
    kw = table(r, binary) if kw == 1 else kw
    if n == 0 and r.random() < 0.7:
        one = r.choice([b"", b"\x00", b"abc", bytes(range(256)), b"x" * 70000, b"\xff" * r.randrange(9)])
        a = r.choice([[one], [one], [one], [one, one], [one, 1], ["abc"], [[one]], [None], [{}], [1]])
        kw = r.choice([None, None, {}, {"a": 1}])
    return pack(a), pack(kw)


def payload(r, n):
    """A payload, mostly of the format of the codec."""
    ser = n - 1 if n in (1, 2, 3) and r.random() < 0.95 else r.randrange(3)
    binary = ser != 0
    k = r.randrange(8)
    if k < 4:
        v = r.choice([[], [array(r, binary)], [array(r, binary), table(r, binary)], [[], table(r, binary)]])
        if r.random() < 0.3:
            v.append(r.choice([None, [], {}, value(r, binary, 1)]))
        if v and r.random() < 0.3:
            i = r.randrange(len(v))
            v[i] = of_class(r, r.choice(["id", "bool", "float", "str", "list", "dict", "null"]), binary)
    else:
        v = of_class(r, r.choice(["id", "int", "bool", "float", "str", "dict", "null", "list"]), binary)
        if k < 6:
            v = [v]
        if k == 5:
            v.append(of_class(r, r.choice(["id", "str", "list", "dict", "dict", "null"]), binary))
    if r.random() < 0.25 and plain(v):  # as other encoders may write it
        other = Otherwise(r)
        return (other.json, other.msgpack, other.cbor)[ser](v).hex()
    data = raw_dump(ser, v)
    data = bytearray(data.encode() if ser == 0 else data)
    k = r.randrange(12)
    if k == 0:
        data = data[: r.randrange(len(data))]
    elif k == 1 and ser != 2:
        data = data + r.choice([b"\x00", b"]", b"[1]", b" "])
    elif k == 2:
        data[r.randrange(min(4, len(data)))] = r.randrange(256)
    elif k == 3:
        data = b"" if r.random() < 0.5 else bytes(r.randrange(256) for _ in range(r.randrange(6)))
    return bytes(data).hex()


def generate(r, count):
    events, trace = [], []
    while len(events) < count:
        n = pick(r)
        e = {"op": r.choice(["enc", "round", "round", "dec", "dec"]), "c": n}
        if e["op"] == "dec":
            e["data"] = payload(r, n)
            e["meddle"] = r.random() < 0.2
        else:
            e["a"], e["kw"] = call(r, n)
        if step(e, trace) is not None:
            events.append(e)
    return {"profile": {}, "events": events}, trace


def from_model(c, prints, times):
    """The payloads of the specification, decoded with every codec."""
    seen = {json.dumps(p["p"], sort_keys=True): p["p"] for p in prints if p["p"]["k"] == "ok"}
    r = scripted.rng(c, "payload", "model")
    events = []
    for key in sorted(seen):
        p = seen[key]
        for n in (1, 2, 3) * times:
            if p["empty"]:
                v = None
            elif p["top"] == "list":
                v = [of_class(r, x["c"], n != 1) if x["c"] != "bytes" or n != 1 else "b" for x in p["arr"]]
            else:
                v = of_class(r, p["top"] if p["top"] != "bytes" or n != 1 else "str", n != 1)
            data = b"" if p["empty"] else raw_dump(n - 1, v)
            data = data.encode() if isinstance(data, str) else data
            for m in {n, 0, r.choice([1, 2, 3, 9])}:
                events.append({"op": "dec", "c": m, "data": data.hex()})
    scripts, traces = [], []
    for k in range(0, len(events), 50):
        t = []
        scripts.append({"profile": {}, "events": [e for e in events[k : k + 50] if step(e, t) is not None]})
        traces.append(t)
    return scripts, traces, len(seen)


# see wire.py
failing = {
    "CBOR text of 131073 bytes": {"profile": {}, "events": [{"op": "round", "c": 3, "a": ["\u20ac" * 43691], "kw": None}]},
}


def check(c):
    for name, script in failing.items():
        scripted.run(c, me, f"payloads, {name}", [script])
    model = background(
        tlc, "MCPayload", config("MCPayload", MaxSpoil=2 if c.thorough else 1) + "\nACTION_CONSTRAINT Emit\n", workers=4, timeout=3000
    )
    scripts, traces = [], []
    for i in range(20000 if c.thorough else 2000):
        s, t = generate(scripted.rng(c, "payload", i), 30)
        scripts.append(s)
        traces.append(t)
    for k in range(0, len(scripts), 4000):
        scripted.run(c, me, "payloads", scripts[k : k + 4000], traces[k : k + 4000])
    # large ones
    r, events, trace = scripted.rng(c, "payload", "large"), [], []
    for n in (0, 1, 2, 3):
        for v in large_values(n - 1) if n else [[b"b" * k] for k in (1000, 4096, 65536, 1 << 20, 1 << 22)]:
            kw = r.choice([None, {}, {"v": v[0]}]) if n else None
            e = {"op": r.choice(["enc", "round"]), "c": n, "a": pack(v), "kw": pack(kw)}
            for op in ("enc", "round"):
                events.append(dict(e, op=op))
                step(events[-1], trace)
    scripted.run(c, me, "payloads, large", [{"profile": {}, "events": events}], [trace])
    res = model()
    c.model("payload", res)
    if not c.violations:
        scripts, traces, count = from_model(c, res.prints["A"], 3)
        c.details["model_payloads_decoded"] = count
        scripted.run(c, me, "payloads of the specification", scripts, traces)


me = sys.modules[__name__]
