"""Drives the rawsocket transport for RawSocket.tla: C28 and C29."""

import sys
from multiprocessing import get_context

from wampproto.transports import rawsocket as R

import scripted
from core import background, config, guarded, only_property, tlc

driver = "rawsocket"
trace_module = "TraceRawSocket"
unchanged = None

TOP = 2**24
BIG = 2**31 - 1  # TLC's integers end here


def clip(n):
    return max(-1, min(BIG, n))


def number(n):
    return n if type(n) is int and abs(n) <= BIG else -2


def data_of(kind, v):
    if kind != "ok":
        return {"k": "refused" if kind == "raised" else "hang"}
    return {"k": "ok", "b": list(v)} if isinstance(v, (bytes, bytearray)) else {"k": "odd"}


def heard(kind, v):
    if kind != "ok":
        return {"k": "refused" if kind == "raised" else "hang"}
    try:
        return {"k": "ok", "p": number(v.protocol), "size": number(v.max_msg_size)}
    except AttributeError:
        return {"k": "odd"}


def framed(kind, v):
    if kind != "ok":
        return {"k": "refused" if kind == "raised" else "hang"}
    try:
        return {"k": "ok", "kind": number(v.kind), "len": number(v.length)}
    except AttributeError:
        return {"k": "odd"}


def announce(p, size, way):
    h = R.Handshake(p, size)
    return R.send_handshake(h) if way else h.to_bytes()


def hear(b, way):
    return R.receive_handshake(b) if way else R.Handshake.from_bytes(b)


def step(e, trace):
    op, way = e["op"], e.get("way", 0)
    # a serializer or frame type may be given by the name that the library has for its number
    p, kind = (getattr(R, e.get("named", "-"), e.get(x)) for x in ("p", "kind"))
    if op == "announce":
        ev = {"p": e["p"], "size": clip(e["size"]), "r": data_of(*guarded(lambda: announce(p, e["size"], way)))}
    elif op == "meet":
        ev = {"p": e["p"], "size": clip(e["size"])}
        ev["r"] = heard(*guarded(lambda: hear(announce(p, e["size"], way), way)))
    elif op == "hear":
        b = bytes(e["b"])
        ev = {"b": list(b), "r": heard(*guarded(lambda: hear(bytearray(b) if e.get("array") else b, way)))}
    elif op == "head":
        ev = {"kind": e["kind"], "len": clip(e["len"]), "r": data_of(*guarded(lambda: R.MessageHeader(kind, e["len"]).to_bytes()))}
    elif op == "frame":

        def go():
            return R.MessageHeader.from_bytes(R.MessageHeader(kind, e["len"]).to_bytes())

        ev = {"kind": e["kind"], "len": clip(e["len"]), "r": framed(*guarded(go))}
    elif op == "unhead":
        b = bytes(e["b"])
        ev = {"b": list(b), "r": framed(*guarded(lambda: R.MessageHeader.from_bytes(bytearray(b) if e.get("array") else b)))}
    elif op == "announces":
        ev = dict(e, **announces(announce_run((e["p"], e["lo"], e["hi"] + 1)))[0])
    elif op == "heads":
        ev = dict(e, **heads_(head_run((e["kind"], e["lo"], e["lo"] + e["n"]))[0])[0])
    else:
        ev = dict(e, **unheads_(head_run((e["kind"], e["v"], e["v"] + e["n"]))[1])[0])
    ev["op"] = op
    trace.append(ev)


def execute(script):
    trace = []
    for e in script["events"]:
        step(e, trace)
    return trace


def split(events, n=60):
    return [{"profile": {}, "events": events[k : k + n]} for k in range(0, len(events), n)]


# ---------------------------------------------------------------- handshakes


def handshakes(c):
    r = scripted.rng(c, "handshakes")
    sizes = {0, 1, 2, 100, 511, 2**25, 2**25 + 1, 2**26, 2**30, 2**31 - 1, 2**32, 2**40, 2**53, 2**60}
    for n in range(9, 26):
        for d in range(-3, 4):
            sizes.add(2**n + d)
        sizes.add(3 * 2 ** (n - 1))
    events = []
    for p in range(16):
        for s in sorted(sizes) + [r.randrange(512, 2**25) for _ in range(40)]:
            events.append({"op": "announce", "p": p, "size": s, "way": r.randrange(2)})
            events.append({"op": "meet", "p": p, "size": s, "way": r.randrange(2)})
    for p, name in ((1, "JSON"), (2, "MSGPACK"), (3, "CBOR")):
        for s in (512, 1000, 2**20, 2**24):
            for op in ("announce", "meet"):
                events.append({"op": op, "p": p, "size": s, "way": r.randrange(2), "named": f"SERIALIZER_TYPE_{name}"})
    return split(events)


def replies(c):
    r = scripted.rng(c, "replies")
    events = []

    def add(*b):
        events.append({"op": "hear", "b": list(b), "way": r.randrange(2), "array": r.random() < 0.2})

    for b in range(256):
        add(127, b, 0, 0)
        add(b, r.choice([0x11, 0xF3, 0x00]), 0, 0)
        add(127, 0xF1, b, 0)
        add(127, 0xF2, 0, b)
        add(127, r.randrange(256), b, b)
        add(127, r.randrange(256), b, 256 - b if b else 0)
    for _ in range(200000 if c.thorough else 15000):
        add(r.choice([127, 127, 127, 126, 255, 0]), r.randrange(256), r.choice([0, 0, r.randrange(256)]), r.choice([0, 0, r.randrange(256)]))
    for n in [0, 1, 2, 3, 5, 6, 7, 8, 64, 1000]:
        for _ in range(6):
            b = ([127, r.randrange(256), 0, 0] + [0] * n)[:n]
            add(*b)
            add(*[r.randrange(256) for _ in range(n)])
    r.shuffle(events)
    return split(events)


def announce_run(args):
    """All limits from lo to hi - 1, as runs of limits with the same answer."""
    p, lo, hi = args
    runs, start, last = [], lo, None
    for s in range(lo, hi):
        try:
            b = R.Handshake(p, s).to_bytes()
        except Exception:
            b = None
        if b != last and s > lo:
            runs.append((p, start, s - 1, last))
            start = s
        last = b
    runs.append((p, start, hi - 1, last))
    return runs


# ---------------------------------------------------------------- headers


def frames(c):
    r = scripted.rng(c, "frames")
    lengths = {0, 1, 2, 127, 128, 254}
    for n in range(8, 25):
        for d in range(-2, 3):
            lengths.add(2**n + d)
    for a in (0, 1, 0x7F, 0x80, 0xFE, 0xFF):
        for b in (0, 1, 0x7F, 0x80, 0xFE, 0xFF):
            for x in (0, 1, 0x7F, 0x80, 0xFE, 0xFF):
                lengths.add(a << 16 | b << 8 | x)
    lengths |= {-1, -2, -255, -256, -65536, -(2**24), -(2**40), 2**25, 2**31, 2**32, 2**32 + 5, 2**40, 2**53}
    events = []
    for kind in (0, 1, 2):
        for n in sorted(lengths) + [r.randrange(TOP) for _ in range(100000 if c.thorough else 4000)]:
            events.append({"op": r.choice(["head", "frame"]), "kind": kind, "len": n})
            if 0 <= n < TOP and r.random() < 0.7:
                b = [kind, *n.to_bytes(3, "big")]
                events.append({"op": "unhead", "b": b, "array": r.random() < 0.2})
    for kind, name in enumerate(("WAMP", "PING", "PONG")):
        for n in (0, 1, 255, 256, 65536, TOP - 1):
            for op in ("head", "frame"):
                events.append({"op": op, "kind": kind, "len": n, "named": f"MSG_TYPE_{name}"})
    return split(events)


def head_run(args):
    """Lengths lo to hi - 1 encoded, as runs in which length and number go up together; and back."""
    kind, lo, hi = args
    heads, unheads = [], []
    start = first = last = None
    for n in range(lo, hi):
        try:
            b = R.MessageHeader(kind, n).to_bytes()
            v = int.from_bytes(b[1:], "big") if len(b) == 4 and b[0] == kind else None
        except Exception:
            v = None
        if last is None or v != last + 1:
            if start is not None:
                heads.append((kind, start, n - start, first))
            start, first = n, v
        last = v
    heads.append((kind, start, hi - start, first))
    start = first = last = None
    for n in range(lo, hi):
        try:
            h = R.MessageHeader.from_bytes(bytes([kind]) + n.to_bytes(3, "big"))
            v = h.length if h.kind == kind and type(h.length) is int else None
        except Exception:
            v = None
        if last is None or v != last + 1:
            if start is not None:
                unheads.append((kind, start, n - start, first))
            start, first = n, v
        last = v
    unheads.append((kind, start, hi - start, first))
    return heads, unheads


def rows(r, kind, c):
    if c.thorough:
        return [(kind, k << 18, (k + 1) << 18) for k in range(64)]
    return [(kind, k << 12, (k + 1) << 12) for k in sorted(r.sample(range(1, 4095), 24) + [0, 4095])]


def announces(runs):
    return [
        {"op": "announces", "p": p, "lo": lo, "hi": hi, "r": {"k": "refused"} if b is None else {"k": "ok", "b": list(b)}}
        for p, lo, hi, b in runs
    ]


def heads_(runs):
    return [
        {"op": "heads", "kind": kind, "lo": lo, "n": n, "r": {"k": "odd"} if v is None else {"k": "ok", "v": clip(v)}}
        for kind, lo, n, v in runs
    ]


def unheads_(runs):
    return [
        {"op": "unheads", "kind": kind, "v": v, "n": n, "r": {"k": "odd"} if le is None else {"k": "ok", "len": clip(le)}}
        for kind, v, n, le in runs
    ]


def judge_runs(c, label, events):
    """The events are what happened already; they are carried out again only to show a violation."""
    events = events[:50000]
    scripts = [{"profile": {}, "events": [{k: v for k, v in e.items() if k != "r"}]} for e in events]
    scripted.run(c, me, label, scripts, [[e] for e in events])


def pool(f, jobs):
    with get_context("fork").Pool(8) as p:
        return p.map(f, jobs, chunksize=1)


# ---------------------------------------------------------------- the check


def check(c):
    cfg = only_property(config("MCRawSocket"), c.pid)
    model = background(tlc, "MCRawSocket", cfg + "\nACTION_CONSTRAINT Emit\n", workers=4, timeout=3000)
    r = scripted.rng(c, "rows")
    if c.pid == "C28":
        scripted.run(c, me, "handshakes", handshakes(c))
        scripted.run(c, me, "received handshakes", replies(c))
        jobs = []
        for p in range(16) if c.thorough else (1, r.randrange(16)):
            top = 2**25
            if c.thorough and p in (0, 1, 2, 3, 15):
                jobs += [(p, max(512, k << 20), (k + 1) << 20) for k in range(32)]
            else:
                jobs += [(p, 512, 1 << 14), (p, top - 4096, top)]
                jobs += [(p, k << 12, (k + 1) << 12) for k in r.sample(range(4, 8000), 12)]
        runs = [x for y in pool(announce_run, jobs) for x in y]
        c.details["limits_announced"] = sum(hi - lo for _, lo, hi in jobs)
        judge_runs(c, "ranges of limits", announces(runs))
    else:
        scripted.run(c, me, "frames", frames(c))
        jobs = [x for kind in (0, 1, 2) for x in rows(r, kind, c)]
        c.details["lengths_encoded_and_decoded"] = sum(hi - lo for _, lo, hi in jobs)
        runs = pool(head_run, jobs)
        judge_runs(c, "ranges of lengths", [e for h, u in runs for e in heads_(h)[:500] + unheads_(u)[:500]])
    res = model()
    c.model("rawsocket", res)
    if not c.violations:
        events = [dict(x) for x in {tuple(sorted(p.items())): p for p in res.prints["A"]}.values()]
        events.sort(key=str)
        scripted.run(c, me, "steps of the specification", split(events))
    if c.thorough:
        few = dict(Protocols="{1, 15}", Sizes="{511, 512, 1023, 16777216}", Lengths="{0, 1, 256, 512, 16777215}")
        c.model("four frames", tlc("MCRawSocket", config("MCRawSocket", MaxFrames=4, **few), timeout=3000))
        text = config("MCRawSocket", MaxFrames=0, Protocols="{1, 15}").replace("INVARIANTS ", "INVARIANTS VerdictRight ")
        c.model("verdicts", tlc("MCRawSocket", text, timeout=3000))


me = sys.modules[__name__]
