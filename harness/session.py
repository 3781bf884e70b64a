"""The client session: properties C13-C16."""

import sys

from wampproto import messages as M
from wampproto import serializers
from wampproto.session import WAMPSession

import clock
import scripted
import values as V
import wampio
from core import background, config, guarded, idtok, only_property, tlc, tours, tset

driver = "session"
trace_module = "TraceSession"
unchanged = "C16"


def idle(e):
    """Events that are to change nothing: what is refused, and ABORT and GOODBYE received."""
    return e["r"]["k"] == "refused" or (e["op"] == "recv" and e["t"] in ("ABORT", "GOODBYE"))



REPLY = {
    "CALL": "RESULT",
    "REGISTER": "REGISTERED",
    "UNREGISTER": "UNREGISTERED",
    "PUBLISH": "PUBLISHED",
    "SUBSCRIBE": "SUBSCRIBED",
    "UNSUBSCRIBE": "UNSUBSCRIBED",
}
# what only a router sends, and what only a client sends or belongs to the handshake
ROUTER = ["WELCOME", "CHALLENGE", "PUBLISHED", "SUBSCRIBED", "UNSUBSCRIBED", "EVENT", "RESULT", "REGISTERED"]
ROUTER += ["UNREGISTERED", "INVOCATION", "INTERRUPT"]
CLIENT = ["HELLO", "WELCOME", "CHALLENGE", "AUTHENTICATE", "PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE", "CALL", "CANCEL"]
CLIENT += ["REGISTER", "UNREGISTER", "YIELD"]
RECV_MT = [*REPLY, "INVOCATION", "YIELD", "RESULT", "EVENT"]
SEND_MT = [*REPLY, "INVOCATION", "YIELD"]
SERS = [serializers.JSONSerializer, serializers.MsgPackSerializer, serializers.CBORSerializer]


# what else options and details may say
OPTIONS = {
    "CALL": V.CALL_OPTIONS,
    "RESULT": V.YIELD_OPTIONS,
    "PUBLISH": [dict(o) for o in V.PUBLISH_OPTIONS if "ack" not in o],
    "YIELD": V.YIELD_OPTIONS,
    "INVOCATION": [{}, {"x": 1}, {"receive_progress": True}, {"procedure": "p", "caller": 7}],
    "EVENT": [{}, {"x": 1}, {"topic": "com.t"}, {"retained": True, "publisher": 7}],
}


class Failing(serializers.Serializer):
    """An application's serializer, which can fail."""

    def __init__(self, inner):
        self.inner, self.fail = inner, False

    def serialize(self, message):
        if self.fail:
            raise OSError("cannot serialize")
        return self.inner.serialize(message)

    def deserialize(self, data):
        if self.fail:
            raise OSError("cannot deserialize")
        return self.inner.deserialize(data)


class Execution:
    """One session, driven event by event."""

    def __init__(self, profile):
        clock.begin(profile)
        self.p = profile
        self.plain = SERS[profile["ser"]]()
        self.ser = Failing(SERS[profile["ser"]]())
        self.session = WAMPSession(self.ser if profile["custom"] else SERS[profile["ser"]]())
        self.trace = []
        self.kept = {}  # messages of an application that keeps them

    def id(self, kind, i):
        ids = self.p[kind]
        return V.anew(ids[i % len(ids)])

    def args(self, e):
        a, k = V.get(V.ARGS, e.get("a", 0)), V.get(V.KWARGS, e.get("k", 0))
        if self.p["ser"] == 0 and any(isinstance(x, bytes) for x in a or []):
            a = [1]
        return a, k

    def message(self, e):
        t = e["t"]
        a, k = self.args(e)
        if e.get("spoil"):
            a = [object()]
        q = self.id("reqs", e.get("q", 0))
        reg, sub, inv = self.id("regs", e.get("reg", 0)), self.id("subs", e.get("sub", 0)), self.id("invs", e.get("inv", 0))
        o = {} if e.get("pg") is None else {"progress": e["pg"]}
        table = {"ERROR": V.DETAILS, "REGISTER": V.REGISTER_OPTIONS, "SUBSCRIBE": V.SUBSCRIBE_OPTIONS}.get(t, [{}])
        odd = {"x_any": object()} if e.get("spoil") else V.options(table, e.get("o", 0))
        if t in OPTIONS:
            o = dict(V.options(OPTIONS[t], e.get("o", 0), self.p["reqs"]), **o)
        if t == "CALL":
            o.update({} if e.get("rp") is None else {"receive_progress": e["rp"]})
            return M.Call(M.CallFields(q, V.name(e.get("u", 0)), a, k, o))
        if t == "RESULT":
            return M.Result(M.ResultFields(q, a, k, o))
        if t == "REGISTER":
            return M.Register(M.RegisterFields(q, V.name(e.get("u", 0)), odd))
        if t == "REGISTERED":
            return M.Registered(M.RegisteredFields(q, reg))
        if t == "UNREGISTER":
            return M.Unregister(M.UnregisterFields(q, reg))
        if t == "UNREGISTERED":
            return M.Unregistered(M.UnregisteredFields(q))
        if t == "PUBLISH":
            o.update({} if e.get("ack") is None else {"acknowledge": e["ack"]})
            return M.Publish(M.PublishFields(q, V.name(e.get("u", 0)), a, k, o))
        if t == "PUBLISHED":
            return M.Published(M.PublishedFields(q, self.id("reqs", e.get("o", 0))))
        if t == "SUBSCRIBE":
            return M.Subscribe(M.SubscribeFields(q, V.name(e.get("u", 0)), odd))
        if t == "SUBSCRIBED":
            return M.Subscribed(M.SubscribedFields(q, sub))
        if t == "UNSUBSCRIBE":
            return M.Unsubscribe(M.UnsubscribeFields(q, sub))
        if t == "UNSUBSCRIBED":
            return M.Unsubscribed(M.UnsubscribedFields(q))
        if t == "INVOCATION":
            return M.Invocation(M.InvocationFields(inv, reg, a, k, o))
        if t == "YIELD":
            return M.Yield(M.YieldFields(inv, a, k, o))
        if t == "EVENT":
            return M.Event(M.EventFields(sub, self.id("reqs", e.get("o", 0)), a, k, o))
        if t == "ERROR":
            i = inv if e["op"] == "send" else q
            return M.Error(M.ErrorFields(wampio.NUMBERS[e["mt"]], i, V.get(V.URIS, e.get("u", 0)), a, k, odd))
        return wampio.one_of_each(q)[t]()

    def step(self, e):
        op, t = e["op"], e["t"]
        ev = {"op": op, "t": t, "bad": bool(e.get("bad"))}
        if t in ("GOODBYE", "ABORT") or e.get("other"):
            msg = wampio.one_of_each(self.id("reqs", e.get("q", 0)))[t]()
        elif ev["bad"] and op == "recv":
            msg = None
        else:
            e2 = dict(e, spoil=ev["bad"] and not self.p["custom"])
            msg = self.message(e2)
            for f, g in (("req", "request_id"), ("reg", "registration_id"), ("sub", "subscription_id")):
                if hasattr(msg, g):
                    ev[f] = idtok(getattr(msg, g))
            if t in ("YIELD", "INVOCATION"):
                ev["inv"] = idtok(msg.request_id)
            if t in ("CALL", "YIELD", "RESULT"):
                ev["pg"] = e.get("pg") is True
            if t == "PUBLISH":
                ev["ack"] = e.get("ack") is True
            if t == "ERROR":
                ev["mt"] = e["mt"]
        if self.p.get("kept") and not ev["bad"]:
            msg = self.kept.setdefault(repr(sorted((k, v) for k, v in e.items() if k != "via")), msg)
        if op == "send":
            how, r = self.send(msg, ev["bad"])
        else:
            how, r = self.recv(msg, e)
        ev["r"] = {"k": r if how == "ok" else "refused" if how == "raised" else how}
        self.trace.append(ev)
        return ev

    def send(self, msg, bad):
        if bad and not self.p["custom"] and isinstance(msg, (M.Unregister, M.Unsubscribe)):
            # nothing in these messages can be anything but an id
            if isinstance(msg, M.Unregister):
                msg = M.Unregister(M.UnregisterFields(msg.request_id, object()))
            else:
                msg = M.Unsubscribe(M.UnsubscribeFields(msg.request_id, object()))
        self.ser.fail = bad and self.p["custom"]
        how, v = guarded(lambda: self.session.send_message(msg))
        self.ser.fail = False
        if how == "ok":
            try:
                v = "ok" if v == self.plain.serialize(msg) else "odd"
            except Exception:
                v = "odd"  # sent although it cannot be
        return how, v

    def recv(self, msg, e):
        if e.get("bad"):
            data = self.garbage(e)
            self.ser.fail = self.p["custom"] and e.get("g", 0) % 5 == 4
            how, v = guarded(lambda: self.session.receive(data))
            self.ser.fail = False
            return how, "ok"
        if e.get("via"):
            data = self.plain.serialize(msg)
            how, v = guarded(lambda: self.session.receive(data))
        else:
            how, v = guarded(lambda: self.session.receive_message(msg))
        if how == "ok":
            try:
                same = v is msg or (type(v) is type(msg) and v.marshal() == msg.marshal())
            except Exception:
                same = False
            v = "ok" if same else "odd"
        return how, v

    def garbage(self, e):
        good = self.plain.serialize(self.message({"op": "recv", "t": "RESULT", "q": e.get("q", 0)}))
        n = e.get("g", 0) % 5
        if n == 0:
            return good[: len(good) // 2]
        if n == 1:
            return good[:0]
        if n == 2:
            return good[:-1]
        if n == 3:
            return "\ufffe{" if isinstance(good, str) else b"\xc1\xff"
        return good if self.p["custom"] else good[:1]


def execute(script):
    x = Execution(script["profile"])
    for e in script["events"]:
        x.step(e)
    return x.trace


# ---------------------------------------------------------------- from the model


def profile(r, n=4):
    same = r.random() < 0.5
    pick = lambda: r.sample(V.IDS, 4) if n == 4 and r.random() < 0.7 else r.sample(range(1, 2**53), n)  # noqa: E731
    if n == 4 and r.random() < 0.2:
        pick = lambda: V.alike(r)  # noqa: E731
    reqs = pick()
    p = {"ser": r.randrange(3), "custom": r.random() < 0.3, "reqs": reqs, "kept": r.randrange(2)}
    for k in ("regs", "subs", "invs"):
        p[k] = list(reqs) if same else pick()
    return p


def finer(r, e):
    """What the model leaves open about an event."""
    e.update(a=r.randrange(len(V.ARGS)), k=r.randrange(len(V.KWARGS)), o=r.choice([0, r.randrange(60)]), via=r.randrange(2))
    e["u"] = r.choice([0, r.randrange(len(V.PROCS))])
    if e.get("pg") is False:
        e["pg"] = r.choice([None, False])
    if e.get("ack") is False:
        e["ack"] = r.choice([None, False])
    if e["t"] == "CALL":
        e["rp"] = r.choice([None, True, False])
    if e["bad"] and e["op"] == "recv":
        e["g"] = r.randrange(5)
    return e


def concretize(label, walks, check):
    scripts = []
    for j, walk in enumerate(walks):
        r = scripted.rng(check, "session", label, j)
        p = profile(r)
        events = []
        for e in walk:
            c = {"op": e["op"], "t": e["t"], "bad": e["bad"]}
            for x, y in (("req", "q"), ("reg", "reg"), ("sub", "sub"), ("inv", "inv")):
                if x in e:
                    c[y] = int(e[x]) - 1
            for x in ("pg", "ack", "mt"):
                if x in e:
                    c[x] = e[x]
            if c["t"] == "ERROR" and c["op"] == "send":
                c["inv"] = c.get("q", 0)
            if not c["bad"]:
                if c["op"] == "send" and len(e) == 4 and c["t"] not in ("GOODBYE",):
                    c["t"], c["other"] = r.choice(ROUTER), True
                if c["op"] == "recv" and len(e) == 4 and c["t"] not in ("GOODBYE", "ABORT"):
                    c["t"], c["other"] = r.choice(CLIENT), True
            events.append(finer(r, c))
        scripts.append({"profile": p, "events": events})
    return scripts


# ---------------------------------------------------------------- at random


def wander(r, length, big=0):
    p = profile(r, big or 4)
    x = Execution(p)
    nq, ng, nv = r.choice([1, 2, 4]), r.choice([1, 2, 4]), r.choice([1, 2, 4])
    foul = r.choice([0.05, 0.2, 0.4])
    if big:
        nq, ng, nv, foul = big, big, big, 0.05
    progress = r.choice([0, 0.3, 0.7])
    waiting, regs, subs, invs = {mt: set() for mt in REPLY}, set(), set(), set()
    parts = {}
    events = []
    kinds = {
        "request": r.choice([2, 4]),
        "reply": r.choice([2, 4]),
        "error": r.choice([0.5, 1.5]),
        "invocation": r.choice([0.5, 2]),
        "answer": r.choice([0.5, 2]),
        "event": 0.7,
        "pass": 0.2,
        "other": 0.4,
        "bad": r.choice([0.3, 1]),
    }

    def pick(known, n, wild):
        return r.choice(sorted(known)) if known and not wild else r.randrange(n)

    def request(mt, q):
        e = {"op": "send", "t": mt, "q": q, "bad": False}
        if mt == "CALL":
            e["pg"] = r.random() < progress
        if mt == "PUBLISH":
            e["ack"] = r.random() < 0.7
        if mt == "UNREGISTER":
            e["reg"] = pick(regs, ng, r.random() < foul)
        if mt == "UNSUBSCRIBE":
            e["sub"] = pick(subs, ng, r.random() < foul)
        return e

    repeats = r.choice([0, 0.1])

    def again():
        """An earlier event once more, if the protocol allows it."""
        e = dict(r.choice(events[-20:]))
        if e["op"] == "recv" or e["t"] in ("CALL", "YIELD", "ERROR") or e.get("q") not in waiting.get(e["t"], ()):
            return e

    for _ in range(length):
        kind = r.choices(list(kinds), list(kinds.values()))[0]
        wild = r.random() < foul
        if kind == "request":
            mt = r.choice(list(REPLY))
            free = [q for q in range(nq) if q not in waiting[mt] or mt == "CALL"]
            if not free:
                continue
            e = request(mt, r.choice(free))
        elif kind == "reply":
            mt = r.choice(list(REPLY) if wild else [m for m in REPLY if waiting[m]] or list(REPLY))
            e = {"op": "recv", "t": REPLY[mt], "q": pick(waiting[mt], nq, wild), "bad": False}
            if mt == "CALL":
                e["pg"] = r.random() < progress
            if mt == "REGISTER":
                e["reg"] = r.randrange(ng)
            if mt == "SUBSCRIBE":
                e["sub"] = r.randrange(ng)
        elif kind == "error":
            mt = r.choice(RECV_MT if wild else [m for m in REPLY if waiting[m]] or RECV_MT)
            e = {"op": "recv", "t": "ERROR", "mt": mt, "q": pick(waiting.get(mt), nq, wild), "bad": False}
        elif kind == "invocation":
            e = {"op": "recv", "t": "INVOCATION", "inv": r.randrange(nv), "reg": pick(regs, ng, wild), "bad": False}
            e["pg"] = r.random() < progress
        elif kind == "answer":
            e = {"op": "send", "inv": pick(invs, nv, wild), "bad": False}
            if r.random() < 0.6:
                e.update(t="YIELD", pg=r.random() < progress)
            else:
                e.update(t="ERROR", mt=r.choice(SEND_MT) if wild else "INVOCATION")
        elif kind == "event":
            e = {"op": "recv", "t": "EVENT", "sub": pick(subs, ng, wild), "bad": False}
        elif kind == "pass":
            op = r.choice(["send", "recv"])
            e = {"op": op, "t": r.choice(["GOODBYE", "ABORT"] if op == "recv" else ["GOODBYE"]), "bad": False}
        elif kind == "other":
            op = r.choice(["send", "recv"])
            e = {"op": op, "t": r.choice(ROUTER if op == "send" else CLIENT), "q": r.randrange(nq)}
            e.update(other=True, bad=False)
        else:
            if r.random() < 0.3:
                e = {"op": "recv", "t": "garbage", "q": r.randrange(nq), "bad": True}
            elif r.random() < 0.7:
                e = dict(request(r.choice(list(REPLY)), r.randrange(nq)), bad=True)
            elif r.random() < 0.6:
                e = {"op": "send", "t": "YIELD", "inv": pick(invs, nv, wild), "pg": False, "bad": True}
            else:
                e = {"op": "send", "t": "ERROR", "mt": "INVOCATION", "inv": pick(invs, nv, wild), "bad": True}
        finer(r, e)
        if events and r.random() < repeats:
            e = again() or e
        events.append(e)
        ev = x.step(e)
        if ev["r"]["k"] != "ok":
            continue
        # what this driver believes afterwards
        t, q = e["t"], e.get("q")
        if e.get("other"):
            continue
        if t in REPLY and e["op"] == "send" and (t != "PUBLISH" or e["ack"]):
            waiting[t].add(q)
            parts[t, q] = e.get("reg", e.get("sub"))
        elif t in REPLY.values() and not e.get("pg"):
            mt = next(m for m in REPLY if REPLY[m] == t)
            waiting[mt].discard(q)
            if t == "REGISTERED":
                regs.add(e["reg"])
            if t == "SUBSCRIBED":
                subs.add(e["sub"])
            if t == "UNREGISTERED":
                regs.discard(parts.get((mt, q)))
            if t == "UNSUBSCRIBED":
                subs.discard(parts.get((mt, q)))
        elif t == "ERROR" and e["op"] == "recv":
            waiting.get(e["mt"], set()).discard(q)
        elif t == "INVOCATION":
            invs.add(e["inv"])
        elif t == "ERROR" or (t == "YIELD" and not e.get("pg")):
            invs.discard(e["inv"])
    return {"profile": p, "events": events}, x.trace


def flood(r, n):
    """A great many requests of every kind waiting at once, answered in any order, and as many invocations."""
    p = profile(r, n)
    p["custom"] = False
    x = Execution(p)
    events = []

    def do(**e):
        e = finer(r, dict(e, bad=False))
        events.append(e)
        x.step(e)

    def reply(mt, q, **more):
        if r.random() < 0.15 and mt not in ("REGISTER", "SUBSCRIBE"):
            do(op="recv", t="ERROR", mt=mt, q=q)
        else:
            do(op="recv", t=REPLY[mt], q=q, **more)

    def order():
        how = r.randrange(3)
        return list(range(n)) if how == 0 else list(range(n))[::-1] if how == 1 else r.sample(range(n), n)

    for mt in ("CALL", "REGISTER", "SUBSCRIBE", "PUBLISH"):
        for q in range(n):
            do(op="send", t=mt, q=q, **({"pg": False} if mt == "CALL" else {"ack": True} if mt == "PUBLISH" else {}))
    for mt in ("REGISTER", "SUBSCRIBE"):
        for q in order():
            reply(mt, q, **({"reg": q} if mt == "REGISTER" else {"sub": q}))
    for i in order():
        do(op="recv", t="INVOCATION", inv=i, reg=i, pg=False)
        do(op="recv", t="EVENT", sub=i)
    for mt in ("UNREGISTER", "UNSUBSCRIBE"):
        for q in range(n):
            do(op="send", t=mt, q=q, **({"reg": q} if mt == "UNREGISTER" else {"sub": q}))
    for i in order():
        do(op="send", t="YIELD", inv=i, pg=r.random() < 0.1)
    for mt in ("CALL", "PUBLISH", "UNREGISTER", "UNSUBSCRIBE"):
        for q in order():
            reply(mt, q, **({"pg": False} if mt == "CALL" else {}))
    for i in r.sample(range(n), min(n, 10)):
        do(op="recv", t="EVENT", sub=i)
        do(op="send", t="YIELD", inv=i, pg=False)
        do(op="recv", t="RESULT", q=i, pg=False)
    return {"profile": p, "events": events}, x.trace


# ---------------------------------------------------------------- the check

NONE = dict(CallReqs="{}", RegReqs="{}", PubReqs="{}", SubReqs="{}", Regs="{}", Subs="{}", Invs="{}")
ONE, TWO = tset(["1"]), tset(["1", "2"])
CONFIGS = {
    "rpc": dict(NONE, CallReqs=ONE, RegReqs=TWO, Regs=TWO, Invs=ONE),
    "pubsub": dict(NONE, PubReqs=ONE, SubReqs=TWO, Subs=TWO),
    "mixed": dict(NONE, CallReqs=ONE, RegReqs=ONE, PubReqs=ONE, SubReqs=ONE, Regs=ONE, Subs=ONE, Invs=ONE),
}
DEEP = {
    "rpc, deep": dict(NONE, CallReqs=TWO, RegReqs=TWO, Regs=TWO, Invs=TWO),
    "pubsub, deep": dict(NONE, PubReqs=TWO, SubReqs=tset(["1", "2", "3"]), Subs=tset(["1", "2", "3"])),
}


def check(c):
    configs = dict(CONFIGS, **(DEEP if c.thorough else {}))
    models = {}
    for name, consts in configs.items():
        cfg = only_property(config("MCSession", **consts), c.pid)
        emit = "" if "deep" in name else "\nACTION_CONSTRAINT Emit\n"
        models[name] = background(tlc, "MCSession", cfg + emit, workers=3, timeout=3000)
    n, length = (8000, 150) if c.thorough else (700, 90)
    scripts, traces = [], []
    for i in range(n):
        r = scripted.rng(c, "session", i)
        s, t = wander(r, r.randint(length // 3, length))
        scripts.append(s)
        traces.append(t)
    for i in range(40 if c.thorough else 4):
        s, t = wander(scripted.rng(c, "session", "bulk", i), 900, 150)
        scripts.append(s)
        traces.append(t)
    for i, m in enumerate([40, 140, 1100, *([300] * 6 + [4200] if c.thorough else [2100] if c.pid == "C13" else [])]):
        s, t = flood(scripted.rng(c, "session", "flood", i), m)
        scripts.append(s)
        traces.append(t)
    for k in range(0, len(scripts), 2000):
        scripted.run(c, me, "session, random", scripts[k : k + 2000], traces[k : k + 2000])
    for name, model in models.items():
        res = model()
        c.model(f"session, {name}", res)
        if "deep" in name or c.violations:
            continue
        walks, covered, total = tours(res.prints["E"], None if c.thorough else 20000, rng=scripted.rng(c, "tour", name))
        c.details.setdefault("tours", {})[name] = {"transitions_carried_out": covered, "of": total, "walks": len(walks)}
        scripted.run(c, me, f"session, {name} tour", concretize(name, walks, c))
    if c.thorough:
        for name, consts in CONFIGS.items():
            text = config("MCSession", **consts).replace("C13", "VerdictRight C13")
            c.model(f"verdicts, {name}", tlc("MCSession", text, timeout=3000))


me = sys.modules[__name__]
