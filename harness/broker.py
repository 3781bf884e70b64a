"""The broker: properties C07-C12."""

import sys

from wampproto import messages as M
from wampproto.broker import Broker

import clock
import scripted
import values as V
import wampio
from core import background, config, guarded, idtok, only_property, opt, tlc, tours, tset
from dealer import Execution as Dealing
from dealer import jump, profile, reread

driver = "broker"
trace_module = "TraceBroker"
unchanged = "C11"

MESSAGES = ("subscribe", "unsubscribe", "publish")
OTHERS = sorted(set(wampio.NUMBERS) - {"SUBSCRIBE", "UNSUBSCRIBE", "PUBLISH"})


def published(v):
    """A Publication as a reply."""
    evs, acks = [], []
    if v.event is not None:
        f = {"sub": "?", "id": "?", "idn": [-1, 0], "a": "?", "k": "?"}
        if isinstance(v.event, M.Event):
            f.update(wampio.fields(v.event))
        evs = [f]
    if v.ack is not None:
        a = wampio.addressed(v.ack)
        if a.get("t") == "PUBLISHED" and "id" not in a["f"]:
            a = {"k": "odd"}
        acks = [a]
    return {"k": "pub", "to": [idtok(i) for i in (v.recipients or [])], "evs": evs, "acks": acks}


class Execution:
    """One broker, driven event by event."""

    def __init__(self, profile):
        clock.begin(profile)
        self.p = profile
        self.broker = Broker()
        self.subs = []  # ids as handed out, without repetition
        self.trace = []
        self.replies = []  # events and what they returned, to be read again
        self.kept = {}  # messages
        if profile.get("jump"):
            jump(self.broker, profile["jump"])

    def sid(self, i):
        return V.anew(self.p["sids"][i % len(self.p["sids"])])

    def topic(self, i):
        return V.name(self.p["procs"][i % len(self.p["procs"])])

    def req(self, i):
        return V.anew(self.p["reqs"][i % len(self.p["reqs"])])

    def ident(self, n):
        if 0 < n <= len(self.subs):
            return V.anew(self.subs[n - 1])
        known = [i for i in self.subs if isinstance(i, int)]
        wild = [max(known, default=0) + 1000003, max(known, default=0) + 1, 2**53, self.req(0), 999]
        wild += [i + (1 << k) for i in known[-1:] for k in (8, 16, 31, 32)]
        v = wild[-n % len(wild)] if n <= 0 else wild[0]
        return v if v not in self.subs else wild[0]

    def message(self, e):
        op = e["op"]
        if op == "subscribe":
            return M.Subscribe(M.SubscribeFields(self.req(e["q"]), self.topic(e["topic"]), V.options(V.SUBSCRIBE_OPTIONS, e.get("o", 0))))
        if op == "unsubscribe":
            return M.Unsubscribe(M.UnsubscribeFields(self.req(e["q"]), self.ident(e["sub"])))
        if op == "publish":
            o = V.options(V.PUBLISH_OPTIONS, e.get("o", 0), self.p["sids"])
            if e["ack"] is not None:
                o["acknowledge"] = e["ack"]
            a, k = V.get(V.ARGS, e["a"]), V.get(V.KWARGS, e["k"])
            return M.Publish(M.PublishFields(self.req(e["q"]), self.topic(e["topic"]), a, k, o))
        return wampio.one_of_each(self.req(0))[e["t"]]()

    def step(self, e):
        op = e["op"]
        b = self.broker
        ev = {"op": op}
        if op == "hassub":
            ev["topic"] = wampio.uri(self.topic(e["topic"]))
            how, v = guarded(lambda: b.has_subscription(self.topic(e["topic"])))
            r = {"k": "bool", "v": bool(v)} if how == "ok" else None
        else:
            sid = self.sid(e["s"])
            ev["s"] = idtok(sid)
            if op == "attach":
                how, v = guarded(lambda: b.add_session(V.person(self.p.get("who", 0), sid, len(self.trace))))
                r = {"k": "ok"}
            elif op == "detach":
                how, v = guarded(lambda: b.remove_session(sid))
                r = {"k": "ok"}
            else:
                msg = self.message(e)
                if e.get("ser"):
                    msg = wampio.wire(msg, e["ser"])
                if op in ("subscribe", "publish"):
                    ev["req"], ev["topic"] = idtok(msg.request_id), wampio.uri(msg.topic)
                if op == "publish":
                    ev["a"], ev["k"] = opt(msg.args), opt(msg.kwargs)
                    ev["ack"] = wampio.flag(msg.options, "acknowledge")
                if op == "unsubscribe":
                    ev["req"], ev["sub"] = idtok(msg.request_id), idtok(msg.subscription_id)
                if op == "other":
                    ev["t"] = e["t"]
                msg = Dealing.again(self, ev, e, msg)
                how, v = guarded(lambda: (b.receive_publish if op == "publish" else b.receive_message)(sid, msg))
                r = None
                if how == "ok":
                    reader = published if op == "publish" else wampio.addressed
                    how, r = guarded(lambda: reader(v))
                    self.replies.append((ev, v, reader))
                    if how != "ok":
                        how, r = "ok", {"k": "odd"}
                    if r.get("t") == "SUBSCRIBED" and wampio.new(v.message) not in self.subs:
                        self.subs.append(wampio.new(v.message))
        ev["r"] = r if how == "ok" else {"k": "refused" if how == "raised" else how}
        self.trace.append(ev)
        return ev

    def finish(self):
        """The trace; what was returned must still say the same."""
        if self.p.get("late"):
            for ev, v, reader in self.replies:
                ev["r"] = reread(ev["r"], v, reader)
        return self.trace


def execute(script):
    x = Execution(script["profile"])
    for e in script["events"]:
        x.step(e)
    return x.finish()


def values(r):
    return {"a": r.randrange(len(V.ARGS)), "k": r.randrange(len(V.KWARGS)), "o": r.choice([0, 0, r.randrange(30)]), "ser": r.randrange(4)}


def concretize(walks, check):
    scripts = []
    for j, walk in enumerate(walks):
        r = scripted.rng(check, "broker", "tour", j)
        events = []
        for e in walk:
            c = {"op": e["op"]}
            if "s" in e:
                c["s"] = int(e["s"]) - 1
            if "topic" in e:
                c["topic"] = "pqr".index(e["topic"])
            if "req" in e:
                c["q"] = r.randrange(4)
            if "sub" in e:
                c["sub"] = int(e["sub"][1:])
            if e["op"] in ("publish", "subscribe"):
                c.update(values(r))
            if e["op"] == "publish":
                c["ack"] = e["ack"] or r.choice([None, False])
            if e["op"] == "other":
                c["t"] = r.choice(OTHERS)
            events.append(c)
        scripts.append({"profile": profile(r), "events": events})
    return scripts


def wander(r, length, jump=None):
    """A random schedule, made while it runs so that most events have an effect."""
    p = profile(r, r.choice([2, 3, 4, 4]))
    if jump:
        p["jump"] = jump
    x = Execution(p)
    ns, nt = len(p["sids"]), r.choice([1, 2, 3, 4])
    w = {
        "attach": r.choice([1, 2]),
        "detach": r.choice([0, 0.5, 1, 2]),
        "hassub": 0.8,
        "subscribe": r.choice([2, 4]),
        "unsubscribe": r.choice([0.5, 2, 3]),
        "publish": r.choice([3, 6]),
        "other": 0.3,
    }
    foul = r.choice([0.05, 0.2, 0.4])
    up = set()
    held = {}  # session -> ids it was given, as far as this driver knows
    events = []
    repeats = r.choice([0, 0.1])

    def do(e):
        events.append(e)
        return x.step(e)

    for _ in range(length):
        if events and r.random() < repeats:
            e = r.choice(events[-20:])
            if e["op"] in MESSAGES:
                do(dict(e))
                continue
        op = r.choices(list(w), list(w.values()))[0]
        wild = r.random() < foul
        s = r.randrange(ns)
        if len(up) < 2 and r.random() < 0.7:
            op = "attach"
        if op == "attach":
            if not wild and len(up) < ns:
                s = r.choice([i for i in range(ns) if i not in up])
            if do({"op": op, "s": s})["r"]["k"] == "ok":
                up.add(s)
            continue
        if up and not wild:
            s = r.choice(sorted(up))
        if op == "detach":
            if do({"op": op, "s": s})["r"]["k"] == "ok":
                up.discard(s)
                if not wild:
                    held.pop(s, None)
        elif op == "hassub":
            do({"op": op, "topic": r.randrange(nt)})
        elif op == "subscribe":
            ev = do({"op": op, "s": s, "q": r.randrange(4), "topic": r.randrange(nt), **values(r)})
            if ev["r"].get("t") == "SUBSCRIBED":
                held.setdefault(s, []).append([idtok(i) for i in x.subs].index(ev["r"]["f"]["id"]) + 1)
        elif op == "unsubscribe":
            n = r.randint(-4, len(x.subs)) if wild or not held.get(s) else r.choice(held[s])
            ev = do({"op": op, "s": s, "q": r.randrange(4), "sub": n})
            if ev["r"].get("t") == "UNSUBSCRIBED" and r.random() < 0.8 and n in held.get(s, []):
                held[s] = [i for i in held[s] if i != n]
        elif op == "publish":
            do({"op": op, "s": s, "q": r.randrange(4), "topic": r.randrange(nt), **values(r), "ack": r.choice([None, False, True, True])})
        else:
            do({"op": op, "s": s, "t": r.choice(OTHERS)})
    return {"profile": p, "events": events}, x.finish()


def bulk(r):
    """Many sessions, topics and subscriptions at once."""
    ns, nt = r.choice([12, 40]), r.choice([30, 90])
    p = {"sids": r.sample(range(1, 2**53), ns), "procs": list(range(nt)), "reqs": list(range(1, 400))}
    x = Execution(p)
    held, n = set(), {}

    def do(e):
        events.append(e)
        return x.step(e)

    def publish():
        s, t = r.randrange(ns), r.choice([0, 0, 1, r.randrange(nt)])
        do({"op": "publish", "s": s, "q": r.randrange(400), "topic": t, **values(r), "ack": r.choice([None, True])})

    def subscribe(s, t):
        ev = do({"op": "subscribe", "s": s, "q": r.randrange(400), "topic": t, "o": 0})
        if ev["r"].get("t") == "SUBSCRIBED":
            n[s, t] = [idtok(i) for i in x.subs].index(ev["r"]["f"]["id"]) + 1
            held.add((s, t))

    events = []
    for s in range(ns):
        do({"op": "attach", "s": s})
    for s in range(ns):
        subscribe(s, 0)
        publish()
    for t in range(nt):
        subscribe(0, t)
    for _ in range(60):
        subscribe(r.randrange(ns), r.randrange(nt))
        publish()
    gone = r.sample(range(ns), ns // 4)
    for s in gone:
        do({"op": "detach", "s": s})
        publish()
    held = {(s, t) for s, t in held if s not in gone}
    for s, t in r.sample(sorted(held), len(held) // 2):
        do({"op": "unsubscribe", "s": s, "q": r.randrange(400), "sub": n[s, t]})
        publish()
    for t in range(nt):
        do({"op": "hassub", "topic": t})
    for _ in range(40):
        subscribe(r.randrange(ns), r.randrange(nt))
        publish()
    return {"profile": p, "events": events}, x.finish()


def flood(r, n):
    """A great many subscribers of one topic, and topics of one subscriber."""
    p = {"sids": r.sample(range(1, 2**53), n), "procs": list(range(n)), "reqs": list(range(1, 400))}
    x = Execution(p)
    events = []

    def do(e):
        events.append(e)
        return x.step(e)

    def publish(t, ack=None):
        do({"op": "publish", "s": r.randrange(2), "q": r.randrange(400), "topic": t, **values(r), "ack": ack})

    for s in range(n):
        do({"op": "attach", "s": s})
    for s in range(1, n):
        do({"op": "subscribe", "s": s, "q": s % 400, "topic": 0, "o": 0})
        if s % 29 == 0:
            publish(0)
    for t in range(1, n):
        do({"op": "subscribe", "s": 1, "q": t % 400, "topic": t, "o": 0})
    publish(0, True)
    for t in r.sample(range(n), min(n, 12)):
        publish(t)
    for s in r.sample(range(2, n), n // 2):
        if r.random() < 0.5:
            do({"op": "detach", "s": s})
        else:
            do({"op": "unsubscribe", "s": s, "q": 1, "sub": 1})
    publish(0)
    for t in r.sample(range(1, n), n // 2):
        do({"op": "unsubscribe", "s": 1, "q": 1, "sub": t + 1})
    for t in r.sample(range(n), min(n, 12)):
        publish(t)
        do({"op": "hassub", "topic": t})
    do({"op": "detach", "s": 1})
    for t in r.sample(range(n), min(n, 12)):
        publish(t)
        do({"op": "hassub", "topic": t})
    return {"profile": p, "events": events}, x.finish()


SMALL = dict(Sess=tset(["1", "2"]), Topic=tset(["p", "q"]), MaxSub=3, MaxGone=2)
MID = dict(Sess=tset(["1", "2", "3"]), Topic=tset(["p"]), MaxSub=2, MaxGone=1)
DEEP = dict(Sess=tset(["1", "2", "3"]), Topic=tset(["p", "q"]), MaxSub=4, MaxGone=2)


def check(c):
    extra = "\nACTION_CONSTRAINT Emit\n"
    small = background(tlc, "MCBroker", only_property(config("MCBroker", **SMALL), c.pid) + extra, workers=3)
    mid = background(tlc, "MCBroker", only_property(config("MCBroker", **MID), c.pid) + extra, workers=3)
    n, length = (4000, 120) if c.thorough else (400, 80)
    scripts, traces = [], []
    for i in range(n):
        r = scripted.rng(c, "broker", i)
        jump = r.choice([2**31 - 3, 2**32 - 2, 2**53 - 100]) if i % 10 == 0 else None
        s, t = wander(r, r.randint(length // 3, length), jump)
        scripts.append(s)
        traces.append(t)
    for i in range(40 if c.thorough else 4):
        s, t = bulk(scripted.rng(c, "broker", "bulk", i))
        scripts.append(s)
        traces.append(t)
    for i, m in enumerate([40, 140, 1100, *([200] * 10 + [2100, 4200] if c.thorough else [])]):
        s, t = flood(scripted.rng(c, "broker", "flood", i), m)
        scripts.append(s)
        traces.append(t)
    for k in range(0, len(scripts), 2000):
        scripted.run(c, me, "broker, random", scripts[k : k + 2000], traces[k : k + 2000])
    walks = []
    for name, res in (("broker, 2 sessions 2 topics", small()), ("broker, 3 sessions 1 topic", mid())):
        c.model(name, res)
        ws, covered, total = tours(res.prints["E"], None if c.thorough else 15000, rng=scripted.rng(c, "tour"))
        c.details.setdefault("tours", {})[name] = {"transitions_carried_out": covered, "of": total, "walks": len(ws)}
        walks += ws
    if not c.violations:
        scripted.run(c, me, "broker, tour", concretize(walks, c))
    if c.thorough:
        c.model("broker, deep", tlc("MCBroker", only_property(config("MCBroker", **DEEP), c.pid), timeout=3000))
        c.model(
            "broker, verdicts", tlc("MCBroker", config("MCBroker", **dict(SMALL, MaxSub=2)).replace("C07", "VerdictRight C07"))
        )


me = sys.modules[__name__]
