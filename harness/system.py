"""Client sessions, dealer and broker together: properties C17 and C32."""

import collections
import sys

from wampproto import messages as M
from wampproto.broker import Broker
from wampproto.dealer import Dealer
from wampproto.session import WAMPSession

import clock
import scripted
import values as V
import wampio
from core import background, config, guarded, idtok, opt, tlc, tours, tset
from session import SERS

driver = "system"
trace_module = "TraceSystem"
unchanged = None

REQUESTS = ("CALL", "REGISTER", "UNREGISTER", "PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE")
# what can be said in every serializer; byte strings only where no JSON is spoken
ARGS = [a for a in V.ARGS if not any(isinstance(x, bytes) for x in a or [])] + [
    [2**63 - 1, -(2**63), 2**64 - 1, 255, 256, 65535, 65536, 2**31, 2**32, -32, -33, -128, -129, -32769, -(2**31) - 1],
    [0.1, 1e300, 5e-324, -0.0, 2.0**53, -1.5, 1.0],
    ["\x00", "\u2028\u2029", "\x7f\x80", "\ufeff", '"\\/\b\f\n\r\t', "e\u0301", "\U0010ffff"],
    ["x" * 31, "x" * 32, "x" * 255, "x" * 256, "x" * 65535, "x" * 65536],
    [False],
    [0],
    [""],
    [None, None],
    [[], [[]], [[], {}], {"": {}}],
    ["2026-01-01T00:00:00Z", "null", "true", "1", "1.0", "[1]", "{}", "NaN"],
    [[i] * i for i in range(20)],
    [{str(i): {str(j): i * j for j in range(4)} for i in range(20)}],
]
KWARGS = V.KWARGS + [
    {"1": 1, "01": 2, "true": 3, "null": None},
    {"procedure": "p", "topic": "t", "publisher": 1, "acknowledge": True, "ppt_scheme": "x", "ppt_serializer": "json"},
    {"x" * 300: 0, "\x00": "\x00", " ": " ", "__proto__": [], "self": 1, "message": 2, "details": {}, "options": {}},
    {"f": 1.0, "i": 1, "b": True, "s": "1"},
    {"z": 1, "a": 2, "m": 3},
]
BYTES = [[b"\x00\xff"], [b""], [b"\x00" * 300, "\x00"], [[b"a"], {"b": b"b"}, "a"], [bytes(range(256)) * 300], ["a", b"a"]]
CARRIED = ("INVOCATION", "RESULT", "EVENT", "ERROR")
SKIP = {"op": "skip", "r": {"k": "skip"}}


def unsaid():
    raise ValueError("the router could not serialize it")


class Client:
    """A client that keeps to the protocol: its session, its links, and what it knows."""

    sid = property(lambda self: V.anew(self.id))

    def __init__(self, sid, tok, ser, reqs):
        self.id = sid
        self.tok = tok
        self.here = True
        self.ser = SERS[ser]()  # of the router's end of the connection
        self.session = WAMPSession(SERS[ser]())
        self.up, self.down = collections.deque(), collections.deque()
        self.reqs = iter(reqs)
        self.regs, self.subs, self.invs = [], [], {}
        self.ending = {}  # request -> the id it gives up
        self.sent = []  # requests


class Execution:
    def __init__(self, profile):
        clock.begin(profile)
        self.p = profile
        self.dealer, self.broker = Dealer(), Broker()
        self.clients, self.of = [], {}
        for sid in profile["sids"]:
            self.connect(sid)
        self.regs, self.subs, self.invs = [], [], []  # as routed
        self.events, self.trace = [], []

    def connect(self, sid):
        n, before = len(self.clients), sum(c.sid == sid for c in self.clients)
        base = self.p["bases"][n % len(self.p["bases"])]
        d = V.person(self.p.get("who", 0), sid, n)

        def work():
            self.dealer.add_session(d)
            self.broker.add_session(d)

        how, _ = guarded(work)
        c = Client(sid, idtok(sid) + "'" * before, self.p["sers"][n % len(self.p["sers"])], self.requests(base))
        self.clients.append(c)
        self.of[sid] = c
        return {"op": "join", "s": c.tok, "r": {"k": "ok" if how == "ok" else "refused" if how == "raised" else how}}

    def who(self, sid):
        """The client that has this id now."""
        return next((c.tok for i, c in self.of.items() if i == sid), idtok(sid))

    @staticmethod
    def requests(base):
        if isinstance(base, int):
            return range(base, base + 10000)
        return base

    def proc(self, i):
        return V.name(self.p["procs"][i % len(self.p["procs"])])

    def step(self, e):
        ev = self.do(e) or SKIP
        self.events.append(e)
        self.trace.append(ev)
        return ev

    def do(self, e):
        op = e["op"]
        if op == "probe":
            return self.probe()
        if op == "join":
            old = [c.sid for c in self.clients if not c.here and c.sid not in self.of]
            n = e["as"]
            sid = old[n % len(old)] if old and n is not None else next(i for i in self.p["more"] if all(i != c.sid for c in self.clients))
            return self.connect(sid)
        c = self.clients[e["s"] % len(self.clients)]
        return getattr(self, op)(c, e) if c.here else None

    def leave(self, c, e):
        c.here = False
        del self.of[c.sid]
        c.up.clear()
        c.down.clear()

        def work():
            for part in (self.dealer, self.broker) if e["first"] else (self.broker, self.dealer):
                part.remove_session(c.sid)

        how, _ = guarded(work)
        return {"op": "leave", "s": c.tok, "r": {"k": "ok" if how == "ok" else "refused" if how == "raised" else how}}

    # -------------------------------------------------------- clients

    def message(self, c, e):
        """The message and what is said about it, or nothing if this client would not send it."""
        t = e["t"]
        a, k = V.get(ARGS if 0 in self.p["sers"] else ARGS + BYTES, e.get("a", 0)), V.get(KWARGS, e.get("k", 0))
        said = {"a": opt(a), "k": opt(k)}
        if t in ("YIELD", "ERROR"):
            i = self.nth(self.invs, e["inv"])
            if i not in c.invs:
                return None
            if t == "ERROR":
                u = V.URIS[e.get("u", 1) % len(V.URIS)]
                msg = M.Error(M.ErrorFields(M.Invocation.TYPE, i, u, a, k, {}))
                return msg, dict(said, mt="INVOCATION", req=idtok(i), uri=wampio.uri(u))
            pg = bool(e.get("pg")) and c.invs[i]
            return M.Yield(M.YieldFields(i, a, k, {"progress": True} if pg else {})), dict(said, inv=idtok(i), pg=pg)
        # what is given up must be known before a request id is used for it
        if t == "UNREGISTER":
            g = self.nth(self.regs, e["reg"])
            if g not in c.regs or ("reg", g) in c.ending.values():
                return None
        if t == "UNSUBSCRIBE":
            g = self.nth(self.subs, e["sub"])
            if g not in c.subs or ("sub", g) in c.ending.values():
                return None
        q = next(c.reqs, None)
        if q is None:
            return None
        ev = {"req": idtok(q)}
        if t == "CALL":
            o = {"receive_progress": True} if e["rp"] else {}
            ev.update(said, rp=bool(e["rp"]))
            return M.Call(M.CallFields(q, self.proc(e["proc"]), a, k, o)), ev
        if t == "REGISTER":
            return M.Register(M.RegisterFields(q, self.proc(e["proc"]))), ev
        if t == "UNREGISTER":
            ev["reg"] = idtok(g)
            c.ending[q] = ("reg", g)
            return M.Unregister(M.UnregisterFields(q, g)), ev
        if t == "PUBLISH":
            ev.update(said, ack=bool(e["ack"]))
            o = {"acknowledge": True} if e["ack"] else {}
            return M.Publish(M.PublishFields(q, self.proc(e["topic"]), a, k, o)), ev
        if t == "SUBSCRIBE":
            return M.Subscribe(M.SubscribeFields(q, self.proc(e["topic"]))), ev
        ev["sub"] = idtok(g)
        c.ending[q] = ("sub", g)
        return M.Unsubscribe(M.UnsubscribeFields(q, g)), ev

    @staticmethod
    def nth(ids, n):
        return ids[n - 1] if 0 < n <= len(ids) else None

    def send(self, c, e):
        x = self.message(c, e)
        if x is None:
            return None
        msg, ev = x
        ev.update(op="send", s=c.tok, t=e["t"])
        how, data = guarded(lambda: c.session.send_message(msg))
        ev["r"] = {"k": "ok" if how == "ok" else "refused" if how == "raised" else how}
        if e["t"] in REQUESTS:
            c.sent.append((e["t"], msg.request_id))
        if how == "ok":
            c.up.append(data)
            if e["t"] == "ERROR" or (e["t"] == "YIELD" and not ev["pg"]):
                c.invs.pop(msg.request_id, None)
        return ev

    def recv(self, c, e):
        if not c.down:
            return None
        data, routed = c.down.popleft()
        ev = dict(routed, op="recv", s=c.tok)
        ev.pop("to", None)
        how, msg = guarded(lambda: c.session.receive(data() if callable(data) else data))
        ev["r"] = {"k": "ok" if how == "ok" else "refused" if how == "raised" else how}
        if how == "ok" and self.output(c.sid, msg) != routed:
            ev["r"] = {"k": "odd"}  # not the message that was routed
        heard = wampio.fields(msg) if how == "ok" else {}
        if ev.get("t") in CARRIED:
            ev.update({x: heard.get(x, "?") for x in ("a", "k", "uri")})
        if how == "ok":
            if isinstance(msg, M.Registered) and msg.registration_id not in c.regs:
                c.regs.append(msg.registration_id)
            elif isinstance(msg, M.Subscribed) and msg.subscription_id not in c.subs:
                c.subs.append(msg.subscription_id)
            elif isinstance(msg, M.Invocation):
                c.invs[msg.request_id] = wampio.flag(msg.details, "receive_progress")
            elif isinstance(msg, (M.Unregistered, M.Unsubscribed)) and msg.request_id in c.ending:
                kind, g = c.ending.pop(msg.request_id)
                held = c.regs if kind == "reg" else c.subs
                if g in held:
                    held.remove(g)
            elif isinstance(msg, M.Error):
                c.ending.pop(msg.request_id, None)
        return ev

    # -------------------------------------------------------- router

    def route(self, c, e):
        if not c.up:
            return None
        data = c.up.popleft()
        outs = []

        def work():
            msg = c.ser.deserialize(data)
            if isinstance(msg, M.Publish):
                pub = self.broker.receive_publish(c.sid, msg)
                out = [] if pub.event is None else [(r, pub.event) for r in pub.recipients]
                if pub.ack is not None:
                    ack = [(pub.ack.recipient, pub.ack.message)]
                    out = ack + out if self.p["ack first"] else out + ack
            else:
                part = self.broker if isinstance(msg, (M.Subscribe, M.Unsubscribe)) else self.dealer
                v = part.receive_message(c.sid, msg)
                out = [] if v is None else [(v.recipient, v.message)]
            return msg, out

        ev = {"op": "route", "s": c.tok, "t": "?"}
        how, v = guarded(work)
        if how == "ok":
            msg, out = v
            ev["t"] = wampio.name(msg)
            self.about(ev, msg)
            for to, m in out:
                o = self.output(to, m)
                outs.append(o)
                k = next((c for i, c in self.of.items() if i == to), None)
                if k is not None:
                    if self.p.get("late"):  # it waits as it is
                        k.down.append((lambda k=k, m=m: k.ser.serialize(m), o))
                        continue
                    how, data = guarded(lambda: k.ser.serialize(m))
                    k.down.append((data if how == "ok" else unsaid, o))
            how = "ok"
        else:
            try:
                msg = c.ser.deserialize(data)
                ev["t"] = wampio.name(msg)
                self.about(ev, msg)
            except Exception:
                pass
        ev["outs"] = outs
        ev["r"] = {"k": "ok" if how == "ok" else "refused" if how == "raised" else how}
        return ev

    @staticmethod
    def about(ev, msg):
        if isinstance(msg, M.Yield):
            ev.update(inv=idtok(msg.request_id), pg=wampio.flag(msg.options, "progress"))
        elif hasattr(msg, "request_id"):
            ev["req"] = idtok(msg.request_id)

    def output(self, to, m):
        t = wampio.name(m)
        f = wampio.fields(m)
        o = {"to": self.who(to), "t": t}
        if t == "INVOCATION":
            o.update(inv=f["id"], reg=f["reg"], rp=f["rp"])
        if t == "REGISTERED":
            o["reg"] = f["id"]
        if t == "SUBSCRIBED":
            o["sub"] = f["id"]
        o.update({x: f[x] for x in ("req", "mt", "sub") if x in f})
        if t == "RESULT":
            o["pg"] = f["pg"]
        ids = {"INVOCATION": self.invs, "REGISTERED": self.regs, "SUBSCRIBED": self.subs}.get(t)
        if ids is not None and wampio.new(m) not in ids:
            ids.append(wampio.new(m))
        return o

    # -------------------------------------------------------- when all is quiet

    def probe(self):
        """What clients hold and wait for and what the router holds for them, found out from outside."""
        if any(c.up or c.down for c in self.clients):
            return None
        router = self.router_holds()
        held, waiting = [], []

        def accepts(c, msg):
            return guarded(lambda: c.session.receive_message(msg))[0] == "ok"

        for c in self.of.values():
            fresh = iter(i for i in range(2**52, 2**53) if i not in self.invs)
            for g in self.regs:
                if accepts(c, M.Invocation(M.InvocationFields(next(fresh), g))):
                    held.append({"s": c.tok, "kind": "reg", "id": idtok(g)})
            for g in self.subs:
                if accepts(c, M.Event(M.EventFields(g, 1))):
                    held.append({"s": c.tok, "kind": "sub", "id": idtok(g)})
            for t, q in c.sent:
                if accepts(c, M.Error(M.ErrorFields(wampio.NUMBERS[t], q, "com.x.e"))):
                    waiting.append({"s": c.tok, "mt": t, "req": idtok(q)})
        return {"op": "probe", "held": held, "router": router, "waiting": waiting, "r": {"k": "probe"}}

    def router_holds(self):
        sid = next(i for i in range(1, 1000) if all(i != c.sid for c in self.clients))
        holds = []

        def ask():
            d = V.person(self.p.get("who", 0), sid, 1)
            self.dealer.add_session(d)
            self.broker.add_session(d)
            for n, i in enumerate(self.p["procs"]):
                v = self.dealer.receive_message(sid, M.Call(M.CallFields(1000 + n, V.name(i))))
                if isinstance(v.message, M.Invocation):
                    holds.append({"s": self.who(v.recipient), "kind": "reg", "id": idtok(v.message.registration_id)})
                v = self.broker.receive_publish(sid, M.Publish(M.PublishFields(2000 + n, V.name(i))))
                for r in v.recipients or []:
                    holds.append({"s": self.who(r), "kind": "sub", "id": idtok(v.event.subscription_id)})

        how, _ = guarded(ask)
        if how != "ok":
            holds.append({"s": "?", "kind": "?", "id": how})
        return holds

    def settle(self, r):
        """Lets all links run empty."""
        for _ in range(10000):
            busy = [("route", i) for i, c in enumerate(self.clients) if c.up]
            busy += [("recv", i) for i, c in enumerate(self.clients) if c.down]
            if not busy:
                break
            op, i = r.choice(busy)
            self.step({"op": op, "s": i})

    def finish(self, r, departing):
        self.settle(r)
        if r.random() < departing:
            self.depart(r)
        self.step({"op": "probe"})

    def depart(self, r):
        """They leave one after another, with or without giving things up and hearing of it first."""
        for i in r.sample(range(len(self.clients)), len(self.clients)):
            c = self.clients[i]
            for held, t in ((self.regs, "UNREGISTER"), (self.subs, "UNSUBSCRIBE")):
                mine = c.regs if held is self.regs else c.subs
                for g in r.sample(mine, r.randint(0, len(mine))):
                    if g in held:
                        self.step({"op": "send", "s": i, "t": t, t[2:5].lower(): held.index(g) + 1})
            if r.random() < 0.7:
                self.settle(r)
            if c.here and r.random() < 0.8:
                self.step({"op": "leave", "s": i, "first": r.random() < 0.5})
        self.settle(r)


def execute(script):
    x = Execution(script["profile"])
    for e in script["events"]:
        x.step(e)
    return x.trace


# ---------------------------------------------------------------- schedules


def profile(r, n):
    sids = r.choice([list(range(1, n + 1)), r.sample(V.IDS, n), V.alike(r)[:n], r.sample(range(1, 2**53), n)])
    bases = [1, 250, 2**31 - 3, 2**32 - 3, 2**53 - 200]
    base = r.choice(bases)
    kind = r.randrange(3)
    if kind == 0:
        bs = [base] * n
    elif kind == 1:
        bs = [r.choice(bases) for _ in range(n)]
    else:
        bs = [r.sample(range(1, 60), 50) for _ in range(n)]
    ser = r.randrange(4)
    return {
        "sids": sids,
        "more": r.sample(range(1, 2**53), 20),
        "sers": [r.randrange(3) if ser == 3 else ser for _ in range(n)],
        "bases": bs,
        "who": r.randrange(20),
        "procs": r.sample(V.CONFUSABLE if r.random() < 0.4 else range(len(V.PROCS)), 4),
        "late": r.randrange(2),
        "ack first": r.random() < 0.5,
    }


def finer(r, e):
    if e["op"] == "send":
        e.update(a=r.randrange(len(ARGS) + len(BYTES)), k=r.randrange(len(KWARGS)), u=r.randrange(len(V.URIS)))
    return e


def carry_out(label, walks, check):
    """The walks through the model's state graph on the real parts."""
    scripts, traces = [], []
    for j, walk in enumerate(walks):
        r = scripted.rng(check, "system", label, j)
        joins = [e["s"] for e in walk if e["op"] == "join"]
        start = sorted({"1", "2"} | {e["s"] for e in walk if "s" in e} - set(joins))
        index = {s: i for i, s in enumerate(start + joins)}
        x = Execution(profile(r, len(start)))
        for e in walk:
            if e["op"] == "probe":
                continue
            c = {"op": e["op"], "s": index[e["s"]]}
            if e["op"] == "join":
                c = {"op": "join", "as": r.choice([None, 0, 0])}
            if e["op"] == "leave":
                c["first"] = r.random() < 0.5
            if e["op"] == "send":
                c["t"] = e["t"]
                for f in ("proc", "topic"):
                    if f in e:
                        c[f] = "pqr".index(e[f])
                for f in ("reg", "sub", "inv"):
                    if f in e:
                        c[f] = int(e[f][1:])
                if e["t"] == "ERROR":
                    c["inv"] = int(e["req"][1:])
                for f in ("rp", "pg", "ack"):
                    if f in e:
                        c[f] = e[f]
            x.step(finer(r, c))
        x.finish(r, 0.5)
        scripts.append({"profile": x.p, "events": x.events})
        traces.append(x.trace)
    return scripts, traces


def wander(r, length):
    n = r.choice([2, 2, 3, 4])
    x = Execution(profile(r, n))
    np = r.choice([1, 2, 3])
    kinds = {
        "CALL": r.choice([1, 3]),
        "REGISTER": r.choice([0.5, 1.5]),
        "UNREGISTER": r.choice([0.5, 2]),
        "PUBLISH": r.choice([0.5, 2]),
        "SUBSCRIBE": r.choice([0.5, 2]),
        "UNSUBSCRIBE": r.choice([0.5, 2]),
        "YIELD": r.choice([1, 4]),
        "ERROR": r.choice([0.2, 1]),
    }
    part = r.choice([None, None, "rpc", "pubsub"])
    for t in kinds:
        if part == "rpc" and t in ("PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE") or part == "pubsub" and t not in ("PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE"):
            kinds[t] = 0
    w = [1, r.choice([0.3, 1, 2]), r.choice([0.3, 1, 2])]
    progress = r.choice([0, 0.5, 0.8])
    moves = r.choice([0, 0, 0.01, 0.04, 0.1])  # how often clients come and go
    for _ in range(length):
        op = r.choices(["send", "route", "recv"], w)[0]
        if r.random() < moves:
            if len(x.of) > 1 and r.random() < 0.6:
                x.step({"op": "leave", "s": r.choice([i for i, c in enumerate(x.clients) if c.here]), "first": r.random() < 0.5})
            elif len(x.clients) < 16:
                x.step({"op": "join", "as": r.choice([None, 0, r.randrange(4)])})
            continue
        s = r.choice([i for i, c in enumerate(x.clients) if c.here])
        if op != "send":
            some = [i for i, c in enumerate(x.clients) if (c.up if op == "route" else c.down)]
            if some:
                x.step({"op": op, "s": r.choice(some)})
            continue
        c = x.clients[s]
        able = dict(kinds)
        if not c.invs:
            able["YIELD"] = able["ERROR"] = 0
        if not c.regs:
            able["UNREGISTER"] = 0
        if not c.subs:
            able["UNSUBSCRIBE"] = 0
        t = r.choices(list(able), list(able.values()))[0]
        e = {"op": "send", "s": s, "t": t}
        if t in ("CALL", "REGISTER"):
            e["proc"] = r.randrange(np)
        if t in ("SUBSCRIBE", "PUBLISH"):
            e["topic"] = r.randrange(np)
        if t == "CALL":
            e["rp"] = r.random() < 0.6
        if t == "PUBLISH":
            e["ack"] = r.random() < 0.6
        try:
            if t == "UNREGISTER":
                e["reg"] = x.regs.index(r.choice(c.regs)) + 1
            if t == "UNSUBSCRIBE":
                e["sub"] = x.subs.index(r.choice(c.subs)) + 1
            if t in ("YIELD", "ERROR"):
                e["inv"] = x.invs.index(r.choice(list(c.invs))) + 1
                e["pg"] = r.random() < progress
        except (ValueError, IndexError):
            continue
        x.step(finer(r, e))
    x.finish(r, 0.6)
    return {"profile": x.p, "events": x.events}, x.trace


def crowd(r, n):
    """Clients that hold and wait for many things at once."""
    p = profile(r, 3)
    p["procs"] = list(range(n))
    p["bases"] = [r.choice([1, 2**32 - 3, 2**53 - 9000])] * 3
    x = Execution(p)

    def send(s, t, **e):
        x.step(finer(r, dict(e, op="send", s=s, t=t)))

    def settle(share=1.0):
        while True:
            busy = [("route", i) for i, c in enumerate(x.clients) if c.up] + [("recv", i) for i, c in enumerate(x.clients) if c.down]
            if not busy or r.random() > share:
                return
            op, s = r.choice(busy)
            x.step({"op": op, "s": s})

    for i in range(n):
        send(0, "REGISTER", proc=i)
        send(1, "SUBSCRIBE", topic=i)
        if r.random() < 0.5:
            settle(0.9)
    settle()
    for i in r.sample(range(n), n):
        send(1, "CALL", proc=i, rp=r.random() < 0.5)
        send(2, "PUBLISH", topic=i, ack=r.random() < 0.5)
        if r.random() < 0.5:
            settle(0.9)
    settle()
    c = x.clients[0]
    for i in r.sample(list(c.invs), len(c.invs)):
        t = r.choice(["YIELD", "YIELD", "ERROR"])
        for pg in (r.random() < 0.3, False):
            send(0, t, inv=x.invs.index(i) + 1, pg=pg)
    settle()
    for held, t, s in (("regs", "UNREGISTER", 0), ("subs", "UNSUBSCRIBE", 1)):
        for g in r.sample(getattr(x.clients[s], held), n // 2):
            send(s, t, **{held[:-1]: getattr(x, held).index(g) + 1})
    x.finish(r, 0)
    return {"profile": x.p, "events": x.events}, x.trace


# ---------------------------------------------------------------- the check

NONE, ONE = "{}", tset(["p"])
CONFIGS = {
    "rpc": dict(Procs=ONE, Topics=NONE, MaxReq=3),
    "pubsub": dict(Procs=NONE, Topics=ONE, MaxReq=4),
    "mixed": dict(Procs=ONE, Topics=ONE, MaxReq=3),
    "leaving": dict(Sess=tset(["1", "2", "3"]), Procs=ONE, Topics=ONE, MaxReq=2, MaxLeave=1),
}
DEEP = {
    "rpc, deep": dict(Procs=ONE, Topics=NONE, MaxReq=5, MaxSess=4),
    "rpc, 3 clients": dict(Sess=tset(["1", "2", "3"]), Start=tset(["1", "2", "3"]), Procs=ONE, Topics=NONE, MaxReq=4),
    "pubsub, deep": dict(Procs=NONE, Topics=tset(["p", "q"]), MaxReq=5, MaxSess=4),
    "pubsub, 3 clients": dict(Sess=tset(["1", "2", "3"]), Start=tset(["1", "2", "3"]), Procs=NONE, Topics=ONE, MaxReq=5),
    "mixed, deep": dict(Procs=ONE, Topics=ONE, MaxReq=4),
    "leaving, rpc": dict(Sess=tset(["1", "2", "3"]), Procs=ONE, Topics=NONE, MaxReq=4, MaxLeave=1),
    "leaving, pubsub": dict(Sess=tset(["1", "2", "3"]), Procs=NONE, Topics=ONE, MaxReq=4, MaxLeave=2),
}


def check(c):
    models = {
        name: background(tlc, "MCSystem", config("MCSystem", **k) + "\nACTION_CONSTRAINT Emit\n", workers=3)
        for name, k in CONFIGS.items()
    }
    models["liveness"] = background(tlc, "MCSystem", config("LiveSystem"), workers=2)
    n, length = (3000, 160) if c.thorough else (500, 120)
    made = [wander(scripted.rng(c, "system", i), length) for i in range(n)]
    for k in range(0, n, 500):
        part = made[k : k + 500]
        scripted.run(c, me, "system, random", [s for s, _ in part], [t for _, t in part])
    many = [crowd(scripted.rng(c, "system crowd", i), m) for i, m in enumerate((12, 40, 150) + ((300, 1100) if c.thorough else ()))]
    scripted.run(c, me, "system, many at once", [s for s, _ in many], [t for _, t in many])
    for name, model in models.items():
        res = model()
        c.model(f"system, {name}", res)
        if name == "liveness" or c.violations:
            continue
        walks, covered, total = tours(
            res.prints["E"], None if c.thorough else 6000, maxlen=100, rng=scripted.rng(c, "tour", name)
        )
        c.details.setdefault("tours", {})[name] = {"transitions_carried_out": covered, "of": total, "walks": len(walks)}
        scripts, traces = carry_out(name, walks, c)
        scripted.run(c, me, f"system, {name} tour", scripts, traces)
    if c.thorough:
        for name, k in DEEP.items():
            c.model(f"system, {name}", tlc("MCSystem", config("MCSystem", **k), timeout=3000))


me = sys.modules[__name__]
