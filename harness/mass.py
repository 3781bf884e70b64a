"""Very many requests of one kind at a time, for Mass.tla: C01 to C16."""

import itertools
import sys

from wampproto import messages as M
from wampproto.broker import Broker
from wampproto.dealer import Dealer
from wampproto.serializers import JSONSerializer
from wampproto.session import WAMPSession
from wampproto.types import SessionDetails

import clock
import scripted
import values as V
from core import background, config, guarded, tlc

driver = "mass"
trace_module = "TraceMass"
unchanged = None
whole = True  # a violation is reported as it was found: to shrink it takes long


def refuses(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False


def numbers(r, how):
    """Request ids or session ids."""
    if how == "random":
        seen = set()
        while True:
            i = r.randrange(1, 2**53)
            if i not in seen:
                seen.add(i)
                yield i
    yield from itertools.count({"one": 1, "32": 2**32 - 1000, "wide": 7}[how], {"wide": 2**20}.get(how, 1))


class Part:
    def __init__(self, p):
        clock.begin(p)
        self.r = scripted.random.Random(p["seed"])
        self.ids = numbers(self.r, p["ids"])

    def take(self, xs, n):
        """n of xs, removed from it."""
        how = self.r.randrange(3)
        if how == 0:
            self.r.shuffle(xs)
        elif how == 1:
            xs.reverse()
        out = xs[len(xs) - n :]
        del xs[len(xs) - n :]
        return out

    def some(self, xs, n):
        return self.r.sample(xs, n)

    def step(self, e):
        ev = dict(e)
        self.fresh = set()

        def work():
            return getattr(self, e["op"])(ev)

        how, right = guarded(work, 60)
        if how == "ok":
            ev["r"] = {"k": "mass", "right": right, "fresh": len(self.fresh)}
        else:
            ev["r"] = {"k": "refused" if how == "raised" else how, "right": -1, "fresh": -1}
        return ev


def details(sid):
    return SessionDetails(sid, "realm1", "a", "r")


class DealerMass(Part):
    def __init__(self, p):
        super().__init__(p)
        self.d = Dealer()
        self.owners = p["sids"][:2]
        self.callers = p["sids"][2:4]
        self.other = p["sids"][4]
        for s in p["sids"]:
            self.d.add_session(details(s))
        self.reg, self.open, self.over, self.free, self.orphans, self.lost = [], [], [], [], [], []
        self.n = itertools.count(1)
        self.used = set()

    def new(self, kind, i):
        if (kind, i) not in self.used:
            self.used.add((kind, i))
            self.fresh.add(i)

    def ask(self, s, m):
        """The reply, or nothing if it is refused."""
        try:
            return self.d.receive_message(s, m)
        except Exception:
            return None

    def register(self, e):
        right = 0
        for _ in range(e["n"]):
            s = self.owners[e["by"]]
            q, proc = next(self.ids), f"com.p{next(self.n)}"
            v = self.ask(s, M.Register(M.RegisterFields(q, proc)))
            if v is not None and isinstance(v.message, M.Registered):
                right += v.recipient == s and v.message.request_id == q
                self.new("reg", v.message.registration_id)
                self.reg.append((proc, s, v.message.registration_id))
            else:
                self.reg.append((proc, s, 0))
        return right

    def taken(self, e):
        right = 0
        for proc, s, _ in self.some(self.reg, e["n"]):
            q, by = next(self.ids), self.r.choice([self.other, s])
            v = self.ask(by, M.Register(M.RegisterFields(q, proc)))
            right += v is not None and v.recipient == by and isinstance(v.message, M.Error) and v.message.message_type == 64 and v.message.request_id == q
        return right

    def invoked(self, s, q, proc, owner, reg, args, **options):
        v = self.ask(s, M.Call(M.CallFields(q, proc, args, None, options)))
        if v is None or not isinstance(v.message, M.Invocation):
            return 0, 0
        m = v.message
        self.new("inv", m.request_id)
        return m.request_id, v.recipient == owner and m.registration_id == reg and m.args == args

    def call(self, e):
        right = 0
        for j in range(e["n"]):
            proc, owner, reg = self.r.choice(self.reg) if e["n"] > 1 else self.reg[-1]
            s, q = self.callers[j % 2], next(self.ids)
            i, ok = self.invoked(s, q, proc, owner, reg, [j])
            right += ok
            self.open.append((i, owner, s, q))
        return right

    def stray(self, e):
        right = 0
        for i, owner, s, q in self.some(self.open, e["n"]):
            by = self.r.choice([x for x in (*self.owners, *self.callers, self.other) if x != owner])
            m = M.Yield(M.YieldFields(i, [0])) if self.r.random() < 0.5 else M.Error(M.ErrorFields(68, i, "com.e"))
            right += self.ask(by, m) is None
        return right

    def answered(self, i, owner, s, q, j):
        if j % 3:
            v, kind = self.ask(owner, M.Yield(M.YieldFields(i, [j]))), M.Result
        else:
            v, kind = self.ask(owner, M.Error(M.ErrorFields(68, i, "com.e", [j]))), M.Error
        return v is not None and v.recipient == s and isinstance(v.message, kind) and v.message.request_id == q and v.message.args == [j]

    def answer(self, e):
        xs = self.take(self.open, e["n"])
        right = sum(self.answered(*x, j) for j, x in enumerate(xs))
        self.over += xs
        return right

    def again(self, e):
        return sum(self.ask(x[1], M.Yield(M.YieldFields(x[0], [1]))) is None for x in self.some(self.over, e["n"]))

    def unregister(self, e):
        right = 0
        for proc, owner, reg in self.take(self.reg, e["n"]):
            q = next(self.ids)
            v = self.ask(owner, M.Unregister(M.UnregisterFields(q, reg)))
            right += v is not None and v.recipient == owner and isinstance(v.message, M.Unregistered) and v.message.request_id == q
            self.free.append(proc)
        return right

    def nobody(self, procs):
        right = 0
        for proc in procs:
            s, q = self.r.choice(self.callers), next(self.ids)
            v = self.ask(s, M.Call(M.CallFields(q, proc)))
            right += v is not None and v.recipient == s and isinstance(v.message, M.Error) and v.message.request_id == q
        return right

    def gone(self, e):
        return self.nobody(self.some(self.free, e["n"]))

    def orphan(self, e):
        e["n"] = min(len(self.orphans), 5000)
        return self.nobody(self.some(self.orphans, e["n"]))

    def leave(self, e):
        s = self.owners[1]
        mine = [x for x in self.reg if x[1] == s]
        asked = [x for x in self.open if x[1] == s]
        e.update(n=len(mine), calls=len(asked))
        self.reg = [x for x in self.reg if x[1] != s]
        self.open = [x for x in self.open if x[1] != s]
        self.orphans += [x[0] for x in mine]
        self.lost += asked
        self.d.remove_session(s)
        self.d.add_session(details(s))
        return len(mine)

    def dropped(self, e):
        e["n"] = min(len(self.lost), 5000)
        return sum(self.ask(x[1], M.Yield(M.YieldFields(x[0], [1]))) is None for x in self.some(self.lost, e["n"]))

    def parts(self, e):
        proc, owner, reg = self.r.choice(self.reg)
        s, q = self.callers[0], next(self.ids)
        first, right = None, 0
        for j in range(e["n"]):
            i, ok = self.invoked(s, q, proc, owner, reg, [j], progress=True)
            first = i if first is None else first
            right += ok and i == first
        i, ok = self.invoked(s, q, proc, owner, reg, [0])
        return right if ok and i == first and self.answered(i, owner, s, q, 1) else -1

    def progress(self, e):
        proc, owner, reg = self.r.choice(self.reg)
        s, q = self.callers[0], next(self.ids)
        i, ok = self.invoked(s, q, proc, owner, reg, [0], receive_progress=True)
        right = 0
        for j in range(e["n"]):
            v = self.ask(owner, M.Yield(M.YieldFields(i, [j], None, {"progress": True})))
            right += (
                v is not None
                and v.recipient == s
                and isinstance(v.message, M.Result)
                and v.message.request_id == q
                and bool(v.message.details.get("progress"))
                and v.message.args == [j]
            )
        return right if ok and self.answered(i, owner, s, q, 1) and self.ask(owner, M.Yield(M.YieldFields(i))) is None else -1


class BrokerMass(Part):
    def __init__(self, p):
        super().__init__(p)
        self.b = Broker()
        self.publisher, self.collector = p["sids"][:2]
        self.mine = []
        for s in p["sids"][:2]:
            self.b.add_session(details(s))
        self.sids = (i for i in numbers(self.r, p["who"]) if i not in p["sids"])
        self.att, self.sub = [], []
        self.id = None
        self.used = set()
        self.n = itertools.count(1)

    def new(self, kind, i):
        if (kind, i) not in self.used:
            self.used.add((kind, i))
            self.fresh.add(i)

    def ask(self, s, m):
        try:
            return self.b.receive_message(s, m)
        except Exception:
            return None

    def attach(self, e):
        right = 0
        for _ in range(e["n"]):
            s = next(self.sids)
            right += not refuses(self.b.add_session, details(s))
            self.att.append(s)
        return right

    def subscribed(self, s, topic):
        q = next(self.ids)
        v = self.ask(s, M.Subscribe(M.SubscribeFields(q, topic)))
        if v is None or not isinstance(v.message, M.Subscribed) or v.recipient != s or v.message.request_id != q:
            return None
        return v.message.subscription_id

    def subscribe(self, e):
        right = 0
        if not self.sub:
            self.id = None
        for s in self.take(self.att, e["n"]):
            i = self.subscribed(s, "t")
            self.id = i if self.id is None else self.id
            right += i is not None and i == self.id
            self.sub.append(s)
        return right

    def heard(self, topic, who):
        """How many of these hear it as they should; fewer if others do."""
        args = [next(self.n)]
        v = self.b.receive_publish(self.publisher, M.Publish(M.PublishFields(next(self.ids), topic, args)))
        got = list(v.recipients or [])
        right = len(set(got) & set(who)) - (len(got) - len(set(got))) - len(set(got) - set(who))
        return (right, v.event) if not who or v.event.args == args else (-1, v.event)

    def publish(self, e):
        e["n"] = len(self.sub)
        right, event = self.heard("t", self.sub)
        return right if not self.sub or event.subscription_id == self.id else -1

    def unsubscribe(self, e):
        right = 0
        for s in self.take(self.sub, e["n"]):
            q = next(self.ids)
            v = self.ask(s, M.Unsubscribe(M.UnsubscribeFields(q, self.id)))
            right += v is not None and v.recipient == s and isinstance(v.message, M.Unsubscribed) and v.message.request_id == q
            self.att.append(s)
        return right

    def depart(self, e):
        return sum(not refuses(self.b.remove_session, s) for s in self.take(self.sub, e["n"]))

    def topics(self, e):
        right = 0
        for _ in range(e["n"]):
            topic = f"com.t{next(self.n)}"
            i = self.subscribed(self.collector, topic)
            if i is not None:
                self.new("sub", i)
                right += 1
            self.mine.append((topic, i))
        return right

    def reaches(self, topic, i):
        n, event = self.heard(topic, [self.collector])
        return n == 1 and event.subscription_id == i

    def still(self, e):
        return sum(self.reaches(*x) for x in self.r.sample(self.mine, e["n"]))

    def unheard(self, e):
        right = 0
        for topic, i in self.take(self.mine, e["n"]):
            q = next(self.ids)
            v = self.b.receive_message(self.collector, M.Unsubscribe(M.UnsubscribeFields(q, i)))
            ok = v is not None and v.recipient == self.collector and isinstance(v.message, M.Unsubscribed) and v.message.request_id == q
            n, _ = self.heard(topic, [])
            right += ok and n == 0
        return right

    def ack(self, e):
        right = 0
        for _ in range(e["n"]):
            q = next(self.ids)
            v = self.b.receive_publish(self.publisher, M.Publish(M.PublishFields(q, "com.nobody", [1], None, {"acknowledge": True})))
            if v.ack is not None:
                right += v.ack.recipient == self.publisher and isinstance(v.ack.message, M.Published) and v.ack.message.request_id == q
                self.new("pub", v.ack.message.publication_id)
        return right


SEND = {
    "CALL": lambda q, x: M.Call(M.CallFields(q, "p")),
    "REGISTER": lambda q, x: M.Register(M.RegisterFields(q, "p")),
    "UNREGISTER": lambda q, x: M.Unregister(M.UnregisterFields(q, x)),
    "PUBLISH": lambda q, x: M.Publish(M.PublishFields(q, "t", None, None, {"acknowledge": True})),
    "SUBSCRIBE": lambda q, x: M.Subscribe(M.SubscribeFields(q, "t")),
    "UNSUBSCRIBE": lambda q, x: M.Unsubscribe(M.UnsubscribeFields(q, x)),
}
REPLY = {
    "CALL": lambda q, x: M.Result(M.ResultFields(q)),
    "REGISTER": lambda q, x: M.Registered(M.RegisteredFields(q, x)),
    "UNREGISTER": lambda q, x: M.Unregistered(M.UnregisteredFields(q)),
    "PUBLISH": lambda q, x: M.Published(M.PublishedFields(q, x)),
    "SUBSCRIBE": lambda q, x: M.Subscribed(M.SubscribedFields(q, x)),
    "UNSUBSCRIBE": lambda q, x: M.Unsubscribed(M.UnsubscribedFields(q)),
}


class SessionMass(Part):
    def __init__(self, p):
        super().__init__(p)
        self.s = WAMPSession(JSONSerializer())
        self.theirs = numbers(self.r, p["who"])
        self.waits = {t: [] for t in SEND}
        self.had = {t: [] for t in SEND}
        self.reg, self.live, self.inv, self.out, self.over = [], [], [], [], []
        self.held = {"UNREGISTER": (self.reg, set()), "UNSUBSCRIBE": (self.live, set())}

    def sends(self, m):
        return not refuses(self.s.send_message, m)

    def accepts(self, m):
        return not refuses(self.s.receive_message, m)

    def send(self, e):
        t, right = e["t"], 0
        xs = [None] * e["n"]
        if t in self.held:
            held, asked = self.held[t]
            xs = self.some([x for x in held if x not in asked], e["n"])
            asked.update(xs)
        for x in xs:
            q = next(self.ids)
            right += self.sends(SEND[t](q, x))
            self.waits[t].append((q, x))
        return right

    def reply(self, e):
        t, right = e["t"], 0
        for j, (q, x) in enumerate(self.take(self.waits[t], e["n"])):
            x = next(self.theirs) if x is None else x
            m = REPLY[t](q, x)
            if t in ("CALL", "PUBLISH") and j % 3 == 1:
                m = M.Error(M.ErrorFields(SEND[t](1, 1).TYPE, q, "com.e"))
            right += self.accepts(m)
            self.had[t].append((q, x))
            if t == "REGISTER":
                self.reg.append(x)
            if t == "SUBSCRIBE":
                self.live.append(x)
            if t == "UNSUBSCRIBE":
                self.over.append(x)
        if t in self.held:
            held, asked = self.held[t]
            over = {x for _, x in self.had[t]}
            held[:] = [x for x in held if x not in over]
        return right

    def twice(self, e):
        right = 0
        for q, x in self.some(self.had[e["t"]], e["n"]):
            m = REPLY[e["t"]](q, x) if self.r.random() < 0.6 else M.Error(M.ErrorFields(SEND[e["t"]](1, 1).TYPE, q, "com.e"))
            right += not self.accepts(m)
        return right

    def invoke(self, e):
        right = 0
        for _ in range(e["n"]):
            i = next(self.theirs)
            right += self.accepts(M.Invocation(M.InvocationFields(i, self.r.choice(self.reg))))
            self.inv.append(i)
        return right

    def do_yield(self, e):
        xs = self.take(self.inv, e["n"])
        self.out += xs
        return sum(self.sends(M.Yield(M.YieldFields(i)) if j % 3 else M.Error(M.ErrorFields(68, i, "com.e"))) for j, i in enumerate(xs))

    def yielded(self, e):
        return sum(not self.sends(M.Yield(M.YieldFields(i))) for i in self.some(self.out, e["n"]))

    def event(self, e):
        return sum(self.accepts(M.Event(M.EventFields(x, next(self.theirs)))) for x in self.some(self.live, e["n"]))

    def ended(self, e):
        return sum(not self.accepts(M.Event(M.EventFields(x, next(self.theirs)))) for x in self.some(self.over, e["n"]))

    def fail(self, e):
        right = 0
        for j in range(e["n"]):
            q = next(self.ids)
            if j % 2:
                m, reply = M.Call(M.CallFields(q, "p", [object()])), M.Result(M.ResultFields(q))
            else:
                m, reply = M.Publish(M.PublishFields(q, "t", [object()], None, {"acknowledge": True})), M.Published(M.PublishedFields(q, 1))
            right += not self.sends(m) and not self.accepts(reply)
        return right


setattr(SessionMass, "yield", SessionMass.do_yield)
PARTS = {"dealer": DealerMass, "broker": BrokerMass, "session": SessionMass}


def execute(script):
    x = PARTS[script["profile"]["part"]](script["profile"])
    trace, end = [], clock.real_monotonic() + 100
    for e in script["events"]:
        done = x.step(e)
        if done["r"]["k"] == "hang":
            break  # slow is not wrong
        trace.append(done)
        if done["r"]["k"] != "mass" or clock.real_monotonic() > end:
            break  # what follows needs what was there
    return trace


def plan(r, part, n):
    """The requests: about n of each kind at a time."""

    def ev(op, share=1.0, **more):
        return dict(more, op=op, n=max(1, int(n * share)))

    few = min(n, 3000)
    if part == "dealer":
        return [
            ev("register", by=0),
            ev("register", 0.3, by=1),
            {"op": "taken", "n": few},
            ev("call"),
            {"op": "stray", "n": few},
            ev("answer", 0.4),
            ev("again", 0.2),
            ev("unregister", r.choice([0.1, 0.5])),
            ev("gone", 0.1),
            ev("answer", 0.3),
            {"op": "leave", "n": 0},
            {"op": "orphan", "n": 0},
            {"op": "dropped", "n": 0},
            ev("parts"),
            ev("progress"),
            ev("call", 0.2),
            ev("answer", 0.2),
        ]
    if part == "broker":
        return [
            ev("attach"),
            ev("subscribe"),
            {"op": "publish", "n": 0},
            ev("unsubscribe", 0.3),
            {"op": "publish", "n": 0},
            ev("depart", 0.4),
            {"op": "publish", "n": 0},
            ev("subscribe", 0.1),
            ev("ack"),
            {"op": "publish", "n": 0},
            ev("topics"),
            ev("still"),
            ev("unheard", 0.3),
            ev("still", 0.7),
        ]
    out = [ev("send", t=t) for t in r.sample(["CALL", "REGISTER", "PUBLISH", "SUBSCRIBE"], 4)]
    out += [ev("fail", 0.05), ev("reply", t="REGISTER"), ev("reply", t="SUBSCRIBE"), ev("twice", 0.2, t="SUBSCRIBE")]
    out += [ev("invoke"), ev("send", 0.5, t="UNREGISTER"), ev("send", 0.5, t="UNSUBSCRIBE"), ev("event"), ev("yield", 0.9)]
    out += [ev("yielded", 0.3), ev("reply", 0.8, t="CALL"), ev("reply", 0.4, t="UNREGISTER"), ev("reply", 0.4, t="UNSUBSCRIBE")]
    out += [ev("ended", 0.3), ev("event", 0.3), ev("reply", 0.2, t="CALL"), ev("reply", t="PUBLISH")]
    out += [ev("twice", 0.5, t=t) for t in ("CALL", "PUBLISH")] + [ev("twice", 0.3, t="UNSUBSCRIBE"), ev("yield", 0.05)]
    return out


USES = {
    "dealer": "C01 C02 C03 C04 C05 C06 C12".split(),
    "broker": "C07 C08 C09 C10 C11 C12".split(),
    "session": "C13 C14 C15 C16".split(),
}


def check(c):
    for part, pids in USES.items():
        if c.pid not in pids:
            continue
        model = background(tlc, "MCMass", config("MCMass", Kind=f'"{part}"', Max=2), workers=2)
        scripts = []
        for j, n in enumerate([3, 300, 140000, *([5, 1000, 20000, 300000] if c.thorough else [])]):
            r = scripted.rng(c, "mass", part, j)
            p = {
                "part": part,
                "seed": r.randrange(2**32),
                "sids": r.sample(V.IDS, 5) if r.random() < 0.5 else r.sample(range(1, 2**53), 5),
                "ids": r.choice(["one", "random", "32", "wide"]),
                "who": r.choice(["random", "32", "wide"]),
            }
            scripts.append({"profile": p, "events": plan(r, part, n)})
        scripted.run(c, me, f"mass, {part}", scripts, [execute(s) for s in scripts])
        c.model(f"mass, {part}", model())


me = sys.modules[__name__]
