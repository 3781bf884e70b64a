"""The dealer: properties C01-C06, C11, C12."""

from wampproto import messages as M
from wampproto.dealer import Dealer

import clock
import scripted
import values as V
import wampio
from core import background, config, guarded, idtok, only_property, opt, tlc, tours, tset

driver = "dealer"
trace_module = "TraceDealer"
unchanged = "C11"

OTHERS = sorted(set(wampio.NUMBERS) - {"CALL", "YIELD", "REGISTER", "UNREGISTER", "ERROR"})
MESSAGES = ("call", "yield", "error", "register", "unregister")
MTYPES = ["INVOCATION", "CALL", "REGISTER", "YIELD", "PUBLISH", "RESULT"]


class Execution:
    """One dealer, driven event by event."""

    def __init__(self, profile):
        clock.begin(profile)
        self.p = profile
        self.dealer = Dealer()
        self.regs = []  # ids as handed out, without repetition
        self.invs = []
        self.trace = []
        self.replies = []  # events and what they returned, to be read again
        self.kept = {}  # messages
        if profile.get("jump"):
            jump(self.dealer, profile["jump"])

    def sid(self, i):
        return V.anew(self.p["sids"][i % len(self.p["sids"])])

    def proc(self, i):
        return V.name(self.p["procs"][i % len(self.p["procs"])])

    def req(self, i):
        return V.anew(self.p["reqs"][i % len(self.p["reqs"])])

    def ident(self, ids, others, n):
        """The n-th id handed out, or (n <= 0) one of several that were not."""
        if 0 < n <= len(ids):
            return V.anew(ids[n - 1])
        known = [i for i in ids + others if isinstance(i, int)]
        wild = [max(known, default=0) + 1000003, max(known, default=0) + 1, 2**53, *(others[-1:] or [999]), self.req(0), 2**53 - 1]
        wild += [i + (1 << k) for i in known[-1:] for k in (8, 16, 31, 32)]
        v = wild[-n % len(wild)] if n <= 0 else wild[0]
        return v if v not in ids else wild[0]

    def message(self, e):
        op = e["op"]
        if op == "call":
            o = V.options(V.CALL_OPTIONS, e.get("o", 0))
            for key, name in (("rp", "receive_progress"), ("pg", "progress")):
                if e[key] is not None:
                    o[name] = e[key]
            pl = V.get(V.PAYLOADS, e["p"])
            a, k = V.get(V.ARGS, e["a"]), V.get(V.KWARGS, e["k"])
            if pl is None:
                return M.Call(M.CallFields(self.req(e["q"]), self.proc(e["proc"]), a, k, o))
            return M.Call(M.CallFields(self.req(e["q"]), self.proc(e["proc"]), a, k, o, pl[1], pl[0], pl[2]))
        if op == "yield":
            o = V.options(V.YIELD_OPTIONS, e.get("o", 0))
            if e["pg"] is not None:
                o["progress"] = e["pg"]
            pl = V.get(V.PAYLOADS, e["p"])
            a, k = V.get(V.ARGS, e["a"]), V.get(V.KWARGS, e["k"])
            inv = self.ident(self.invs, self.regs, e["inv"])
            if pl is None:
                return M.Yield(M.YieldFields(inv, a, k, o))
            return M.Yield(M.YieldFields(inv, a, k, o, pl[0], pl[1], pl[2]))
        if op == "error":
            return M.Error(
                M.ErrorFields(
                    wampio.NUMBERS[e["mt"]],
                    self.ident(self.invs, self.regs, e["inv"]),
                    V.get(V.URIS, e["uri"]),
                    V.get(V.ARGS, e["a"]),
                    V.get(V.KWARGS, e["k"]),
                    V.get(V.DETAILS, e["det"]),
                )
            )
        if op == "register":
            o = V.options(V.REGISTER_OPTIONS, e.get("o", 0))
            return M.Register(M.RegisterFields(self.req(e["q"]), self.proc(e["proc"]), o))
        if op == "unregister":
            return M.Unregister(M.UnregisterFields(self.req(e["q"]), self.ident(self.regs, self.invs, e["reg"])))
        return wampio.one_of_each(self.req(0))[e["t"]]()

    def again(self, ev, e, msg):
        """The message handed in before that said the same, if the application keeps messages."""
        if not self.p.get("kept"):
            return msg
        return self.kept.setdefault(repr(({k: v for k, v in ev.items() if k != "s"}, e.get("o"), e.get("ser"))), msg)

    def step(self, e):
        """Carries out one event; the abstract event with its reply is returned and recorded."""
        op = e["op"]
        d = self.dealer
        ev = {"op": op}
        if op == "hasreg":
            ev["proc"] = wampio.uri(self.proc(e["proc"]))
            how, v = guarded(lambda: d.has_registration(self.proc(e["proc"])))
            r = {"k": "bool", "v": bool(v)} if how == "ok" else None
        else:
            sid = self.sid(e["s"])
            ev["s"] = idtok(sid)
            if op == "attach":
                how, v = guarded(lambda: d.add_session(V.person(self.p.get("who", 0), sid, len(self.trace))))
                r = {"k": "ok"}
            elif op == "detach":
                how, v = guarded(lambda: d.remove_session(sid))
                r = {"k": "ok"}
            else:
                msg = self.message(e)
                if e.get("ser") and getattr(msg, "payload", None) is None:
                    msg = wampio.wire(msg, e["ser"])
                if op in ("call", "register"):
                    ev["req"] = idtok(msg.request_id)
                    ev["proc"] = wampio.uri(msg.procedure)
                if op == "call":
                    ev["rp"] = wampio.flag(msg.options, "receive_progress")
                if op in ("call", "yield"):
                    ev["pg"] = wampio.flag(msg.options, "progress")
                    ev["p"] = wampio.payload(msg)
                if op in ("call", "yield", "error"):
                    ev["a"], ev["k"] = opt(msg.args), opt(msg.kwargs)
                if op in ("yield", "error"):
                    ev["inv"] = idtok(msg.request_id)
                if op == "error":
                    ev["mt"] = wampio.mtype(msg.message_type)
                    ev["uri"] = wampio.uri(msg.uri)
                    ev["det"] = opt(msg.details)
                if op == "unregister":
                    ev["req"], ev["reg"] = idtok(msg.request_id), idtok(msg.registration_id)
                if op == "other":
                    ev["t"] = e["t"]
                msg = self.again(ev, e, msg)
                how, v = guarded(lambda: d.receive_message(sid, msg))
                r = None
                if how == "ok":
                    how, r = guarded(lambda: wampio.addressed(v))
                    self.replies.append((ev, v, wampio.addressed))
                    if how == "ok" and r["k"] == "msg":
                        new = wampio.new(v.message)
                        ids = {"INVOCATION": self.invs, "REGISTERED": self.regs}.get(r["t"], [new])
                        if new not in ids:
                            ids.append(new)
        ev["r"] = r if how == "ok" else {"k": "refused" if how == "raised" else how}
        self.trace.append(ev)
        return ev

    def finish(self):
        """The trace; what was returned must still say the same."""
        if self.p.get("late"):
            for ev, v, reader in self.replies:
                ev["r"] = reread(ev["r"], v, reader)
        return self.trace


def reread(r, v, reader):
    how, again = guarded(lambda: reader(v))
    return r if r["k"] not in ("ok", "msg", "pub") else again if how == "ok" else {"k": "odd"}


def jump(obj, n):
    """Lets the id generator of a dealer or broker continue after n, if it can be told."""
    gen = getattr(obj, "idgen", None)
    try:
        if isinstance(gen.id, int):
            gen.id = n
    except Exception:
        pass


def execute(script):
    x = Execution(script["profile"])
    for e in script["events"]:
        x.step(e)
    return x.finish()


# ---------------------------------------------------------------- from the model


def profile(r, n=4):
    """Concrete sessions, procedures and request ids."""
    kind = r.randrange(5)
    if kind == 0:
        sids = [1, 2, 3, 4]
    elif kind == 4:
        sids = V.alike(r)
    elif kind == 1:
        sids = r.sample(V.IDS, 4)
    else:
        sids = r.sample(range(1, 2**53), 4)
    reqs = r.sample(V.IDS, 4) if r.random() < 0.5 else [1, 2, 3, 4]
    if kind == 4:
        reqs = r.sample(sids, 4)
    procs = r.sample(V.CONFUSABLE if r.random() < 0.4 else range(len(V.PROCS)), 4)
    return {"sids": sids[:n], "procs": procs, "reqs": reqs, "who": r.randrange(20), "late": r.randrange(2), "kept": r.randrange(2)}


def concretize(walks, check):
    """Scripts for the walks through the model's state graph."""
    scripts = []
    for j, walk in enumerate(walks):
        r = scripted.rng(check, "dealer", "tour", j)
        p = profile(r)
        events = []
        for e in walk:
            c = {"op": e["op"]}
            if "s" in e:
                c["s"] = int(e["s"]) - 1
            if "proc" in e:
                c["proc"] = "pqr".index(e["proc"])
            if "req" in e:
                c["q"] = int(e["req"]) - 7
            for x in ("reg", "inv"):
                if x in e:
                    c[x] = int(e[x][1:])
            if e["op"] in ("call", "yield", "error"):
                c.update(values(r))
            if e["op"] in ("call", "yield"):
                c["pg"] = e["pg"] or r.choice([None, False])
                c["ser"] = r.randrange(4)
            if e["op"] == "call":
                c["rp"] = e["rp"] or r.choice([None, False])
            if e["op"] == "error":
                c["mt"] = "INVOCATION" if e["mt"] == "INVOCATION" else r.choice(MTYPES[1:])
            if e["op"] == "other":
                c["t"] = r.choice(OTHERS)
            events.append(c)
        scripts.append({"profile": p, "events": events})
    return scripts


def values(r):
    return {
        "a": r.randrange(len(V.ARGS)),
        "k": r.randrange(len(V.KWARGS)),
        "p": r.randrange(len(V.PAYLOADS)) if r.random() < 0.4 else 0,
        "uri": r.randrange(len(V.URIS)),
        "det": r.randrange(len(V.DETAILS)),
        "o": r.choice([0, 0, r.randrange(24)]),
    }


# ---------------------------------------------------------------- at random


def wander(r, length, jump=None):
    """A random schedule, made while it runs so that most events have an effect."""
    p = profile(r, r.choice([2, 3, 3, 4]))
    if jump:
        p["jump"] = jump
    x = Execution(p)
    ns, np, nq = len(p["sids"]), r.choice([1, 2, 3, 4]), r.choice([1, 2, 4])
    # how eager this schedule is for each kind of event
    w = {
        "attach": r.choice([1, 2]),
        "detach": r.choice([0, 0.5, 1, 2]),
        "hasreg": 0.6,
        "register": r.choice([1, 3]),
        "unregister": r.choice([0.3, 1, 2]),
        "call": r.choice([3, 6]),
        "yield": r.choice([2, 4]),
        "error": r.choice([0.5, 1, 2]),
        "other": 0.3,
    }
    progress = r.choice([0, 0.3, 0.6])
    foul = r.choice([0.05, 0.2, 0.4])
    up, owner, invs = set(), {}, {}  # what this driver believes
    last = {}  # (session, request) -> the last call under it, if it can go on
    events = []
    repeats = r.choice([0, 0.1])

    def do(e):
        events.append(e)
        return x.step(e)

    for _ in range(length):
        if events and r.random() < repeats:
            e = r.choice(events[-20:])
            if e["op"] in MESSAGES:
                do(dict(e))
                continue
        op = r.choices(list(w), list(w.values()))[0]
        wild = r.random() < foul
        s = r.randrange(ns)
        if len(up) < 2 and r.random() < 0.7:
            op = "attach"
        if op == "attach":
            if not wild and len(up) < ns:
                s = r.choice([i for i in range(ns) if i not in up])
            if do({"op": op, "s": s})["r"]["k"] == "ok":
                up.add(s)
            continue
        if up and not wild:
            s = r.choice(sorted(up))
        if op == "detach":
            if do({"op": op, "s": s})["r"]["k"] == "ok":
                up.discard(s)
                owner = {k: v for k, v in owner.items() if v != s}
        elif op == "hasreg":
            do({"op": op, "proc": r.randrange(np)})
        elif op == "register":
            proc = r.randrange(np)
            do({"op": op, "s": s, "q": r.randrange(nq), "proc": proc, "o": r.choice([0, 0, r.randrange(8)])})
        elif op == "unregister":
            n = r.randrange(-9, 1) if wild and r.random() < 0.4 else r.randint(1, max(1, len(x.regs)))
            if not wild and x.regs:
                n = r.randint(max(1, len(x.regs) - np), len(x.regs))
            own = x.p  # the session that got it, if this driver knows
            for ev in x.trace:
                if ev["op"] == "register" and ev["r"].get("t") == "REGISTERED" and 0 < n <= len(x.regs):
                    if ev["r"]["f"]["id"] == idtok(x.regs[n - 1]):
                        own = ev["s"]
            if not wild and own is not x.p:
                s = next((i for i in range(ns) if idtok(p["sids"][i]) == own), s)
            do({"op": op, "s": s, "q": r.randrange(nq), "reg": n})
        elif op == "call":
            q = r.randrange(nq)
            e = {"op": op, "s": s, "q": q, "proc": r.randrange(np), **values(r)}
            e["rp"] = r.choice([None, False, True, True])
            e["pg"] = True if r.random() < progress else r.choice([None, False])
            e["ser"] = r.randrange(4)
            if last.get((s, q)):
                e["proc"], e["rp"] = last[s, q]
            last[s, q] = (e["proc"], e["rp"]) if e["pg"] else None
            ev = do(e)
            if ev["r"].get("t") == "INVOCATION":
                callee = next((i for i in range(ns) if idtok(p["sids"][i]) == ev["r"]["to"]), s)
                invs[len(x.invs)] = callee
        elif op in ("yield", "error"):
            n = r.randrange(-9, 1) if wild and r.random() < 0.3 else r.randint(1, max(1, len(x.invs)))
            if not wild and x.invs:
                n = r.randint(max(1, len(x.invs) - 6), len(x.invs))
            if n in invs and (not wild or r.random() < 0.3):
                s = invs[n]
            if op == "yield":
                e = {"op": op, "s": s, "inv": n, **values(r)}
                e["pg"] = True if r.random() < progress else r.choice([None, False])
                e["ser"] = r.randrange(4)
            else:
                e = {"op": op, "s": s, "inv": n, **values(r)}
                e["mt"] = r.choice(MTYPES) if wild else "INVOCATION"
                e["ser"] = r.randrange(4)
            do(e)
        else:
            do({"op": op, "s": s, "t": r.choice(OTHERS)})
    return {"profile": p, "events": events}, x.finish()


def bulk(r):
    """Many sessions, registrations and open calls at once, and many parts of one call."""
    ns, np = r.choice([6, 24]), r.choice([30, 80])
    p = {"sids": r.sample(range(1, 2**53), ns), "procs": list(range(np)), "reqs": list(range(1, 400))}
    x = Execution(p)
    events, owner, regs, calls = [], {}, {}, []

    def do(e):
        events.append(e)
        return x.step(e)

    def invocations(ev):
        return [idtok(i) for i in x.invs].index(ev["r"]["f"]["id"]) + 1

    def call(s, q, proc, rp=None, pg=None):
        ev = do({"op": "call", "s": s, "q": q, "proc": proc, **values(r), "rp": rp, "pg": pg})
        if ev["r"].get("t") == "INVOCATION":
            return invocations(ev)

    def answer(n, s, pg=None):
        op = "yield" if pg or r.random() < 0.7 else "error"
        do({"op": op, "s": s, "inv": n, **values(r), "pg": pg, "mt": "INVOCATION"})

    for s in range(ns):
        do({"op": "attach", "s": s})
    for proc in range(np):
        s = r.choice([0, r.randrange(ns)])
        ev = do({"op": "register", "s": s, "q": r.randrange(400), "proc": proc})
        if ev["r"].get("t") == "REGISTERED":
            owner[proc] = s
            regs[proc] = [idtok(i) for i in x.regs].index(ev["r"]["f"]["id"]) + 1
        do({"op": "register", "s": r.randrange(ns), "q": r.randrange(400), "proc": r.randrange(np), "o": r.randrange(8)})
    for q in range(60):
        s, proc = r.randrange(ns), r.randrange(np)
        n = call(s, q, proc, rp=r.choice([None, True]))
        if n:
            calls.append((n, owner.get(proc, 0), s))
    for proc in (0, 1):
        s, q = r.randrange(ns), 100 + proc
        n = None
        for i in range(45):
            m = call(s, q, proc, rp=True, pg=i < 44)
            n = n or m
            if n and i % 3 == 0:
                answer(n, owner.get(proc, 0), True)
            if i % 5 == 0:
                call(r.randrange(ns), r.randrange(200, 400), r.randrange(np))
        for _ in range(40 if n else 0):
            answer(n, owner.get(proc, 0), True)
        if n:
            answer(n, owner.get(proc, 0))
            answer(n, owner.get(proc, 0))
    r.shuffle(calls)
    for n, s, _ in calls[:25]:
        answer(n, s)
    gone = r.sample(range(1, ns), ns // 4)
    for s in gone:
        do({"op": "detach", "s": s})
    for n, s, _ in calls:
        answer(n, s)
    for proc in range(np):
        do({"op": "hasreg", "proc": proc})
    for proc, n in regs.items():
        if r.random() < 0.5:
            do({"op": "unregister", "s": owner[proc], "q": r.randrange(400), "reg": n})
    for proc in range(np):
        do({"op": "hasreg", "proc": proc})
        call(r.randrange(ns), proc, proc)
    do({"op": "detach", "s": 0})
    for proc in range(np):
        call(1, proc, proc)
    return {"profile": p, "events": events}, x.finish()


def flood(r, n):
    """A great many open calls, answered in any order."""
    ns = r.choice([3, 5])
    p = {"sids": r.sample(range(1, 2**53), ns), "procs": [0, 1], "reqs": r.sample(range(1, 2**53), n) if r.random() < 0.5 else list(range(1, n + 1))}
    x = Execution(p)
    events, open_ = [], []

    def do(e):
        events.append(e)
        return x.step(e)

    for s in range(ns):
        do({"op": "attach", "s": s})
    for proc in (0, 1):
        do({"op": "register", "s": proc, "q": proc, "proc": proc})
    for q in range(n):
        proc = r.randrange(2)
        do({"op": "call", "s": r.randrange(ns), "q": q, "proc": proc, **values(r), "rp": r.choice([None, True]), "pg": r.random() < 0.2})
        open_.append((len(x.invs), proc))
    do({"op": "unregister", "s": 0, "q": 0, "reg": 1})
    how = r.randrange(3)
    if how == 0:
        r.shuffle(open_)
    elif how == 1:
        open_.reverse()
    for i, s in open_:
        op = "yield" if r.random() < 0.7 else "error"
        do({"op": op, "s": s, "inv": i, **values(r), "pg": r.random() < 0.1, "mt": "INVOCATION"})
    for i, s in r.sample(open_, 10):
        do({"op": "yield", "s": s, "inv": i, **values(r), "pg": None})
    return {"profile": p, "events": events}, x.finish()


def crowd(r, n):
    """A great many registrations, parts of one call, and progressive results."""
    p = {"sids": r.sample(range(1, 2**53), 4), "procs": list(range(n)), "reqs": list(range(1, n + 10)), "late": r.randrange(2)}
    x = Execution(p)
    events = []

    def do(e):
        events.append(e)
        return x.step(e)

    def call(proc, q, **flags):
        return do({"op": "call", "s": r.randrange(4), "q": q, "proc": proc, **values(r), "rp": None, "pg": None, **flags})

    def answer(inv, **flags):
        do({"op": "yield", "s": 0, "inv": inv, **values(r), "pg": None, "mt": "INVOCATION", **flags})

    for s in range(4):
        do({"op": "attach", "s": s})
    for proc in range(n):
        do({"op": "register", "s": 0 if proc % 7 else 1, "q": proc, "proc": proc})
    for proc in [*range(3), *r.sample(range(n), 10), n - 1]:
        call(proc, r.randrange(n))
        do({"op": "hasreg", "proc": proc})
        do({"op": "register", "s": 2, "q": proc, "proc": proc})
    for reg in r.sample(range(1, n + 1), n // 4):
        do({"op": "unregister", "s": 0 if (reg - 1) % 7 else 1, "q": reg, "reg": reg})
        do({"op": "register", "s": 2, "q": reg, "proc": reg - 1})
    call(1, n + 1, s=3, rp=True)
    inv = len(x.invs)
    for i in range(n):
        answer(inv, pg=True)
    for i in range(n):
        call(1, n + 2, s=3, rp=True, pg=True)
        if i == 0:
            other = len(x.invs)
        if i % 50 == 0:
            answer(other, pg=True)
    call(1, n + 2, s=3, rp=True)
    for i in (inv, other):
        answer(i)
        answer(i)
    do({"op": "detach", "s": 0})
    for proc in r.sample(range(n), 20):
        do({"op": "hasreg", "proc": proc})
        call(proc, r.randrange(n))
    return {"profile": p, "events": events}, x.finish()


# ---------------------------------------------------------------- the check

DEEP = dict(Sess=tset(["1", "2", "3"]), Procs=tset(["p", "q"]), Reqs=tset(["7"]), MaxReg=3, MaxInv=2, MaxGone=1)

QUICK = dict(Sess=tset(["1", "2"]), Procs=tset(["p"]), Reqs=tset(["7"]), MaxReg=2, MaxInv=2, MaxGone=1)


def check(c):
    cfg = only_property(config("MCDealer", **QUICK), c.pid)
    small = background(tlc, "MCDealer", cfg + "\nACTION_CONSTRAINT Emit\n", workers=4)
    # long schedules with more of everything
    n, length = (4000, 120) if c.thorough else (400, 80)
    scripts, traces = [], []
    for i in range(n):
        r = scripted.rng(c, "dealer", i)
        jump = r.choice([2**31 - 3, 2**32 - 2, 2**53 - 40]) if i % 10 == 0 else None
        s, t = wander(r, r.randint(length // 3, length), jump)
        scripts.append(s)
        traces.append(t)
    for i in range(40 if c.thorough else 4):
        s, t = bulk(scripted.rng(c, "dealer", "bulk", i))
        scripts.append(s)
        traces.append(t)
    for i, m in enumerate([40, 140, 600, 1100, *([300] * 10 + [2000, 4200] if c.thorough else [4200] if c.pid == "C02" else [])]):
        s, t = flood(scripted.rng(c, "dealer", "flood", i), m)
        scripts.append(s)
        traces.append(t)
    for i, m in enumerate([40, 150, 1100, *([2100, 4200] if c.thorough else [])]):
        s, t = crowd(scripted.rng(c, "dealer", "crowd", i), m)
        scripts.append(s)
        traces.append(t)
    for k in range(0, len(scripts), 2000):
        scripted.run(c, me, "dealer, random", scripts[k : k + 2000], traces[k : k + 2000])
    # the transitions of the small model, carried out by the real dealer
    res = small()
    c.model("dealer, small", res)
    walks, covered, total = tours(res.prints["E"], None if c.thorough else 30000, rng=scripted.rng(c, "tour"))
    c.details.setdefault("tours", {})["dealer"] = {"transitions_carried_out": covered, "of": total, "walks": len(walks)}
    if not c.violations:
        scripted.run(c, me, "dealer, tour", concretize(walks, c))
    if c.thorough:
        c.model("dealer, deep", tlc("MCDealer", only_property(config("MCDealer", **DEEP), c.pid), timeout=3000))
        c.model("verdicts", tlc("MCDealer", config("MCDealer", **QUICK).replace("C01", "VerdictRight C01")))


import sys  # noqa: E402

me = sys.modules[__name__]
