"""Drives the generators of ids for IdGen.tla: C12."""

import os
import random
import sys

from wampproto import idgen

import scripted
from core import background, config, guarded, limbs, tlc

driver = "idgen"
trace_module = "TraceIdGen"
unchanged = None

MAX = 2**53


class Rigged:
    """A random source whose first outcomes are these, as far as they fit; any outcome is possible."""

    def __init__(self, outcomes):
        self.left = list(outcomes)

    def next(self, k):
        while self.left:
            v = self.left.pop(0)
            v = v + (1 << k) if v < 0 else v
            if 0 <= v < 1 << k:
                return v
        return None

    def __enter__(self):
        self.old = (
            random.Random.__dict__.get("getrandbits"),
            random.SystemRandom.getrandbits,
            random.getrandbits,
            random.random,
            os.urandom,
        )
        base = random.Random.__mro__[1].getrandbits
        sys_, mod, rnd, ur = self.old[1:]

        def pick(k, real):
            v = self.next(k) if k else None
            return real() if v is None else v

        random.Random.getrandbits = lambda s, k: pick(k, lambda: base(s, k))
        random.SystemRandom.getrandbits = lambda s, k: pick(k, lambda: sys_(s, k))
        random.getrandbits = lambda k: pick(k, lambda: mod(k))
        random.random = lambda: pick(53, lambda: int(rnd() * MAX)) / MAX
        os.urandom = lambda n: pick(8 * n, lambda: int.from_bytes(ur(n), "big")).to_bytes(n, "big")
        return self

    def __exit__(self, *a):
        if self.old[0] is None:
            del random.Random.getrandbits
        else:
            random.Random.getrandbits = self.old[0]
        random.SystemRandom.getrandbits, random.getrandbits, random.random, os.urandom = self.old[1:]


def given(kind, v):
    return {"k": "ok", "id": limbs(v)} if kind == "ok" else {"k": kind}


def follows():
    """Does a generator go on from what is written to its attribute id?"""

    def go():
        g = idgen.SessionScopeIDGenerator()
        g.next()
        g.id = 1000
        return g.next() == 1001 and g.id == 1001

    return guarded(go) == ("ok", True)


class World:
    def __init__(self):
        self.gens, self.last, self.tracks = {}, {}, {}
        self.trace = []

    def step(self, e):
        op, g = e["op"], e.get("g")
        ev = None
        if op == "new":
            kind, v = guarded(idgen.SessionScopeIDGenerator)
            ev = {"op": op, "g": g, "r": {"k": kind}}
            self.gens[g], self.last[g], self.tracks[g] = v, 0, follows()
        elif op == "next" and g in self.gens:
            kind, v = guarded(lambda: self.gens[g].next())
            ev = {"op": op, "g": g, "r": given(kind, v)}
            self.last[g] = v
            self.tracks[g] = self.tracks[g] and getattr(self.gens[g], "id", None) == v
        elif op == "jump" and g in self.gens and self.last[g] and self.tracks[g]:
            # the attribute id has always been the id given last
            self.gens[g].id = e["to"]
            self.last[g] = e["to"]
            ev = {"op": op, "g": g, "to": limbs(e["to"]), "r": {"k": "ok"}}
        elif op == "draw":
            if "rig" in e:
                with Rigged(e["rig"]):
                    r = given(*guarded(idgen.generate_session_id))
            else:
                r = given(*guarded(idgen.generate_session_id))
            ev = {"op": op, "spread": "rig" not in e, "r": r}
        elif op == "drawn":
            ev = {"op": op, "r": {"k": "ok"}}
        if ev:
            self.trace.append(ev)
        return ev


def execute(script):
    x = World()
    for e in script["events"]:
        if x.step(e) is None:
            x.trace.append({"op": "draw", "spread": False, "r": {"k": "ok", "id": [0, 1]}})  # keeps the places
    return x.trace


def counting(r, count):
    events = [{"op": "new", "g": "1"}]
    gens = ["1"]
    for _ in range(count):
        k = r.random()
        if k < 0.05 and len(gens) < 6:
            gens.append(str(len(gens) + 1))
            events.append({"op": "new", "g": gens[-1]})
        elif k < 0.08:
            to = r.choice([MAX, MAX - 1, MAX - 2, 2**27 - 1, 2**31 - 1, 2**32 - 1, 2**52, r.randrange(1, MAX)])
            events.append({"op": "jump", "g": r.choice(gens), "to": to})
        else:
            events.append({"op": "next", "g": r.choice(gens)})
    return {"profile": {}, "events": events}


RIGS = [[0], [0, 0], [1], [-1], [-1, -2], [2**53], [2**53, 2**53 - 1], [2**53 + 1, 2**53, 2**53 - 1], [2**53 - 1], [-1, 2**53 + 1, 2**53]]
RIGS += [[2**53 - 2], [2**54 - 1, 2**53 + 2, 2**53 + 1], [2**32 - 1], [2**63], [2**64 - 1], [0, -1]]


def drawing(r, count):
    events = []
    for i in range(count):
        if r.random() < 0.1:
            rig = r.choice(RIGS)
            events.append({"op": "draw", "rig": rig})
        else:
            events.append({"op": "draw"})
    events.append({"op": "drawn"})
    return {"profile": {}, "events": events}


def check(c):
    model = background(tlc, "MCIdGen", config("MCIdGen", MaxAsked=16 if c.thorough else 11), workers=2, timeout=3000)
    n = 400 if c.thorough else 40
    scripts = [counting(scripted.rng(c, "count", i), 300) for i in range(n)]
    scripts.append({"profile": {}, "events": [{"op": "new", "g": "1"}] + [{"op": "next", "g": "1"}] * (200000 if c.thorough else 5000)})
    scripts += [drawing(scripted.rng(c, "draw", i), 1500) for i in range(n // 10)]
    scripted.run(c, me, "id generators", scripts)
    c.model("idgen", model())


me = sys.modules[__name__]
