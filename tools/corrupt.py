#!/usr/bin/env python3
"""corrupt.py [suite ...]: does TLC notice a recorded execution in which one reply says something else?

Executions of the unchanged code are recorded as the checks record them, one
value in one reply of each is replaced, and TLC judges them (a self-test of the
specification).  What goes unnoticed is listed by event and place.
"""

import collections
import copy
import os
import random
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), VERIF + "/harness"]
import importlib  # noqa: E402

import core  # noqa: E402
import scripted  # noqa: E402

PIDS = {"dealer": "C01", "broker": "C07", "session": "C13", "system": "C17", "handshake": "C18", "wire": "C25"}
PIDS.update(payload="C27", rawsocket="C28", idgen="C12", opaque="C31")


def leaves(v, path=()):
    if isinstance(v, dict):
        for k in v:
            yield from leaves(v[k], (*path, k))
    elif isinstance(v, list):
        if not v:
            yield path, v
        for i, x in enumerate(v):
            yield from leaves(x, (*path, i))
    else:
        yield path, v


def other(r, name, v, seen):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + r.choice([1, -1, 7])
    if isinstance(v, list):
        return None
    if name == "t":  # a type in the notation of values: its content goes with it
        return None
    pool = [x for x in seen if x != v]
    return r.choice(pool) if pool else v + "x"


def corrupt(r, trace, seen, name):
    spots = [(i, p, v) for i, e in enumerate(trace) for p, v in leaves(e.get("r", {}))]
    spots = [(i, p, v) for i, p, v in spots if not isinstance(v, list)]
    if not spots:
        return None
    # all kinds of places alike
    kinds = collections.defaultdict(list)
    for i, p, v in spots:
        kinds[trace[i]["op"], tuple(x for x in p if isinstance(x, str))].append((i, p, v))
    kind = r.choice(sorted(kinds))
    i, p, v = r.choice(kinds[kind])
    if p[-1] == "k":  # another kind of reply brings other fields
        new = "refused" if v != "refused" else "odd"
        t = copy.deepcopy(trace)
        if len(p) == 1:
            t[i]["r"] = {**{x: y for x, y in t[i]["r"].items() if name == "handshake"}, "k": new}
            return t, i, kind, v, new
        return None
    new = other(r, p[-1], v, sorted(seen[kind]))
    if new is None:
        return None
    t = copy.deepcopy(trace)
    x = t[i]["r"]
    for k in p[:-1]:
        x = x[k]
    x[p[-1]] = new
    return t, i, kind, v, new


class Enough(Exception):
    pass


def main(suites):
    for name in suites or PIDS:
        m = importlib.import_module(name)
        got = []

        def run(check, suite, label, scripts, traces=None):
            if traces is None:
                traces = [suite.execute(s) for s in scripts]
            known = list(getattr(suite, "failing", {}).values())
            got.extend(t for s, t in zip(scripts, traces) if s not in known and len(t) < 400)
            if len(got) > 3000:
                raise Enough()

        scripted.run, keep = run, scripted.run
        try:
            m.check(core.Check(PIDS[name]))
        except Enough:
            pass
        scripted.run = keep
        r = random.Random(5)
        got = r.sample(got, min(len(got), 1500))
        seen = collections.defaultdict(set)
        for t in got:
            for e in t:
                for p, v in leaves(e.get("r", {})):
                    if isinstance(v, str):
                        seen[e["op"], tuple(x for x in p if isinstance(x, str))].add(v)
        made = [c for c in (corrupt(r, t, seen, name) for t in got) if c]
        bads, _, _ = core.judge(m.trace_module, [c[0] for c in made])
        hit = {b["t"] for b in bads}
        tally = collections.Counter()
        missed = collections.Counter()
        example = {}
        for n, (t, i, kind, v, new) in enumerate(made):
            tally[kind] += 1
            if n not in hit:
                missed[kind] += 1
                example[kind] = (v, new, {k: x for k, x in t[i].items() if k != "r"})
        print(f"{name}: {len(made)} corrupted, {len(hit)} noticed", flush=True)
        for kind, k in sorted(missed.items()):
            v, new, e = example[kind]
            print(f"   {kind[0]} {'.'.join(kind[1])}: {k} of {tally[kind]} unnoticed, e.g. {v!r} -> {new!r} in {str(e)[:160]}", flush=True)
    os._exit(0)


main(sys.argv[1:])
