"""Checks by executing scripts on the real code and having TLC judge what happened.

A suite has
    driver          its name in replay files
    trace_module    the TLA+ module that judges its executions
    execute(script) runs a script ({"profile": ..., "events": [...]}) and returns the trace
    unchanged       the property that says that a refused event changes nothing, or None
"""

import random

from clock import real_monotonic
from core import judge


def run(check, suite, label, scripts, traces=None):
    """Executes scripts, judges the traces, and reports what breaks the property of the check."""
    if traces is None:
        traces = [suite.execute(s) for s in scripts]
    bads, outs, res = judge(suite.trace_module, traces)
    check.validated(label, traces, res)
    if outs:
        d = check.details["conformance"][label]
        d["left_scope"] = len(outs)
    mine = [b for b in bads if check.pid in b["broke"] or not b["broke"]]
    others = [b for b in bads if b not in mine]
    if not mine and others and suite.unchanged == check.pid:
        mine = unchanged(check, suite, scripts, traces, others)
    if not mine and others:
        mine = later(check, suite, traces, others)
    mine.sort(key=lambda b: b["l"])
    done = set()
    for b in mine:
        e = traces[b["t"]][b["l"] - 1]
        kind = (e["op"], tuple(b["wrong"]), b["want"].get("k"), e["r"].get("k"))
        if kind in done:
            continue
        done.add(kind)
        if len(done) > 3:
            break
        script = dict(scripts[b["t"]], events=scripts[b["t"]]["events"][: b["l"]])
        if len(done) == 1 and not b.get("because") and not getattr(suite, "whole", False):
            script = shrink(check, suite, script)
        trace = suite.execute(script)
        e = trace[-1] if trace else {"op": "nothing", "r": {}}
        what = f"{b.get('because', '')}event {len(trace)} of a {label} execution: {e} - wrong in {b['wrong']}, wanted {b['want']}"
        check.violation(
            what,
            {
                "driver": suite.driver,
                "script": script,
                "trace": trace,
                "seen": traces[b["t"]][b["l"] - 1],
                "verdict": b,
                "identity": [suite.driver, script["events"][-1].get("op"), b["wrong"], e["r"].get("k"), specific(suite, script)],
            },
        )
    return bads


def specific(suite, script):
    """What tells this input from others: only for an input that the suite knows to fail."""
    return next((n for n, s in getattr(suite, "failing", {}).items() if s == script), "")


def unchanged(check, suite, scripts, traces, bads):
    """Of deviations that violate other properties, those that are the effect of refused events.

    The same script is run again without the events that were refused (and those
    the suite knows to be without effect).  If the rest is then as it must be,
    one of them has changed something.
    """
    idle = getattr(suite, "idle", lambda e: e["r"]["k"] == "refused")
    cand = []
    for b in bads[:60]:
        t, l = b["t"], b["l"]
        keep = [i for i in range(l) if i == l - 1 or not idle(traces[t][i])]
        if len(keep) == l:
            continue
        events = scripts[t]["events"]
        cand.append((b, dict(scripts[t], events=[events[i] for i in keep])))
    if not cand:
        return []
    again = [suite.execute(s) for _, s in cand]
    bads2, _, res = judge(suite.trace_module, again)
    check.validated("without the refused events", again, res)
    hit = {b["t"] for b in bads2}
    found = []
    for i, (b, _) in enumerate(cand):
        if i not in hit:
            found.append(dict(b, because="an event that is to change nothing had an effect: "))
    return found


def later(check, suite, traces, bads):
    """Deviations that break other properties at first, and the one of the check later in the same execution."""
    some = bads[:80]
    again, _, _ = judge(suite.trace_module, [traces[b["t"]][: b["l"] + 40] for b in some], follow=True)
    found = []
    for b in again:
        for i, broke in enumerate(b.get("later") or []):
            if "out" in broke:
                break
            if check.pid in broke:
                because = f"after a deviation ({', '.join(b['wrong'])}) at event {b['l']}: "
                want = {"k": f"the property, whatever happened at {b['l']}"}
                found.append(dict(b, t=some[b["t"]]["t"], l=b["l"] + i + 1, want=want, because=because, broke=[check.pid], after=True))
                break
    return found


def shrink(check, suite, script, rounds=8):
    """A shorter script that still breaks the property."""

    def bad(cands):
        traces = [suite.execute(s) for s in cands]
        bads, _, _ = judge(suite.trace_module, traces, timeout=60)
        return {
            b["t"]: b["l"] for b in bads if check.pid in b["broke"] or not b["broke"]
        }

    end = real_monotonic() + 90
    try:
        size = max(1, len(script["events"]) // 2)
        for _ in range(rounds):
            ev = script["events"]
            if len(ev) < 2 or real_monotonic() > end:
                break
            size = min(size, max(1, len(ev) // 2))
            cands = []
            for k in (size, max(1, size // 2), max(1, size // 4), 1):
                for i in range(0, len(ev) - 1, k):
                    cands.append(dict(script, events=ev[:i] + ev[min(i + k, len(ev) - 1) :]))
            cands = cands[: max(4, min(400, 12000 // len(ev)))]
            hit = bad(cands)
            if not hit:
                break
            best = min(hit, key=lambda t: (hit[t], t))
            script = dict(cands[best], events=cands[best]["events"][: hit[best]])
    except Exception:
        pass  # a longer script will do
    return script


def replay(check, suite, rec):
    trace = suite.execute(rec["script"])
    bads, _, res = judge(suite.trace_module, [trace], follow=True)
    check.validated("replay", [trace], res)
    for i, e in enumerate(trace):
        print(i + 1, e)
    for b in bads:
        print("deviates at event", b["l"], "in", b["wrong"], "wanted", b["want"], "breaks", b["broke"])
        for i, broke in enumerate(b.get("later") or []):
            if broke:
                print("event", b["l"] + i + 1, "breaks", sorted(broke))
        if check.pid in b["broke"] or not b["broke"] or rec["verdict"].get("because"):
            check.violation(f"event {b['l']}: {b['wrong']}", rec)


def rng(check, *what):
    return random.Random(f"{check.seed}/{'/'.join(map(str, what))}")
