"""Common machinery of the checks: running TLC, judging recorded executions, evidence, verdicts."""

import collections
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import tempfile
import threading

import clock

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """The check itself failed; this is never a verdict on the code."""


# ---------------------------------------------------------------- TLC


class Result:
    def __init__(self, out):
        self.out = out
        self.prints = collections.defaultdict(list)
        for line in out.splitlines():
            if line.startswith('"'):
                try:
                    text = json.loads(line)
                except ValueError:
                    continue
                tag, _, rest = text.partition(" ")
                try:
                    self.prints[tag].append(json.loads(rest))
                except ValueError:
                    continue
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        self.generated, self.distinct, self.left = map(int, m[-1]) if m else (0, 0, -1)
        self.ok = "Model checking completed. No error has been found." in out and self.left == 0
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0


def tlc(module, cfg, env=None, timeout=800, workers=None, args=()):
    """Runs TLC on spec/<module>.tla.  cfg is the text of the configuration.

    TLC's workers share values that are put in order when first used, which now
    and then goes wrong (a record field "occurs multiple times"): a run that TLC
    itself could not carry through is made again, with one worker.
    """
    r = _tlc(module, cfg, env, timeout, workers, args)
    if "threw an unexpected exception" in r.out or "Field name" in r.out or "java.lang." in r.out:
        r = _tlc(module, cfg, env, timeout, 1, args)
    return r


def _tlc(module, cfg, env, timeout, workers, args):
    tmp = tempfile.mkdtemp(prefix="tlc")
    try:
        path = os.path.join(tmp, module + ".cfg")
        with open(path, "w") as f:
            f.write(cfg)
        cmd = ["java", "-Djava.io.tmpdir=" + tmp, "-XX:+UseParallelGC", "-Xmx6g", "-Xss16m", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-fp", "0"]
        cmd += ["-metadir", os.path.join(tmp, "meta"), "-workers", str(workers or min(8, os.cpu_count() or 1))]
        cmd += ["-config", path, *args, os.path.join(SPEC, module + ".tla")]
        full = dict(os.environ, **(env or {}))
        full.pop("JAVA_TOOL_OPTIONS", None)
        try:
            p = subprocess.run(
                cmd, cwd=tmp, env=full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True
            )
        except subprocess.TimeoutExpired:
            raise Machinery(f"TLC timed out on {module}")
        return Result(p.stdout)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def config(module, **consts):
    """The committed configuration of a module, with other constants."""
    with open(os.path.join(SPEC, module + ".cfg")) as f:
        text = f.read()
    for k, v in consts.items():
        text, n = re.subn(rf"(?m)^(\s*{k}\s*=).*$", lambda m: f"{m.group(1)} {v}", text)
        if n != 1:
            raise Machinery(f"no constant {k} in {module}.cfg")
    return text


def only_property(cfg, pid):
    """Of the properties named Cnn keep the one that is checked; all invariants stay."""
    return re.sub(
        r"(?m)^PROPERTIES .*$",
        lambda m: "PROPERTIES " + " ".join(p for p in m.group(0).split()[1:] if p == pid or not re.match(r"C\d\d", p))
        if any(p == pid or not re.match(r"C\d\d", p) for p in m.group(0).split()[1:])
        else "",
        cfg,
    )


def tset(names):
    return "{" + ", ".join(json.dumps(n) for n in names) + "}"


# ---------------------------------------------------------------- values


def _canon(v):
    if v is None:
        return "n"
    if isinstance(v, bool):
        return "T" if v else "F"
    if isinstance(v, int):
        return f"i{v}"
    if isinstance(v, float):
        return f"f{v!r}"
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (bytes, bytearray)):
        return "y" + bytes(v).hex()
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(_canon(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join(sorted(_canon(k) + ":" + _canon(x) for k, x in v.items())) + "}"
    return f"?{type(v).__name__}"


def canon(v):
    """A name for a value: equal values of equal types have equal names."""
    text = _canon(v)
    if len(text) > 40 or not text.isascii() or "\\" in text or '"' in text or "~" in text:
        return "#" + hashlib.sha1(text.encode("utf-8", "surrogatepass")).hexdigest()[:16]
    return text


ABSENT = "~"


def opt(v):
    """An optional list or dictionary: an empty one says the same as none."""
    return ABSENT if v is None or v == [] or v == {} else canon(v)


def idtok(v):
    return str(v) if isinstance(v, int) and not isinstance(v, bool) else "?" + _canon(v)[:30]


def limbs(v):
    if isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 1 << 57:
        return [v >> 27, v & ((1 << 27) - 1)]
    return [-1, 0]


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def guarded(f, seconds=5):
    """Calls f and says how it ended: ("ok", value), ("raised", exception) or ("hang", None).

    The limit is on processor time, so that a pause of the whole machine is no hang.
    """
    clock.tick()
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.setitimer(signal.ITIMER_REAL, 30 * seconds)
    try:
        v = f()
        signal.setitimer(signal.ITIMER_PROF, 0)
        return "ok", v
    except Hang:
        return "hang", None
    except Exception as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        return "raised", e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


# ---------------------------------------------------------------- judging


def judge(module, traces, timeout=800, follow=False):
    """Has TLC follow the traces; returns the objections, one per trace at most.

    With follow each objection also tells what the events after it break.
    """
    if not traces:
        return [], [], Result("")
    fd, path = tempfile.mkstemp(prefix="traces", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(json.dumps(traces))
        res = tlc(module, config(module), env={"TRACES": path, "FOLLOW": "1" if follow else "0"}, timeout=timeout)
    finally:
        os.unlink(path)
    if not res.ok:
        raise Machinery(f"TLC failed on {module}:\n{res.out[-3000:]}")
    bad = {b["t"] - 1: b for b in res.prints["BAD"]}
    out = {b["t"] - 1: b for b in res.prints["OUT"]}
    want = 0
    for i, t in enumerate(traces):
        stop = bad.get(i) or out.get(i)
        want += 1 + (stop["l"] if stop else len(t))
    if res.distinct != want:
        raise Machinery(f"{module}: {res.distinct} states judged, expected {want}")
    for i, b in bad.items():
        b["t"] = i
        b["wrong"] = sorted(b["wrong"])
        b["broke"] = sorted(b["broke"])
    return [bad[i] for i in sorted(bad)], [out[i] for i in sorted(out)], res


# ---------------------------------------------------------------- tours


def tours(edges, limit=None, maxlen=150, rng=None):
    """Walks from the initial state that together use every edge (source, event, target).

    The walks are sequences of events; each is a sensible input whether or not
    the real system is in the state the edge was taken from.
    """
    succ = collections.defaultdict(list)
    todo = collections.defaultdict(list)
    seen = set()
    dsts = {e[2] for e in edges if e[0] != e[2]}
    root = next((e[0] for e in edges if e[0] not in dsts), edges[0][0])  # nothing leads back to the start
    for src, ev, dst in edges:
        key = (src, json.dumps(ev, sort_keys=True))
        if key in seen:
            continue
        seen.add(key)
        todo[src].append((ev, dst))
        if src != dst:
            succ[src].append((ev, dst))
    for v in todo.values():
        v.sort(key=lambda x: json.dumps(x[0], sort_keys=True), reverse=True)
    for v in succ.values():
        v.sort(key=lambda x: json.dumps(x[0], sort_keys=True))
    left = sum(len(v) for v in todo.values())
    total = left
    walks = []
    # breadth-first tree from the root for restarts
    parent = {root: None}
    queue = collections.deque([root])
    while queue:
        n = queue.popleft()
        for ev, m in succ[n]:
            if m not in parent:
                parent[m] = (n, ev)
                queue.append(m)
    order = sorted(parent)
    if rng:
        rng.shuffle(order)
    ptr = 0
    while left and (limit is None or total - left < limit):
        while ptr < len(order) and not todo[order[ptr]]:
            ptr += 1
        if ptr == len(order):
            break
        path = []
        n = order[ptr]
        while parent[n] is not None:
            n, ev = parent[n][0], parent[n][1]
            path.append(ev)
        path.reverse()
        walk, n = path, order[ptr]
        while len(walk) < maxlen:
            if todo[n]:
                # stay in a state as long as there is something to try in it
                k = next((i for i in range(len(todo[n]) - 1, -1, -1) if todo[n][i][1] == n), len(todo[n]) - 1)
                ev, m = todo[n].pop(k)
                left -= 1
                walk.append(ev)
                n = m
                continue
            # the nearest state with something left, not too far away
            near, q, found = {n: None}, collections.deque([(n, 0)]), None
            while q and found is None:
                x, dist = q.popleft()
                if dist > 4:
                    break
                for ev, y in succ[x]:
                    if y not in near:
                        near[y] = (x, ev)
                        if todo[y]:
                            found = y
                            break
                        q.append((y, dist + 1))
            if found is None:
                break
            hop, y = [], found
            while near[y] is not None:
                y, ev = near[y][0], near[y][1]
                hop.append(ev)
            walk += reversed(hop)
            n = found
        walks.append(walk)
    return walks, total - left, total


# ---------------------------------------------------------------- one check


def background(f, *args, **kw):
    """Runs f in a thread; the result is called for."""
    box = []

    def work():
        try:
            box.append((f(*args, **kw), None))
        except BaseException as e:
            box.append((None, e))

    t = threading.Thread(target=work)
    t.start()

    def result():
        t.join()
        v, e = box[0]
        if e:
            raise e
        return v

    return result


class Check:
    """One run of one check."""

    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.start = clock.real_time()
        self.states = self.transitions = self.traces = self.events = 0
        self.details = {}
        self.samples = []
        self.violations = []
        self.known = load_known()
        self.found = []
        self.assumptions = []

    def model(self, name, res):
        """Adds a model checking run."""
        if not res.ok:
            raise Machinery(f"model checking of {name} failed:\n{res.out[-3000:]}")
        self.states += res.distinct
        self.transitions += res.generated
        self.details.setdefault("model_checking", {})[name] = {
            "distinct_states": res.distinct,
            "transitions": res.generated,
            "depth": res.depth,
        }

    def validated(self, name, traces, res, sample=None):
        self.traces += len(traces)
        n = sum(len(t) for t in traces)
        self.events += n
        self.states += res.distinct
        self.transitions += res.generated
        d = self.details.setdefault("conformance", {}).setdefault(
            name, {"traces": 0, "events": 0, "distinct_events": 0, "judged_states": 0}
        )
        d["traces"] += len(traces)
        d["events"] += n
        d["distinct_events"] += len({json.dumps(e, sort_keys=True) for t in traces for e in t})
        d["judged_states"] += res.distinct
        if traces and len(self.samples) < 4:
            t = traces[len(traces) // 2]
            self.samples.append({"from": name, "trace": t[:12], "length": len(t)})

    def violation(self, what, replay):
        key = hashlib.sha1(json.dumps(replay.get("identity"), sort_keys=True).encode()).hexdigest()[:12]
        if (self.pid, key) in self.known:
            line = f"KNOWN-FINDING: property={self.pid} {self.known[self.pid, key]}"
            if line not in self.found:
                self.found.append(line)
                print(line)
        else:
            self.violations.append((what, dict(replay, property=self.pid, what=what, key=key)))

    def finish(self):
        shown = 0
        os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
        count = 0
        for i, (what, replay) in enumerate(self.violations):
            count += 1
            if shown < 3:
                path = os.path.join(EVIDENCE, "replays", f"{self.pid}-{shown}.json")
                with open(path, "w") as f:
                    json.dump(replay, f, indent=1, default=str)
                print(f"VIOLATION property={self.pid} replay={path}")
                print(f"  {what}"[:1500])
                shown += 1
        evidence = {
            "property": self.pid,
            "tier": "thorough" if self.thorough else "quick",
            "seed": self.seed,
            "level": "model_checking",
            "coverage": dict(
                states=self.states,
                transitions=self.transitions,
                traces_validated_against_impl=self.traces,
                events_validated=self.events,
                samples=self.samples or ["none"],
                **self.details,
            ),
            "assumptions": self.assumptions,
            "wall_s": round(clock.real_time() - self.start, 2),
            "violations": count,
            "known_findings": self.found,
        }
        with open(os.path.join(EVIDENCE, f"{self.pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
        print(
            f"{self.pid}: {self.states} states, {self.transitions} transitions, {self.traces} executions of the code"
            f" ({self.events} events), {count} violations, {evidence['wall_s']} s"
        )
        return 1 if count else 0


def load_known():
    """The findings listed as known: lines "known: property=<id> key=<key> <what fails>"."""
    known = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m:
                    known[m.group(1), m.group(2)] = m.group(3)
    return known
