"""Mutation testing of the specification and its drivers.

    /opt/venv/bin/python tools/mutate.py [--jobs N] [--out FILE] file.py ...     (relative to wampproto/)

Every mutant of these files which the repository's tests do not notice is driven
by the suites that cover the file; those which no suite notices are reported.
A suite notices what deviates from the specification, whichever property that breaks.
"""

import ast
import concurrent.futures
import hashlib
import os
import pickle
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PYTHON = "/opt/venv/bin/python"
SUITES = [
    ("dealer.py", ["dealer"]),
    ("broker.py", ["broker"]),
    ("session.py", ["session"]),
    ("acceptor.py", ["handshake"]),
    ("joiner.py", ["handshake"]),
    ("auth/", ["handshake"]),
    ("idgen.py", ["idgen", "session", "handshake"]),
    ("types.py", ["dealer", "broker", "handshake"]),
    ("exception.py", ["handshake", "session"]),
    ("uris.py", ["dealer", "broker", "handshake"]),
    ("messages/", ["wire", "dealer", "broker", "session"]),
    ("serializers/payload.py", ["payload"]),
    ("serializers/", ["wire", "session"]),
    ("transports/", ["rawsocket"]),
]
PIDS = {"dealer": "C01 C11 C12", "broker": "C07", "session": "C13", "handshake": "C18", "wire": "C25", "payload": "C27"}
PIDS.update(rawsocket="C28 C29", idgen="C12", system="C17 C32")
PAIRS = [
    "args kwargs", "authid authrole", "payload_serializer payload_enc_algo", "session_id request_id", "caller callee",
    "caller_id callee_id", "request_id invocation_id", "registration_id request_id", "subscription_id request_id",
    "options details", "registration_id invocation_id", "realm authid", "authmethods authextra", "reason message",
]


# ---------------------------------------------------------------- one suite against the code in VERIF_REPO


def one(suite):
    sys.dont_write_bytecode = True
    sys.path[:0] = [os.environ["VERIF_REPO"], VERIF + "/harness"]
    import importlib

    import core
    import scripted

    real_tlc, cache = core.tlc, "/tmp/mutate.cache"
    os.makedirs(cache, exist_ok=True)

    def cached(module, cfg, **kw):
        if module.startswith("Trace"):
            return real_tlc(module, cfg, **dict(kw, workers=2))
        path = f"{cache}/{module}.{hashlib.sha1(cfg.encode()).hexdigest()}"
        if not os.path.exists(path):
            res = real_tlc(module, cfg, **kw)
            with open(path + str(os.getpid()), "wb") as f:
                pickle.dump(res, f)
            os.rename(path + str(os.getpid()), path)
        with open(path, "rb") as f:
            return pickle.load(f)

    def run(check, s, label, scripts, traces=None):
        if traces is None:
            traces = [s.execute(x) for x in scripts]
        bads, _, res = core.judge(s.trace_module, traces)
        known = list(getattr(s, "failing", {}).values())
        bads = [b for b in bads if scripts[b["t"]] not in known]
        for b in bads[:1]:
            print("NOTICED", label, sorted(b["broke"]), b["wrong"], traces[b["t"]][b["l"] - 1])
            sys.stdout.flush()
            os._exit(1)

    core.tlc, scripted.run = cached, run
    m = importlib.import_module(suite)
    m.tlc = cached
    for pid in PIDS[suite].split():
        m.check(core.Check(pid))
    sys.stdout.flush()
    os._exit(0)


# ---------------------------------------------------------------- mutants


class Mutants:
    def __init__(self, text):
        self.text, self.found = text, {}
        self.lines = text.splitlines(keepends=True)
        self.start = [0]
        for line in self.lines:
            self.start.append(self.start[-1] + len(line.encode()))
        self.raw = text.encode()
        tree = ast.parse(text)
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                docs.add(n.value)
            for field in ("annotation", "returns"):
                for c in ast.walk(getattr(n, field, None) or ast.Pass()):
                    docs.add(c)
        for n in ast.walk(tree):
            if n not in docs:
                self.visit(n)

    def pos(self, n):
        return self.start[n.lineno - 1] + n.col_offset, self.start[n.end_lineno - 1] + n.end_col_offset

    def src(self, n):
        a, b = self.pos(n)
        return self.raw[a:b].decode()

    def put(self, n, new, why):
        a, b = self.pos(n)
        if self.raw[a:b].decode() == new:
            return
        t = (self.raw[:a] + new.encode() + self.raw[b:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            return
        self.found.setdefault(t, f"line {n.lineno}: {why}: {self.src(n)[:70]!r} -> {new[:70]!r}")

    def visit(self, n):
        s = self.src
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b, op = s(n.left), s(n.comparators[0]), type(n.ops[0])
            other = {
                ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"],
                ast.GtE: [">", "<="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"],
            }.get(op, [])
            for o in other:
                self.put(n, f"({a} {o} {b})", "comparison")
            if b == "None":
                self.put(n, f"({a})" if op is ast.IsNot else f"(not {a})", "truth")
        if isinstance(n, ast.BoolOp):
            word = " or " if isinstance(n.op, ast.And) else " and "
            parts = [f"({s(v)})" for v in n.values]
            self.put(n, "(" + word.join(parts) + ")", "and/or")
            for i in range(len(parts)):
                rest = parts[:i] + parts[i + 1 :]
                self.put(n, "(" + (" and " if word == " or " else " or ").join(rest) + ")", "operand dropped")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.put(n, f"({s(n.operand)})", "not")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            self.put(n.test, "True", "test")
            self.put(n.test, "False", "test")
            self.put(n.test, f"(not ({s(n.test)}))", "test")
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                self.put(n, str(not v), "constant")
            elif isinstance(v, int):
                self.put(n, str(v + 1), "constant")
                self.put(n, f"({v - 1})", "constant")
            elif isinstance(v, str) and v:
                self.put(n, repr(v + "x"), "constant")
            elif v is None:
                self.put(n, "{}", "constant")
                self.put(n, "0", "constant")
        if isinstance(n, ast.BinOp):
            a, b = s(n.left), s(n.right)
            for o in {
                ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.LShift: [">>"], ast.RShift: ["<<"], ast.BitAnd: ["|"],
                ast.BitOr: ["&", "^"], ast.Pow: ["*"], ast.Mod: ["//"],
            }.get(type(n.op), []):
                self.put(n, f"({a} {o} {b})", "operator")
            self.put(n, f"({a})", "operator")
            self.put(n, f"({b})", "operator")
        if isinstance(n, ast.Return) and n.value is not None:
            self.put(n, "return None", "return")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break, ast.Return)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                self.put(n, "pass", "statement")
        if isinstance(n, ast.Continue):
            self.put(n, "break", "continue")
        if isinstance(n, ast.Break):
            self.put(n, "continue", "break")
        if isinstance(n, ast.Call):
            args = n.args
            for i in range(len(args)):
                if len(args) > 1 or True:
                    self.call(n, args[:i] + args[i + 1 :], n.keywords, "argument dropped")
            for i in range(len(args) - 1):
                self.call(n, args[:i] + [args[i + 1], args[i]] + args[i + 2 :], n.keywords, "arguments swapped")
            for i in range(len(n.keywords)):
                self.call(n, args, n.keywords[:i] + n.keywords[i + 1 :], "keyword dropped")
            if len(args) == 1 and not n.keywords:
                self.put(n, f"({s(args[0])})", "call")
            if isinstance(n.func, ast.Attribute) and n.func.attr == "pop":
                self.put(n, s(n).replace(".pop(", ".get(", 1), "pop")
            if isinstance(n.func, ast.Attribute) and n.func.attr == "get":
                self.put(n, s(n).replace(".get(", ".pop(", 1), "get")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("discard", "remove", "add", "append"):
                self.put(n, f"{s(n.func.value)}.clear()", "clear")
        if isinstance(n, (ast.Attribute, ast.Name)):
            name = n.attr if isinstance(n, ast.Attribute) else n.id
            for p in PAIRS:
                x, y = p.split()
                for a, b in ((x, y), (y, x)):
                    if name in (a, "_" + a):
                        self.put(n, s(n)[: -len(a)] + b, "name")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            self.put(n, s(n.value), "slice")
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            self.put(n.type, "ZeroDivisionError", "except")

    def call(self, n, args, keywords, why):
        inner = [self.src(a) for a in args]
        inner += [(f"{k.arg}=" if k.arg else "**") + self.src(k.value) for k in keywords]
        self.put(n, f"{self.src(n.func)}({', '.join(inner)})", why)


def examine(job):
    file, text, why = job
    with tempfile.TemporaryDirectory(prefix="mut") as d:
        repo = d + "/repo"
        subprocess.run(["cp", "-a", "/repo/.", repo], check=True)
        with open(f"{repo}/wampproto/{file}", "w") as f:
            f.write(text)
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=repo, PYTHONHASHSEED="0")
        env.update(VERIF_EVIDENCE=d, VERIF_SEED="1", VERIF_TIER="quick")
        try:
            p = subprocess.run([PYTHON, "-B", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "tests", "--ignore=tests/interoptests"],
                               cwd=repo, env=env, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return "tests", file, why, ""
        if p.returncode != 0:
            return "tests", file, why, ""
        said = ""
        for suite in next(s for f, s in SUITES if file.startswith(f)):
            try:
                p = subprocess.run([PYTHON, "-B", HERE + "/mutate.py", "--one", suite], env=env, capture_output=True,
                                   text=True, timeout=800)
            except subprocess.TimeoutExpired:
                return "timeout", file, why, ""
            if p.returncode:
                at = p.stdout.find("NOTICED")
                if at >= 0:
                    return "noticed", file, why, p.stdout[at : at + 150].splitlines()[0]
                said += p.stdout[-300:] + p.stderr[-600:]
        return ("error" if said else "missed"), file, why, said


def main():
    args = sys.argv[1:]
    if args[0] == "--one":
        return one(args[1])
    jobs, out = 6, "/tmp/mutants.txt"
    while args[0].startswith("--"):
        if args[0] == "--jobs":
            jobs = int(args[1])
        else:
            out = args[1]
        args = args[2:]
    work = []
    for file in args:
        with open(f"/repo/wampproto/{file}") as f:
            work += [(file, t, why) for t, why in Mutants(f.read()).found.items()]
    print(len(work), "mutants", flush=True)
    count = {}
    with open(out, "a") as f, concurrent.futures.ThreadPoolExecutor(jobs) as pool:
        for kind, file, why, said in pool.map(examine, work):
            count[kind] = count.get(kind, 0) + 1
            f.write(f"{kind:8} {file} {why} {said}\n")
            f.flush()
            if kind not in ("tests", "noticed"):
                print(kind, file, why, said, flush=True)
    print(count)


main()
