#!/usr/bin/env python3
"""plant.py [id ...] [--check] [--all-checks]: writes /verif/seeded from bugs.py and confirms each bug.

A bug is kept only if the patch changes original lines of /repo, the tests pass
with it, and its demonstration passes without and fails with it.  --check also
runs the check of its property on the patched copy.
"""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC")

sys.path.insert(0, HERE)
from bugs import BUGS, PRE  # noqa: E402

BASE = subprocess.check_output(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], text=True).strip()


def run(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def plant(b, check):
    wt = tempfile.mkdtemp(prefix="plant")
    copy = os.path.join(wt, "repo")
    out = {"id": b["id"]}
    try:
        shutil.copytree(REPO, copy, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".venv"))
        touched = []
        for f, old, new in b["edits"]:
            path = os.path.join(copy, f)
            text = open(path).read()
            if text.count(old) != 1:
                out["error"] = f"{text.count(old)} places for an edit in {f}: {old[:60]!r}"
                return out
            open(path, "w").write(text.replace(old, new))
            touched.append(f)
        diff = subprocess.check_output(["git", "-C", copy, "diff", "HEAD"], text=True)
        # which original lines does it change?
        removed = mine = 0
        for f in sorted(set(touched)):
            d = subprocess.check_output(["git", "-C", copy, "diff", "-U0", "HEAD", "--", f], text=True)
            blame = subprocess.check_output(["git", "-C", REPO, "blame", "-l", "-s", "HEAD", "--", f], text=True).splitlines()
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                n = int(m.group(2)) if m.group(2) is not None else 1
                for i in range(int(m.group(1)), int(m.group(1)) + n):
                    removed += 1
                    if not blame[i - 1].lstrip("^").startswith(BASE[:38]):
                        mine += 1
        out["lines"] = f"{removed} changed, {mine} not original"
        if removed == mine:
            out["error"] = "changes no original line"  # not to be kept, but worth checking
        dst = os.path.join(VERIF, "seeded", b["id"])
        os.makedirs(dst, exist_ok=True)
        with open(os.path.join(dst, "patch.diff"), "w") as f:
            f.write(diff)
        with open(os.path.join(dst, "demo.py"), "w") as f:
            f.write((b["demo"] if b["demo"].startswith("#raw") else PRE + b["demo"]) + '\nprint("as it should be")\n')
        with open(os.path.join(dst, "demo.sh"), "w") as f:
            f.write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        with open(os.path.join(dst, "meta.json"), "w") as f:
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
            f.write("\n")
        rc, text = run(["sh", os.path.join(dst, "demo.sh")], REPO, timeout=300)
        if rc != 0:
            out["error"] = "demo fails on the unchanged tree: " + text[-400:]
            return out
        rc, text = run(["sh", os.path.join(dst, "demo.sh")], copy, timeout=300)
        out["demo"] = text.strip().splitlines()[-1][:120] if text.strip() else f"rc {rc}"
        if rc == 0:
            out["error"] = "demo passes with the bug"
            return out
        rc, text = run(
            [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests", "--ignore=tests/interoptests"],
            copy,
            dict(ENV, PYTHONPATH=copy),
        )
        out["tests"] = text.strip().splitlines()[-1]
        if rc != 0:
            out["error"] = "tests fail"
            return out
        if check:
            rc, text = run([PY, os.path.join(VERIF, "check.py"), b["prop"]], VERIF, dict(ENV, VERIF_REPO=copy, VERIF_EVIDENCE=wt))
            out["check"] = {0: "MISSED", 1: "caught"}.get(rc, f"rc {rc}")
            if rc != 0:
                out["said"] = text[:700]
        return out
    finally:
        if "error" in out and os.path.isdir(os.path.join(VERIF, "seeded", b["id"])):
            shutil.rmtree(os.path.join(VERIF, "seeded", b["id"]))
        shutil.rmtree(wt, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    todo = [b for b in BUGS if not args or b["id"] in args or any(b["id"].startswith(a) for a in args)]
    ids = [b["id"] for b in BUGS]
    assert len(ids) == len(set(ids))
    with ThreadPoolExecutor(3 if "--check" in sys.argv else 8) as ex:
        for out in ex.map(lambda b: plant(b, "--check" in sys.argv), todo):
            said = out.pop("said", None)
            print(out)
            if said and "-v" in sys.argv or (out.get("check") or "").startswith("rc"):
                print("    " + str(said).replace("\n", "\n    "))


main()
