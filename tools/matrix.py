#!/usr/bin/env python3
"""matrix.py PROPERTY... -- BUG...: runs checks against planted bugs of other properties (a self-test of the machinery)."""

import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def one(job):
    pid, bug = job
    wt = tempfile.mkdtemp(prefix="matrix")
    try:
        copy = os.path.join(wt, "repo")
        shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".venv"))
        subprocess.run(["git", "-C", copy, "apply", os.path.join(VERIF, "seeded", bug, "patch.diff")], check=True)
        env = dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE=wt)
        p = subprocess.run([PY, os.path.join(VERIF, "check.py"), pid], env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return pid, bug, p.returncode, p.stdout
    finally:
        shutil.rmtree(wt)


args = sys.argv[1:]
cut = args.index("--")
jobs = [(p, b) for b in args[cut + 1 :] for p in args[:cut]]
with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
    for pid, bug, rc, text in ex.map(one, jobs):
        print(f"{bug} {pid}: {({0: 'quiet', 1: 'alarm'}).get(rc, f'rc {rc}')}", flush=True)
        if rc not in (0, 1) or "-v" in os.environ.get("FLAGS", ""):
            print(text[-1500:])
