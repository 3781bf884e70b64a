"""Applies the refactorings in tools/quiet, which keep the behaviour, to copies of /repo; the checks must stay quiet.

    /opt/venv/bin/python tools/quiet.py [refactoring ...]
"""

import glob
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
CHECKS = {
    "router": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C17 C32",
    "session": "C13 C14 C15 C16 C17 C32",
    "handshake": "C18 C19 C20 C21 C22 C23 C24 C30",
    "codecs": "C01 C07 C25 C26 C27 C28 C29 C31 C32",
}


def main():
    names = sys.argv[1:] or sorted(os.path.basename(f)[:-5] for f in glob.glob(HERE + "/quiet/*.diff"))
    alarms = 0
    for name in names:
        with tempfile.TemporaryDirectory() as d:
            subprocess.run(["cp", "-a", "/repo/.", d + "/repo"], check=True)
            subprocess.run(["git", "-C", d + "/repo", "apply", f"{HERE}/quiet/{name}.diff"], check=True)
            env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_EVIDENCE=d, VERIF_SEED="1", VERIF_TIER="quick")
            for p in CHECKS.get(name.split("-")[0], " ".join(CHECKS.values())).split():
                r = subprocess.run([sys.executable, HERE + "/../check.py", p], env=env, capture_output=True, text=True)
                line = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")][:1]
                print(name, p, "quiet" if r.returncode == 0 else f"rc={r.returncode} {line}", flush=True)
                alarms += r.returncode != 0
    sys.exit(alarms > 0)


main()
