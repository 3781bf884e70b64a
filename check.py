#!/opt/venv/bin/python
"""check.py <property> [--replay FILE]: decides one property on the code in /repo."""

import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-B", *sys.argv])

sys.dont_write_bytecode = True
sys.pycache_prefix = tempfile.mkdtemp(prefix="nopyc")  # never a stale compilation
sys.path[:0] = [REPO, os.path.join(HERE, "harness")]

import core  # noqa: E402

SUITES = {}
for _pids, _suite in (
    ("C01 C02 C03 C04 C05 C06 C11 C12", "dealer"),
    ("C07 C08 C09 C10 C11 C12", "broker"),
    ("C13 C14 C15 C16", "session"),
    ("C17 C32", "system"),
    ("C18 C19 C20 C21 C22 C23 C24 C30", "handshake"),
    ("C25 C26", "wire"),
    ("C27", "payload"),
    ("C28 C29", "rawsocket"),
    ("C31", "opaque"),
    ("C12", "idgen"),
    ("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16", "mass"),
):
    for _p in _pids.split():
        SUITES.setdefault(_p, []).append(_suite)


def main():
    pid = sys.argv[1]
    c = core.Check(pid)
    try:
        import importlib

        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            import json

            with open(sys.argv[3]) as f:
                rec = json.load(f)
            suite = importlib.import_module(rec["driver"])
            suite.replay(c, rec) if hasattr(suite, "replay") else __import__("scripted").replay(c, suite, rec)
            for what, _ in c.violations:
                print(f"VIOLATION property={pid} replay={sys.argv[3]}\n  {what}")
            return 1 if c.violations else 0
        for name in SUITES[pid]:
            importlib.import_module(name).check(c)
    except core.Machinery as e:
        print(f"ERROR: {e}")
        return 2
    except Exception:
        import traceback

        traceback.print_exc()
        print("ERROR: the check failed")
        return 2
    finally:
        import shutil

        shutil.rmtree(sys.pycache_prefix, ignore_errors=True)
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
