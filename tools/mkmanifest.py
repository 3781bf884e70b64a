#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the suites of check.py and the properties."""

import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, "check.py")).read()
suites = {}
for pids, suite in re.findall(r'^    \("((?:C\d\d ?)+)", "(\w+)"\),$', src, re.M):
    for p in pids.split():
        suites.setdefault(p, []).append(suite)

NOTES = {
    "dealer": "Dealer.tla",
    "broker": "Broker.tla",
    "session": "Session.tla",
    "system": "System.tla",
    "handshake": "Handshake.tla",
    "wire": "Wire.tla",
    "payload": "Payload.tla",
    "rawsocket": "RawSocket.tla",
    "idgen": "IdGen.tla",
    "opaque": "Opaque.tla",
    "mass": "Mass.tla",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in suites:
        na.append({"property": p, "reason": "the check is not built yet"})
        continue
    mods = " and ".join(NOTES[s] for s in suites[p])
    checks.append(
        {
            "property": p,
            "quick_cmd": f"/opt/venv/bin/python check.py {p}",
            "thorough_cmd": f"env VERIF_TIER=thorough /opt/venv/bin/python check.py {p}",
            "technique": f"TLA+ specification ({mods}) model checked with TLC, bound to the code by replaying its"
            " behaviours into it and by trace validation with TLC",
            "level": "model_checking",
            "level_note": "The property is checked on every reachable state of the specification within the constants of"
            " the MC configuration. For the code it is decided on the executions of the run: behaviours generated by TLC"
            " and seeded longer schedules, each event and reply judged by TLC against the specification. Assumed: TLC,"
            " the JSON module, and the harness that translates between the library's objects and the abstract values.",
        }
    )
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import cbor2, msgpack, nacl' && java -version",
    "checks": checks,
    "not_applicable": na,
    "notes": "All specifications are TLA+ and checked with TLC; see DESIGN.md. /repo has no hooks, only fix commits.",
}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
