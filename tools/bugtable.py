#!/usr/bin/env python3
"""bugtable.py: writes the table of planted bugs at the end of DESIGN.md."""

import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what was missing when the check of its property missed a bug at first
MISSED = {
    "c07-exclude-me-honoured": "options of every kind on every request",
    "c15-yield-after-error": "ERROR details like those of a YIELD",
    "c16-abort-clears-calls": "idle events in the re-run",
    "c18-key-from-authenticate": "extra dictionaries in AUTHENTICATE",
    "c19-cryptosign-suffix": "a client's proof over the end of the challenge (P19)",
    "c25-msgpack-long-text": "texts of 1 MiB",
    "c25-cbor-shared-values": "CBOR tags are no plain encoding",
    "c25-shared-empty-options": "other messages made and changed in between",
    "c26-numeric-type-code": "type codes beyond the known ones, and modulo 2^n",
}
try:
    with open(os.path.join(VERIF, "tools", "missed.json")) as f:
        MISSED.update(json.load(f))
except FileNotFoundError:
    pass

rows = []
for b in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
    with open(os.path.join(VERIF, "seeded", b, "meta.json")) as f:
        m = json.load(f)
    rows.append(f"| {b} | {m['property']} | {m['needs']} | {MISSED.get(b, '')} |")
path = os.path.join(VERIF, "DESIGN.md")
with open(path) as f:
    text = f.read().split("\n## Planted bugs")[0]
text += f"""
## Planted bugs

{len(rows)} changes in seeded/ pass the tests and break a property (tools/plant.py confirms both, and that the
demonstration tells the difference). Each is caught by the check of its property in the quick tier. The last column
says what the check lacked where it missed the bug at first.

| bug | caught by | needs | added because of it |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
with open(path, "w") as f:
    f.write(text)
