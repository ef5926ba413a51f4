#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "s05": 'missed at first; the stage "degenerate parts" was added',
    "s15": "missed at first; structured scalars were added",
    "s27": "missed at first; structured targets and differences were added",
    "s40": "missed at first; arguments of refused appends are compared now",
    "s44": "missed at first; all kinds of errors are injected now",
    "s88": "missed at first; proofs that leave some of the terms out were added",
    "s99": "missed at first; CRSs with another target generator were added",
    "s61": "missed at first; the arguments of refused appends are kept and compared",
}
try:
    NOTE.update(json.load(open(H + "/tools/notes.json")))
except FileNotFoundError:
    pass
rows = []
for m in sorted(glob.glob(H + "/seeded/*/meta.json"), key=lambda p: int(re.search(r"/s(\d+)", p).group(1))):
    id = m.split("/")[-2]
    d = json.load(open(m))
    rows.append(f"| {id} | {d['property']} | {d['needs']} | {NOTE.get(id.split('-')[0], '')} |")
p = H + "/DESIGN.md"
s = open(p).read()
a, b = s.split("| planted bug | caught by | needs | |\n|---|---|---|---|\n")
rest = re.sub(r"\A(\|.*\n?)+", "", b)
open(p, "w").write(a + "| planted bug | caught by | needs | |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + rest)
