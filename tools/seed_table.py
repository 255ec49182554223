#!/usr/bin/env python3
"""seed_table.py [RESULTS]: rewrites the table of planted bugs at the end of DESIGN.md.

RESULTS is the output of `tools/mut.py` over seeded/*/patch.diff: which checks report each of them."""
import glob
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- seeds -->"

caught = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"\S*?([\w-]+)/patch\.diff: (CAUGHT by (.*)|-- quiet)", l)
        if m:
            caught.setdefault(m.group(1), []).extend((m.group(3) or "").split())
rows = []
for d in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    name = os.path.basename(os.path.dirname(d))
    meta = json.load(open(d))
    brk = meta["what_it_breaks"].split("\n")[0].replace("|", "\\|")
    rows.append("| %s | %s | %s | %s |" % (name, meta["property"], " ".join(sorted(set(caught.get(name, [])))) or "none" if name in caught else "not run", brk))
p = os.path.join(VERIF, "DESIGN.md")
s = open(p).read().split(MARK)[0].rstrip() + "\n\n" + MARK + "\n\n| planted bug | property | reported by | what it breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
