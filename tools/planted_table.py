#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (local tool, no check runs it)."""
import json, glob, os
here = os.path.dirname(os.path.abspath(__file__)) + "/.."
p = here + "/DESIGN.md"
MARK = "## Planted bugs\n"
text = open(p).read()
text = text.split(MARK)[0].rstrip() + "\n\n" + MARK + "\n"
rows = []
for d in sorted(glob.glob(here + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append((os.path.basename(d), m["property"], m["needs"]))
text += f"""{len(rows)} bugs are kept in `seeded/`. Each compiles, passes the 100 stable tests and has a demonstration that fails with it. The check of
the property in the second column catches each of them in its quick tier (`tools/try_bugs.sh` applies, checks and undoes them). Undoing
any of the twelve `fix:` commits makes the check of its property fail as well.

| bug | caught by | needs |
|---|---|---|
"""
for b, q, n in rows:
    text += f"| {b} | {q} | {n} |\n"
open(p, "w").write(text)
