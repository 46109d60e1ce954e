#!/usr/bin/env python3
"""Puts the table of planted bugs into DESIGN.md."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
base = os.path.join(root, "seeded")
rows = ["| bug | caught by | what it needs |", "|---|---|---|"]
for d in sorted(os.listdir(base)):
    m = json.load(open(os.path.join(base, d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("\n", " ").replace("|", "/")))
path = os.path.join(root, "DESIGN.md")
s = open(path).read()
s = re.sub(r"\| bug \| caught by.*?\n\n", lambda _: "\n".join(rows) + "\n\n", s, flags=re.S)
s = re.sub(r"\n\d+ changes are kept in `seeded/`", "\n%d changes are kept in `seeded/`" % (len(rows) - 2), s)
open(path, "w").write(s)
