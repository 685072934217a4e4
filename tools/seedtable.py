#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | caught by | needs | breaks |", "| --- | --- | --- | --- |"]
for d in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
    f = lambda x: x.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {d} | {m['property']} | {f(m['needs'])} | {f(m['what_it_breaks'])} |")
p = ROOT + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!--table-->.*<!--/table-->", lambda _: "<!--table-->\n" + "\n".join(rows) + "\n<!--/table-->", s, flags=re.S)
open(p, "w").write(s)
