#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = "".join("| %s | %s | %s |\n" % (i, m["what_it_breaks"], m["needs"]) for i in sorted(os.listdir(V + "/seeded")) for m in [json.load(open("%s/seeded/%s/meta.json" % (V, i)))])
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"\| planted bug \|.*?\n\n", lambda _: "| planted bug | what it breaks | what it needs |\n|---|---|---|\n" + rows + "\n", s, flags=re.S)
open(p, "w").write(s)
