#!/usr/bin/env python3
"""tryseed.py SLOT ID[:CHECK...]...: applies seeded/ID/patch.diff to a scratch copy (/tmp/mut/SLOT) and runs the check of its property
(and the named ones) there, leaving /repo alone."""
import json, os, subprocess, sys
sys.path.insert(0, "/verif/tools")
import mutate
slot = sys.argv[1]
os.makedirs("/tmp/mut", exist_ok=True)
d = mutate.setup(int(slot))
for a in sys.argv[2:]:
    i, *cs = a.split(":")
    p = "/verif/seeded/%s/" % i
    subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "-f", "--", "."], check=True)
    subprocess.run(["git", "-C", d + "/repo", "apply", p + "patch.diff"], check=True)
    for c in [json.load(open(p + "meta.json"))["property"]] + cs:
        r = subprocess.run(["python3", "check.py", c], cwd=d + "/verif", env=dict(mutate.ENV, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(i, c, {0: "MISSED", 1: "caught"}.get(r.returncode, "TOOL " + r.stdout[-400:]), r.stdout.strip().splitlines()[-1][:200] if r.stdout.strip() else "", flush=True)
