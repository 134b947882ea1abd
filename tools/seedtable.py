#!/usr/bin/env python3
"""Development aid: fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and the
log lines of `mkseed.py catch` given on stdin."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
store = os.path.join(V, "tools/seeds/results.json")
res = json.load(open(store)) if os.path.exists(store) else {}
for l in sys.stdin:
    m = re.match(r"(\S+) (P\d\d) rc (\d) (.*)", l)
    if m:
        r = re.search(r"replay=\S*/(P\S+?)\.txt", m.group(4))
        res[m.group(1)] = ("yes, by `%s`" % r.group(1).split("-", 1)[1]) if m.group(3) == "1" and r else "no"
rows = ["| change | property | needs | caught |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    i, m = os.path.basename(os.path.dirname(f)), json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), res.get(i, "not tried")))
res = {k: v for k, v in res.items() if os.path.isdir(os.path.join(V, "seeded", k))}
json.dump(res, open(store, "w"), indent=1, sort_keys=True)
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
t = re.sub(r"Results:\n\n.*?\n\nChecks that missed", lambda _: "Results:\n\n" + "\n".join(rows) + "\n\nChecks that missed", t, flags=re.S)
open(p, "w").write(t)
