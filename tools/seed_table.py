#!/usr/bin/env python3
# seed_table.py [results.txt]: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
# the lines "<id> <property> rc=<n>" in results.txt (appended to tools/seed_results.txt).
import json, os, sys, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
store = os.path.join(V, "tools", "seed_results.txt")
res = {}
for f in [store] + sys.argv[1:]:
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"(\S+) (C\d\d) rc=(\d+)", l)
            if m: res[m[1]] = (m[2], int(m[3]))
ids = sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(os.path.join(V, "seeded/*/meta.json")))
with open(store, "w") as f:
    for i in ids:
        if i in res: f.write("%s %s rc=%d\n" % (i, *res[i]))
rows = []
for i in ids:
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    r = res.get(i)
    rows.append((m["property"], i, m["needs"].replace("|", "/"), "not run" if r is None else "caught" if r[1] == 1 else "missed (rc=%d)" % r[1]))
rows.sort()
t = "| property | change | manifests with | its check |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in rows)
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + t + "<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
