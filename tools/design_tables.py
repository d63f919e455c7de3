#!/usr/bin/env python3
"""Rewrites sections 5 and 6 of DESIGN.md from known_findings.jsonl, seeded/ and tools/plant/caught.json.
   design_tables.py [LOG...]: first takes over the results of detection runs ("ID check P exit=N ..." lines)."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cf = R + "/tools/plant/caught.json"
caught = json.load(open(cf)) if os.path.exists(cf) else {}
for l in sys.argv[1:]:
    for x in open(l, errors="replace"):
        m = re.match(r"(\S+) check (P\d+) exit=(\d+) (\d+)s\s*(.*)", x)
        if m:
            w = re.split(r"   ", m[5].strip())[0]
            caught[m[1]] = {"check": m[2], "caught": m[3] == "1", "seconds": int(m[4]), "witness": re.sub(r"\s+", " ", w)[:90]}
ids = sorted(os.listdir(R + "/seeded")) if os.path.isdir(R + "/seeded") else []
caught = {k: v for k, v in sorted(caught.items()) if k in ids}
json.dump(caught, open(cf, "w"), indent=1); open(cf, "a").write("\n")
known = [json.loads(x) for x in open(R + "/known_findings.jsonl")]
o = ["## 5. Defects found in NWmath/NWgr", "",
     "Each was shown on the real code by a check of this directory and repaired by a small `fix:` commit; the check reports it again if it returns.", "",
     "| property | commit | what failed |", "|---|---|---|"]
o += [f"| {k['property']} | {k.get('commit', '-')} | {k['what']} |" for k in sorted(known, key=lambda k: k["property"]) if k["status"] == "fixed"]
open_ = [k for k in known if k["status"] != "fixed"]
o += ["", "Recorded, not repaired: " + ("none." if not open_ else "")] + [f"* {k['property']}: {k['what']}" for k in open_]
o += ["", "## 6. Planted bugs", "",
      "Each lies in `seeded/<id>` and was confirmed in a scratch copy (builds, loses no stable test, its demonstration passes without and fails with it). `tools/plant/` holds the scripts.",
      "The last columns are the quick run of the property's check against it: seconds until its verdict (with compilation) and the first thing it saw.", "",
      "| planted bug | needs | check | verdict | s | witness |", "|---|---|---|---|---|---|"]
for i in ids:
    m = json.load(open(f"{R}/seeded/{i}/meta.json")); c = caught.get(i)
    o.append(f"| {i} | {m['needs']} | {m['property']} | " + (f"{'caught' if c['caught'] else '**missed**'} | {c['seconds']} | `{c['witness'].replace('|', '/').replace('`', '')}` |" if c else "not run | | |"))
p = R + "/DESIGN.md"; s = open(p).read(); i = s.find("\n## 5. "); s = (s if i < 0 else s[:i]).rstrip() + "\n\n" + "\n".join(o) + "\n"
open(p, "w").write(s)
