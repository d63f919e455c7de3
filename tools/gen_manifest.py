#!/usr/bin/env python3
"""Rewrites /verif/MANIFEST.json from checks/checks.json, properties.jsonl and /repo's hook commits."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
conf = json.load(open(V + "/checks/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
na = []
checks = []
for p in props:
    c = conf.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": NA[p["id"]] if p["id"] in globals().get("NA", {}) else "no check has been built for it yet"})
        continue
    modes = sorted({u["mode"] for u in c["units"]})
    tech = {"asan": "AddressSanitizer + container assertions", "ashim": "AddressSanitizer under a randomised scheduler stand-in",
            "tsan": "ThreadSanitizer under a randomised scheduler stand-in", "shim": "randomised scheduler stand-in",
            "ubsan": "AddressSanitizer + UndefinedBehaviorSanitizer", "leak": "counted memory, descriptors, mappings and threads over repetitions", "memcheck": "Valgrind Memcheck", "plain": "container assertions"}
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 bin/check.py %s quick" % p["id"],
        "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "runtime monitoring: " + c.get("technique", "reference-model oracle over generated executions") + "; " + ", ".join(tech[m] for m in modes),
        "level": "exploration",
        "level_note": c.get("level_note", "Holds on the executions generated: seeded random and hostile inputs, thread limits and schedule perturbation, judged by an independent reference answer; not a proof."),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "NWGRAPH_VERIFY_HOOKS", "enable": "harnesses define NWGRAPH_VERIFY_HOOKS before including the library's headers (the library is header-only)", "source_commits": hooks},
    "checks": checks,
    "not_applicable": na,
    "notes": "Checks compile their harnesses from /repo's working tree into /verif/_build (ignored by git) and remove them again. Known and fixed defects are in known_findings.jsonl.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
