#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
table = open(V + "/sim/table.cpp").read()
level = dict(re.findall(r'\{"(C\d\d)", gen_\w+, check_\w+, [^"]*"(\w+)"', table))
exec(open(V + "/tools/notes.py").read())          # NOTE, NA
m = {"version": 1, "setup_cmd": "bin/build.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: bin/build.sh compiles /repo's sources unchanged and redirects their libc calls to the simulator when linking (objcopy --redefine-syms)", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "One simulator (sim/), one seeded case generator and oracle per property. bin/check ID runs one property (VERIF_SEED, VERIF_TIER), bin/replay FILE repeats a recorded violation. All repairs in /repo are listed in known-findings.txt."}
for p in props:
    i = p["id"]
    if i in level:
        m["checks"].append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                            "evidence_file": "evidence/%s.json" % i, "level": level[i],
                            "technique": "deterministic simulation with fault injection: " + NOTE[i][0], "level_note": NOTE[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
