#!/usr/bin/env python3
# Writes MANIFEST.json from the checker's registry and properties.jsonl.
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call([V + "/run.sh", "build"])
reg = {}
for l in subprocess.check_output([V + "/bin/dbrverif", "-list"], text=True).splitlines():
    i, t, n = l.split("\t")
    reg[i] = (t, n)
NA = json.load(open(V + "/tools/not_applicable.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in reg:
        t, n = reg[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "no static rule has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
           "notes": "Every check re-analyses the source of /repo on each run; nothing of it is executed. No hooks are needed."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
