#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py and checks.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props
checks = json.load(open(os.path.join(HERE, "checks.json")))
ps = sorted(props.P, key=lambda x: x["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in ps:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 run.py --build",
    "checks": [],
    "not_applicable": getattr(props, "NOT_APPLICABLE", []),
    "notes": "All checks are generated-input searches (pgregory.net/rapid) against explicit oracles; run.py builds the harness from /repo's working tree on every run. No hooks in /repo.",
}
for x in ps:
    i = x["id"]
    if i not in checks:
        continue
    c = checks[i]
    man["checks"].append({
        "property": i,
        "quick_cmd": "python3 run.py %s quick" % i,
        "thorough_cmd": "python3 run.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique", "property-based testing against a reference model"),
        "level": "exploration",
        "level_note": c.get("note", "Holds on every case generated in the run; assumes the harness's reference model states the property, and trusts rapid, the Go toolchain and the Prometheus libraries."),
    })
missing = [x["id"] for x in ps if x["id"] not in checks and x["id"] not in [n["property"] for n in man["not_applicable"]]]
if missing:
    print("not claimed and not listed:", missing)
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
