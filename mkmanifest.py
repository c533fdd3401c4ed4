"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
TECH = {
    "exact": "property-based testing: generated kernels, exact output law by enumerating the sampler's random choices, compared with the determinantal law",
}
NOTES = json.load(open(os.path.join(HERE, "notes.json"))) if os.path.exists(os.path.join(HERE, "notes.json")) else {}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": "%s run_check.py %s" % (PY, i),
                       "thorough_cmd": "VERIF_TIER=thorough %s run_check.py %s" % (PY, i),
                       "technique": n.get("technique", "property-based testing (Hypothesis generators, explicit oracle, shrinking)"),
                       "level": "exploration", "level_note": n.get("note", "generated-input search against an explicit oracle; see DESIGN.md")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "%s -B setup_check.py" % PY, "checks": checks}
if na:
    m["not_applicable"] = na
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
