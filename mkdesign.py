"""Assembles DESIGN.md from design/*.md, design/plan.py, the check modules and seeded/*/meta.json."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "design")]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.append("/repo")
sys.dont_write_bytecode = True
from plan import PLAN, CAUGHT  # noqa

out = [open(os.path.join(HERE, "design", "head.md")).read(), "## Per property\n"]
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    m = importlib.import_module("checks." + p["id"].lower())
    gen, oracle = PLAN[p["id"]]
    out += ["### %s – %s\n" % (p["id"], p["title"]),
            "*Generated:* %s\n" % gen, "*Oracle:* %s\n" % oracle,
            "*Non-trivial:* %s\n" % m.RULE,
            "| facet | quick | thorough | what |", "|---|---|---|---|"]
    out += ["| %s | %d | %d | %s |" % (f.name, f.quick, f.thorough, f.rule) for f in m.FACETS]
    out += ["", "*Bounds:* " + " ".join(a.rstrip(".") + "." for a in m.ASSUMPTIONS), ""]
out += ["## Planted bugs (`seeded/`)\n",
        "Each was written from the text of a property and the code alone, validated by `tools/plant.py` (original lines only, stable tests pass, demo",
        "passes on the tree and fails with the patch).\n",
        "| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    b = os.path.basename(os.path.dirname(d))
    j = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (b, j["property"], j["what_it_breaks"].replace("|", "/"), CAUGHT.get(b, j["property"])))
out += ["", open(os.path.join(HERE, "design", "tail.md")).read()]
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
