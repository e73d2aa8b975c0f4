"""Writes MANIFEST.json from properties.jsonl and the contracts."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
from contracts.registry import MOSTLY_EXPLORED
NA = {"C30": "a liveness guarantee (something eventually happens): contracts over single functions state what each call "
             "establishes, not that a scheduler will keep calling them; no contract within reach expresses or decides it"}
TODO = "no contract written yet"
contracts, problems = check.load()
assert not problems, problems
CLAIM = os.environ.get("CLAIM", "").split() or None
checks, na = [], []
for line in open(ROOT + "/properties.jsonl"):
    p = json.loads(line)["id"]
    mine = [c for c in contracts.values() if p in c.props and c.primary_for(p)]
    proofs = [c for c in mine if c.kind == "proof"]
    if p in NA or not mine or (CLAIM and p not in CLAIM):
        na.append({"property": p, "reason": NA.get(p, TODO)})
        continue
    bounded = [c for c in contracts.values() if p in c.props and c.kind != "proof"]
    note = (f"{sum(p in c.props and c.kind == 'proof' for c in contracts.values())} contracts, every obligation on every path discharged by z3 "
            "for all values; the Redis command axioms, the Lua interpreter and the value encoding are trusted and "
            "cross-checked by running every contract on the real in-memory server")
    if bounded: note += "; bounded (not proved): " + ", ".join(c.name for c in bounded)
    checks.append({"property": p, "quick_cmd": f"python3-vt check.py {p}",
                   "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {p} --thorough",
                   "technique": "contracts on the real functions and scripts; path-wise verification conditions discharged by z3",
                   "level": "proof" if proofs and p not in MOSTLY_EXPLORED else "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "python3-vt check.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. check.py verifies /repo's working tree directly; nothing is built."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "not claimed:", [x["property"] for x in na])
