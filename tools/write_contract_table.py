"""Writes CONTRACTS.md: every contract, the properties it decides and the functions it is on."""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check, inspect
cs, problems = check.load()
assert not problems, problems
out = ["# Contracts", "", "Generated by tools/write_contract_table.py from contracts/*.py.", ""]
seen = {}
for c in cs.values():
    mod = inspect.getmodule(c.fn).__name__.split(".")[-1]
    if mod not in seen:
        seen[mod] = 1
        out += [f"## contracts/{mod}.py", ""]
    fns = list(dict.fromkeys(f.replace("docket.dependencies._", "deps.").replace("docket.", "") for f in c.functions))
    out.append(f"* **{c.name}** ({c.kind}; {' '.join(c.props)})" + (f" — {c.note}" if c.note else ""))
    out.append(f"  on: {', '.join(fns)}")
    out += [f"  assumes: {a}" for a in c.assumes]
open(ROOT + "/CONTRACTS.md", "w").write("\n".join(out) + "\n")
