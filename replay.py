"""replay.py FILE : run a recorded counterexample against the real code on the in-memory Redis."""
import json, sys
import check
contracts, _ = check.load()
v = json.load(open(sys.argv[1]))
from engine import concrete
c, err = concrete.run_once(v["contract"], contracts[v["contract"]].fn, {v["property"]}, v["choices"], v["values"], timeout=60)
print("obligation:", v["obligation"], "| choices", v["choices"], "| values", v["values"])
for f in c.failures: print("FAILED", f.obligation, f.detail[:1000])
if err: print("EXCEPTION", err[0], err[1]); print(err[2])
sys.exit(1 if c.failures or err else 0)
