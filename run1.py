import os, sys, time
sys.path[:0] = ["/verif", os.environ.get("VERIF_REPO", "/repo") + "/src"]; sys.path.append("/opt/venv/lib/python3.12/site-packages")
import importlib
from engine import core, concrete
from contracts import registry
for m in sys.argv[1].split(","): importlib.import_module("contracts."+m)
names = sys.argv[2].split(",") if len(sys.argv) > 2 and sys.argv[2] != "all" else [n for n,x in registry.CONTRACTS.items() if x.fn.__module__.split('.')[1] in sys.argv[1].split(',')]
for n in names:
    ct = registry.CONTRACTS[n]
    r = core.Explorer(n, ct.fn, None, deadline=time.time()+300).run()
    ob = r.obligations
    print(f"== {n}: paths {r.paths} ended {r.ended} obl {len(ob)} inst {sum(o.paths for o in ob.values())} disch {sum(o.discharged for o in ob.values())} und {sum(o.undecided for o in ob.values())} {r.seconds:.1f}s solver {r.solver_seconds:.1f}s fq {r.feasibility_queries} trunc {r.truncated}")
    print("   UNDECIDED", [(o.name, o.undecided) for o in ob.values() if o.undecided]) if any(o.undecided for o in ob.values()) else None
    for u in sorted(set(r.unsupported))[:5]: print("   UNSUPPORTED", u, r.unsupported.count(u))
    for e, f in r.errors[:3]: print("   ERROR", e, f.choices, f.values); print(f.trace[-1500:])
    for o in ob.values():
        for f in o.failures[:2]: print("   FAIL", o.name, f.choices, f.values, f.detail[:600])
    if "-c" in sys.argv:
        s = concrete.sweep(n, ct.fn, None, range(2), time.time()+120)
        print(f"   concrete runs {s.runs} ended {s.ended} checks {sum(s.checked.values())} missing {sorted(set(ob)-set(s.checked))[:5]}")
        for e, f in s.errors[:3]: print("   C-ERROR", e, f.choices, f.values); print(f.trace[-1500:])
        for f in s.failures[:5]: print("   C-FAIL", f.obligation, f.choices, f.values, f.detail[:600])
