"""try_tree.py DIR [contract...]: every contract, once, for all properties, on the sources of DIR/src (VERIF_REPO)."""
import os, sys, time
os.environ["VERIF_REPO"] = sys.argv[1]
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing as mp

PIDS = {f"C{i:02d}" for i in range(1, 41)}


class All(str):
    pass


def sym(n): 
    return check.job_symbolic(n, WANT, dict(check.QUICK), time.time() + 800)
def conc(n):
    b = dict(check.QUICK)
    b["sweep_s"] *= contracts[n].sweep_factor
    return check.job_concrete(n, WANT, b, 1, time.time() + 800)


import docket, docket.worker, docket.agenda  # noqa
contracts, problems = check.load()
# {wanted} of one property: replaced by all of them
from engine import core, concrete
WANT = "ALL"
_E, _r, _s = core.Explorer, concrete.run_once, concrete.sweep
core.Explorer = lambda n, fn, w, **k: _E(n, fn, PIDS, **k)
concrete.run_once = lambda n, fn, w, *a, **k: _r(n, fn, PIDS, *a, **k)
concrete.sweep = lambda n, fn, w, *a, **k: _s(n, fn, PIDS, *a, **k)

if __name__ == "__main__":
    names = sys.argv[2:] or list(contracts)
    t0 = time.time()
    for p in problems: print("PROBLEM", p)
    v, u = {}, []
    jobs = [(sym, n, (n,)) for n in sorted(names, key=lambda n: -contracts[n].weight) if contracts[n].kind != "bounded"]
    jobs += [(conc, n, (n,)) for n in names]
    for j, r in check.run_jobs(jobs, int(os.environ.get("J", "6"))):
        if isinstance(r, BaseException):
            u.append(f"{j[1]}: checker failed {r!r}")
            continue
        for x in r["violations"]: v.setdefault(f"{x['contract']}:{x['obligation']}", x)
        u += r["undecided"]
    print(f"{len(names)} contracts, {time.time()-t0:.0f} s, {len(v)} violations, {len(u)} undecided")
    for k, x in v.items(): print("  VIOLATION", k, x["kind"][:80], str(x["detail"])[:200])
    for x in u[:40]: print("  undecided", x[:300])
    sys.stdout.flush()
    os._exit(bool(v))
