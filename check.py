"""check.py <property id> : decide one property on /repo's current working tree.

Every contract tagged with the property is verified (all paths, all values; z3 discharges each
obligation), then its harness is run on the real in-memory Redis server as a cross-check of the
axioms.  A failed obligation is replayed concretely with the solver's values."""
from __future__ import annotations

import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", ROOT)
SITE = "/opt/venv/lib/python3.12/site-packages"
sys.dont_write_bytecode = True
sys.path[:0] = [ROOT, REPO + "/src"]
sys.path.append(SITE)

import importlib
import json
import multiprocessing as mp
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

MODULES = sorted(f[:-3] for f in os.listdir(ROOT + "/contracts")
                 if f.endswith(".py") and f not in ("__init__.py", "registry.py", "world.py"))
QUICK = {"sym_s": 240, "sweep_s": 10, "sweep_runs": 250, "seeds": 2}
MEMORY = 4 << 30
THOROUGH = {"sym_s": 3000, "sweep_s": 240, "sweep_runs": 20000, "seeds": 40}

TRUSTED = [
    "the path explorer and symbolic values (/verif/engine/core.py, sym.py), cross-checked by the concrete runs",
    "the Lua 5.1 subset interpreter (/verif/engine/lua.py) for the scripts embedded in /repo",
    "the Redis command axioms (/verif/engine/store.py, client.py): commands and scripts are atomic",
    "z3 4.x (python bindings)", "CPython 3.12 executing the unmodified functions of /repo/src/docket",
]
ASSUMED = [
    "timestamps as exact rationals (float rounding of seconds is not modelled); strings opaque",
    "successive readings of one clock do not decrease",
    "task keys do not collide with the docket's own key names (stream, queue, runs:..., ...)",
    "third-party code: cloudpickle round-trips arguments; uncalled_for, opentelemetry and redis-py as installed",
]


def load():
    problems = []
    from contracts import registry
    for m in MODULES:
        try:
            importlib.import_module("contracts." + m)
        except Exception as e:
            problems.append(f"contracts.{m}: {type(e).__name__}: {e}")
    for k in registry.CONTRACTS.values():       # each server operation of each of them: only the docket's own keys
        if k.kind == "proof" and k.fn.__module__ != "contracts.scripts": k.props += ("C31",)
    return registry.CONTRACTS, problems


def repo_frame(tb: str) -> bool:
    return f"{REPO}/src/docket" in tb


def last_frame_in_repo(tb: str) -> str:
    out = ""
    for line in tb.splitlines():
        if f'File "{REPO}/src/docket' in line:
            out = line.strip().split(", line")[0] + line.strip().rpartition(", in ")[2]
    return out


def fdict(f, kind, concrete):
    return {"contract": f.harness, "obligation": f.obligation, "choices": f.choices, "values": f.values,
            "detail": f.detail, "trace": f.trace[-4000:], "kind": kind, "reproduced": concrete}


def job_symbolic(name, wanted, budget, deadline):
    from contracts import registry
    from engine import concrete, core
    ct = registry.CONTRACTS[name]
    out = {"name": name, "violations": [], "undecided": [], "known": []}
    r = core.Explorer(name, ct.fn, {wanted}, max_paths=ct.max_paths, deadline=min(deadline, time.time() + budget["sym_s"])).run()
    out.update(paths=r.paths, ended=r.ended, seconds=r.seconds, solver=r.solver_seconds, queries=r.feasibility_queries,
               notes=sorted(r.notes),
               obligations={o.name: [o.paths, o.discharged, o.undecided, len(o.failures), round(o.seconds, 4)]
                            for o in r.obligations.values()})
    if r.truncated: out["undecided"].append(f"{name}: exploration cut off after {r.paths} paths")
    for u in sorted(set(r.unsupported)): out["undecided"].append(f"{name}: outside the verifier's reach: {u}")
    for o in r.obligations.values():
        if o.undecided: out["undecided"].append(f"{o.name}: solver gave up on {o.undecided} instances")
        if not o.failures: continue
        best = None
        for f in o.failures[:12]:
            c, err = concrete.run_once(name, ct.fn, {wanted}, f.choices, f.values, timeout=30)
            hit = [x for x in c.failures if x.obligation == f.obligation] or c.failures
            if hit:
                best = fdict(hit[0], "counterexample replayed on the real code", True)
                break
            if err and repo_frame(err[2]):
                f.trace = err[2]
                best = fdict(f, f"counterexample replayed on the real code: {err[0]}: {err[1]}", True)
                break
        out["violations"].append(best or fdict(o.failures[0], "obligation not discharged", False))
    for text, f in r.errors:
        c, err = concrete.run_once(name, ct.fn, {wanted}, f.choices, f.values, timeout=30)
        kind = text.split(":")[0]
        if err and err[0] == kind and repo_frame(err[2]) and repo_frame(f.trace):
            f.trace = err[2]
            out["violations"].append(fdict(f, f"unexpected exception, replayed: {err[0]}: {err[1]}", True))
            break
        out["undecided"].append(f"{name}: {text[:300]} (symbolic run only)")
        out.setdefault("traces", []).append(f.trace[-2500:])
        if len(out["undecided"]) > 8: break
    return out


def job_concrete(name, wanted, budget, seed, deadline):
    from contracts import registry
    from engine import concrete
    ct = registry.CONTRACTS[name]
    t0 = time.time()
    s = concrete.sweep(name, ct.fn, {wanted}, [seed * 1000 + i for i in range(max(budget["seeds"], 1))],
                       min(deadline, time.time() + budget["sweep_s"]), budget["sweep_runs"])
    out = {"name": name, "runs": s.runs, "checked": s.checked, "violations": [], "undecided": [],
           "ended": s.ended, "seconds": time.time() - t0}
    seen = set()
    for f in s.failures:
        if f.obligation in seen: continue
        seen.add(f.obligation)
        c, err = concrete.run_once(name, ct.fn, {wanted}, f.choices, f.values, timeout=30)
        if any(x.obligation == f.obligation for x in c.failures):
            out["violations"].append(fdict(f, "failed when run on the real code", True))
        else:
            out["undecided"].append(f"{f.obligation}: failed once on the real code, not when repeated")
    for text, f in s.errors:
        c, err = concrete.run_once(name, ct.fn, {wanted}, f.choices, f.values, timeout=60)
        if err and err[0] == text.split(":")[0] and (repo_frame(err[2]) and repo_frame(f.trace)):
            f.trace = err[2]
            out["violations"].append(fdict(f, f"unexpected exception: {text[:300]}", True))
            break
        out["undecided"].append(f"{name}: {text[:300]} (concrete run)")
        out.setdefault("traces", []).append(f.trace[-2500:])
        if len(out["undecided"]) > 8: break
    return out


def known_findings():
    """known_findings.txt: 'finding: property=<id> obligation=<contract>:<obligation> <text>'"""
    out = []
    for line in open(ROOT + "/known_findings.txt"):
        if line.startswith("finding:"):
            parts = line.split(None, 3)
            out.append((parts[1].split("=", 1)[1], parts[2].split("=", 1)[1], parts[3].strip()))
    return out


def limits():
    """one contract that runs away must not take the others with it"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def run_jobs(jobs, workers=None):
    """[(job, its result or the exception)]"""
    fork = mp.get_context("fork")
    workers = workers or min(8, os.cpu_count() or 2)
    again = []
    with ProcessPoolExecutor(workers, mp_context=fork, initializer=limits) as ex:
        futs = {ex.submit(j[0], *j[2]): j for j in jobs}
        for f in as_completed(futs):
            try:
                yield futs[f], f.result()
            except BrokenProcessPool:
                again.append(futs[f])
            except Exception as e:
                yield futs[f], e

    def alone(j):
        try:
            with ProcessPoolExecutor(1, mp_context=fork, initializer=limits) as one:
                return one.submit(j[0], *j[2]).result()
        except Exception as e:
            return e
    if again:      # a process was ended from outside: each of the others in one of its own
        with ThreadPoolExecutor(max(1, workers // 2)) as ts:
            yield from zip(again, ts.map(alone, again))


def main():
    if sys.argv[1] == "--selftest":
        contracts, problems = load()
        print(f"{len(contracts)} contracts", *problems)
        return
    pid = sys.argv[1]
    tier = "thorough" if (os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv) else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = dict(THOROUGH if tier == "thorough" else QUICK)
    t0 = time.time()
    deadline = t0 + (700 if tier == "quick" else 6 * 3600)
    os.makedirs(OUT + "/evidence", exist_ok=True)
    os.makedirs(OUT + "/replays", exist_ok=True)
    violations, undecided, traces = [], [], []
    try:
        import docket, docket.worker, docket.agenda  # noqa
    except Exception as e:
        violations.append({"contract": "import", "obligation": "the package can be imported", "choices": [], "values": {},
                           "detail": f"{type(e).__name__}: {e}", "trace": traceback.format_exc(), "kind": "import failure",
                           "reproduced": True})
    contracts, problems = ({}, []) if violations else load()
    undecided += problems
    mine = {n: c for n, c in contracts.items() if pid in c.props}
    sym, conc = {}, {}
    if mine:
        order = sorted(mine, key=lambda n: -mine[n].weight)
        jobs = [(job_symbolic, n, (n, pid, budget, deadline)) for n in order if mine[n].kind != "bounded"]
        for n in order:
            b = dict(budget)
            b["sweep_s"] *= mine[n].sweep_factor
            jobs.append((job_concrete, n, (n, pid, b, seed, deadline)))
        for (fn, n, _), r in run_jobs(jobs):
            if isinstance(r, BaseException):
                undecided.append(f"{n}: checker failed: {type(r).__name__}: {r}")
                continue
            (sym if fn is job_symbolic else conc)[n] = r
            violations += r["violations"]
            undecided += r["undecided"]
            traces += r.get("traces", [])
    elif not violations and not problems:
        undecided.append("no contract is tagged with this property")

    # ---- report ----------------------------------------------------------
    known = [k for k in known_findings() if k[0] == pid]
    shown, new = set(), {}
    for v in violations:
        tag = f"{v['contract']}:{v['obligation']}"
        hit = [k for k in known if k[1] == tag]
        if hit:
            shown.add(tag)
            continue
        if tag not in new or (v["reproduced"] and not new[tag]["reproduced"]):
            new[tag] = v
    for k in known:
        if k[1] in shown:
            print(f"KNOWN-FINDING: property={pid} {k[1]} {k[2]}")
    proved = {n: r for n, r in sym.items() if mine[n].kind == "proof"}
    n_ob = sum(o[0] for r in proved.values() for o in r["obligations"].values())
    n_ok = sum(o[1] for r in proved.values() for o in r["obligations"].values())
    names = sorted({o for r in proved.values() for o in r["obligations"]})
    proofs = [n for n in mine if mine[n].kind == "proof"]
    funcs = sorted({f for n in proofs for f in mine[n].functions})
    bounded = {n: {"functions": mine[n].functions, "bound": mine[n].note} for n in mine if mine[n].kind != "proof"}
    if proofs and not n_ob and not new and not undecided:
        undecided.append("no obligation was generated")
    cov = {
        "obligations": n_ob, "discharged": n_ok,
        "checker_cmd": f"python3-vt /verif/check.py {pid}",
        "trusted_base": TRUSTED,
        "named_obligations": len(names),
        "obligation_names": names,
        "backend": "z3 (validity of each obligation under its path condition; the rest by evaluation)",
        "functions_under_contract": funcs,
        "contracts": {n: {"paths": r["paths"], "cut_or_infeasible": r["ended"], "obligation_instances": sum(o[0] for o in r["obligations"].values()),
                          "discharged": sum(o[1] for o in r["obligations"].values()), "seconds": round(r["seconds"], 2),
                          "solver_seconds": round(r["solver"], 2), "feasibility_queries": r["queries"]} for n, r in proved.items()},
        "bounded_obligation_instances": sum(o[0] for n, r in sym.items() if n not in proved for o in r["obligations"].values()),
        "solver_seconds": round(sum(r["solver"] for r in sym.values()), 2),
        "concrete_cross_check_runs": sum(r["runs"] for r in conc.values()),
        "concrete_cross_check_clauses_evaluated": sum(sum(r["checked"].values()) for r in conc.values()),
        "bounded_not_proved": bounded,
        "undecided": undecided[:60],
        "assumption_notes": sorted({x for r in sym.values() for x in r["notes"]}),
    }
    if traces: cov["undecided_traces"] = traces[:5]
    from contracts.registry import MOSTLY_EXPLORED
    level = "proof" if proofs and pid not in MOSTLY_EXPLORED else "exploration"
    if level == "exploration":
        cov.update(evaluations=sum(r["runs"] for r in conc.values()),
                   distinct_nontrivial=sum(r["runs"] - r["ended"] for r in conc.values()),
                   rule="one run per case split and seed; non-trivial when it reached a clause",
                   samples=sorted({k for r in conc.values() for k in r["checked"]})[:10])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ASSUMED + sorted({a for n in mine for a in mine[n].assumes}),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(f"{OUT}/evidence/{pid}.json", "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{pid}: {len(mine)} contracts, {sum(r['paths'] for r in sym.values())} paths, {len(names)} named obligations, "
          f"{n_ok}/{n_ob} instances discharged, {cov['concrete_cross_check_runs']} concrete runs, "
          f"{ev['wall_s']} s, {len(undecided)} undecided")
    for u in undecided[:20]: print("  undecided:", u[:400])
    for i, (tag, v) in enumerate(sorted(new.items(), key=lambda x: not x[1]["reproduced"])):
        path = f"{OUT}/replays/{pid}-{i}.json"
        v = {**v, "property": pid, "replay_cmd": f"python3-vt /verif/replay.py {path}"}
        with open(path, "w") as fh:
            json.dump(v, fh, indent=1, default=str)
        if i < 10:
            print(f"  failed: {tag}: {v['kind']}: {str(v['detail'])[:300]}")
        print(f"VIOLATION property={pid} replay={path}" + ("" if v["reproduced"] else " no-failing-input-found"))
    sys.stdout.flush()
    os._exit(1 if new else 0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        os._exit(3)
