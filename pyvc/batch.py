"""Verify all contracts of a set of sidecar modules, in parallel.

Stage 1 (one process per contract): parse the function's source in /repo,
execute it symbolically under its contract, write every obligation as SMT-LIB.
Stage 2 (all cores): discharge every obligation with z3, then cvc5.
"""
import importlib, os, sys, time, traceback, multiprocessing
from concurrent.futures import ProcessPoolExecutor
REPO = os.environ.get("PARCE_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import z3
from .contract import Registry, find_def, loops_of
from .interp import Exploration
from .values import Unsupported, BindError
from .prove import smt2, solve

CTX = multiprocessing.get_context("fork")

def load(modname):
    reg = Registry()
    m = importlib.import_module("contracts." + modname)
    schema = m.load(reg)
    return reg, schema

def schema_for(schema, c):
    if c.schema is not None:
        return c.schema
    if "*" in schema or c.name in schema:
        return schema.get(c.name, schema.get("*", {}))
    return schema

def contract_names(modname):
    """(name, trusted reason or None) of all contracts in a module."""
    try:
        reg, schema = load(modname)
    except Exception as e:
        return None, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    return [(c.name, c.key, c.trusted, c.note) for c in reg.contracts.values()], ""

def explore(job):
    modname, cname = job
    t0 = time.time()
    res = dict(module=modname, name=cname, key="", status=None, reason="", obs=[], exits=[], paths=0,
               inlined=[], used=[], assumed=[], note="", nexits=0)
    try:
        reg, schema = load(modname)
        c = reg.contracts[cname]
        res["key"], res["note"] = c.key, c.note
        ex = Exploration(reg, c, schema_for(schema, c), None)
        ex.run()
        for i, o in enumerate(ex.obligations):
            meta = dict(name=o.name, kind=o.kind, text=o.text, line=o.loc)
            if z3.is_true(z3.simplify(o.goal)):
                res["obs"].append((meta, None))
            else:
                res["obs"].append((meta, smt2(ex, o)))
        for k, pc in ex.exits[:24]:
            o = type("O", (), {"assumptions": pc, "goal": z3.BoolVal(False)})
            res["exits"].append(smt2(ex, o, 1))
        res.update(paths=ex.paths, inlined=sorted(ex.inlined), used=sorted(ex.used_contracts),
                   assumed=sorted(ex.assumed), nexits=len(ex.exits))
    except BindError as e:
        res.update(status="unbound", reason=str(e))
    except Unsupported as e:
        res.update(status="unsupported", reason=str(e))
    except RecursionError:
        res.update(status="unsupported", reason="recursion")
    except Exception as e:
        res.update(status="unsupported", reason="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    res["explore_time"] = time.time() - t0
    return res

def run(modnames, fast=3000, slow=20000, workers=None, only=(), deadline=None):
    """Returns (list of results, list of trusted contracts, list of load errors)."""
    workers = workers or min(8, os.cpu_count() or 4)
    jobs, trusted, errors = [], [], []
    for m in modnames:
        names, err = contract_names(m)
        if names is None:
            errors.append((m, err)); continue
        for n, key, tr, note in names:
            if tr:
                if not tr.startswith("proved in "): trusted.append((n, tr))
            elif not only or any(o in n for o in only):
                jobs.append((m, n))
    results = []
    with ProcessPoolExecutor(max_workers=workers, mp_context=CTX) as pool:
        results = list(pool.map(explore, jobs, chunksize=1))
    sjobs, where = [], {}
    for ri, r in enumerate(results):
        if r["status"]: continue
        for oi, (meta, text) in enumerate(r["obs"]):
            if text is None:
                meta.update(status="proved", solver="trivial (simplifier)", time=0.0, model="")
            else:
                nm = "o%d.%d" % (ri, oi)
                where[nm] = meta
                sjobs.append((nm, text, fast, False))
        for ei, text in enumerate(r["exits"]):
            sjobs.append(("v%d.%d" % (ri, ei), text, 1500, False))
    reach = {}
    texts = {j[0]: j[1] for j in sjobs}
    with ProcessPoolExecutor(max_workers=workers, mp_context=CTX) as pool:
        for nm, st, solver, tm, detail in pool.map(solve, sjobs, chunksize=1):
            if nm[0] == "v":
                ri = int(nm[1:].split(".")[0])
                reach[ri] = reach.get(ri, 0) + (st != "proved")
            else:
                where[nm].update(status=st, solver=solver, time=round(tm, 3), model=detail)
        # what the fast setting left open is tried with more time, a few obligations per function first:
        # when these stay open the function has failed anyway
        left = {}
        for nm, meta in where.items():
            if meta["status"] == "unknown": left.setdefault(nm.split(".")[0], []).append(nm)
        while left:
            batch = [(nm, texts[nm], slow, True) for ri in left for nm in left[ri][:4]]
            left = {ri: l[4:] for ri, l in left.items()}
            for nm, st, solver, tm, detail in pool.map(solve, batch, chunksize=1):
                where[nm].update(status=st, solver=solver, time=round(tm, 3), model=detail)
                if st != "proved": left[nm.split(".")[0]] = []
            left = {ri: l for ri, l in left.items() if l}
    for ri, r in enumerate(results):
        r["obligations"] = [m for m, _ in r.pop("obs")]
        ex = r.pop("exits")
        if r["status"]:
            continue
        r["reachable_exits"] = reach.get(ri, 0)
        bad = [o for o in r["obligations"] if o["status"] != "proved"]
        if not r["obligations"]:
            r["status"], r["reason"] = "vacuous", "no obligations"
        elif ex and not reach.get(ri, 0) and not bad:
            r["status"], r["reason"] = "vacuous", "no reachable exit"
        elif bad:
            r["status"] = "failed"
            r["reason"] = "; ".join("%s [%s] line %s: %s" % (o["kind"], o["status"], o["line"], o["text"]) for o in bad[:5])
        else:
            r["status"] = "proved"
    return results, trusted, errors

def main():
    t0 = time.time()
    mods = sys.argv[1].split(",")
    results, trusted, errors = run(mods, only=sys.argv[2:])
    for m, e in errors: print("LOAD ERROR", m, e)
    for r in results:
        tm = sum(o.get("time", 0) for o in r["obligations"])
        print("%-62s %-11s obl=%d paths=%d exits=%s/%s expl=%.1f solve=%.1fs %s" % (r["name"], r["status"], len(r["obligations"]), r["paths"], r.get("reachable_exits"), r["nexits"], r["explore_time"], tm, r["reason"] if r["status"] != "failed" else ""))
        for o in r["obligations"]:
            if o["status"] == "proved" and o.get("time", 0) > 4 and os.environ.get("SLOW"):
                print("     slow", round(o["time"], 1), o["kind"], o["name"], "line", o["line"], o["text"], o["solver"])
            if o["status"] != "proved":
                print("    ", o["kind"], o["name"], o["status"], "line", o["line"], o["text"], o["solver"], o["time"], o["model"][:400].replace("\n", " "))
    for n, w in trusted: print("TRUSTED", n, "--", w)
    print("total %.1fs" % (time.time() - t0))

if __name__ == "__main__":
    main()
