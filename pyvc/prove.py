"""Discharging obligations: unfolding of specification functions, z3, cvc5."""
import os, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor
import z3
from .smt import relevant_axioms
from .interp import Run, Exploration, SpecDef
from .values import Unsupported, BindError

Z3_RLIMIT = 60_000_000
Z3_TIMEOUT = 20_000
CVC5_TIMEOUT = 15_000

_apps = {}
def ground_apps(exprs, funs):
    """Ground applications of the given functions (kept per formula: the same ones occur in many obligations)."""
    cache = _apps.setdefault(tuple(d.fun.name() for d in funs), {})
    found = {}
    for e in reversed(exprs):
        got = cache.get(e.get_id())
        if got is None: got = cache[e.get_id()] = e, apps_in([e], funs)
        found.update(got[1])
    return found

def apps_in(exprs, funs):
    names = {d.fun.name(): d for d in funs}
    seen, found = set(), {}
    todo = list(exprs)
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(e):
            todo.append(e.body()); continue
        if not z3.is_app(e): continue
        if e.decl().name() in names and not has_var(e):
            found[i] = (names[e.decl().name()], e)
        todo.extend(e.children())
    return found

def has_var(e):
    todo = [e]; seen = set()
    while todo:
        x = todo.pop()
        if z3.is_var(x): return True
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body())
        else: todo.extend(x.children())
    return False

def unfold(ex, fs, fuel=2):
    defs = list(ex.reg.specfuns.values())
    if not defs: return []
    extra, done = [], set()
    cur = fs
    cache = ex.__dict__.setdefault("unfolded", {})
    for _ in range(fuel):
        apps = ground_apps(cur, defs)
        new = []
        for i, (d, e) in apps.items():
            if i in done or d.body is None or d.name in ex.c.opaque: continue
            done.add(i)
            if (got := cache.get(i)) is None:
                run = Run(ex, [])
                run.spec = 1
                run.prefix_name = "u%d" % len(cache)
                got = cache[i] = e, [d.unfold(run, [e.arg(k) for k in range(e.num_args())])] + list(run.pc)
            new.extend(got[1])
        if not new: break
        extra.extend(new)
        cur = new
    for d in defs:
        for a in getattr(d, "axioms", ()):
            if any(x[0] is d for x in ground_apps(fs + extra, [d]).values()) or _mentions(fs + extra, d):
                extra.append(a)
    return extra

def _mentions(fs, d):
    from .smt import _decl_names
    return d.fun.name() in _decl_names(fs)

def negated(g):
    """The negation of the goal, with its leading universal quantifiers as constants."""
    if z3.is_quantifier(g) and g.is_forall():
        consts = [z3.FreshConst(g.var_sort(i), "sk_" + g.var_name(i)) for i in range(g.num_vars())]
        return negated(z3.substitute_vars(g.body(), *reversed(consts)))
    if z3.is_implies(g): return [g.arg(0)] + negated(g.arg(1))
    return [z3.Not(g)]

def smt2(ex, ob, fuel=None):
    fuel = fuel or ex.c.fuel
    fs = list(ob.assumptions) + negated(ob.goal)
    fs = fs + unfold(ex, fs, fuel)
    s = z3.Solver()
    for f in relevant_axioms(fs): s.add(f)
    for f in fs: s.add(f)
    return s.to_smt2()

def solve(job):
    name, text, z3_timeout, use_cvc5 = job
    t0 = time.time()
    tried = []
    model = ""
    reason = ""
    for cfg in ({}, {"smt.mbqi": False, "smt.auto_config": False}):
        s = z3.SolverFor("ALL") if False else z3.Solver()
        s.set("timeout", z3_timeout)
        for k, v in cfg.items():
            try: s.set(k, v)
            except z3.Z3Exception: pass
        s.from_string(text)
        r = s.check()
        tried.append("z3:%s" % r)
        if r == z3.unsat:
            return name, "proved", "z3 " + z3.get_version_string(), time.time() - t0, ""
        if r == z3.sat:
            try: model = str(s.model())[:4000]
            except z3.Z3Exception: pass
            return name, "refuted", "z3", time.time() - t0, model
        reason = s.reason_unknown()
    if use_cvc5:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + text)
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % CVC5_TIMEOUT, "--full-saturate-quant", f.name],
                               capture_output=True, text=True, timeout=CVC5_TIMEOUT / 1000 + 10)
            out = p.stdout.strip().splitlines()
            tried.append("cvc5:%s" % (out[-1] if out else p.stderr[:80]))
            if "unsat" in out:
                return name, "proved", "cvc5 1.1.2", time.time() - t0, ""
        except subprocess.TimeoutExpired:
            tried.append("cvc5:timeout")
        finally:
            os.unlink(f.name)
    return name, "unknown", ",".join(tried), time.time() - t0, "reason: %s\n%s" % (reason, model)

_pool = None
def pool():
    global _pool
    if _pool is None:
        import multiprocessing
        _pool = ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 4), mp_context=multiprocessing.get_context("fork"))
    return _pool

def verify(reg, contract, schema, rename=None, z3_timeout=Z3_TIMEOUT, use_cvc5=True, vacuity=True):
    """Returns a dict describing the result for one function under one contract."""
    t0 = time.time()
    res = dict(name=contract.name, key=contract.key, status=None, obligations=[], paths=0, reason="",
               inlined=[], used=[], assumed=[], wall=0.0, solver_time=0.0, note=contract.note)
    ex = Exploration(reg, contract, schema, rename)
    try:
        ex.run()
    except BindError as e:
        res.update(status="unbound", reason=str(e), wall=time.time() - t0)
        return res
    except Unsupported as e:
        res.update(status="unsupported", reason=str(e), wall=time.time() - t0)
        return res
    except RecursionError:
        res.update(status="unsupported", reason="recursion", wall=time.time() - t0)
        return res
    except (z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, ValueError) as e:
        res.update(status="unsupported", reason="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]), wall=time.time() - t0)
        return res
    jobs, obs = [], {}
    for i, o in enumerate(ex.obligations):
        if z3.is_true(z3.simplify(o.goal)):
            o.status, o.solver, o.time = "proved", "trivial", 0.0
            continue
        nm = "%d" % i
        obs[nm] = o
        jobs.append((nm, smt2(ex, o), z3_timeout, use_cvc5))
    vac = []
    if vacuity:
        # some exit must not be provably unreachable
        for k, pc in ex.exits[:40]:
            o = type("O", (), {"assumptions": pc, "goal": z3.BoolVal(False)})
            vac.append(("v%d" % len(vac), smt2(ex, o, 1), 2000, False))
    results = list(pool().map(solve, jobs + vac, chunksize=1))
    for nm, st, solver, tm, detail in results:
        res["solver_time"] += tm
        if nm in obs:
            o = obs[nm]
            o.status, o.solver, o.time, o.model = st, solver, tm, detail
    vres = [r for r in results if r[0].startswith("v")]
    res["exits"] = len(ex.exits)
    res["reachable_exits"] = sum(1 for r in vres if r[1] != "proved")
    res["paths"] = ex.paths
    res["inlined"] = sorted(ex.inlined)
    res["used"] = sorted(ex.used_contracts)
    res["assumed"] = sorted(ex.assumed)
    res["obligations"] = [dict(name=o.name, kind=o.kind, text=o.text, line=o.loc, status=o.status, solver=o.solver,
                               time=round(o.time or 0, 3), model=o.model or "") for o in ex.obligations]
    bad = [o for o in res["obligations"] if o["status"] != "proved"]
    if not ex.obligations:
        res["status"] = "vacuous"; res["reason"] = "no obligations"
    elif vacuity and vres and not res["reachable_exits"] and ex.exits and not bad:
        res["status"] = "vacuous"; res["reason"] = "no reachable exit"
    elif bad:
        res["status"] = "failed"
        res["reason"] = "; ".join("%s [%s] line %s: %s" % (o["kind"], o["status"], o["line"], o["text"]) for o in bad[:5])
    else:
        res["status"] = "proved"
    res["wall"] = time.time() - t0
    return res
