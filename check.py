"""Decide one property of parce on the current tree of /repo.

usage: python3-vt check.py ID [--tier quick|thorough]

1. deductive part: the functions under contract are extracted from /repo, the
   obligations generated and discharged (pyvc; z3, cvc5);
2. bounded part (labelled so, never counted as proved): the property is
   evaluated on the real code for generated cases;
3. a case that breaks the property is a violation with a failing input; an
   obligation that fails is a violation, for which a deeper search looks for a
   failing input, and without one the report says no-failing-input-found.
"""
import ast, hashlib, json, os, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ["PYTHONHASHSEED"] = "0"
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
WORKERS = min(8, os.cpu_count() or 4)
import props

def bounded(module, seed, seconds, tag=""):
    """Run the bounded check on all cores; returns merged result."""
    tot = dict(module=module, evaluations=0, ok=0, trivial=0, skipped=0, rule="", samples=[], violation=None, distinct=0, wall=0.0)
    if seconds <= 0:
        return tot
    t0 = time.time()
    keys = set()
    errors = []
    with tempfile.TemporaryDirectory(prefix="verif-") as d:
        env = dict(os.environ, VERIF_WORKERS=str(WORKERS), PYTHONDONTWRITEBYTECODE="1", VERIF_SCRATCH=d)
        procs = []
        for w in range(WORKERS):
            out, prog = "%s/%d.json" % (d, w), "%s/%d.p" % (d, w)
            e = dict(env, VERIF_WORKER=str(w))
            p = subprocess.Popen([PY, "harness/run.py", module, str(seed), "1000000000", str(seconds), out, prog],
                env=e, stdout=subprocess.DEVNULL, stderr=open("%s/%d.err" % (d, w), "w"), start_new_session=True)
            procs.append((p, out, prog, w))
        end = time.time() + seconds + 75
        for p, out, prog, w in procs:
            try:
                p.wait(max(0.1, end - time.time()))
            except subprocess.TimeoutExpired:
                pass
            if p.poll() is None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                p.wait()
            if os.path.exists(out):
                r = json.load(open(out))
                for k in ("evaluations", "ok", "trivial", "skipped"):
                    tot[k] += r[k]
                tot["rule"] = r["rule"] or tot["rule"]
                keys.update(r["keys"])
                if len(tot["samples"]) < 3:
                    tot["samples"].extend(r["samples"][:1])
                if r["violation"] and not tot["violation"]:
                    tot["violation"] = r["violation"]
            else:
                case = None
                try: case = json.load(open(prog))
                except Exception: pass
                err = open("%s/%d.err" % (d, w)).read()[-2000:]
                if case is not None:
                    # the interpreter died or hangs outside the reach of its own timer: confirm
                    rf = "%s/%d.replay" % (d, w)
                    json.dump(dict(module=module, case=case), open(rf, "w"))
                    try:
                        rc = subprocess.run([PY, "harness/run.py", "--replay", rf], env=env, timeout=60, capture_output=True, text=True)
                        bad = rc.returncode != 0
                        det = rc.stdout[-2000:] + rc.stderr[-2000:]
                    except subprocess.TimeoutExpired:
                        bad, det = True, "no result within 60 s"
                    if bad and not tot["violation"]:
                        tot["violation"] = dict(module=module, case=case, detail="the process died or did not end\n" + det + err)
                    elif not bad:
                        errors.append("worker %d gave no result: %s" % (w, err))
                else:
                    errors.append("worker %d gave no result: %s" % (w, err))
    tot["distinct"] = len(keys)
    tot["wall"] = round(time.time() - t0, 1)
    tot["errors"] = errors
    return tot

def confirm(v):
    """Replay a violation in a fresh process; returns True when it fails again."""
    if v.get("case") is None:
        return True
    with tempfile.TemporaryDirectory(prefix="verif-") as d:
        rf = d + "/r.json"
        json.dump(dict(module=v["module"], case=v["case"]), open(rf, "w"))
        for i in range(3):
            try:
                rc = subprocess.run([PY, "harness/run.py", "--replay", rf], timeout=90, capture_output=True, text=True,
                                    env=dict(os.environ, VERIF_SCRATCH=d))
            except subprocess.TimeoutExpired:
                return True
            if rc.returncode != 0:
                return True
    return False

def source_hash(results):
    """Hash of the source of every function that a result depends on (comments and layout dropped)."""
    from pyvc.contract import find_def
    res = {}
    for r in results:
        h = hashlib.md5()
        for key in sorted({r["key"], *r["inlined"], *r["used"]}):
            try:
                m, _, q = key.partition(":")
                h.update(ast.dump(find_def(m, q)).encode())
            except Exception:
                h.update(key.encode())
        res[r["name"]] = h.hexdigest()[:16]
    return res

def loop_shape(key):
    """How the loops of a function are nested: annotations of other loops do not fit."""
    from pyvc.contract import find_def
    def walk(n):
        for c in ast.iter_child_nodes(n):
            kind = {"For": "F", "While": "W", "ListComp": "C", "GeneratorExp": "C", "SetComp": "C", "DictComp": "C", "FunctionDef": "D"}.get(type(c).__name__)
            if kind: out.append(kind + "(")
            walk(c)
            if kind: out.append(")")
    out = []
    try: walk(find_def(*key.split(":", 1)))
    except Exception: return "?"
    return "".join(out)

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = props.PROPS[pid]
    os.makedirs("evidence", exist_ok=True)
    os.makedirs("replay", exist_ok=True)
    known = []
    for line in open("known-findings.txt"):
        if line.startswith("KNOWN-FINDING: property=%s " % pid):
            known.append(line.strip())

    # 1. deductive part
    results, trusted, errors, baseline = [], [], [], {}
    if conf.get("contracts"):
        from pyvc import batch
        results, trusted, errors = batch.run(conf["contracts"])
        if os.path.exists("contracts/baseline.json"):
            baseline = json.load(open("contracts/baseline.json")).get(pid, {})
        hashes = source_hash(results)
    total = sum(len(r["obligations"]) for r in results if r["status"] in ("proved", "failed"))
    discharged = sum(1 for r in results for o in r["obligations"] if o.get("status") == "proved")
    failed, undecided = [], []
    for m, e in errors:
        undecided.append("contracts of %s cannot be bound: %s" % (m, e.strip().splitlines()[0] if e else ""))
    for r in results:
        if r["status"] == "proved":
            continue
        if r["status"] == "failed":
            bad = [o for o in r["obligations"] if o["status"] != "proved"]
            only_unknown = all(o["status"] == "unknown" for o in bad)
            same = baseline.get(r["name"], {}).get("hash") == hashes[r["name"]]
            if only_unknown and same:
                undecided.append("%s: solver gave up on %d obligations, source unchanged" % (r["name"], len(bad)))
            elif baseline.get(r["name"], {}).get("loops", loop_shape(r["key"])) != loop_shape(r["key"]):
                undecided.append("%s: its loops are others than those annotated" % r["name"])
            else:
                failed.append(r)
        else:
            undecided.append("%s: %s (%s)" % (r["name"], r["status"], r["reason"].strip().splitlines()[0] if r["reason"] else ""))
    if "--strict" in sys.argv and (failed or undecided):
        for r in failed: print("FAILED", r["name"], r["reason"])
        for u in undecided: print("UNDECIDED", u)
    if "--baseline" in sys.argv:
        path = "contracts/baseline.json"
        b = json.load(open(path)) if os.path.exists(path) else {}
        b[pid] = {r["name"]: dict(hash=hashes[r["name"]], loops=loop_shape(r["key"]), obligations=len(r["obligations"])) for r in results if r["status"] == "proved"}
        json.dump(b, open(path, "w"), indent=1, sort_keys=True)
        print("baseline:", pid, {n: x["obligations"] for n, x in b[pid].items()}, "failed:", [r["name"] for r in failed], "undecided:", undecided)
        return 0
    t_proof = time.time() - t0

    # 2. bounded part
    secs = conf.get("seconds", (15, 120))[tier == "thorough"]
    if undecided or failed:
        secs = max(secs, conf.get("deep", 75))
    bres, violation = [], None
    mods = conf.get("harness", [])
    for m in mods:
        b = bounded(m, seed, secs / max(1, len(mods)))
        if b["violation"]:
            if confirm(b["violation"]):
                violation = b["violation"]
            else:
                b.setdefault("errors", []).append("not reproduced: %s" % b["violation"]["detail"][:500])
        bres.append(b)
        if violation: break

    # 3. verdict
    nviol = 0
    replay = "replay/%s.json" % pid
    if violation:
        nviol = 1
        with open(replay, "w") as f:
            json.dump(dict(property=pid, module=violation["module"], case=violation["case"], detail=violation["detail"],
                           command="%s harness/run.py --replay %s" % (PY, replay),
                           failed_obligations=[dict(function=r["name"], reason=r["reason"]) for r in failed]), f, indent=1)
        print(violation["detail"][:2500])
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join(HERE, replay)))
    elif failed:
        nviol = len(failed)
        with open(replay, "w") as f:
            json.dump(dict(property=pid, failed_obligations=[dict(function=r["name"], obligations=[o for o in r["obligations"] if o["status"] != "proved"]) for r in failed],
                           command="python3-vt -m pyvc.batch %s" % ",".join(conf["contracts"])), f, indent=1)
        for r in failed:
            print("failed obligation in %s: %s" % (r["name"], r["reason"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, os.path.join(HERE, replay)))
    else:
        for k in known:
            print(k)

    # 4. evidence
    level = conf["level"]
    cov = {}
    ev = sum(b["evaluations"] for b in bres)
    dist = sum(b["distinct"] for b in bres)
    bnd = dict(evaluations=ev, distinct_nontrivial=dist, rule=" / ".join(b["rule"] for b in bres),
               samples=[s for b in bres for s in b["samples"]][:4])
    if level == "proof":
        inlined = sorted({i for r in results for i in r["inlined"]})
        assumed = sorted({a for r in results for a in r["assumed"]})
        solvers = {}
        for r in results:
            for o in r["obligations"]:
                solvers[o.get("solver", "?")] = solvers.get(o.get("solver", "?"), 0) + 1
        cov = dict(obligations=total, discharged=discharged,
            checker_cmd="python3-vt -m pyvc.batch %s" % ",".join(conf["contracts"]),
            trusted_base=["pyvc symbolic executor and its model of Python (/verif/pyvc)", "z3, cvc5", "CPython's parser (ast)"]
                + ["assumed contract of %s: %s" % t for t in trusted] + ["assumed: " + a for a in assumed],
            functions=[dict(function=r["name"], status=r["status"], obligations=len(r["obligations"]),
                            discharged=sum(o.get("status") == "proved" for o in r["obligations"]), paths=r["paths"],
                            reachable_exits="%s/%s" % (r.get("reachable_exits"), r["nexits"]), inlined=r["inlined"], uses_contracts=r["used"],
                            solver_s=round(sum(o.get("time", 0) for o in r["obligations"]), 2), note=r["note"]) for r in results],
            inlined_functions=inlined, back_ends=solvers, proof_wall_s=round(t_proof, 1), undecided=undecided,
            bounded_labelled=dict(bnd, status="bounded, not proved"))
    else:
        cov = dict(bnd)
        if results:
            cov["contracts"] = dict(obligations=total, discharged=discharged, functions=[r["name"] + ": " + r["status"] for r in results], undecided=undecided)
    rec = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
               assumptions=list(conf.get("assumptions", [])) + props.COMMON_ASSUMPTIONS,
               wall_s=round(time.time() - t0, 1), violations=nviol)
    errs = [e for b in bres for e in b.get("errors", [])]
    if errs: rec["assumptions"].append("worker errors: %s" % errs[:3])
    with open("evidence/%s.json" % pid, "w") as f:
        json.dump(rec, f, indent=1)
    if level == "proof":
        print("%s: %d/%d obligations discharged in %d functions, %d undecided; bounded: %d cases (%d distinct non-trivial); %.0f s"
              % (pid, discharged, total, len(results), len(undecided), ev, dist, time.time() - t0))
    else:
        print("%s: bounded: %d cases (%d distinct non-trivial); %.0f s" % (pid, ev, dist, time.time() - t0))
    if nviol:
        return 1
    if mods and not ev:
        print("no case was evaluated: %s" % errs)
        return 2
    if level == "proof" and not results and not undecided:
        print("no obligations were generated")
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
