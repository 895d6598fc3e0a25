"""Worker: runs the bounded check of one property on generated cases.

usage: run.py MODULE SEED COUNT SECONDS OUT PROGRESS
       run.py --replay FILE
"""
import importlib, json, os, random, signal, sys, time, traceback, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("PARCE_REPO", "/repo")
sys.path.insert(0, REPO)
sys.setrecursionlimit(3000)

from base import Violation, Skip

class Hang(BaseException):
    pass

def _alarm(*a):
    raise Hang()

def run_case(mod, case):
    """Return (verdict, detail): ok/trivial/skip/violation."""
    limit = getattr(mod, "CPU_LIMIT", 10)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        key = mod.check(case)
        return ("ok", key) if key is not None else ("trivial", None)
    except Skip:
        return "skip", None
    except Hang:
        return "violation", "no result within %d s of CPU time\n%s" % (limit, traceback.format_exc()[-3000:])
    except Violation as e:
        return "violation", "%s\n%s" % (e, traceback.format_exc()[-3000:])
    except Exception as e:
        return "violation", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)

def shrink(mod, case, budget=15):
    """Greedy generic shrinking of a JSON case; every accepted candidate still violates."""
    keys = getattr(mod, "SHRINK", ("text",))
    if not keys or not isinstance(case, dict):
        return case
    end = time.time() + budget
    valid = getattr(mod, "valid", lambda c: True)
    def candidates(c, path=()):
        if isinstance(c, list):
            for i in range(len(c)):
                yield c[:i] + c[i+1:]
            for i in range(len(c)):
                for x in candidates(c[i], (0,)):
                    yield c[:i] + [x] + c[i+1:]
        elif isinstance(c, dict):
            for k in list(c):
                if not path and k not in keys:
                    continue
                for x in candidates(c[k], (k,)):
                    d = dict(c); d[k] = x
                    yield d
        elif isinstance(c, str) and c:
            n = len(c)
            if n > 3:
                yield c[:n//2]; yield c[n//2:]
            for i in range(n):
                yield c[:i] + c[i+1:]
    def bad(c):
        try:
            if not valid(c):
                return False
        except Exception:
            return False
        try:
            signal.signal(signal.SIGPROF, _alarm)
            signal.setitimer(signal.ITIMER_PROF, 3)
            mod.check(c)
            return False
        except Violation:
            return True
        except BaseException:
            return False
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    try:
        if not bad(case):
            return case
        again = True
        while again and time.time() < end:
            again = False
            for c in candidates(case):
                if time.time() > end:
                    break
                if bad(c):
                    case = c; again = True
                    break
    except BaseException:
        pass
    return case

def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        mod = importlib.import_module(d["module"])
        v, detail = run_case(mod, d["case"])
        print(v, detail)
        sys.exit(1 if v == "violation" else 0)
    modname, seed, count, seconds, out, progress = sys.argv[1:7]
    seed, count, seconds = int(seed), int(count), float(seconds)
    t0 = time.time()
    res = dict(evaluations=0, ok=0, trivial=0, skipped=0, keys=[], samples=[], violation=None, rule="")
    keys = set()
    def finish():
        res["keys"] = sorted(keys)
        with open(out + ".tmp", "w") as f:
            json.dump(res, f)
        os.rename(out + ".tmp", out)
    try:
        mod = importlib.import_module(modname)
    except BaseException as e:
        res["violation"] = dict(module=modname, case=None, detail="import of the code under test failed: %s\n%s" % (e, traceback.format_exc()[-3000:]))
        finish(); return
    res["rule"] = getattr(mod, "RULE", "")
    def cases():
        wid = int(os.environ.get("VERIF_WORKER", "0")); nw = int(os.environ.get("VERIF_WORKERS", "1"))
        for i, c in enumerate(getattr(mod, "FIXED", ())):
            if i % nw == wid:
                yield c
        for n in range(count):
            rng = random.Random("%s/%d/%d/%d" % (modname, seed, wid, n))
            yield mod.gen(rng)
    n = 0
    gen = cases()
    while True:
        if time.time() - t0 > seconds:
            break
        try:
            case = next(gen)
        except StopIteration:
            break
        except Exception as e:
            # generators build languages with code under test only in check(); an error here is ours
            raise
        text = json.dumps(case)
        case = json.loads(text)
        if progress != "-":
            with open(progress, "w") as f:
                f.write(text)
        v, detail = run_case(mod, case)
        res["evaluations"] += 1
        if v == "ok":
            res["ok"] += 1
            if len(keys) < 200000:
                keys.add(hashlib.md5((text + repr(detail)).encode()).hexdigest()[:12])
            if len(res["samples"]) < 3:
                res["samples"].append(case)
        elif v == "trivial":
            res["trivial"] += 1
        elif v == "skip":
            res["skipped"] += 1
        else:
            small = shrink(mod, case)
            if small != case:
                v2, d2 = run_case(mod, small)
                if v2 == "violation":
                    case, detail = small, d2
            res["violation"] = dict(module=modname, case=case, detail=detail)
            break
    finish()

if __name__ == "__main__":
    main()
