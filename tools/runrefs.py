"""runrefs.py [ID...]: apply each behaviour-preserving edit to a scratch copy, run the tests, and run the checks of the properties it touches."""
import os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
R = runpy.run_path(os.path.join(os.path.dirname(__file__), "refactorings/defs.py"))["REFS"]
def one(r):
    rid, props, edits = r
    d = tempfile.mkdtemp(prefix="ref-")
    try:
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = d + "/r/" + f; t = open(p).read()
            if old not in t: return "%s: old text not in %s" % (rid, f)
            open(p, "w").write(t.replace(old, new, 1))
        diff = subprocess.run(["git", "-C", d + "/r", "diff"], capture_output=True, text=True).stdout
        env = dict(os.environ, PYTHONPATH=d + "/r", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1")
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=d + "/r", env=env, capture_output=True, text=True)
        if t.returncode: return "%s: tests fail: %s" % (rid, t.stdout[-500:])
        open(d + "/p.diff", "w").write(diff)
        o = subprocess.run(["/verif/tools/runseed.sh", rid] + props, env=dict(os.environ, PATCH=d + "/p.diff", VERBOSE=os.environ.get("VERBOSE", "3")), capture_output=True, text=True)
        return o.stdout.strip() + o.stderr[-300:]
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
    for x in ex.map(one, [r for r in R if not sys.argv[1:] or r[0] in sys.argv[1:]]): print(x, flush=True)
