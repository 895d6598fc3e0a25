"""Make and confirm planted bugs.  usage: mkseed.py DEFS.py [ID...]
DEFS.py has SEEDS = [dict(id, property, edits=[(file, old, new)...], demo, needs, what)].
Each is kept in /verif/seeded/<id>/ only when it applies, passes the tests, and the demo tells the trees apart."""
import json, os, shutil, subprocess, sys, tempfile, runpy
OUT = "/verif/seeded"
defs = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2:]
DEMO = '#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nPYTHONPATH="$PWD" exec timeout 120 /opt/venv/bin/python "$d/demo.py"\n'
for s in defs:
    if only and s["id"] not in only: continue
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns("__pycache__"))
        os.makedirs(d + "/s")
        open(d + "/s/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(d + "/s/demo.sh", "w").write(DEMO)
        os.chmod(d + "/s/demo.sh", 0o755)
        rc0 = subprocess.run([d + "/s/demo.sh"], cwd=d + "/r", capture_output=True, text=True)
        ok = True
        for f, old, new in s["edits"]:
            p = d + "/r/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "old text occurs", t.count(old), "times in", f); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        diff = subprocess.run(["git", "-C", d + "/r", "diff"], capture_output=True, text=True).stdout
        env = dict(os.environ, PYTHONPATH=d + "/r", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1")
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "tests"], cwd=d + "/r", env=env, capture_output=True, text=True)
        rc1 = subprocess.run([d + "/s/demo.sh"], cwd=d + "/r", capture_output=True, text=True)
        if rc0.returncode == 0 and rc1.returncode != 0 and t.returncode == 0:
            o = os.path.join(OUT, s["id"]); os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w").write(diff)
            for n in ("demo.py", "demo.sh"): shutil.copy(d + "/s/" + n, o + "/" + n)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(o + "/meta.json", "w"), indent=1)
            print(s["id"], "KEPT;", (rc1.stdout + rc1.stderr).strip().splitlines()[-1][:150] if (rc1.stdout + rc1.stderr).strip() else "")
        else:
            print(s["id"], "REJECTED: demo clean rc", rc0.returncode, "demo bug rc", rc1.returncode, "tests rc", t.returncode)
            print((rc0.stdout + rc0.stderr)[-600:]); print(t.stdout[-800:] if t.returncode else "")
    finally:
        shutil.rmtree(d)
