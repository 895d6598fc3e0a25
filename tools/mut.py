"""usage: mut.py MODULES FILE OLD NEW [COUNT]: prove the contracts on a scratch copy with one text replaced."""
import sys, os, shutil, subprocess, tempfile
mods, file, old, new = sys.argv[1:5]
old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
d = tempfile.mkdtemp(prefix="mut-")
try:
    shutil.copytree("/repo/parce", d + "/parce")
    p = os.path.join(d, "parce", file)
    s = open(p).read()
    assert old in s, "not found"
    open(p, "w").write(s.replace(old, new, 1))
    r = subprocess.run(["python3-vt", "-m", "pyvc.batch", mods] + sys.argv[5:], cwd="/verif", capture_output=True, text=True,
        env=dict(os.environ, PARCE_REPO=d, PYTHONDONTWRITEBYTECODE="1"))
    for l in r.stdout.splitlines():
        if "TRUSTED" in l or " proved " in l: continue
        print(l[:230])
    print(r.stderr[-1500:])
finally:
    shutil.rmtree(d)
