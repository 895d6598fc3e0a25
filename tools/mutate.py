"""mutate.py N SEED [FILE...]: random small changes to /repo's code (in scratch copies), the existing tests, then the bounded checks.

Prints the changes that pass the tests and that none of the bounded checks of the file's properties reports: candidates for
a gap (or changes that keep the behaviour).  A tool for strengthening the checks; no check uses it.
"""
import ast, os, random, shutil, subprocess, sys, tempfile, json, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODS = {"css": "c22", "document": "c10 c11 c12 c13", "docio": "c20", "formatter": "c14", "indent": "c23", "lexer": "c01 c02 c03", "lexicon": "c01 c24 c03", "mutablestring": "c10",
        "query": "c16", "regex": "c18", "registry": "c19", "ruleitem": "c24 c01", "standardaction": "c17", "target": "c02", "theme": "c14 c22", "transform": "c15", "tree": "c05 c06 c07 c04 c08",
        "treebuilder": "c08 c04 c15", "treebuilderutil": "c08 c09", "util": "c21 c14 c20 c06", "work": "c15 c08", "out/html": "c14"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}

def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda ln, col: off[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: b[slice(*span(n))].decode()
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or fn.name in ("__repr__", "dump", "pformat"): continue
        for n in ast.walk(fn):
            def rep(node, new): out.append((fn.name, node.lineno, *span(node), new))
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                rep(n, "%s %s %s" % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])))
            elif isinstance(n, ast.Constant) and type(n.value) is int and abs(n.value) < 10:
                rep(n, str(n.value + 1)); 
            elif isinstance(n, ast.Constant) and type(n.value) is bool: rep(n, str(not n.value))
            elif isinstance(n, ast.BoolOp):
                op = " or " if isinstance(n.op, ast.And) else " and "
                rep(n, "(" + op.join("(%s)" % text(v) for v in n.values) + ")")
                rep(n, "(%s)" % text(n.values[0]))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): rep(n, "(%s)" % text(n.operand))
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
                rep(n, "%s %s %s" % (text(n.left), "-" if isinstance(n.op, ast.Add) else "+", text(n.right)))
            elif isinstance(n, (ast.If, ast.While)) : 
                if isinstance(n, ast.If): rep(n.test, "(not (%s))" % text(n.test)); rep(n.test, "True")
            elif isinstance(n, ast.Break): rep(n, "pass")
            elif isinstance(n, ast.Continue): rep(n, "pass")
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)):
                if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield, ast.YieldFrom)): continue
                rep(n, "pass")
            elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant): rep(n, "return None")
    return [m for m in out if m]

def one(job):
    path, (fn, line, a, z, new) = job
    src = open("/repo/parce/%s.py" % path).read().encode()
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp/mut")
    try:
        shutil.copytree("/repo/parce", d + "/parce", ignore=shutil.ignore_patterns("__pycache__")); shutil.copytree("/repo/tests", d + "/tests")
        new_src = src[:a] + new.encode() + src[z:]
        try: compile(new_src, "x", "exec")
        except SyntaxError: return None
        open(d + "/parce/%s.py" % path, "wb").write(new_src)
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PARCE_REPO=d, PYTHONWARNINGS="ignore", VERIF_WORKERS="2")
        what = "%s:%d %s: %s -> %s" % (path, line, fn, src[a:z].decode()[:70].replace("\n", " "), new[:70].replace("\n", " "))
        try: r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, env=env, capture_output=True, timeout=60)
        except subprocess.TimeoutExpired: return None
        if r.returncode: return None
        for m in MODS[path].split():
            for w in "0",:
                o = d + "/o.json"
                try: subprocess.run(["/opt/venv/bin/python", HERE + "/harness/run.py", m, "7", "100000000", os.environ.get("SECS", "10"), o, d + "/p"], env=dict(env, VERIF_WORKER=w), capture_output=True, timeout=90)
                except subprocess.TimeoutExpired: return ("killed", what, m + " timeout")
                try:
                    if json.load(open(o))["violation"]: return ("killed", what, m)
                except OSError: return ("killed", what, m + " crash")
        return ("SURVIVED", what, "")
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or list(MODS)
    rng = random.Random(seed)
    os.makedirs("/tmp/mut", exist_ok=True)
    jobs = []
    for p in files:
        ms = mutants(open("/repo/parce/%s.py" % p).read())
        jobs += [(p, m) for m in rng.sample(ms, min(n, len(ms)))]
    rng.shuffle(jobs)
    k = s = 0
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for r in ex.map(one, jobs):
            if r is None: continue
            if r[0] == "killed": k += 1
            else: s += 1; print(r[0], r[1], flush=True)
    print("killed %d survived %d" % (k, s))
