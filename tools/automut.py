"""Automatic mutation of parce in scratch copies: which mutants that pass the tests are caught by the bounded checks?

usage: automut.py OUT.jsonl WORKERS SECONDS [FILE...]
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import warnings
warnings.simplefilter("ignore")
OUT, NW, SECS = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
MAP = {
 "lexer.py": "c01 c02 c03 c08", "lexicon.py": "c01 c02 c03 c24 c18 c08", "target.py": "c02 c01", "rule.py": "c24 c01",
 "ruleitem.py": "c24 c01", "tree.py": "c04 c05 c06 c07 c16 c08", "treebuilder.py": "c04 c08 c15 c09", "treebuilderutil.py": "c08 c04 c09",
 "document.py": "c10 c11 c12 c13 c08 c23", "mutablestring.py": "c10 c12", "formatter.py": "c14", "theme.py": "c14 c22", "css.py": "c22",
 "util.py": "c14 c21 c22 c10 c19 c18 c23 c07", "regex.py": "c18", "registry.py": "c19", "docio.py": "c20", "standardaction.py": "c17",
 "query.py": "c16", "transform.py": "c15", "work.py": "c08 c15 c10", "indent.py": "c23", "out/html.py": "c14",
 "__init__.py": "c20 c10 c19", "language.py": "c01 c24", "action.py": "c01", "themes/__init__.py": "c14",
}
files = sys.argv[4:] or list(MAP)
PY = "/opt/venv/bin/python"

class Sites(ast.NodeVisitor):
    """Collect (description, apply) for each mutation site, by node index."""
def mutations(tree):
    res = []
    for node in ast.walk(tree):
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            alt = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                   ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}.get(type(node.ops[0]), [])
            for a in alt:
                res.append(("cmp %s->%s" % (type(node.ops[0]).__name__, a.__name__), node, lambda n, a=a: n.ops.__setitem__(0, a())))
        elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
            b = ast.Sub if isinstance(node.op, ast.Add) else ast.Add
            res.append(("arith", node, lambda n, b=b: setattr(n, "op", b())))
        elif isinstance(node, ast.AugAssign) and isinstance(node.op, (ast.Add, ast.Sub)):
            b = ast.Sub if isinstance(node.op, ast.Add) else ast.Add
            res.append(("aug", node, lambda n, b=b: setattr(n, "op", b())))
        elif isinstance(node, ast.BoolOp):
            b = ast.Or if isinstance(node.op, ast.And) else ast.And
            res.append(("boolop", node, lambda n, b=b: setattr(n, "op", b())))
            for i in range(len(node.values)):
                if len(node.values) > 1:
                    res.append(("dropcond%d" % i, node, lambda n, i=i: n.values.__delitem__(i) if len(n.values) > 1 else None))
        elif isinstance(node, ast.Constant) and isinstance(node.value, int) and not isinstance(node.value, bool):
            res.append(("const+1", node, lambda n: setattr(n, "value", n.value + 1)))
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            res.append(("notconst", node, lambda n: setattr(n, "value", not n.value)))
        elif isinstance(node, ast.If):
            res.append(("negif", node, lambda n: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test))))
            if node.orelse:
                res.append(("dropelse", node, lambda n: setattr(n, "orelse", [])))
            res.append(("iffalse", node, lambda n: setattr(n, "test", ast.BoolOp(ast.And(), [n.test, ast.Constant(False)]))))
        elif isinstance(node, ast.IfExp):
            res.append(("negifexp", node, lambda n: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test))))
        elif isinstance(node, (ast.Break, ast.Continue)):
            res.append(("swapbc", node, "pass"))
        elif isinstance(node, ast.Expr) and isinstance(node.value, (ast.Call, ast.Yield, ast.YieldFrom)):
            res.append(("dropstmt", node, "pass"))
        elif isinstance(node, (ast.Assign, ast.AugAssign)):
            res.append(("dropassign", node, "pass"))
        elif isinstance(node, ast.Return) and node.value is not None:
            res.append(("retnone", node, lambda n: setattr(n, "value", None)))
    return res

def mutants(file):
    src = open("/repo/parce/" + file).read()
    base = ast.parse(src)
    infn = set()
    for f in ast.walk(base):
        if isinstance(f, (ast.FunctionDef,)):
            for n in ast.walk(f): 
                if hasattr(n, "lineno"): infn.add((n.lineno, n.col_offset))
    n = len(mutations(base))
    seen = set()
    for i in range(n):
        t = ast.parse(src)
        desc, node, fn = mutations(t)[i]
        if (node.lineno, node.col_offset) not in infn: continue
        if fn == "pass":
            class R(ast.NodeTransformer):
                def visit(self, x):
                    if x is node: return ast.copy_location(ast.Pass(), x)
                    return self.generic_visit(x)
            t = R().visit(t)
        else:
            fn(node)
        ast.fix_missing_locations(t)
        try: code = ast.unparse(t)
        except Exception: continue
        if code in seen: continue
        seen.add(code)
        yield i, desc, node.lineno, code, src.splitlines()[node.lineno-1].strip()

def run(cmd, env, timeout, cwd):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        return p.wait(timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return -99

done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d["file"], d["i"]))
def job(a):
    file, i, desc, line, code, text = a
    if (file, i) in done: return
    d = tempfile.mkdtemp(prefix="am-", dir="/dev/shm")
    try:
        shutil.copytree("/repo/parce", d + "/parce", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree("/repo/tests", d + "/tests", ignore=shutil.ignore_patterns("__pycache__"))
        open(d + "/parce/" + file, "w").write(code)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=d, PARCE_REPO=d, PYTHONUTF8="1", PYTHONWARNINGS="ignore", VERIF_SCRATCH=d)
        rc = run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=60", "tests"], env, 90, d)
        rec = dict(file=file, i=i, desc=desc, line=line, text=text, tests=rc, caught=None)
        if rc == 0:
            rec["survived"] = True
            for h in MAP[file].split():
                o = d + "/o.json"
                if os.path.exists(o): os.unlink(o)
                rc = run([PY, "/verif/harness/run.py", h, "1", "100000000", str(SECS), o, "-"], env, SECS + 60, d)
                if rc == -99 or not os.path.exists(o): rec["caught"] = h + " (died)"; break
                r = json.load(open(o))
                if r["violation"]:
                    rec["caught"] = h; rec["detail"] = r["violation"]["detail"].splitlines()[0][:160]; break
        with open(OUT, "a") as f: f.write(json.dumps(rec) + "\n")
    finally:
        shutil.rmtree(d)
only = None
if os.environ.get("RETRY"):     # only the mutants that an earlier run missed
    only = {(d["file"], d["i"]) for d in map(json.loads, open(os.environ["RETRY"])) if d.get("survived") and not d["caught"]}
jobs = [(f, *m) for f in files if only is None or any(o[0] == f for o in only) for m in mutants(f) if only is None or (f, m[0]) in only]
random.Random(5).shuffle(jobs)
print(len(jobs), "mutants", flush=True)
with ThreadPoolExecutor(NW) as ex:
    list(ex.map(job, jobs))
print("done")
