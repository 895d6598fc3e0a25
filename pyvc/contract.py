"""Contracts (sidecar specifications) and source extraction."""
import ast, importlib, inspect, os, textwrap, types, warnings
from .smt import parse_kind
from .values import Unsupported, BindError

REPO = os.environ.get("PARCE_REPO", "/repo")

class Loop:
    def __init__(self, inv=(), kinds=None, index=None, src=None, ghost=None, hints=(), decreases=None, unroll=None, step=None, assume=(), snap=None, cuts=(), begin=(), end=(), lemmas=()):
        self.lemmas = list(lemmas)         # [(lemma function, {parameter: expression})], used when the loop is reached
        self.begin, self.end = list(begin), list(end)     # ghost statements: (variable, expression) or (object, field, expression)
        self.inv = list(inv); self.kinds = kinds or {}; self.index = index; self.src = src
        self.ghost = ghost; self.hints = list(hints); self.decreases = decreases; self.unroll = unroll
        self.step = step or {}
        self.cuts = list(cuts)             # like hints, but only after an iteration
        self.snap = snap or {}             # name -> expression, evaluated when the loop is reached
        self.assume = list(assume)         # [(formula, reason)]: assumed at the loop head, reported

class Contract:
    def __init__(self, key, params=None, returns=None, requires=(), ensures=(), loops=(), modifies=(),
                 raises=None, gen=None, trusted=None, free=None, kinds=None, entry_ghost=None, props=(), pure=True,
                 out_kind=None, note="", inline=False, lemmas=(), name=None, schema=None, instantiate=None, on_raise=(), fuel=2, witness=None, cuts=(), ghost=None, opaque=(), by_kind=False):
        self.key = key                    # "parce.tree:Context.find"
        self.params = {k: v for k, v in (params or {}).items()}
        self.returns = returns
        self.requires = list(requires)
        self.ensures = list(ensures)
        self.loops = loops if isinstance(loops, dict) else dict(enumerate(loops))
        self.modifies = list(modifies)
        self.raises = raises or {}
        self.gen = gen
        self.trusted = trusted            # None, or the reason why it is assumed
        self.free = free or {}            # free variables of a closure: name -> kind or spec
        self.kinds = kinds or {}          # kinds of locals where inference fails
        self.props = props
        self.out_kind = out_kind
        self.note = note
        self.lemmas = list(lemmas)        # [(lemma function, {parameter: expression})], applied before the postconditions
        self.name = name or key           # several contracts can be put on one function
        self.schema = schema
        self.cuts = list(cuts)                 # proved before the postconditions, on the paths where their names are bound
        self.witness = witness or {}           # name -> (kind, expression): exists in the postconditions, with this witness
        self.ghost = ghost or {}               # ghost variables: name -> (kind, initial value)
        self.opaque = opaque                   # specification functions that are not unfolded here
        self.by_kind = by_kind                 # callers choose it by the kind of an argument
        self.fuel = fuel                       # how often specification functions are unfolded
        self.on_raise = list(on_raise)         # what holds when an exception is raised
        self.instantiate = instantiate or {}   # callee -> {ghost variable of the callee: expression of the caller}

class Registry:
    def __init__(self):
        self.contracts = {}
        self.by_key = {}
        self.specfuns = {}
        self.lemmas = {}

    def elsewhere(self, module):
        """What is registered so far is only used here: it is proved by another module."""
        for c in self.contracts.values():
            if not c.trusted: c.trusted = "proved in " + module

    def add(self, c):
        assert c.name not in self.contracts, c.name
        self.contracts[c.name] = c
        self.by_key.setdefault(c.key, c)
        return c

# ------------------------------------------------------------- source

_modcache = {}

def module_ast(modname):
    """Parse the module's file in /repo; returns (ast, source)."""
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) if modname == "contracts.lemmas" else REPO, *modname.split(".")) + ".py"
    if not os.path.exists(path):
        path = os.path.join(REPO, *modname.split("."), "__init__.py")
    if path not in _modcache:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _modcache[path] = (ast.parse(src), src, path)
    return _modcache[path]

def _defs(body):
    for n in body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            yield n
        else:
            for attr in ("body", "orelse", "finalbody", "handlers"):
                sub = getattr(n, attr, None)
                if isinstance(sub, list) and sub and isinstance(sub[0], (ast.stmt, ast.excepthandler)):
                    if isinstance(sub[0], ast.excepthandler):
                        for h in sub:
                            yield from _defs(h.body)
                    else:
                        yield from _defs(sub)

def find_def(modname, qualname):
    """Return the ast node of a (nested) function.  'f/g#2' is the third nested def g in f."""
    tree, src, path = module_ast(modname)
    node = tree
    parts = qualname.replace("/", ".").split(".")
    for p in parts:
        p, _, num = p.partition("#")
        setter = False
        if p.startswith("@"):
            setter, p = True, p[1:]
        found = [d for d in _defs(node.body) if d.name == p]
        if found and isinstance(found[0], ast.FunctionDef) and not num and len(found) > 1:
            def deco(d):
                return [ast.unparse(x) for x in d.decorator_list]
            sets = [d for d in found if any(x.endswith((".setter", ".deleter")) for x in deco(d))]
            found = [d for d in found if (d in sets) == setter]
        i = int(num) if num else 0
        if len(found) <= i:
            raise BindError("no definition %s in %s" % (qualname, modname))
        node = found[i]
    return node

def func_key(f):
    """Registry key of a real function object."""
    return "%s:%s" % (f.__module__, f.__qualname__.replace(".<locals>.", "/"))

def is_generator_def(node):
    class V(ast.NodeVisitor):
        found = False
        def visit_FunctionDef(self, n):
            if n is node:
                self.generic_visit(n)
        def visit_Lambda(self, n): pass
        def visit_GeneratorExp(self, n): pass
        def visit_Yield(self, n): self.found = True
        def visit_YieldFrom(self, n): self.found = True
    v = V(); v.visit(node)
    return v.found

def loops_of(node):
    """Loop statements (and yield-froms) of a function in source order, nested defs excluded."""
    res = []
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.While, ast.For)):
                res.append(c)
            walk(c)
    walk(node)
    res.sort(key=lambda n: (n.lineno, n.col_offset))
    return res
