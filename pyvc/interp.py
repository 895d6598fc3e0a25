"""pyvc: a deductive verifier for a subset of Python.

The interpreter executes the AST of a *real* function of /repo symbolically.
Branches on symbolic conditions are enumerated path by path (each path is one
re-execution with a recorded list of decisions).  Loops are cut at their
invariant: the invariant is an obligation on entry and after the body, and is
all that is known at the loop head, after forgetting everything the body may
write (the write set is discovered while executing; a write that was not
forgotten restarts the exploration with a larger set).  Calls are resolved to
the callee's contract (precondition is an obligation, postcondition is
assumed) or, for helpers that carry no contract, by executing the callee's
body in place.
"""
import ast, builtins, hashlib, contextlib, importlib, inspect, itertools, types, collections, functools, operator
import z3
from .smt import *
from .values import *
from .contract import *
from .contract import _defs
from . import smt

class PathEnd(Exception): pass
class Restart(Exception): pass
class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class PyRaise(Exception):
    def __init__(self, name, node=None): self.name, self.node = name, node

MAX_PATHS = 3000
MAX_INLINE = 12
QUICK_RLIMIT = 400000

class Frame:
    def __init__(self, vars=None, parent=None, module=None, qualname="", node=None, gen_target=None, cls=None):
        self.vars = vars if vars is not None else {}
        self.parent = parent
        self.module = module
        self.qualname = qualname
        self.node = node
        self.gen_target = gen_target   # what a yield does in this frame
        self.cls = cls
        self.nonlocals = set()
        self.loopmap = None

class LoopCtx:
    def __init__(self, key, frame, born, varnames, havoc):
        self.key, self.frame, self.born, self.varnames, self.havoc = key, frame, born, varnames, havoc
        self.pending = set()

class Obligation:
    __slots__ = ("name", "fn", "kind", "assumptions", "goal", "loc", "text", "status", "solver", "time", "model")
    def __init__(self, name, fn, kind, assumptions, goal, loc, text):
        self.name, self.fn, self.kind, self.assumptions, self.goal = name, fn, kind, assumptions, goal
        self.loc, self.text = loc, text
        self.status = self.solver = self.time = self.model = None

class Exploration:
    """All paths of one function under one contract."""
    def __init__(self, reg, contract, schema, rename=None):
        self.reg, self.c, self.schema = reg, contract, schema
        self.rename = rename or {}
        self.havoc = {}           # loop key -> set of havoc labels
        self.obligations = []
        self.paths = 0
        self.exits = []           # (kind, pc) of normal exits, for the vacuity check
        self.inlined = set()
        self.used_contracts = set()
        self.assumed = set()

    def run(self):
        while True:
            self.obligations, self.paths, self.exits = [], 0, []
            try:
                todo = [([], [])]
                while todo:
                    prefix, answers = todo.pop()
                    r = Run(self, prefix, answers)
                    r.execute()
                    self.paths += 1
                    if self.paths > MAX_PATHS:
                        raise Unsupported("too many paths")
                    for i in range(len(prefix), len(r.decisions)):
                        todo.append((r.decisions[:i] + [not r.decisions[i]], r.asked[:r.marks[i]]))
                break
            except Restart:
                continue
        return self

class Run:
    def __init__(self, ex, prefix, answers=()):
        self.answers, self.asked, self.marks = answers, [], []
        self.ex, self.reg, self.c, self.schema = ex, ex.reg, ex.c, ex.schema
        self.prefix, self.decisions = prefix, []
        self.pc = []
        self.pcset = set()
        self.heap = {}
        self.nfresh = 0
        self.ncell = 0
        self.solver = z3.Solver()
        self.solver.set("rlimit", QUICK_RLIMIT)
        self.loops = []
        self.try_stack = []
        self.spec = 0
        self.old = None
        self.depth = 0
        self.ghost = Frame(qualname="<ghost>")
        self.result = None
        self.frames = []
        self.node = None
        self.bound_over = {}
        self.inset = {}
        self.quant = 0
        self.bind_env = {}
        self.calls = {}
        self.prefix_name = ""

    # ------------------------------------------------------------ facts

    def assume(self, t):
        if t is True or z3.is_true(t if isinstance(t, z3.ExprRef) else z3.BoolVal(bool(t))):
            return
        if t is False:
            t = z3.BoolVal(False)
        if z3.is_and(t):
            for c in t.children():
                self.assume(c)
            return
        i = t.get_id()
        if i in self.pcset:
            return
        self.pcset.add(i)
        self.pc.append(t)
        if not has_quantifier(t):
            self.solver.add(t)

    def entails(self, t):
        if t is True or t is False:
            return t
        t = z3.simplify(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        if has_quantifier(t): return False
        def query():
            self.solver.push()
            self.solver.add(z3.Not(t))
            r = self.solver.check()
            self.solver.pop()
            return r == z3.unsat
        return self.ask("e", query)

    def ask(self, kind, query):
        """A question to the solver. A path repeats those of the path it forked from, and gets the same answers."""
        i, mark = len(self.asked), (kind, len(self.pc), self.nfresh)
        if i < len(self.answers) and self.answers[i][0] == mark:
            a = self.answers[i][1]
        else:
            self.answers = ()
            a = query()
        self.asked.append((mark, a))
        return a

    def entails_full(self, t, ms=3000):
        """Entailment with all facts, the quantified ones included."""
        if self.entails(t) is True: return True
        return self.ask("E", lambda: self._entails_full(t, ms))

    def _entails_full(self, t, ms):
        s = z3.Solver(); s.set("timeout", ms)
        fs = list(self.pc) + [z3.Not(t)]
        for a in smt.relevant_axioms(fs): s.add(a)
        for a in fs: s.add(a)
        return s.check() == z3.unsat

    def feasible(self, t):
        def query():
            self.solver.push()
            self.solver.add(t)
            r = self.solver.check()
            self.solver.pop()
            return r != z3.unsat
        return self.ask("f", query)

    def branch(self, t):
        """Decide a boolean; forks when both are possible."""
        if isinstance(t, SBool): t = t.t
        if t is True or t is False:
            return t
        t = z3.simplify(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        if not has_quantifier(t):
            can_t = self.feasible(t)
            can_f = self.feasible(z3.Not(t))
            if not can_t and not can_f:
                raise PathEnd()
            if not can_t:
                self.assume(z3.Not(t)); return False
            if not can_f:
                self.assume(t); return True
        i = len(self.decisions)
        d = self.prefix[i] if i < len(self.prefix) else True
        self.decisions.append(d); self.marks.append(len(self.asked))
        self.assume(t if d else z3.Not(t))
        return d

    def oblige(self, goal, kind, text):
        if goal is True:
            goal = z3.BoolVal(True)
        elif goal is False:
            goal = z3.BoolVal(False)
        if len(self.decisions) >= len(self.prefix):
            n = len(self.ex.obligations)
            fn = self.c.name
            line = getattr(self.node, "lineno", 0)
            self.ex.obligations.append(Obligation(
                "%s/%s@%d" % (fn, kind, n), fn, kind, list(self.pc), goal, line, text))
        self.assume(goal)

    # ------------------------------------------------------------ fresh values

    def fresh_name(self, base):
        self.nfresh += 1
        return "%s!%s%d" % (base, self.prefix_name, self.nfresh)

    def fresh(self, kind, base="v"):
        kind = parse_kind(kind)
        if kind.op == "none":
            return None
        if kind.op == "opt":
            return SOpt(z3.Bool(self.fresh_name(base + "_none")), self.fresh(kind.args[0], base))
        if kind.op == "tuple":
            return PTup.make([self.fresh(k, "%s_%d" % (base, i)) for i, k in enumerate(kind.args)], kind.name)
        if kind.op == "list":
            return self.new_list(self.fresh(Seq(kind.args[0]), base), base, kind.args[0])
        t = z3.Const(self.fresh_name(base), sort(kind))
        return self.from_term(t, kind)

    def new_list(self, content, label, ek=None):
        self.ncell += 1
        c = Cell("%s.%d" % (label, self.ncell), "list", self.ncell, content=content, ek=ek)
        return c

    def new_aset(self, ek, t=None):
        self.ncell += 1
        return Cell("aset.%d" % self.ncell, "aset", self.ncell, content=t if t is not None else z3.Const(self.fresh_name("set"), z3.ArraySort(sort(ek), BoolS)), ek=ek)

    def new_map(self, t, kind):
        self.ncell += 1
        return Cell("map.%d" % self.ncell, "map", self.ncell, content=t, ek=kind)

    def from_term(self, t, kind):
        op = kind.op
        if op == "int": return SInt(t)
        if op == "bool": return SBool(t)
        if op == "union":
            s = sort(kind)
            return SUnion(s.accessor(0, 0)(t), s.accessor(0, 1)(t), s.accessor(0, 2)(t), kind.name)
        if op == "obj": return SObj(t, kind.name)
        if op in ("iter", "riter"):
            s = sort(kind)
            return SIter(SObj(s.accessor(0, 0)(t), kind.name), SInt(s.accessor(0, 1)(t)), 1 if op == "iter" else -1)
        if op == "slice":
            s = sort(kind)
            return Slice(self.from_term(s.accessor(0, 0)(t), Opt(INT)), self.from_term(s.accessor(0, 1)(t), Opt(INT)), None)
        if op == "siter":
            s = sort(kind)
            return SIter(self.from_term(s.accessor(0, 0)(t), Seq(kind.args[0])), SInt(s.accessor(0, 1)(t)), 1)
        if op == "none": return None
        if op == "map": return self.new_map(t, kind)
        if op == "str":
            self.seq_fact(t, INT)
            return SSeq(t, INT, True)
        if op in ("seq", "list"):
            self.seq_fact(t, kind.args[0])
            return SSeq(t, kind.args[0], False)
        if op == "tuple":
            s = sort(kind)
            return PTup.make([self.from_term(s.accessor(0, i)(t), k) for i, k in enumerate(kind.args)], kind.name)
        if op == "opt":
            s = sort(kind)
            return SOpt(s.accessor(0, 0)(t), self.from_term(s.accessor(0, 1)(t), kind.args[0]))
        raise Unsupported("from_term %r" % kind)

    def seq_fact(self, t, ek):
        self.assume(SeqTheory.of(ek).len(t) >= 0)

    def to_term(self, v, kind):
        op = kind.op
        if isinstance(v, SOpt) and op not in ("opt", "obj"):
            v = self.deref(v)
        if op == "int":
            if isinstance(v, SInt): return v.t
            if isinstance(v, bool): return z3.IntVal(int(v))
            if isinstance(v, int): return z3.IntVal(v)
            if isinstance(v, SBool): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        elif op == "bool":
            if isinstance(v, SBool): return v.t
            if isinstance(v, bool): return z3.BoolVal(v)
        elif op in ("iter", "riter"):
            if isinstance(v, SIter) and v.dir == (1 if op == "iter" else -1):
                return sort(kind).constructor(0)(v.owner.t, it(v.at))
        elif op == "slice":
            if isinstance(v, Slice) and v.step is None: return sort(kind).constructor(0)(self.to_term(v.lo, Opt(INT)), self.to_term(v.hi, Opt(INT)))
        elif op == "siter":
            if isinstance(v, SIter) and isinstance(v.owner, SSeq): return sort(kind).constructor(0)(v.owner.t, it(v.at))
        elif op == "none":
            if v is None: return z3.BoolVal(True)
        elif op == "map":
            if isinstance(v, Cell) and v.what == "map" and kkey(v.ek) == kkey(kind): return v.content
        elif op == "union":
            s = sort(kind)
            if isinstance(v, SUnion): return s.constructor(0)(v.tag, v.i, v.o)
            if is_int(v): return s.constructor(0)(z3.BoolVal(True), it(v), z3.Const("dummy_union_o", ObjSort))
            return s.constructor(0)(z3.BoolVal(False), z3.IntVal(0), self.to_term(v, OBJ))
        elif op == "obj":
            if isinstance(v, SObj): return v.t
            if isinstance(v, Conc): return conc_term(v.o)
            if isinstance(v, Cell) and v.what == "obj":
                return z3.Const("cell_" + v.label, ObjSort)
            if isinstance(v, SOpt):
                v = self.deref(v)
                return self.to_term(v, kind)
            if v is None:
                return conc_term(None)
        elif op == "str":
            if isinstance(v, str):
                t, facts = const_str(v)
                for f in facts: self.assume(f)
                return t
            if isinstance(v, SSeq) and v.isstr: return v.t
        elif op in ("seq", "list"):
            v = self.content(v)
            ek = kind.args[0]
            if isinstance(v, SSeq):
                if kkey(v.ek) == kkey(ek) and not v.isstr: return v.t
            elif isinstance(v, (list, tuple)):
                th = SeqTheory.of(ek)
                r = th.empty
                for x in v:
                    r = self.mk_cat(th, r, self.mk_unit(th, self.to_term(x, ek)))
                return r
        elif op == "tuple":
            if isinstance(v, Cell): v.frozen = True        # a list that is put in a list as a value must not change any more
            elif self.schema.get("list_values") and not self.spec and not self.relist and isinstance(v, (PTup, tuple)): raise Unsupported("a tuple in a list of lists")
            v = self.content(v)
            if isinstance(v, (tuple, list)) and len(v) == len(kind.args):
                s = sort(kind)
                return s.constructor(0)(*[self.to_term(x, k) for x, k in zip(v, kind.args)])
        elif op == "opt":
            s = sort(kind)
            if v is None:
                dummy = z3.Const("dummy_" + kkey(kind), sort(kind.args[0]))
                return s.constructor(0)(z3.BoolVal(True), dummy)
            if isinstance(v, SOpt):
                # canonical dummy for None so that equality works
                dummy = z3.Const("dummy_" + kkey(kind), sort(kind.args[0]))
                return z3.If(v.isnone, s.constructor(0)(z3.BoolVal(True), dummy),
                             s.constructor(0)(z3.BoolVal(False), self.to_term(v.val, kind.args[0])))
            return s.constructor(0)(z3.BoolVal(False), self.to_term(v, kind.args[0]))
        raise Unsupported("cannot represent %r as %r" % (v, kind))

    def kind_of(self, v):
        if isinstance(v, (bool, SBool)): return BOOL
        if isinstance(v, (int, SInt)): return INT
        if isinstance(v, str): return STR
        if isinstance(v, SSeq): return STR if v.isstr else Seq(v.ek)
        if isinstance(v, SUnion): return Kind("union", (), v.cls)
        if isinstance(v, SObj): return Kind("obj", (), v.cls)
        if isinstance(v, Conc): return OBJ
        if isinstance(v, PTup): return Kind("tuple", [self.kind_of(x) for x in v], v.nt)
        if isinstance(v, tuple): return Kind("tuple", [self.kind_of(x) for x in v])
        if isinstance(v, SOpt): return Opt(self.kind_of(v.val))
        if isinstance(v, Cell) and v.what == "list":
            return Kind("list", (self.elem_kind_of(v),))
        if isinstance(v, Cell) and v.what == "map": return v.ek
        if isinstance(v, Cell):
            return OBJ
        if v is None: return NONE
        if isinstance(v, SIter) and isinstance(v.owner, SSeq): return Kind("siter", (v.owner.ek,))
        if isinstance(v, SIter): return Kind("iter" if v.dir > 0 else "riter", (), v.owner.cls)
        raise Unsupported("no kind for %r" % (v,))

    def elem_kind_of(self, v):
        if isinstance(v, Cell):
            if v.ek is not None: return parse_kind(v.ek)
            v = v.content
        if isinstance(v, str): return INT
        if isinstance(v, SSeq): return v.ek
        if v:
            return self.kind_of(v[0])
        if "[]" in self.c.kinds: return parse_kind(self.c.kinds["[]"])
        raise Unsupported("element kind of an empty list is unknown")

    def content(self, v):
        """Immutable contents of a list-like value."""
        if isinstance(v, SOpt):
            v = self.deref(v)
        if isinstance(v, Cell) and v.what == "list":
            return v.content
        if isinstance(v, SObj) and self.schema.get("items", {}).get(v.cls or "") is not None or \
           isinstance(v, SObj) and "$items" in self.schema.get("fields", {}):
            return self.heap_read(v, "$items")
        return v

    # ------------------------------------------------------------ sequence operations

    def mk_unit(self, th, x):
        return th.unit(x)

    def mk_cat(self, th, a, b):
        if a.eq(th.empty): return b
        if b.eq(th.empty): return a
        r = th.cat(a, b)
        self.assume(th.len(r) == self.lent(th, a) + self.lent(th, b))
        return r

    def lent(self, th, t):
        """Length term, folded for literals."""
        if t.eq(th.empty): return z3.IntVal(0)
        if z3.is_app(t) and t.decl().eq(th.unit): return z3.IntVal(1)
        if t.num_args() == 0 and t.decl().name().startswith("lit_"):
            n = t.decl().name().count(".")
            self.assume(th.len(t) == n)
            return z3.IntVal(n)
        return th.len(t)

    def mk_slice(self, th, t, lo, hi):
        """lo, hi are terms known to be within 0 <= lo <= hi <= len."""
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        if lo.eq(hi):
            return th.empty
        ln = self.lent(th, t)
        if z3.is_int_value(lo) and lo.as_long() == 0 and (hi.eq(z3.simplify(ln)) or
                (not self.quant and self.entails(hi == ln))):
            return t
        if not self.quant and self.entails(lo == hi):
            return th.empty
        r = th.slice(t, lo, hi)
        self.assume(z3.Implies(z3.And(0 <= lo, lo <= hi, hi <= ln), th.len(r) == hi - lo))
        return r

    def as_seq(self, v, ek=None):
        """SSeq for any sequence value."""
        v = self.content(v)
        if isinstance(v, SSeq): return v
        if isinstance(v, str):
            return SSeq(self.to_term(v, STR), INT, True)
        if isinstance(v, (tuple, list)):
            ek = ek or self.elem_kind_of(v)
            return SSeq(self.to_term(v, Seq(ek)), ek)
        raise Unsupported("not a sequence: %r" % (v,))

    def length(self, v):
        if isinstance(v, SOpt): v = self.deref(v)
        if isinstance(v, SObj) and "%s.__len__" % v.cls in self.schema.get("methods", {}): return self.call_method(v, "__len__", [], {})
        v = self.content(v)
        if isinstance(v, Cell) and v.what == "set": return v.content
        if isinstance(v, (str, list, tuple)): return len(v)
        if isinstance(v, SSeq): return mkint(self.lent(v.th, v.t))
        if isinstance(v, PyRange):
            d = it(v.hi) - it(v.lo)
            return mkint(z3.If(d > 0, d, z3.IntVal(0)))
        if isinstance(v, Cell) and v.what == "obj":
            m = self.lookup_method(v, "__len__")
            return self.call_value(m, [], {})
        if isinstance(v, SObj):
            m = self.lookup_method(v, "__len__")
            return self.call_value(m, [], {})
        raise Unsupported("len of %r" % (v,))

    def concat(self, a, b):
        a, b = self.content(a), self.content(b)
        if isinstance(a, str) and isinstance(b, str): return a + b
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return PTup(tuple(a) + tuple(b)) if isinstance(a, tuple) else list(a) + list(b)
        if isinstance(a, (tuple, list)) and not a: return b
        if isinstance(b, (tuple, list)) and not b: return a
        if isinstance(a, SSeq): b = self.as_seq(b, a.ek)
        else: a = self.as_seq(a, b.ek)
        th = a.th
        return SSeq(self.mk_cat(th, a.t, b.t), a.ek, a.isstr)

    def norm_index(self, i, n, what="index"):
        """Index term within bounds, obligation or branch on IndexError."""
        if isinstance(i, SBool) or isinstance(i, bool): i = SInt(self.to_term(i, INT))
        nt = it(n)
        t = it(i)
        if self.spec:
            if isinstance(i, int):
                return nt + i if i < 0 else z3.IntVal(i)
            s = z3.simplify(t)
            if z3.is_int_value(s) and s.as_long() < 0:
                return nt + t
            return t
        if isinstance(i, int):
            r = nt + i if i < 0 else t
        elif self.entails(t >= 0):
            r = t
        elif self.entails(t < 0):
            r = nt + t
        elif self.branch(t >= 0):
            r = t
        else:
            r = nt + t
        ok = z3.And(0 <= r, r < nt)
        self.may_raise("IndexError", ok, what + " in range")
        return r

    def may_raise(self, exc, ok, text):
        """ok: condition for no exception."""
        if ok is True:
            return
        if self.catches(exc):
            if not self.branch(ok):
                raise PyRaise(exc, self.node)
        elif exc in self.c.raises:
            if not self.branch(ok):
                raise PyRaise(exc, self.node)
        else:
            self.oblige(ok, "no-" + exc, text)

    def catches(self, exc):
        for names in self.try_stack:
            if names is None or exc in names:
                return True
            e = getattr(builtins, exc, None)
            for n in names:
                b = getattr(builtins, n, None)
                if e is not None and b is not None and issubclass(e, b):
                    return True
        return False

    def getitem(self, v, key):
        if isinstance(v, SOpt): v = self.deref(v)
        if isinstance(v, Cell) and v.what == "dict":
            return dict_get(self, v, key)
        if isinstance(v, Cell) and v.what == "map":
            return map_get(self, v, key)
        if isinstance(v, Cell) and v.what == "obj" or isinstance(v, SObj) and ("$items" not in self.schema.get("fields", {}) or "%s.__getitem__" % v.cls in self.schema.get("methods", {})):
            m = self.lookup_method(v, "__getitem__")
            return self.call_value(m, [key], {})
        c = self.content(v)
        if isinstance(key, Slice):
            return self.getslice(c, key, v)
        if isinstance(key, SOpt): key = self.deref(key)
        if isinstance(key, SObj) and key.cls in self.schema.get("as_int", {}):
            key = self.eval_spec(self.schema["as_int"][key.cls] + "(x)", {"x": key})
        if isinstance(key, (SInt, int, SBool)):
            if isinstance(c, (str, list, tuple)) and isinstance(key, int):
                if -len(c) <= key < len(c):
                    return c[key]
                if self.spec:
                    raise Unsupported("index out of range in spec")
                self.may_raise("IndexError", z3.BoolVal(False), "index in range")
                raise PathEnd()
            if isinstance(c, PyRange):
                i = self.norm_index(key, self.length(c))
                return mkint(it(c.lo) + i)
            c = self.as_seq(c, parse_kind(v.ek) if isinstance(v, Cell) and v.ek is not None else None)
            i = z3.simplify(self.norm_index(key, self.length(c)))
            r = c.th.at(c.t, i)
            if c.isstr:
                u = c.th.slice(c.t, i, i + 1)
                self.assume(z3.Implies(z3.And(0 <= i, i < c.th.len(c.t)), c.th.len(u) == 1))
                return SSeq(u, INT, True)
            return self.from_term(r, c.ek)
        raise Unsupported("subscript %r" % (key,))

    def clamp(self, i, n, default):
        """Python slice bound -> term in 0..n."""
        if i is None:
            return default
        if isinstance(i, SOpt):
            if self.spec:        # in specifications: as the language says
                t = i.val.t
                t = z3.If(t < 0, n + t, t)
                return z3.If(i.isnone, default, z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t)))
            if self.branch(i.isnone):
                return default
            i = i.val
        t = it(i)
        if isinstance(i, int):
            t = n + i if i < 0 else t
            neg = i < 0
        else:
            if self.quant or self.spec:
                # in specifications bounds are meant literally
                return t
            if not self.entails(t >= 0):
                if self.entails(t < 0):
                    t = n + t
                else:
                    t = z3.If(t < 0, n + t, t)
        if self.spec and not isinstance(i, int):
            return t
        if not self.entails(t >= 0):
            t = z3.If(t < 0, z3.IntVal(0), t)
        if not self.entails(t <= n):
            t = z3.If(t > n, n, t)
        return t

    def getslice(self, c, s, orig=None):
        step = s.step
        if isinstance(c, (str, list, tuple)) and all(x is None or isinstance(x, int) for x in (s.lo, s.hi, s.step)):
            r = c[s.lo:s.hi:s.step]
            return self.wrap_slice(r, c, orig)
        if isinstance(c, PyRange):
            raise Unsupported("slice of range")
        c = self.as_seq(c)
        th = c.th
        n = self.lent(th, c.t)
        if step is None or step == 1:
            lo = self.clamp(s.lo, n, z3.IntVal(0))
            hi = self.clamp(s.hi, n, n)
            if (not self.spec or isinstance(s.lo, SOpt) or isinstance(s.hi, SOpt)) and not self.entails(lo <= hi):
                hi = z3.If(hi < lo, lo, hi)
            return self.wrap_slice(SSeq(self.mk_slice(th, c.t, lo, hi), c.ek, c.isstr), c, orig)
        if step == -1:
            # s[a::-1]: elements a, a-1, .., 0 ;  s[::-1]
            if s.hi is not None:
                raise Unsupported("negative step with a stop")
            if s.lo is None:
                base = c.t
            else:
                a = it(s.lo)
                if isinstance(s.lo, int) and s.lo < 0 or (not isinstance(s.lo, int) and self.entails(a < 0)):
                    a = n + a
                elif not self.spec and not isinstance(s.lo, int) and not self.entails(a >= 0):
                    a = z3.If(a < 0, n + a, a)
                hi = a + 1
                if not self.entails(hi >= 0): hi = z3.If(hi < 0, z3.IntVal(0), hi)
                if not self.entails(hi <= n): hi = z3.If(hi > n, n, hi)
                base = self.mk_slice(th, c.t, z3.IntVal(0), hi)
            if base.eq(th.empty): return self.wrap_slice(SSeq(base, c.ek, c.isstr), c, orig)
            r = th.rev(base)
            self.assume(th.len(r) == self.lent(th, base))
            return self.wrap_slice(SSeq(r, c.ek, c.isstr), c, orig)
        raise Unsupported("slice step")

    def wrap_slice(self, r, c, orig):
        if isinstance(r, tuple) and not isinstance(r, PTup):
            r = PTup(r)
        if not self.spec and (isinstance(orig, Cell) and orig.what == "list" or isinstance(r, list) or isinstance(orig, SObj)):
            ek = orig.ek if isinstance(orig, Cell) else None
            return self.new_list(r, "slice", ek)
        return r

    # ------------------------------------------------------------ heap

    def heap_arr(self, field):
        if field not in self.heap:
            k = parse_kind(self.schema["fields"][field])
            self.heap[field] = (z3.Array("H_" + field, ObjSort, sort(k)), k)
        return self.heap[field]

    unfolding = relist = False

    def heap_read(self, o, field):
        a, k = self.heap_arr(field)
        if self.unfolding and not (z3.is_const(a) and a.decl().name() == "H_" + field):
            raise Unsupported("a specification function reads a field that has changed: " + field)
        r = self.from_term(z3.Select(a, o.t), k)
        if k.op == "map" and not self.spec: r.slot = (o, field)
        return r

    def heap_write(self, o, field, v):
        a, k = self.heap_arr(field)
        self.note_write(("heap", field))
        self.heap[field] = (z3.Store(a, o.t, self.to_term(v, k)), k)

    # ------------------------------------------------------------ write tracking

    def note_write(self, label, born=None, frame=None, name=None):
        # what is written in an iteration is forgotten at the head of the loop when that iteration is followed by
        # another one (close_iteration); an iteration that leaves the loop takes its own state along
        for L in self.loops:
            if label[0] == "var":
                if L.frame_has(frame, name): L.pending.add(label)
            elif label[0] == "heap":
                L.pending.add(label)
            elif born <= L.born:
                L.pending.add(label)

    def set_var(self, frame, name, v):
        f = frame
        if name in f.nonlocals:
            f = f.parent
            while f is not None and name not in f.vars:
                f = f.parent
            if f is None:
                raise Unsupported("nonlocal %s" % name)
        self.note_write(("var", id_of_frame(f), name), frame=f, name=name)
        f.vars[name] = v

    def set_content(self, cell, content):
        if cell.frozen: raise Unsupported("change of a list that is part of another one")
        if cell.label.startswith(("fixed.", "star.")): raise Unsupported("change of a list made by unpacking")
        self.note_write(("cell", cell.label), cell.born)
        cell.content = content
        if isinstance(cell.slot, SObj):  # the items of an object that is a list
            self.heap_write(cell.slot, "$items", content if isinstance(content, SSeq) else self.as_seq(content, self.heap_arr("$items")[1].args[0]))
        elif cell.what == "map" and cell.slot not in (None, "default"):
            o, fld = cell.slot
            self.heap_write(o, fld, cell)
        elif cell.slot not in (None, "default"):      # a list that is the value of a dictionary item
            d, k = cell.slot
            dom, val = d.content
            ek = parse_kind(d.ek)
            self.set_content(d, (z3.Store(dom, k, True), z3.Store(val, k, self.to_term(content, Seq(ek)))))

    def view(self, o):
        """The items of an object that is a list, as a list whose changes go to the object."""
        ek = self.heap_arr("$items")[1].args[0]
        cell = self.new_list(self.heap_read(o, "$items"), "view", None)
        cell.slot = o
        return cell

    def is_list_obj(self, o):
        return isinstance(o, SObj) and "$items" in self.schema.get("fields", {})

    def set_field(self, cell, name, v):
        self.note_write(("field", cell.label, name), cell.born)
        if isinstance(v, Cell) and v.what == "list" and v.ek is None and cell.cls is not None:
            v.ek = self.schema.get("elem_kinds", {}).get("%s.%s" % (cell.cls.__name__, name))
        cell.fields[name] = v

    # ------------------------------------------------------------ truth, equality

    def truth(self, v):
        if isinstance(v, bool): return v
        if v is None: return False
        if isinstance(v, (int, str, tuple, list)): return bool(v)
        if isinstance(v, SInt): return v.t != 0
        if isinstance(v, SBool): return v.t
        if isinstance(v, SSeq): return self.lent(v.th, v.t) > 0
        if isinstance(v, SOpt): return zand(z3.Not(v.isnone), self.truth(v.val))
        if isinstance(v, Cell) and v.what == "list": return self.truth(self.content(v))
        if isinstance(v, Cell) and v.what == "set": return self.truth(v.content)
        if isinstance(v, Cell) and v.what == "dict":
            b = z3.Bool(self.fresh_name("nonempty")); k = z3.Int(self.fresh_name("q")); w = z3.Int(self.fresh_name("key"))
            self.assume(z3.Implies(b, z3.Select(v.content[0], w)))
            self.assume(z3.ForAll([k], z3.Implies(z3.Select(v.content[0], k), b), patterns=[z3.Select(v.content[0], k)]))
            return b
        if isinstance(v, Cell) and v.what == "map":
            b = z3.Bool(self.fresh_name("nonempty")); ks = sort(v.ek.args[0]); k = z3.Const(self.fresh_name("q"), ks); w = z3.Const(self.fresh_name("key"), ks)
            dom = sort(v.ek).accessor(0, 0)(v.content)
            self.assume(z3.Implies(b, z3.Select(dom, w)))
            self.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), b), patterns=[z3.Select(dom, k)]))
            return b
        if isinstance(v, SUnion): return z3.If(v.tag, v.i != 0, z3.Function("py_truth", ObjSort, BoolS)(v.o)) if not self.schema.get("union_true") else z3.If(v.tag, v.i != 0, z3.BoolVal(True))
        if isinstance(v, Cell):
            if v.cls is None or not has_len(v.cls): return True
            for k in v.cls.__mro__:
                if "__bool__" in k.__dict__:
                    return self.truth(self.call_method(v, "__bool__", [], {}))
            return self.truth(self.length(v))
        if isinstance(v, SObj):
            r = self.schema.get("truth", {}).get(v.cls)
            if r is not None:
                return self.truth(self.eval_spec(r, {"self": v}))
            cls = self.schema.get("classes", {}).get(v.cls)
            if cls is not None and not has_len(cls):
                return True
            if v.cls is not None and cls is None and v.cls in self.schema.get("always_true", ()):
                return True
            f = z3.Function("py_truth", ObjSort, BoolS)
            return f(v.t)
        if isinstance(v, (Conc, Closure, Bound, GenCall, Proxy)):
            return bool(v.o) if isinstance(v, Conc) else True
        raise Unsupported("truth of %r" % (v,))

    def eq(self, a, b):
        if isinstance(a, (int, str)) and isinstance(b, (int, str)) or a is None and b is None:
            return a == b
        if isinstance(a, SOpt) or isinstance(b, SOpt):
            if not isinstance(a, SOpt): a, b = b, a
            if b is None: return a.isnone
            if isinstance(b, SOpt):
                return zor(zand(a.isnone, b.isnone), zand(z3.Not(a.isnone), z3.Not(b.isnone), self.eq(a.val, b.val)))
            return zand(z3.Not(a.isnone), self.eq(a.val, b))
        if a is None or b is None:
            return False
        if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
            if is_bool(a) and is_bool(b):
                return bt(a) == bt(b)
            return it(self.as_int(a)) == it(self.as_int(b))
        if isinstance(a, SObj) and isinstance(b, SObj) and not self.spec and a.cls == b.cls and a.cls in self.schema.get("eq_field", {}):
            fld = self.heap_arr(self.schema["eq_field"][a.cls])[0]
            return z3.Select(fld, a.t) == z3.Select(fld, b.t)
        ca, cb = self.content(a) if not isinstance(a, SObj) else a, self.content(b) if not isinstance(b, SObj) else b
        if isinstance(ca, (tuple, list)) and isinstance(cb, (tuple, list)):
            if len(ca) != len(cb): return False
            return zand(*[self.eq(x, y) for x, y in zip(ca, cb)])
        if isinstance(ca, (SSeq, str, tuple, list)) and isinstance(cb, (SSeq, str, tuple, list)):
            if isinstance(ca, (tuple, list)) and not ca: return self.lent(cb.th, cb.t) == 0
            if isinstance(cb, (tuple, list)) and not cb: return self.lent(ca.th, ca.t) == 0
            isstr = lambda x: isinstance(x, str) or isinstance(x, SSeq) and x.isstr
            if isstr(ca) != isstr(cb): return False
            x = self.as_seq(ca, cb.ek if isinstance(cb, SSeq) else None)
            y = self.as_seq(cb, x.ek)
            if x.t.eq(y.t): return True
            return x.th.eq(x.t, y.t)
        if isinstance(a, SObj) and isinstance(b, SObj):
            if a.t.eq(b.t): return True
            return a.t == b.t
        if isinstance(a, Conc) and isinstance(b, Conc):
            return a.o == b.o
        if isinstance(a, SObj) or isinstance(b, SObj):
            if not isinstance(a, SObj): a, b = b, a
            if isinstance(b, (Conc,)):
                return a.t == conc_term(b.o)
            if isinstance(b, (bool, int, str)):
                return z3.Function("py_eq_%s" % repr(b).replace(" ", "_"), ObjSort, BoolS)(a.t)
            return z3.Bool(self.fresh_name("unknown_eq"))
        if isinstance(a, Cell) and isinstance(b, Cell):
            return a is b
        if isinstance(a, (Conc, Cell)) or isinstance(b, (Conc, Cell)):
            return False
        raise Unsupported("== of %r and %r" % (a, b))

    def same(self, a, b):
        """The 'is' operator."""
        if a is None or b is None:
            o = b if a is None else a
            if o is None: return True
            if isinstance(o, SOpt): return o.isnone
            if isinstance(o, SObj) and (o.cls is None or o.cls in self.schema.get("maybe_none", ())):
                return o.t == conc_term(None)
            return False
        if isinstance(a, bool) and isinstance(b, bool): return a is b
        if isinstance(a, (SOpt,)) or isinstance(b, SOpt):
            if not isinstance(a, SOpt): a, b = b, a
            if isinstance(b, SOpt):
                return zor(zand(a.isnone, b.isnone), zand(z3.Not(a.isnone), z3.Not(b.isnone), self.same(a.val, b.val)))
            return zand(z3.Not(a.isnone), self.same(a.val, b))
        if isinstance(a, SObj) and isinstance(b, SObj): return a.t == b.t
        if isinstance(a, Cell) or isinstance(b, Cell): return a is b
        if isinstance(a, Conc) and isinstance(b, Conc): return a.o is b.o
        if isinstance(a, SObj) and isinstance(b, Conc): return a.t == conc_term(b.o)
        if isinstance(b, SObj) and isinstance(a, Conc): return b.t == conc_term(a.o)
        if isinstance(a, SObj) and a.cls is not None and isinstance(b, bool) or isinstance(b, SObj) and b.cls is not None and isinstance(a, bool): return False
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)): return self.eq(a, b)
        raise Unsupported("is of %r and %r" % (a, b))

    def as_int(self, v):
        if isinstance(v, bool): return int(v)
        if isinstance(v, SBool): return SInt(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        return v

    def deref(self, v):
        while isinstance(v, SOpt):
            if not self.spec:
                if not self.entails(z3.Not(v.isnone)):
                    self.may_raise("TypeError", z3.Not(v.isnone), "value is not None here")
            v = v.val
        return v

    # ------------------------------------------------------------ spec evaluation

    def eval_spec(self, expr, env=None, frame=None):
        node = parse_expr(expr)
        f = Frame(dict(env or {}), parent=frame, qualname="<spec>")
        self.spec += 1
        save = self.node
        try:
            return self.eval(node, f)
        except Unsupported as e:
            raise type(e)("%s  [in spec %r]" % (e, expr))
        finally:
            self.spec -= 1
            self.node = save

    def spec_bool(self, expr, env=None, frame=None):
        r = self.truth(self.eval_spec(expr, env, frame))
        return z3.BoolVal(r) if isinstance(r, bool) else r

    def quantify(self, gens, frame, elt, conj):
        """all(...)/any(...) over ranges and sequences in a specification."""
        bound, guards = [], []
        f = Frame({}, parent=frame, qualname="<quant>")
        self.quant += 1
        try:
            for g in gens:
                src = self.eval(g.iter, f)
                src = self.content(src) if not isinstance(src, (PyRange, Iter, SObj)) else (self.content(src) if isinstance(src, SObj) else src)
                if isinstance(src, (tuple, list)) and len(gens) == 1:
                    items = []
                    for x in src:
                        self.assign_target(g.target, x, f, spec=True)
                        gs = [self.truth(self.eval(c, f)) for c in g.ifs]
                        e = self.truth(self.eval(elt, f))
                        items.append(zimplies(zand(*gs), e) if conj else zand(*gs, e))
                    return mkbool(zand(*items) if conj else zor(*items))
                k = z3.Int(self.fresh_name("q"))
                bound.append(k)
                if isinstance(src, PyRange):
                    guards.append(it(src.lo) <= k); guards.append(k < it(src.hi))
                    val = SInt(k)
                else:
                    n, item = self.source(src)
                    guards.append(0 <= k); guards.append(k < it(n))
                    val = item(k)
                self.assign_target(g.target, val, f, spec=True)
                for c in g.ifs:
                    guards.append(self.truth(self.eval(c, f)))
            e = self.truth(self.eval(elt, f))
        finally:
            self.quant -= 1
        if conj:
            body = zimplies(zand(*guards), e)
            return mkbool(z3.ForAll(bound, body)) if not isinstance(body, bool) else body
        body = zand(*(guards + [e]))
        return mkbool(z3.Exists(bound, body)) if not isinstance(body, bool) else body

    def source(self, v):
        """(length, item(k)) of an iterable with known elements."""
        if isinstance(v, SOpt): v = self.deref(v)
        if isinstance(v, Cell) and v.what == "obj": v = self.iter_of(v)
        if isinstance(v, Iter):
            if v.op == "enumerate":
                n, item = self.source(v.args[0])
                st = v.args[1]
                return n, lambda k: PTup((mkint(k + it(st)), item(k)))
            if v.op == "zip":
                ss = [self.source(a) for a in v.args]
                n = ss[0][0]
                for m, _ in ss[1:]:
                    if isinstance(n, int) and isinstance(m, int): n = min(n, m)
                    else: n = mkint(z3.If(it(n) < it(m), it(n), it(m)))
                return n, lambda k: PTup(tuple(i(k) for _, i in ss))
            if v.op == "reversed":
                n, item = self.source(v.args[0])
                return n, lambda k: item(z3.simplify(it(n) - 1 - k))
            if v.op == "map":
                n, item = self.source(v.args[1])
                return n, lambda k: self.call_value(v.args[0], [item(k)], {})
            raise Unsupported("iterator %s" % v.op)
        if isinstance(v, PyRange):
            return self.length(v), lambda k: mkint(it(v.lo) + k)
        v = self.content(v)
        if isinstance(v, (tuple, list)):
            def item(k):
                k = z3.simplify(k) if isinstance(k, z3.ExprRef) else k
                if isinstance(k, int): return v[k]
                if z3.is_int_value(k): return v[k.as_long()]
                s = self.as_seq(v)
                return self.from_term(s.th.at(s.t, k), s.ek)
            return len(v), item
        s = self.as_seq(v)
        def item(k):
            if s.isstr:
                u = s.th.slice(s.t, k, k + 1)
                return SSeq(u, INT, True)
            return self.from_term(s.th.at(s.t, k), s.ek)
        return self.length(s), item

    # ------------------------------------------------------------ expressions

    def eval(self, n, f):
        if not self.spec:
            self.node = n
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s (line %s)" % (type(n).__name__, getattr(n, "lineno", "?")))
        return m(n, f)

    def e_Constant(self, n, f):
        v = n.value
        if v is None or isinstance(v, (bool, int, str)): return v
        if isinstance(v, float): return Conc(v)
        raise Unsupported("constant %r" % (v,))

    def e_JoinedStr(self, n, f):
        return self.fresh(STR, "fstr")

    def e_Name(self, n, f):
        v = self.lookup(n.id, f)
        if isinstance(v, SMaybe):
            if self.spec: return v.val
            self.may_raise("UnboundLocalError", v.isset, "variable %s is bound" % n.id)
            return v.val
        if isinstance(v, (SIter, Moved)) and not self.spec:
            if isinstance(v, Moved): raise Unsupported("iterator %s used after it was stored elsewhere" % n.id)
            self.set_var(f, n.id, Moved())
        return v

    def lookup(self, name, f):
        g = f
        while g is not None:
            if name in g.vars:
                v = g.vars[name]
                return v
            if self.spec and g.qualname not in ("<spec>", "<quant>", "<comp>"):
                break
            g = g.parent
        if self.spec:
            name2 = self.ex.rename.get(name, name)
            # closures: walk the defining frames
            for base in ([f] if g is None else [g]) + list(reversed(self.frames)):
                h = base
                while h is not None:
                    if name2 in h.vars: return h.vars[name2]
                    h = h.parent
            if name in self.ghost.vars: return self.ghost.vars[name]
            if name in SPEC_BUILTINS: return Conc(SPEC_BUILTINS[name])
            if name in self.reg.specfuns: return SpecFun(self.reg.specfuns[name])
            if name == "result": raise BindError("no result here")
        mod = None
        g = f
        while g is not None and mod is None:
            mod, g = g.module, g.parent
        if mod is None and self.frames:
            mod = self.frames[0].module
        if mod is not None and hasattr(mod, name):
            return self.wrap(getattr(mod, name))
        if hasattr(builtins, name):
            return Conc(getattr(builtins, name))
        raise BindError("name %r is not bound" % name)

    def wrap(self, o):
        if o is None or isinstance(o, (bool, int, str)): return o
        if isinstance(o, bytes): return o.decode("latin-1")      # bytes: sequences of integers, like strings
        if type(o) is tuple: return PTup(tuple(self.wrap(x) for x in o))
        return Conc(o)

    def e_Tuple(self, n, f):
        items = []
        sym = None
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.content(self.eval(e.value, f))
                if isinstance(v, (tuple, list)): items.extend(v)
                elif len(n.elts) == 1: return v
                else: raise Unsupported("starred symbolic sequence")
            else:
                items.append(self.eval(e, f))
        return PTup(items)

    def e_List(self, n, f):
        items = [self.eval(e, f) for e in n.elts]
        if self.spec: return PTup(items)
        return self.new_list(items, "list%d" % getattr(n, "lineno", 0))

    def e_Set(self, n, f):
        raise Unsupported("set display")

    def e_Dict(self, n, f):
        for x in n.values: self.eval(x, f)
        if not n.keys and self.schema.get("newdict"):
            return empty_map(self, parse_kind(self.schema["newdict"]))
        return self.fresh(Kind("obj", (), "dict"), "dict")

    def e_Lambda(self, n, f):
        return Closure(n, f, "<lambda>")

    def e_IfExp(self, n, f):
        t = self.truth(self.eval(n.test, f))
        if isinstance(t, bool):
            return self.eval(n.body if t else n.orelse, f)
        if self.spec:
            a, b = self.eval(n.body, f), self.eval(n.orelse, f)
            return self.ite(t, a, b)
        return self.eval(n.body if self.branch(t) else n.orelse, f)

    def ite(self, t, a, b):
        if a is b: return a
        if a is None and b is None: return None
        if a is None or b is None or isinstance(a, SOpt) or isinstance(b, SOpt):
            ka = self.kind_of(a) if a is not None else None
            kb = self.kind_of(b) if b is not None else None
            na = True if a is None else (a.isnone if isinstance(a, SOpt) else False)
            nb = True if b is None else (b.isnone if isinstance(b, SOpt) else False)
            va = a.val if isinstance(a, SOpt) else a
            vb = b.val if isinstance(b, SOpt) else b
            if va is None: va = vb
            if vb is None: vb = va
            return SOpt(z3.If(t, zb(na), zb(nb)), self.ite(t, va, vb))
        if isinstance(a, (tuple,)) and isinstance(b, (tuple,)) and len(a) == len(b):
            return PTup.make([self.ite(t, x, y) for x, y in zip(a, b)], getattr(a, "nt", None))
        ca, cb = self.content(a) if not isinstance(a, SObj) else a, self.content(b) if not isinstance(b, SObj) else b
        if isinstance(ca, (tuple, list)) and isinstance(cb, SSeq): ca = self.as_seq(ca, cb.ek)
        if isinstance(cb, (tuple, list)) and isinstance(ca, SSeq): cb = self.as_seq(cb, ca.ek)
        if isinstance(ca, (tuple, list)) and isinstance(cb, (tuple, list)):
            ek = self.elem_kind_of(ca if ca else cb)
            ca, cb = self.as_seq(ca, ek), self.as_seq(cb, ek)
        k = self.kind_of(ca)
        return self.from_term(z3.If(t, self.to_term(ca, k), self.to_term(cb, k)), k)

    def e_BoolOp(self, n, f):
        isand = isinstance(n.op, ast.And)
        if self.spec:
            ts = []
            vals = []
            for x in n.values:
                v = self.eval(x, f)
                t = self.truth(v)
                if isinstance(t, bool):
                    if isand and not t: return mkbool(zand(*ts, False))
                    if not isand and t: return mkbool(zor(*ts, True))
                    vals.append(v)
                    continue
                ts.append(t); vals.append(v)
            return mkbool(zand(*ts) if isand else zor(*ts))
        v = None
        for i, x in enumerate(n.values):
            v = self.eval(x, f)
            if i == len(n.values) - 1:
                return v
            t = self.branch(self.truth(v))
            if isand and not t:
                return self.refine(v, False)
            if not isand and t:
                return self.refine(v, True)
        return v

    def refine(self, v, truthy):
        if isinstance(v, SBool): return truthy
        if isinstance(v, SOpt):
            if truthy: return v.val
            if self.entails(v.isnone): return None
        return v

    def e_UnaryOp(self, n, f):
        v = self.eval(n.operand, f)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else mkbool(z3.Not(t))
        v = self.as_int(self.deref(v))
        if isinstance(n.op, ast.USub):
            return -v if isinstance(v, int) else mkint(-it(v))
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary op")

    def e_Compare(self, n, f):
        left = self.eval(n.left, f)
        res = []
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, f)
            r = self.compare(op, left, right)
            if isinstance(r, bool):
                if not r:
                    return False
            else:
                res.append(r)
            left = right
            if not self.spec and len(n.ops) > 1 and len(res) and c is not n.comparators[-1]:
                pass
        if not res: return True
        return mkbool(zand(*res))

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq): return self.eq(a, b)
        if isinstance(op, ast.NotEq): return znot(self.eq(a, b))
        if isinstance(op, ast.Is): return self.same(a, b)
        if isinstance(op, ast.IsNot): return znot(self.same(a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return znot(r) if isinstance(op, ast.NotIn) else r
        a, b = self.as_int(self.deref(a)), self.as_int(self.deref(b))
        if isinstance(a, int) and isinstance(b, int):
            return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)](a, b)
        if is_int(a) and is_int(b):
            x, y = it(a), it(b)
            return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)](x, y)
        x, y = self.content(a), self.content(b)
        if all(isinstance(v, (SSeq, list, PTup)) for v in (x, y)) and not self.spec:     # lists of numbers: the first difference decides
            x, y = self.as_seq(x), self.as_seq(y)
            if x.ek == INT and y.ek == INT and not x.isstr and not y.isstr:
                th, k = x.th, self.lcp(x, y)
                n, m = self.lent(th, x.t), self.lent(th, y.t)
                lt = z3.If(z3.Or(k == n, k == m), n < m, th.at(x.t, k) < th.at(y.t, k))
                gt = z3.If(z3.Or(k == n, k == m), n > m, th.at(x.t, k) > th.at(y.t, k))
                return {ast.Lt: lt, ast.Gt: gt, ast.LtE: z3.Not(gt), ast.GtE: z3.Not(lt)}[type(op)]
        raise Unsupported("comparison of %r and %r" % (a, b))

    def lcp(self, x, y):
        """the length of the longest common prefix of two sequences"""
        th, q = x.th, z3.Int(self.fresh_name("q"))
        k = z3.Function("py_lcp_" + kkey(x.ek), x.t.sort(), x.t.sort(), z3.IntSort())(x.t, y.t)
        n, m = self.lent(th, x.t), self.lent(th, y.t)
        self.assume(zand(0 <= k, k <= n, k <= m, z3.Or(k == n, k == m, th.at(x.t, k) != th.at(y.t, k))))
        self.assume(z3.ForAll([q], z3.Implies(zand(0 <= q, q < k), th.at(x.t, q) == th.at(y.t, q)), patterns=[th.at(x.t, q), th.at(y.t, q)]))
        return k

    def contains(self, cont, x):
        if isinstance(cont, Cell) and cont.what == "dict":
            return z3.Select(cont.content[0], it(x))
        if isinstance(cont, Cell) and cont.what == "aset":
            return z3.Select(cont.content, self.to_term(x, cont.ek))
        if isinstance(cont, SObj) and cont.cls in self.schema.get("opaque_in", ()):    # what "in" says for this object, whatever that is
            k = self.kind_of(x)
            return z3.Function("py_in_" + kkey(k), ObjSort, sort(k), BoolS)(cont.t, self.to_term(x, k))
        if isinstance(cont, (str, SSeq)) and (isinstance(cont, str) or cont.isstr):
            return z3.Function("py_in_str", sort(STR), sort(STR), BoolS)(self.to_term(cont, STR), self.to_term(x, STR))
        if isinstance(cont, Cell) and cont.what == "map":
            return z3.Select(sort(cont.ek).accessor(0, 0)(cont.content), self.to_term(x, cont.ek.args[0]))
        if isinstance(cont, Cell) and cont.what == "set":
            if cont.content == 0 and isinstance(cont.content, int): return False
            b = z3.Bool(self.fresh_name("inset"))
            self.assume(z3.Implies(b, it(cont.content) > 0))
            self.inset[(cont.label, id(x))] = (x, b, cont.content)
            return b
        if isinstance(cont, PyRange):
            return zand(it(cont.lo) <= it(x), it(x) < it(cont.hi))
        c = self.content(cont)
        if isinstance(c, (tuple, list)):
            return zor(*[self.eq(x, y) for y in c])
        if isinstance(c, SSeq) and not c.isstr:
            k = z3.Int(self.fresh_name("q"))
            return z3.Exists([k], zand(0 <= k, k < c.th.len(c.t), self.elem_eq(c, k, x)))
        raise Unsupported("in %r" % (cont,))

    def elem_eq(self, c, k, x):
        """element k of the sequence equals x (objects: identity, or by the field that their __eq__ compares)"""
        fld = self.schema.get("eq_field", {}).get(c.ek.name) if c.ek.op == "obj" else None
        if fld is None: return c.th.at(c.t, k) == self.to_term(x, c.ek)
        return z3.Select(self.heap_arr(fld)[0], c.th.at(c.t, k)) == z3.Select(self.heap_arr(fld)[0], self.to_term(x, c.ek))

    def list_object(self, cell, kind):
        """The new list as an object of the heap."""
        o = self.allocate(list, kind.name)
        self.heap_write(o, "$items", self.as_seq(cell, self.heap_arr("$items")[1].args[0]))
        return o

    def e_BinOp(self, n, f):
        a, b = self.eval(n.left, f), self.eval(n.right, f)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        a, b = self.deref(a) if isinstance(a, SOpt) else a, self.deref(b) if isinstance(b, SOpt) else b
        if is_bool(a) and is_bool(b) and isinstance(op, (ast.BitXor, ast.BitAnd, ast.BitOr)):
            x, y = zb(self.truth(a)), zb(self.truth(b))
            return mkbool(z3.simplify(z3.Xor(x, y) if isinstance(op, ast.BitXor) else z3.And(x, y) if isinstance(op, ast.BitAnd) else z3.Or(x, y)))
        if isinstance(op, ast.BitAnd) and isinstance(a, Cell) and isinstance(b, Cell) and a.what == b.what == "aset":
            r = self.new_aset(a.ek)
            k = z3.Const(self.fresh_name("q"), sort(a.ek))
            self.assume(z3.ForAll([k], z3.Select(r.content, k) == z3.And(z3.Select(a.content, k), z3.Select(b.content, k)), patterns=[z3.Select(r.content, k)]))
            return r
        if is_bool(a): a = self.as_int(a)
        if is_bool(b): b = self.as_int(b)
        if is_int(a) and is_int(b):
            if isinstance(a, int) and isinstance(b, int):
                o = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.BitAnd: operator.and_, ast.BitOr: operator.or_}.get(type(op))
                if o is None: raise Unsupported("operator")
                return o(a, b)
            x, y = it(a), it(b)
            if isinstance(op, ast.Add): return mkint(x + y)
            if isinstance(op, ast.Sub): return mkint(x - y)
            if isinstance(op, ast.Mult):
                return mkint(x * y)
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if isinstance(b, int) and b > 0:
                    return mkint(x / y if isinstance(op, ast.FloorDiv) else x % y)
                raise Unsupported("division by a non-constant")
            if isinstance(op, ast.BitAnd) and all(isinstance(v, int) and 0 <= v <= 3 or not isinstance(v, int) and self.entails(z3.And(0 <= it(v), it(v) <= 3)) for v in (a, b)):
                odd = lambda v: bool(v & 1) if isinstance(v, int) else z3.Or(it(v) == 1, it(v) == 3)       # two bits
                two = lambda v: bool(v & 2) if isinstance(v, int) else it(v) >= 2
                return mkint(z3.If(zb(zand(odd(a), odd(b))), z3.IntVal(1), z3.IntVal(0)) + z3.If(zb(zand(two(a), two(b))), z3.IntVal(2), z3.IntVal(0)))
            raise Unsupported("int operator %s" % type(op).__name__)
        if isinstance(op, ast.Add):
            if isinstance(a, (Cell, SSeq, str, tuple, list)) and isinstance(b, (Cell, SSeq, str, tuple, list)):
                r = self.concat(a, b)
                if isinstance(a, Cell) and not self.spec:
                    return self.new_list(r, "cat", a.ek)
                return r
        if isinstance(op, ast.Mult) and isinstance(a, Cell) and is_int(b):
            c = a.content
            if isinstance(c, list) and len(c) == 1:
                if c[0] is None: raise Unsupported("list of None")
                ek = self.kind_of(c[0]); th = SeqTheory.of(ek)
                t = th.rep(self.to_term(c[0], ek), it(b))
                self.assume(z3.Implies(it(b) >= 0, th.len(t) == it(b)))
                return self.new_list(SSeq(t, ek), "rep", ek)
        raise Unsupported("operator %s on %r, %r" % (type(op).__name__, a, b))

    def e_Attribute(self, n, f):
        v = self.eval(n.value, f)
        return self.getattr(v, n.attr)

    def getattr(self, v, name):
        if isinstance(v, SOpt):
            v = self.deref(v)
        if v is None:
            if self.spec: raise BindError("attribute %s of None" % name)
            self.may_raise("AttributeError", z3.BoolVal(False), "not None")
            raise PathEnd()
        if isinstance(v, PTup):
            if v.nt and name in v.nt[1]:
                return v[v.nt[1].index(name)]
            return Bound(v, name)
        if isinstance(v, Conc):
            o = v.o
            if isinstance(o, types.ModuleType) or isinstance(o, type):
                return self.wrap(getattr(o, name))
            return Bound(v, name)
        if isinstance(v, Cell) and v.what == "obj":
            if name in v.fields:
                r = v.fields[name]
                if isinstance(r, SMaybe):
                    if self.spec: return SOpt(znot(r.isset), r.val)
                    self.may_raise("AttributeError", r.isset, "attribute %s is set" % name)
                    return r.val
                return r
            if self.is_slot(v.cls, name):
                if self.spec: return None
                self.may_raise("AttributeError", z3.BoolVal(False), "attribute %s is set" % name)
                raise PathEnd()
            return self.class_attr(v, v.cls, name)
        if isinstance(v, SObj):
            fields = self.schema.get("fields", {})
            if name in fields:
                return self.heap_read(v, name)
            defs = self.schema.get("defs", {})
            if name in defs:
                return self.eval_spec(defs[name], {"self": v})
            cls = self.schema.get("classes", {}).get(v.cls)
            if cls is not None:
                return self.class_attr(v, cls, name)
            return Bound(v, name)
        if isinstance(v, (SSeq, str, Cell, list)):
            return Bound(v, name)
        if isinstance(v, Proxy):
            return v.get(self, name)
        if isinstance(v, SuperProxy):
            mro = v.recv.cls.__mro__ if isinstance(v.recv, Cell) else v.cls.__mro__
            for k in mro[mro.index(v.cls) + 1:]:
                if name in k.__dict__:
                    if k is list and name == "__init__" and self.is_list_obj(v.recv): return Bound(v.recv, "$init")
                    if not isinstance(k.__dict__[name], types.FunctionType): raise Unsupported("super().%s" % name)
                    return BoundFn(v.recv, k.__dict__[name])
            raise BindError("super() has no %s" % name)
        if isinstance(v, Slice):
            if name in ("start", "stop", "step"): return {"start": v.lo, "stop": v.hi, "step": v.step}[name]
            return Bound(v, name)
        raise Unsupported("attribute %s of %r" % (name, v))

    def is_slot(self, cls, name):
        try:
            return isinstance(inspect.getattr_static(cls, name), types.MemberDescriptorType)
        except AttributeError:
            return False

    def class_attr(self, v, cls, name):
        if cls is None:
            raise Unsupported("attribute %s of unknown class" % name)
        try:
            a = inspect.getattr_static(cls, name)
        except AttributeError:
            raise BindError("%s has no attribute %s" % (cls, name))
        if isinstance(a, property):
            fn = a.fget
            return self.call_function(fn, [v], {})
        if isinstance(a, (types.FunctionType, classmethod, staticmethod)):
            return Bound(v, name)
        if isinstance(a, types.MemberDescriptorType):
            if isinstance(v, SObj) and "%s.%s" % (v.cls, name) in self.schema.get("methods", {}): return Bound(v, name)
            raise BindError("field %s of %s has no declared kind" % (name, cls.__name__))
        return self.wrap(a)

    def lookup_method(self, v, name):
        return Bound(v, name)

    def e_Subscript(self, n, f):
        v = self.eval(n.value, f)
        key = self.eval_key(n.slice, f)
        return self.getitem(v, key)

    def eval_key(self, s, f):
        if isinstance(s, ast.Slice):
            return Slice(*[self.eval(x, f) if x is not None else None for x in (s.lower, s.upper, s.step)])
        k = self.eval(s, f)
        return k

    def e_GeneratorExp(self, n, f):
        return self.comprehension(n, f)

    def e_ListComp(self, n, f):
        r = self.comprehension(n, f)
        if self.spec or isinstance(r, Cell): return r
        return self.new_list(list(r) if isinstance(r, tuple) else r, "comp")

    def comprehension(self, n, f):
        """Mapping comprehension over one source with known elements."""
        if len(n.generators) != 1:
            raise Unsupported("nested comprehension")
        g = n.generators[0]
        if not self.spec and f.node is not None:
            spec = self.loop_spec(n, f)
            if spec is not None:        # as the loop that it stands for; comp is the list so far
                src = self.eval(g.iter, f)
                out = self.new_list([], "comp", spec.kinds.get("comp"))
                f.vars["comp"] = out
                def body(item):
                    self.assign_target(g.target, item, f)
                    for c in g.ifs:
                        if not self.branch(self.truth(self.eval(c, f))): return
                    list_method(self, f.vars["comp"], "append", [self.eval(n.elt, f)], {})
                self.iterate(src, n, f, spec, body)
                return out
        src = self.eval(g.iter, f)
        if isinstance(src, GenCall):
            src = self.collect(src)
        n_, item = self.source(src)
        if isinstance(n_, int):
            out = []
            for k in range(n_):
                fr = Frame({}, parent=f, qualname="<comp>")
                self.assign_target(g.target, item(z3.IntVal(k)), fr, spec=True)
                ok = True
                for c in g.ifs:
                    if not self.branch(self.truth(self.eval(c, fr))):
                        ok = False; break
                if ok:
                    out.append(self.eval(n.elt, fr))
            return PTup(out)
        if g.ifs:
            raise Unsupported("filtering comprehension over a symbolic sequence")
        k = z3.Int(self.fresh_name("q"))
        fr = Frame({}, parent=f, qualname="<comp>")
        self.spec += 1; self.quant += 1
        try:
            self.assign_target(g.target, item(k), fr, spec=True)
            val = self.eval(n.elt, fr)
            ek = self.kind_of(val)
            th = SeqTheory.of(ek)
            vt = self.to_term(val, ek)
        finally:
            self.spec -= 1; self.quant -= 1
        # the same comprehension over the same source is the same sequence
        canon = z3.Int("comp_index")
        ck = (z3.substitute(vt, (k, canon)).sexpr(), it(n_).sexpr(), kkey(ek))
        if self.quant: raise Unsupported("comprehension inside a quantifier")
        r = z3.Const("comp_" + hashlib.md5(repr(ck).encode()).hexdigest()[:16], th.S)
        self.assume(th.len(r) == it(n_))
        self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < it(n_)), th.at(r, k) == vt)))
        return SSeq(r, ek)

    # ------------------------------------------------------------ calls

    def e_Call(self, n, f):
        # spec-only forms
        if isinstance(n.func, ast.Name) and self.spec:
            name = n.func.id
            if name in ("all", "any") and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
                g = n.args[0]
                return self.quantify(g.generators, f, g.elt, name == "all")
            if name == "bound":
                v = self.lookup(n.args[0].id, f)
                return mkbool(v.isset) if isinstance(v, SMaybe) else True
            if name == "old":
                return self.eval_old(n.args[0], f)
            if name == "implies":
                a = self.truth(self.eval(n.args[0], f))
                if a is False: return True
                b = self.truth(self.eval(n.args[1], f))
                return mkbool(zimplies(a, b))
            if name == "iff":
                a, b = [self.truth(self.eval(x, f)) for x in n.args]
                return mkbool(zb(a) == zb(b))
            if name == "forall":
                # forall(lambda n, m: P) over objects, or forall("int", lambda ..)
                return self.forall_objs(n, f)
            if name == "exists":
                return self.forall_objs(n, f, True)
        if not self.spec and isinstance(n.func, ast.Name) and n.func.id in ("all", "any", "max", "min", "sum") \
                and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) and n.func.id in ("all", "any") and len(n.args[0].generators) == 1:
            return self.short_circuit(n, f)
        if not self.spec and isinstance(n.func, ast.Name) and n.func.id in ("max", "min", "sum") and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) \
                and len(n.args[0].generators) == 1 and self.loop_spec(n.args[0], f) is not None:
            return self.fold(n, f)
        if not self.spec and isinstance(n.func, ast.Name) and n.func.id == "sum" and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.GeneratorExp):
            g = n.args[0]
            if len(g.generators) == 1 and not g.generators[0].ifs and isinstance(g.elt, ast.Constant) and type(g.elt.value) is int:
                v = self.iter_of(self.eval(g.generators[0].iter, f))
                if not isinstance(v, GenCall): return mkint(it(self.length(self.content(v))) * g.elt.value)
            raise Unsupported("sum")
        if not self.spec and isinstance(n.func, ast.Name) and n.func.id in ("frozenset", "list", "tuple") and len(n.args) == 1 and not n.keywords \
                and not isinstance(n.args[0], (ast.GeneratorExp, ast.Starred)):
            v = self.iter_of(self.eval(n.args[0], f))
            if isinstance(v, GenCall) and v.contract is not None: return self.materialise(v, n, f)
            return self.call_value(self.eval(n.func, f), [v], {}, n)
        fn = self.eval(n.func, f)
        if isinstance(fn, Conc) and fn.o is super and not n.args and not self.spec:
            g = f
            while g.node is None or not isinstance(g.node, ast.FunctionDef) or "." not in g.qualname: g = g.parent
            mod = g.module
            if mod is None: raise Unsupported("super()")
            cls = mod
            for part in g.qualname.split("/")[0].split(".")[:-1]: cls = getattr(cls, part)
            return SuperProxy(g.vars[g.node.args.args[0].arg], cls)
        if isinstance(fn, Conc) and fn.o is isinstance and isinstance(n.args[0], ast.Name) and not self.spec:
            u = self.lookup(n.args[0].id, f)
            if isinstance(u, SUnion):
                # decide which of the two it is, and go on with that
                r = u.as_int() if self.branch(u.tag) else u.as_obj()
                g = f
                while g is not None and n.args[0].id not in g.vars: g = g.parent
                g.vars[n.args[0].id] = r
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, f)
                c = self.content(v) if not isinstance(v, (Iter, GenCall)) else v
                if isinstance(c, (tuple, list)): args.extend(c)
                else: args.append(StarArg(c))
            else:
                args.append(self.eval(a, f))
        for k in n.keywords:
            if k.arg is None:
                v = self.eval(k.value, f)
                if not isinstance(v, KwArgs): raise Unsupported("**kwargs")
                kw.update(v.d); kw["**"] = v
                continue
            kw[k.arg] = self.eval(k.value, f)
        self.node = n if not self.spec else self.node
        return self.call_value(fn, args, kw, n)

    def forall_objs(self, n, f, ex=False):
        args = list(n.args)
        kinds = None
        if isinstance(args[0], ast.Constant):
            kinds = [parse_kind(x.strip()) for x in args[0].value.split(";")]
            args = args[1:]
        lam = args[0]
        names = [a.arg for a in lam.args.args]
        fr = Frame({}, parent=f, qualname="<quant>")
        bound = []
        pats = []
        self.quant += 1
        try:
            for i, nm in enumerate(names):
                k = kinds[min(i, len(kinds) - 1)] if kinds else OBJ
                t = z3.Const(self.fresh_name("q_" + nm), sort(k))
                bound.append(t)
                fr.vars[nm] = self.from_term(t, k)
            body = zb(self.truth(self.eval(lam.body, fr)))
            for kwd in n.keywords:
                if kwd.arg == "pat":
                    es = kwd.value.elts if isinstance(kwd.value, ast.Tuple) else [kwd.value]
                    terms = [base_term(self.eval(e, fr)) for e in es]
                    if any(has_ite(t) for t in terms): continue
                    pats.append(z3.MultiPattern(*terms) if len(terms) > 1 else terms[0])
        finally:
            self.quant -= 1
        Q = z3.Exists if ex else z3.ForAll
        try:
            return mkbool(Q(bound, body, patterns=pats))
        except z3.Z3Exception:
            return mkbool(Q(bound, body))      # not usable as a pattern: the solver chooses

    def eval_old(self, node, f):
        if self.old is None:
            return self.eval(node, f)
        vars_, cells, heap = self.old
        save = (self.heap, {c: (c.content, dict(c.fields) if c.fields is not None else None) for c in cells})
        self.heap = dict(heap)
        for c, (content, fields) in cells.items():
            c.content = content
            if fields is not None: c.fields = dict(fields)
        try:
            # parameters by their entry value, bound (quantified) variables as they are
            base = Frame(dict(vars_), qualname="<old>")
            chain = []
            g = f
            while g is not None and g.qualname in ("<spec>", "<quant>", "<comp>"):
                chain.append(g); g = g.parent
            fr = base
            for g in reversed(chain):
                vs = {k: v for k, v in g.vars.items() if k not in vars_}
                fr = Frame(vs, parent=fr, qualname=g.qualname)
            r = self.eval(node, fr)
            if isinstance(r, Cell) and r.what == "list":
                # the contents at that time, not the list as it is now
                r = self.as_seq(r, parse_kind(r.ek)) if r.ek is not None else r.content if isinstance(r.content, SSeq) else PTup(r.content)
            elif isinstance(r, Cell) and r.what == "set":
                r = r.content
            elif isinstance(r, Cell) and r.what == "dict":
                r = Cell(r.label + "_old", "dict", r.born, content=r.content, ek=r.ek)
            elif isinstance(r, Cell) and r.what == "map":
                r = self.new_map(r.content, r.ek)
            return r
        finally:
            for k, v in self.heap.items():
                if k not in save[0]: save[0][k] = v   # same initial array
            self.heap = save[0]
            for c, (content, fields) in save[1].items():
                c.content = content
                if fields is not None: c.fields = fields

    def snapshot(self, vars_):
        cells = {}
        def walk(v):
            if isinstance(v, Cell) and v not in cells:
                cells[v] = (v.content, dict(v.fields) if v.fields is not None else None)
                if v.fields:
                    for x in v.fields.values(): walk(x)
            elif isinstance(v, (tuple, list)):
                for x in v: walk(x)
            elif isinstance(v, SOpt): walk(v.val)
        for v in vars_.values(): walk(v)
        return dict(vars_), cells, dict(self.heap)

    def call_value(self, fn, args, kw, node=None):
        if isinstance(fn, SOpt): fn = self.deref(fn)
        if isinstance(fn, SpecFun):
            return fn.apply(self, args)
        if isinstance(fn, Closure):
            return self.call_closure(fn, args, kw)
        if isinstance(fn, Bound):
            return self.call_method(fn.recv, fn.name, args, kw)
        if isinstance(fn, BoundFn):
            return self.call_function(fn.fn, [fn.recv] + list(args), kw)
        if isinstance(fn, Proxy):
            return fn.call(self, args, kw)
        if isinstance(fn, Conc):
            o = fn.o
            model = MODELS.get(o) if hashable(o) else None
            if model is not None:
                return model(self, args, kw)
            if isinstance(o, type):
                return self.instantiate(o, args, kw)
            if isinstance(o, types.FunctionType):
                return self.call_function(o, args, kw)
            if isinstance(o, types.MethodType):
                return self.call_function(o.__func__, [self.wrap(o.__self__)] + list(args), kw)
            if isinstance(o, functools.partial):
                raise Unsupported("partial")
            if isinstance(o, type(SPEC_BUILTINS["ite"])):
                return o(self, *args)
        if isinstance(fn, SObj) and fn.cls + ".__call__" in self.schema.get("methods", {}):
            return self.call_method(fn, "__call__", args, kw)
        raise Unsupported("call of %r" % (fn,))

    def instantiate(self, cls, args, kw):
        if issubclass(cls, BaseException):
            return Conc(cls)
        if issubclass(cls, tuple) and hasattr(cls, "_fields") and "%s:%s" % (cls.__module__, cls.__qualname__) not in self.reg.by_key:
            names = cls._fields
            vals = list(args)
            for nme in names[len(vals):]:
                vals.append(kw[nme])
            return PTup.make(vals, (cls.__name__, tuple(names)))
        key = "%s:%s" % (cls.__module__, cls.__qualname__)
        c = self.reg.by_key.get(key)
        if c is not None:
            return self.call_contract(c, args, kw, None)
        c = self.reg.by_key.get(key + ".__new__")
        if c is not None:
            return self.call_contract(c, [Conc(cls)] + list(args), kw, None)
        kind = self.schema.get("alloc", {}).get(key)
        if kind:
            cell = self.allocate(cls, kind)
        else:
            self.ncell += 1
            cell = Cell("%s.%d" % (cls.__name__, self.ncell), "obj", self.ncell, cls=cls, fields={})
        try:
            init = inspect.getattr_static(cls, "__init__")
        except AttributeError:
            init = None
        if isinstance(init, types.FunctionType):
            self.call_function(init, [cell] + list(args), kw)
        if kind:
            for fld, e in self.schema.get("ghost_new", {}).get(key, {}).items():
                for x in [e] if isinstance(e, str) else e:      # the first that can be evaluated here
                    try: v = self.eval_spec(x, {"self": cell}, None)
                    except BindError: continue
                    self.heap_write(cell, fld, v)
                    break
        return cell

    def allocate(self, cls, kind):
        """A new object of the heap: it differs from all that are live."""
        live = self.schema.get("live", "live")
        o = SObj(z3.Const(self.fresh_name("new"), ObjSort), kind)
        self.assume(znot(self.truth(self.heap_read(o, live))))
        self.heap_write(o, live, True)
        for fld in self.schema["fields"]:
            a = getattr(cls, fld, None)
            if fld == "$items" and issubclass(cls, list):
                self.heap_write(o, fld, SSeq(SeqTheory.of(self.heap_arr(fld)[1].args[0]).empty, self.heap_arr(fld)[1].args[0]))
            elif fld == "__dict__":
                k = self.heap_arr(fld)[1]
                self.heap_write(o, fld, self.new_map(sort(k).constructor(0)(z3.K(sort(k.args[0]), z3.BoolVal(False)), sort(k).accessor(0, 1)(z3.Const(self.fresh_name("map"), sort(k)))), k))
            elif fld in ("is_token", "is_context", "group") and hasattr(cls, fld) and not inspect.isdatadescriptor(inspect.getattr_static(cls, fld, 0)):
                self.heap_write(o, fld, a)
        return o

    def call_method(self, recv, name, args, kw):
        if isinstance(recv, SOpt): recv = self.deref(recv)
        if isinstance(recv, Cell) and recv.what == "list" or isinstance(recv, list):
            return list_method(self, recv, name, args, kw)
        if isinstance(recv, Cell) and recv.what == "dict":
            return dict_method(self, recv, name, args, kw)
        if isinstance(recv, Cell) and recv.what == "map":
            return map_method(self, recv, name, args, kw)
        if isinstance(recv, Cell) and recv.what == "set":
            return set_method(self, recv, name, args, kw)
        if isinstance(recv, Cell) and recv.what == "aset":
            if name not in ("add", "discard"): raise Unsupported("set." + name)
            return self.set_content(recv, z3.Store(recv.content, self.to_term(args[0], recv.ek), name == "add"))
        if isinstance(recv, (SSeq, str)) and (isinstance(recv, str) or recv.isstr):
            return str_method(self, recv, name, args, kw)
        if isinstance(recv, Slice):
            return slice_method(self, recv, name, args)
        if isinstance(recv, (SSeq, PTup)):
            return tuple_method(self, recv, name, args, kw)
        if isinstance(recv, Cell):
            cls = recv.cls
        elif isinstance(recv, SObj):
            cls = self.schema.get("classes", {}).get(recv.cls)
            mkey = self.schema.get("methods", {}).get("%s.%s" % (recv.cls, name)) or self.schema.get("methods", {}).get(name)
            if args and isinstance(args[0], str):      # what a method does may depend on a fixed string
                k2 = self.schema.get("methods", {}).get("%s.%s:%s" % (recv.cls, name, args[0]))
                if k2: mkey, args = k2, args[1:]
            if name == "__new__" and args and isinstance(args[0], PTup):
                mkey = self.schema["methods"].get("%s.__new__:tuple" % recv.cls)
            if mkey:
                c = self.reg.by_key.get(mkey)
                if c is None: raise Unsupported("no contract %s" % mkey)
                return self.call_contract(c, [recv] + list(args), kw, None)
            if name in ("__len__",) and "$items" in self.schema.get("fields", {}):
                return self.length(self.heap_read(recv, "$items"))
            if name == "$init" and self.is_list_obj(recv):
                ek = self.heap_arr("$items")[1].args[0]
                return self.heap_write(recv, "$items", self.as_seq(self.content(args[0]), ek) if args else SSeq(SeqTheory.of(ek).empty, ek))
            if name in ("append", "extend", "index", "pop", "insert", "remove") and self.is_list_obj(recv):
                return list_method(self, self.view(recv), name, args, kw)
        elif isinstance(recv, Conc):
            cls = None
            a = getattr(type(recv.o), name, None)
            mkey = self.schema.get("methods", {}).get("%s.%s" % (type(recv.o).__name__, name))
            if mkey:
                return self.call_contract(self.reg.by_key[mkey], list(args), kw, None)
        else:
            cls = None
        if cls is None:
            raise Unsupported("method %s of %r" % (name, recv))
        try:
            a = inspect.getattr_static(cls, name)
        except AttributeError:
            raise Unsupported("%s has no method %s" % (cls.__name__, name))
        if isinstance(a, staticmethod):
            return self.call_function(a.__func__, args, kw)
        if isinstance(a, classmethod):
            return self.call_function(a.__func__, [Conc(cls)] + list(args), kw)
        if isinstance(a, types.FunctionType):
            return self.call_function(a, [recv] + list(args), kw)
        raise Unsupported("method %s" % name)

    def call_function(self, fn, args, kw):
        if hasattr(fn, "__wrapped__"):
            if fn.__code__.co_filename != contextlib.__file__:
                raise Unsupported("decorated function %s" % fn.__qualname__)
        key = func_key(fn)
        c = self.reg.by_key.get(key)
        over = self.schema.get("contracts", {}).get(key)
        if callable(over): over = over(args)
        if over: c = self.reg.contracts[over]
        if c is not None and key not in self.schema.get("inline", ()) and self.c.key != key or \
           c is not None and self.c.key == key and key not in self.schema.get("inline", ()):
            return self.call_contract(c, args, kw, fn)
        if not fn.__module__.startswith("parce"):
            raise Unsupported("external function %s" % key)
        modname, _, qual = key.partition(":")
        node = find_def(modname, qual)
        mod = importlib.import_module(modname)
        self.ex.inlined.add(key)
        return self.inline(node, Frame(module=mod, qualname=qual, node=node), args, kw, qual)

    def call_closure(self, fn, args, kw):
        if isinstance(fn.node, ast.Lambda):
            fr = Frame(parent=fn.frame, qualname="<comp>" if self.spec else "<lambda>")
            if self.spec:
                for a, v in zip(fn.node.args.args, args): fr.vars[a.arg] = v
            else:
                fr.vars.update(self.bind_args(fn.node, args, kw, fr))
            return self.eval(fn.node.body, fr)
        key = self.c.key.partition(":")[0] + ":" + fn.qualname
        c = self.reg.by_key.get(key)
        if c is not None and not self.spec and self.c.key != key and find_def(*key.split(":")) is fn.node and not any(nm in fn.frame.vars for nm in c.free):
            return self.call_contract(c, args, kw, fn)
        fr = Frame(parent=fn.frame, module=None, qualname=fn.qualname, node=fn.node)
        return self.inline(fn.node, fr, args, kw, fn.qualname)

    def bind_args(self, node, args, kw, fr):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        env = {}
        star = None
        if any(isinstance(x, StarArg) for x in args):
            if not (a.vararg and len(args) == len(names) + 1 and isinstance(args[-1], StarArg)):
                raise Unsupported("* argument")
            env[a.vararg.arg] = args.pop().v
        for nme, v in zip(names, args): env[nme] = v
        if len(args) > len(names):
            if not a.vararg: raise Unsupported("too many arguments")
            env[a.vararg.arg] = PTup(args[len(names):])
        elif a.vararg and a.vararg.arg not in env:
            env[a.vararg.arg] = PTup(())
        names_all = names + [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k == "**" and a.kwarg: continue
            if k not in names_all:
                if not a.kwarg: raise Unsupported("unexpected keyword %s" % k)
                env.setdefault(a.kwarg.arg, KwArgs()).d[k] = v
                continue
            env[k] = v
        if a.kwarg: env.setdefault(a.kwarg.arg, KwArgs())
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None: defaults[x.arg] = d
        for nme in names_all:
            if nme not in env:
                if nme not in defaults: raise Unsupported("missing argument %s" % nme)
                s, self.spec = self.spec, 0
                try:
                    env[nme] = self.eval(defaults[nme], Frame(module=fr.module, parent=fr.parent))
                finally:
                    self.spec = s
        return env

    def inline(self, node, fr, args, kw, qual):
        if self.depth >= MAX_INLINE:
            raise Unsupported("inlining too deep at %s" % qual)
        if node.decorator_list:
            for d in node.decorator_list:
                if ast.unparse(d) in ("contextlib.contextmanager", "contextmanager") and is_generator_def(node):
                    fr.vars.update(self.bind_args(node, args, kw, fr))
                    return CtxGen(GenCall(node, fr, qual))
                if ast.unparse(d) not in ("classmethod", "staticmethod", "property"):
                    raise Unsupported("decorator %s" % ast.unparse(d))
        fr.vars.update(self.bind_args(node, args, kw, fr))
        if is_generator_def(node):
            return GenCall(node, fr, qual)
        return self.run_body(node, fr)

    def run_body(self, node, fr):
        self.depth += 1
        self.frames.append(fr)
        s, self.spec = self.spec, 0
        nl = len(self.loops)
        try:
            self.exec_block(node.body, fr)
            return None
        except ReturnEx as e:
            return e.v
        finally:
            del self.loops[nl:]
            self.spec = s
            self.frames.pop()
            self.depth -= 1

    def call_contract(self, c, args, kw, fn):
        """Replace a call by the callee's contract."""
        if fn is None and not c.key.startswith("spec:"):
            try:
                fn = None if isinstance(find_def(*c.key.split(":")), ast.ClassDef) else True
            except (BindError, FileNotFoundError):
                pass
        self.ex.used_contracts.add(c.name)
        if c.trusted:
            self.ex.assumed.add("%s: %s" % (c.name, c.trusted))
        if fn is not None:
            modname, _, qual = c.key.partition(":")
            try: node = find_def(modname, qual)
            except (BindError, FileNotFoundError): fn = None    # not of this repository
        if fn is not None:
            env = self.bind_args(node, args, kw, Frame(module=importlib.import_module(modname)))
        else:
            names = list(c.params)
            if names and names[-1].startswith("*"):      # the last parameter takes the remaining arguments
                i = len(names) - 1
                rest = args[i:]
                names[-1] = names[-1][1:]
                args = list(args[:i]) + [self.as_seq(rest[0].v) if len(rest) == 1 and isinstance(rest[0], StarArg) else PTup(rest)]
                if any(isinstance(x, StarArg) for x in args) or any(isinstance(x, StarArg) for x in rest[1:]): raise Unsupported("starred arguments")
            env = dict(zip(names, args))
            env.update({k: v for k, v in kw.items() if k != "**"})
            for nme, k in c.params.items():
                if nme not in env: env[nme] = None
        if self.schema.get("by_kind", {}).get(c.key) is not None:
            first = self.schema["by_kind"][c.key]
            isseq = lambda v: isinstance(v, (PTup, SSeq)) or isinstance(v, Cell) and v.what == "list"
            for c2 in self.reg.contracts.values():
                if c2.key == c.key and (parse_kind(c2.params[first]).op == "seq") == isseq(env[first]) and c2.by_kind:
                    c = c2; break
            else: raise Unsupported("no contract of %s for this kind" % c.key)
            self.ex.used_contracts.add(c.name)
        consts = {nme for nme, k in c.params.items() if isinstance(k, str) and k.startswith("=")}
        if consts:
            # the contract is for fixed values of some arguments
            for nme in consts:
                if isinstance(env[nme], SBool): env[nme] = self.branch(env[nme].t)
                if isinstance(env[nme], Conc) and isinstance(env[nme].o, type): continue
                if not isinstance(env[nme], (bool, int, str, type(None))): raise Unsupported("argument %s of %s is not known" % (nme, c.key))
            for c2 in self.reg.contracts.values():
                if c2.key == c.key and all(isinstance(c2.params.get(nme), str) and c2.params[nme] == ("=%s" % env[nme].o.__name__ if isinstance(env[nme], Conc) else "=%r" % (env[nme],)) for nme in consts):
                    c = c2; break
            else:
                raise Unsupported("no contract of %s for these arguments" % c.key)
            self.ex.used_contracts.add(c.name)
        for nme, k in c.params.items():
            if nme in env and isinstance(k, str) and not k.startswith("=") and parse_kind(k).op == "seq":
                env[nme] = self.content(env[nme]) if isinstance(env[nme], Cell) else env[nme]
        self.calls[c.key] = {nme: v.content if isinstance(v, Cell) and v.what == "list" else v for nme, v in env.items()}
        # ghost universals of the callee that the caller also has are instantiated with those
        for nme, e in self.c.instantiate.get(c.name, {}).items():
            env[nme] = self.eval_spec(e, {}, self.frames[-1] if self.frames else None)
        for nme, k in c.free.items():
            if nme not in env and nme in self.c.free and self.c.free[nme] == k and nme in self.param_env:
                env[nme] = self.param_env[nme]
        if self.quant:
            # inside a quantifier only what is a function of the arguments can be called
            if len(c.ensures) == 1 and c.ensures[0].startswith("result == ") and not (c.requires or c.raises or c.modifies or c.gen):
                saved_old, saved_frames = self.old, self.frames
                self.old, self.frames = self.snapshot(env), []
                try: return self.eval_spec(c.ensures[0][len("result == "):], env)
                finally: self.old, self.frames = saved_old, saved_frames
            raise Unsupported("call of %s inside a quantifier" % c.key)
        saved_old, saved_frames = self.old, self.frames
        self.frames = []
        try:
            for r in c.requires:
                g = self.spec_bool(r, env)
                self.frames = saved_frames
                self.oblige(g, "precondition of " + c.name, r)
                self.frames = []
            self.old = self.snapshot(env)
            if c.gen is not None:
                return GenCall(None, env, c.name, contract=c)
            for exc, cond in c.raises.items():
                if cond is None: ok = z3.Bool(self.fresh_name("ok"))
                elif cond.startswith("~"): ok = z3.Or(z3.Bool(self.fresh_name("ok")), z3.Not(self.spec_bool(cond[1:], env)))
                else: ok = z3.Not(self.spec_bool(cond, env))
                self.frames = saved_frames
                try:
                    self.may_raise(exc, ok, "%s does not raise %s" % (c.name, exc))
                except PyRaise:
                    # the callee may have changed what it may modify
                    self.frames = []
                    for m in c.modifies: self.havoc_path(m, env)
                    for e in c.on_raise: self.assume(self.spec_bool(e, env))
                    raise
                self.frames = []
            for m in c.modifies:
                self.havoc_path(m, env)
            self.bind_env = env
            ret = c.returns or ("seq[%s]" % c.out_kind if c.out_kind else None)
            res = self.make_param("r", ret) if ret else None
            env2 = dict(env); env2["result"] = res
            for nme, (k, _) in c.witness.items():
                env2[nme] = self.ghost.vars[nme] = self.fresh(k, nme)
            for e in c.ensures:
                self.assume(self.spec_bool(e, env2))
        finally:
            self.old, self.frames = saved_old, saved_frames
        return res

    def havoc_path(self, m, env):
        """m: 'self.field' (value replaced), 'x[]' (contents of a list), 'heap.field'"""
        if m.startswith("heap."):
            fld = m[5:]
            a, k = self.heap_arr(fld)
            self.note_write(("heap", fld))
            self.heap[fld] = (z3.Const(self.fresh_name("H_" + fld), a.sort()), k)
            return
        contents = m.endswith("[]")
        path = (m[:-2] if contents else m).split(".")
        v = env[path[0]]
        for p in path[1:-1] if not contents else path[1:]:
            v = self.getattr(v, p)
        if contents and isinstance(v, Cell) and v.what == "dict":
            self.set_content(v, fresh_dict(self, v.ek))
        elif contents and isinstance(v, Cell) and v.what == "map":
            self.set_content(v, z3.Const(self.fresh_name("map"), sort(v.ek)))
        elif contents:
            ek = self.elem_kind_of(v)
            self.set_content(v, self.fresh(Seq(ek), "h"))
        else:
            k = self.kind_of(v.fields[path[-1]])
            self.set_field(v, path[-1], self.fresh(k, path[-1]))

    # ------------------------------------------------------------ generators

    def do_yield(self, v, fr):
        g = fr
        while g is not None and g.gen_target is None and g.parent is not None and False:
            g = g.parent
        tgt = fr.gen_target
        if tgt is None:
            # a frame inlined through 'yield from' shares the target of its caller
            raise Unsupported("yield outside a generator contract")
        tgt(v)

    def collect(self, g):
        """Run a generator completely; returns the sequence of its values."""
        if g.contract is not None:
            raise Unsupported("collecting %s" % g.key)
        out = self.new_list([], "out", self.c.kinds.get("out"))
        def target(v):
            list_method(self, out, "append", [v], {})
        target.out = out
        fr = g.bound
        fr.gen_target = target
        fr.vars.setdefault("out", out)
        self.run_body(g.fn, fr)
        return out

    def yield_from(self, v, fr, node):
        if isinstance(v, GenCall) and v.contract is None:
            v.bound.gen_target = fr.gen_target
            return self.run_body(v.fn, v.bound)
        out = getattr(fr.gen_target, "out", None)
        if out is not None and not isinstance(v, (GenCall, Iter, MapGen)):
            return list_method(self, out, "extend", [v], {})
        spec = self.loop_spec(node, fr)
        self.iterate(v, node, fr, spec, lambda item: self.do_yield(item, fr), is_yf=True)

    # ------------------------------------------------------------ statements

    def exec_block(self, stmts, f):
        for s in stmts:
            self.exec(s, f)

    def exec(self, s, f):
        self.node = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %d)" % (type(s).__name__, s.lineno))
        m(s, f)

    def s_Pass(self, s, f): pass
    def s_Import(self, s, f): pass
    def s_ImportFrom(self, s, f):
        if s.level or not s.module or s.module.split(".")[0] != "parce": raise Unsupported("local import")
        m = importlib.import_module(s.module)
        for a in s.names: self.set_var(f, a.asname or a.name, self.wrap(getattr(m, a.name)))
    def s_Nonlocal(self, s, f): f.nonlocals.update(s.names)
    def s_Global(self, s, f): raise Unsupported("global")

    def s_Expr(self, s, f):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Yield):
            self.do_yield(self.eval(v.value, f) if v.value else None, f)
        elif isinstance(v, ast.YieldFrom):
            self.yield_from(self.eval(v.value, f), f, v)
        else:
            self.eval(v, f)

    def s_FunctionDef(self, s, f):
        i = 0
        if isinstance(f.node, ast.FunctionDef):
            same = [d for d in _defs(f.node.body) if d.name == s.name]
            i = next((k for k, d in enumerate(same) if d is s), 0)
        f.vars[s.name] = Closure(s, f, f.qualname + "/" + s.name + ("#%d" % i if i else ""))

    def s_Return(self, s, f):
        v = self.eval(s.value, f) if s.value else None
        raise ReturnEx(v)

    def s_Break(self, s, f): raise BreakEx()
    def s_Continue(self, s, f): raise ContinueEx()

    def s_Assert(self, s, f):
        t = self.truth(self.eval(s.test, f))
        self.may_raise("AssertionError", zb(t), "assert")

    def s_Raise(self, s, f):
        name = "Exception"
        e = s.exc
        if isinstance(e, ast.Call): e = e.func
        if isinstance(e, ast.Name): name = e.id
        raise PyRaise(name, s)

    def s_If(self, s, f):
        if self.branch(self.truth(self.eval(s.test, f))):
            self.exec_block(s.body, f)
        else:
            self.exec_block(s.orelse, f)

    def s_Assign(self, s, f):
        if isinstance(s.value, ast.Yield):
            raise Unsupported("value of yield")
        v = self.eval(s.value, f)
        for t in s.targets:
            self.assign_target(t, v, f)

    def s_AnnAssign(self, s, f):
        if s.value is not None:
            self.assign_target(s.target, self.eval(s.value, f), f)

    def s_AugAssign(self, s, f):
        t = s.target
        if isinstance(t, ast.Name):
            a = self.lookup(t.id, f)
            b = self.eval(s.value, f)
            if isinstance(a, Cell) and a.what == "list" and isinstance(s.op, ast.Add):
                return list_method(self, a, "extend", [b], {})
            self.set_var(f, t.id, self.binop(s.op, a, b))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, f)
            a = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.binop(s.op, a, self.eval(s.value, f)))
        else:
            o = self.eval(t.value, f)
            k = self.eval_key(t.slice, f)
            self.setitem(o, k, self.binop(s.op, self.getitem(o, k), self.eval(s.value, f)))

    def assign_target(self, t, v, f, spec=False):
        if isinstance(t, ast.Name):
            if isinstance(v, Cell) and v.what == "list" and v.ek is None and not spec:
                v.ek = self.c.kinds.get(t.id + "[]")
            if spec: f.vars[t.id] = v
            else: self.set_var(f, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, f, spec)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, f), t.attr, v)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Subscript) and self.schema.get("list_values"):
                # an item of a list in a list, where the inner lists are only reached through the outer one
                o, k1 = self.eval(t.value.value, f), self.eval_key(t.value.slice, f)
                inner, k2 = self.getitem(o, k1), self.eval_key(t.slice, f)
                if isinstance(o, Cell) and o.what == "list" and isinstance(inner, PTup) and isinstance(k2, int) and -len(inner) <= k2 < len(inner):
                    new = list(inner); new[k2] = v
                    self.relist = True
                    try: return self.setitem(o, k1, PTup(new))
                    finally: self.relist = False
                raise Unsupported("assignment to an item of an item")
            self.setitem(self.eval(t.value, f), self.eval_key(t.slice, f), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, t, v, f, spec):
        if isinstance(v, SOpt): v = self.deref(v)
        if isinstance(v, SObj) and v.cls in self.schema.get("unpack", {}):
            v = self.eval_spec(self.schema["unpack"][v.cls] + "(x)", {"x": v})
        c = self.content(v)
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if isinstance(c, (tuple, list)):
            if star:
                i = star[0]
                after = n - i - 1
                if len(c) < n - 1: raise Unsupported("unpack")
                for e, x in zip(t.elts[:i], c): self.assign_target(e, x, f, spec)
                mid = c[i:len(c) - after]
                self.assign_target(t.elts[i].value, self.new_list(list(mid), "star"), f, spec)
                for e, x in zip(t.elts[i + 1:], c[len(c) - after:]): self.assign_target(e, x, f, spec)
                return
            if len(c) != n:
                self.may_raise("ValueError", z3.BoolVal(False), "unpacking %d values" % n)
                raise PathEnd()
            for e, x in zip(t.elts, c): self.assign_target(e, x, f, spec)
            return
        c = self.as_seq(c)
        ln = c.th.len(c.t)
        if star:
            if len(star) != 1: raise Unsupported("starred unpack")
            self.may_raise("ValueError", ln >= n - 1, "enough values to unpack")
            st = star[0]
            after = n - st - 1
            for i, e in enumerate(t.elts[:st]):
                self.assign_target(e, self.from_term(c.th.at(c.t, z3.IntVal(i)), c.ek), f, spec)
            rest = SSeq(self.mk_slice(c.th, c.t, z3.IntVal(st), ln - after if after else ln), c.ek)
            self.assign_target(t.elts[st].value, self.new_list(rest, "star", c.ek), f, spec)
            for i, e in enumerate(t.elts[st + 1:]):
                self.assign_target(e, self.from_term(c.th.at(c.t, ln - after + i), c.ek), f, spec)
            return
        self.may_raise("ValueError", ln == n, "number of values to unpack")
        for i, e in enumerate(t.elts):
            self.assign_target(e, self.from_term(c.th.at(c.t, z3.IntVal(i)), c.ek), f, spec)

    def setattr(self, o, name, v):
        if isinstance(o, SOpt): o = self.deref(o)
        if isinstance(o, Cell) and o.what == "obj":
            try:
                a = inspect.getattr_static(o.cls, name) if o.cls else None
            except AttributeError:
                a = None
            if isinstance(a, property) and name not in o.fields:
                return self.call_property_setter(o, a, name, v)
            return self.set_field(o, name, v)
        if isinstance(o, SObj):
            if name in self.schema.get("fields", {}):
                return self.heap_write(o, name, v)
        raise Unsupported("setting attribute %s of %r" % (name, o))

    def call_property_setter(self, o, prop, name, v):
        fn = prop.fset
        key = func_key(fn)
        modname, _, qual = key.partition(":")
        cls, _, nm = qual.rpartition(".")
        c = self.reg.by_key.get("%s:%s.@%s" % (modname, cls, nm))
        if c is not None:
            node = find_def(modname, "%s.@%s" % (cls, nm))
            names = [a.arg for a in node.args.args]
            return self.call_contract(c, [], dict(zip(names, [o, v])), None)
        raise Unsupported("property setter %s" % key)

    def setitem(self, o, key, v):
        if isinstance(o, SOpt): o = self.deref(o)
        if isinstance(o, Cell) and o.what == "map":
            return map_set(self, o, key, v)
        if self.is_list_obj(o): o = self.view(o)
        if isinstance(o, Cell) and o.what == "obj" or isinstance(o, SObj) and o.cls + ".__setitem__" in self.schema.get("methods", {}):
            return self.call_method(o, "__setitem__", [key, v], {})
        if isinstance(o, Cell) and o.what == "list":
            c = o.content
            if isinstance(key, Slice):
                if key.step is not None: raise Unsupported("slice step")
                lo, hi = key.lo, key.hi
                if isinstance(c, list) and all(x is None or isinstance(x, int) for x in (lo, hi)):
                    vc = self.content(v)
                    if isinstance(vc, (list, tuple)):
                        n = list(c); n[lo:hi] = list(vc)
                        return self.set_content(o, n)
                    if lo is None and hi is None:
                        return self.set_content(o, vc)
                vc = self.content(v)
                ek = o.ek and parse_kind(o.ek) or (c.ek if isinstance(c, SSeq) else None) or self.elem_kind_of(v)
                c = self.as_seq(c, ek)
                th = c.th; n = self.lent(th, c.t)
                a = self.clamp(lo, n, z3.IntVal(0)); b = self.clamp(hi, n, n)
                if not self.entails(a <= b): b = z3.If(b < a, a, b)
                vs = self.as_seq(vc, c.ek)
                r = self.mk_cat(th, self.mk_cat(th, self.mk_slice(th, c.t, z3.IntVal(0), a), vs.t), self.mk_slice(th, c.t, b, n))
                return self.set_content(o, SSeq(r, c.ek))
            if isinstance(c, list) and isinstance(key, int):
                n = list(c)
                if -len(n) <= key < len(n):
                    n[key] = v
                    return self.set_content(o, n)
            c = self.as_seq(c, o.ek and parse_kind(o.ek))
            th = c.th; n = self.lent(th, c.t)
            i = self.norm_index(key, mkint(n))
            r = self.mk_cat(th, self.mk_cat(th, self.mk_slice(th, c.t, z3.IntVal(0), i), th.unit(self.to_term(v, c.ek))), self.mk_slice(th, c.t, i + 1, n))
            return self.set_content(o, SSeq(r, c.ek))
        raise Unsupported("item assignment on %r" % (o,))

    def s_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                continue
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, f)
                key = self.eval_key(t.slice, f)
                if isinstance(o, SOpt): o = self.deref(o)
                if self.is_list_obj(o): o = self.view(o)
                if isinstance(o, Cell) and o.what == "map":
                    map_method(self, o, "pop", [key], {})
                    continue
                if isinstance(o, SObj) and o.cls + ".__delitem__" in self.schema.get("methods", {}):
                    self.call_method(o, "__delitem__", [key], {})
                    continue
                if isinstance(o, Cell) and o.what == "list":
                    if isinstance(key, Slice) and key.lo is None and key.step is None and isinstance(o.content, SSeq):
                        self.set_content(o, self.getslice(o.content, Slice(key.hi, None, None)))
                    elif isinstance(key, Slice):
                        self.setitem(o, key, PTup(()) if not isinstance(o.content, list) else PTup(()))
                    else:
                        c = o.content
                        if isinstance(c, list) and isinstance(key, int):
                            n = list(c); del n[key]; self.set_content(o, n)
                        else:
                            c = self.as_seq(c); th = c.th; n = self.lent(th, c.t)
                            i = self.norm_index(key, mkint(n))
                            self.set_content(o, SSeq(self.mk_cat(th, self.mk_slice(th, c.t, z3.IntVal(0), i), self.mk_slice(th, c.t, i + 1, n)), c.ek))
                    continue
            raise Unsupported("del")

    def s_With(self, s, f):
        self.with_items(list(s.items), s, f)

    def with_items(self, items, s, f):
        if not items:
            return self.exec_block(s.body, f)
        item = items.pop(0)
        cm = self.eval(item.context_expr, f)
        if isinstance(cm, CtxGen):
            # a generator decorated with contextlib.contextmanager: the body runs at its yield
            stash, count = [], [0]
            def target(v):
                count[0] += 1
                if count[0] > 1: raise Unsupported("context manager yields twice")
                if item.optional_vars is not None: self.assign_target(item.optional_vars, v, f)
                saved, self.frames = self.frames, self.frames[:-1]
                sl = list(self.loops)
                try:
                    self.with_items(items, s, f)
                except (ReturnEx, BreakEx, ContinueEx) as e:
                    stash.append(e)
                finally:
                    self.frames = saved
            g = cm.gen
            g.bound.gen_target = target
            self.run_body(g.fn, g.bound)
            if not count[0]: raise Unsupported("context manager does not yield")
            if stash: raise stash[0]
            return
        if isinstance(cm, Conc) and type(cm.o).__module__ == "_thread":     # a lock: one thread
            return self.with_items(items, s, f)
        if isinstance(cm, SObj) and cm.cls in self.schema.get("files", ()):     # closed at the end; nothing is caught
            if item.optional_vars is not None: self.assign_target(item.optional_vars, cm, f)
            return self.with_items(items, s, f)
        if not (isinstance(cm, Cell) and cm.what == "obj"):
            raise Unsupported("with %r" % (cm,))
        v = self.call_method(cm, "__enter__", [], {})
        if item.optional_vars is not None: self.assign_target(item.optional_vars, v, f)
        depth = len(self.try_stack)
        self.try_stack.append(None)      # every exception is caught by __exit__
        try:
            try:
                self.with_items(items, s, f)
            finally:
                del self.try_stack[depth:]
        except PyRaise as e:
            r = self.call_method(cm, "__exit__", [Conc(getattr(builtins, e.name, Exception)), Conc(e), Conc(e)], {})
            if self.branch(self.truth(r)): return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            self.call_method(cm, "__exit__", [None, None, None], {})
            raise
        self.call_method(cm, "__exit__", [None, None, None], {})

    def s_Try(self, s, f):
        names = []
        for h in s.handlers:
            if h.type is None: names.append("BaseException")
            elif isinstance(h.type, ast.Name): names.append(h.type.id)
            elif isinstance(h.type, ast.Tuple): names.extend(e.id for e in h.type.elts)
            else: raise Unsupported("except clause")
        depth = len(self.try_stack)
        self.try_stack.append(names)
        try:
            try:
                self.exec_block(s.body, f)
            finally:
                del self.try_stack[depth:]
        except PyRaise as e:
            for h in s.handlers:
                hn = ["BaseException"] if h.type is None else [h.type.id] if isinstance(h.type, ast.Name) else [x.id for x in h.type.elts]
                if any(exc_matches(e.name, x) for x in hn):
                    self.exec_block(h.body, f)
                    break
            else:
                self.exec_block(s.finalbody, f)
                raise
        except (ReturnEx, BreakEx, ContinueEx):
            self.exec_block(s.finalbody, f)
            raise
        else:
            self.exec_block(s.orelse, f)
        self.exec_block(s.finalbody, f)

    # ------------------------------------------------------------ loops

    def loop_spec(self, node, f):
        """The sidecar annotation for a loop."""
        fn = f.node
        if fn is None: return None
        if f.loopmap is None:
            f.loopmap = {}
            for i, l in enumerate(loops_of(fn)): f.loopmap[id(l)] = i
            i = 0
            yfs = [x for x in ast.walk(fn) if isinstance(x, ast.YieldFrom)]
            yfs.sort(key=lambda x: (x.lineno, x.col_offset))
            for i, l in enumerate(yfs): f.loopmap[id(l)] = "yf%d" % i
            cs = [x for x in ast.walk(fn) if isinstance(x, (ast.ListComp, ast.GeneratorExp))]
            cs.sort(key=lambda x: (x.lineno, x.col_offset))
            for i, l in enumerate(cs): f.loopmap[id(l)] = "comp%d" % i
            cs = [x for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("frozenset", "list", "tuple")]
            cs.sort(key=lambda x: (x.lineno, x.col_offset))
            for i, l in enumerate(cs): f.loopmap[id(l)] = "list%d" % i
        i = f.loopmap.get(id(node))
        loops = self.c.loops
        if f.qualname == self.c.key.partition(":")[2]:
            return loops.get(i)
        k = "%s#%s" % (f.qualname.split("/")[-1].split(".")[-1], i)
        if k in loops:
            return loops[k]
        # a loop that moved to a helper: use what the own function does not use
        own = len(loops_of(self.ex.fnode))
        left = sorted(x for x in loops if isinstance(x, int) and x >= own)
        if isinstance(i, int) and i < len(left):
            return loops[left[i]]
        return None

    def loop_key(self, node, f):
        return (f.qualname, node.lineno, node.col_offset)

    def check_inv(self, spec, f, when, extra=None):
        env = dict(extra or {})
        if when == "entry":
            for nm, k in spec.kinds.items():
                if isinstance(k, str) and k.startswith("maybe[") and nm not in f.vars:
                    f.vars[nm] = SMaybe(False, self.fresh(k[6:-1], nm))
        for h in spec.hints + (spec.cuts if when == "kept" else []):            # cuts: proved first, then used
            g = self.spec_bool(h, env, f)
            self.oblige(g, "cut", h)
            self.assume(g)
        for inv in spec.inv:
            self.oblige(self.spec_bool(inv, env, f), "invariant-" + when, inv)

    def assume_inv(self, spec, f, extra=None):
        for inv in spec.inv:
            self.assume(self.spec_bool(inv, dict(extra or {}), f))
        for a, why in spec.assume:
            self.ex.assumed.add("%s: %s (%s)" % (self.c.name, why, a))
            self.assume(self.spec_bool(a, dict(extra or {}), f))

    def enter_loop(self, node, f, spec):
        key = self.loop_key(node, f)
        havoc = self.ex.havoc.setdefault(key, set())
        names = set()
        g = f
        frames = {}
        while g is not None:
            frames[id_of_frame(g)] = set(g.vars)
            g = g.parent
        frames["<ghost>"] = set(self.ghost.vars)
        for fr in self.frames:
            frames.setdefault(id_of_frame(fr), set(fr.vars))
        L = LoopCtx(key, f, self.ncell, frames, havoc)
        L.frame_has = lambda fr, name, frames=frames: name in frames.get(id_of_frame(fr), ())
        # forget (a write as far as the loops around this one are concerned)
        L.kinds = {}
        for label in sorted(havoc, key=repr):
            if label[0] == "var":
                fr = self.find_frame(label[1], f)
                if fr is not None and label[2] in fr.vars: self.note_write(label, frame=fr, name=label[2])
            elif label[0] == "heap": self.note_write(label)
            else:
                for c in self.reachable_cells(f):
                    if c.label == label[1]: self.note_write(label, c.born)
        for label in sorted(havoc, key=repr):
            if label[0] == "var":
                fr = self.find_frame(label[1], f)
                if fr is None or label[2] not in fr.vars: continue
                name = label[2]
                k = spec.kinds.get(name) or self.c.kinds.get(name)
                cur = fr.vars[name]
                if k is None:
                    if isinstance(cur, Cell):
                        raise Unsupported("loop rebinds list variable %s" % name)
                    if isinstance(cur, (Closure, Bound)):
                        raise Unsupported("loop rebinds function %s" % name)
                    k = self.kind_of(cur)
                    if k is NONE: raise Unsupported("kind of %s (None before the loop) is not declared" % name)
                if isinstance(k, str) and k.startswith("maybe["):
                    L.kinds[label] = k = parse_kind(k[6:-1])
                    fr.vars[name] = SMaybe(z3.Bool(self.fresh_name(name + "_set")), self.fresh(k, name))
                    continue
                if isinstance(k, str) and k.startswith("fixed["):
                    # a list of known length that is not changed, only replaced by another
                    L.kinds[label] = k
                    fr.vars[name] = self.new_list([self.fresh(x, name) for x in parse_kind("tuple" + k[5:]).args], "fixed")
                    continue
                if isinstance(k, dict):
                    L.kinds[label] = k
                    self.bind_env = {"self": self.param_env.get("self")}
                    self.bind_env.update(self.param_env)
                    fr.vars[name] = self.make_param(name, k)
                    continue
                k = parse_kind(k)
                L.kinds[label] = k
                fr.vars[name] = self.fresh(k, name)
            elif label[0] == "heap":
                a, k = self.heap_arr(label[1])
                self.heap[label[1]] = (z3.Const(self.fresh_name("H_" + label[1]), a.sort()), k)
        cells = self.reachable_cells(f)
        for label in sorted(havoc, key=repr):
            if label[0] == "cell":
                for c in cells:
                    if c.label == label[1]:
                        if c.what == "dict":
                            c.content = fresh_dict(self, c.ek)
                            continue
                        if c.what == "aset":
                            c.content = z3.Const(self.fresh_name("set"), z3.ArraySort(sort(c.ek), BoolS))
                            continue
                        if c.what == "map":
                            c.content = z3.Const(self.fresh_name("map"), sort(c.ek))
                            continue
                        if c.what == "set":
                            c.content = self.fresh(INT, "card")
                            self.assume(c.content.t >= 0)
                            continue
                        nm = c.label.split(".")[0]
                        ek = spec.kinds.get(nm + "[]") or c.ek or self.elem_kind_of(c)
                        c.ek = ek
                        L.kinds[label] = parse_kind(ek)
                        c.content = self.fresh(Seq(parse_kind(ek)), nm)
            elif label[0] == "field":
                for c in cells:
                    if c.label == label[1]:
                        k = self.kind_of(c.fields[label[2]])
                        L.kinds[label] = k
                        c.fields[label[2]] = self.fresh(k, label[2])
        self.loops.append(L)
        return L

    def find_frame(self, fid, f):
        if fid == "<ghost>": return self.ghost
        g = f
        while g is not None:
            if id_of_frame(g) == fid: return g
            g = g.parent
        for g in self.frames:
            if id_of_frame(g) == fid: return g

    def reachable_cells(self, f):
        seen, order = set(), []
        def walk(v):
            if isinstance(v, Cell):
                if id(v) in seen: return
                seen.add(id(v)); order.append(v)
                if v.fields:
                    for x in v.fields.values(): walk(x)
                if isinstance(v.content, (list, tuple)):
                    for x in v.content: walk(x)
            elif isinstance(v, (tuple, list)):
                for x in v: walk(x)
            elif isinstance(v, SOpt): walk(v.val)
            elif isinstance(v, Bound): walk(v.recv)
            elif isinstance(v, Closure):
                fr = v.frame
                if id(fr) not in seen:
                    seen.add(id(fr))
                    while fr is not None:
                        for x in fr.vars.values(): walk(x)
                        fr = fr.parent
        frames = list(self.frames) + [self.ghost]
        g = f
        while g is not None:
            frames.append(g); g = g.parent
        for fr in frames:
            while fr is not None:
                for x in list(fr.vars.values()): walk(x)
                fr = fr.parent
        if self.old:
            for c in self.old[1]: walk(c)
        return order

    def close_iteration(self, L, f):
        """Check that forgotten variables still have the kind they were forgotten with."""
        if L.pending - L.havoc:
            L.havoc |= L.pending
            raise Restart()
        for label, k in L.kinds.items():
            if label[0] == "var":
                fr = self.find_frame(label[1], f)
                v = fr.vars.get(label[2])
                if isinstance(k, str):
                    ks = parse_kind("tuple" + k[5:]).args
                    if not (isinstance(v, Cell) and v.what == "list" and isinstance(v.content, list) and len(v.content) == len(ks)): raise Unsupported("kind of %s" % label[2])
                    if v.label.split(".")[0] not in ("fixed", "star"): raise Unsupported("%s may be changed elsewhere" % label[2])
                    for x, kk in zip(v.content, ks): self.to_term(x, kk)
                elif isinstance(k, dict):
                    self.check_object(v, k, label[2])
                elif k.op == "list":
                    if not (isinstance(v, Cell) and v.what == "list"): raise Unsupported("kind of %s" % label[2])
                else:
                    self.to_term(v.val if isinstance(v, SMaybe) else v, k)
            elif label[0] == "cell":
                for c in self.reachable_cells(f):
                    if c.label == label[1] and c.what == "list": self.to_term(c.content, Seq(k))
            elif label[0] == "field":
                for c in self.reachable_cells(f):
                    if c.label == label[1]: self.to_term(c.fields[label[2]], k)

    def check_object(self, v, k, name):
        """v must fit the object kind k."""
        if v is None or isinstance(v, SOpt):
            if not k.get("opt"): raise Unsupported("%s may be None here" % name)
            if v is None: return
            v = v.val
        if not (isinstance(v, Cell) and v.what == "obj" and v.cls is k["cls"]): raise Unsupported("kind of %s" % name)
        for fn, b in (k.get("bind") or {}).items():
            if v.fields.get(fn) is not (self.param_env[b] if b in self.param_env else self.eval_spec(b, self.param_env)): raise Unsupported("%s.%s is another object" % (name, fn))
        for fn, fk in k["fields"].items():
            if isinstance(fk, str) and not fk.startswith("maybe[") and fn not in (k.get("bind") or {}):
                self.to_term(v.fields[fn], parse_kind(fk))

    def s_While(self, s, f):
        spec = self.loop_spec(s, f)
        if spec is None:
            raise BindError("loop at line %d of %s has no invariant" % (s.lineno, f.qualname))
        snap = self.entry_values(spec, f)
        self.check_inv(spec, f, "entry", snap)
        depth = len(self.loops)
        L = self.enter_loop(s, f, spec)
        self.assume_inv(spec, f, snap)
        dec0 = None
        if spec.decreases:
            dec0 = self.measure(spec, snap, f)
        try:
            if self.branch(self.truth(self.eval(s.test, f))):
                self.ghost_statements(spec.begin, f)
                try:
                    self.exec_block(s.body, f)
                except ContinueEx:
                    pass
                self.ghost_statements(spec.end, f)
                self.end_iteration(spec, f, L, dec0, snap)
                raise PathEnd()
            del self.loops[depth:]
        except BreakEx:
            del self.loops[depth:]
            return
        self.exec_block(s.orelse, f)

    def end_iteration(self, spec, f, L, dec0, extra=None):
        self.close_iteration(L, f)
        self.check_inv(spec, f, "kept", extra)
        if spec.decreases:
            d1 = self.measure(spec, dict(extra or {}), f)
            less, eqs = [], []
            for a, b in zip(d1, dec0):
                less.append(z3.And(*eqs, a < b)); eqs.append(a == b)
            self.oblige(z3.And(z3.Or(*less), *[b >= 0 for b in dec0]), "decreases", spec.decreases)

    def entry_values(self, spec, f, extra=None):
        """Values of the expressions in spec.snap when the loop is reached."""
        r = {}
        for lm, largs in spec.lemmas: self.apply_lemma(lm, largs, dict(self.param_env), "True", f.vars)
        for nm, e in spec.snap.items():
            v = self.eval_spec(e, extra or {}, f)
            if isinstance(v, Cell) and v.what == "list":
                v = self.as_seq(v, parse_kind(v.ek)) if v.ek is not None else v.content if isinstance(v.content, SSeq) else PTup(v.content)
            r[nm] = v
        return r

    def measure(self, spec, extra, f):
        v = self.eval_spec(spec.decreases, extra, f)
        return [it(x) for x in (v if isinstance(v, tuple) else (v,))]

    def s_For(self, s, f):
        if isinstance(s.iter, ast.Name) and isinstance(f.vars.get(s.iter.id), SIter):
            return self.for_iter(s, f)
        src = self.eval(s.iter, f)
        if isinstance(src, Conc):
            raise Unsupported("iteration over %r" % (src,))
        spec = self.loop_spec(s, f)
        if not (isinstance(src, GenCall) and src.contract is not None) and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Break)) and not any(isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b)):
            spec = Loop(index="q_", inv=["q_ == 0"])        # the body runs at most once
        def body(item):
            self.assign_target(s.target, item, f)
            self.exec_block(s.body, f)
        self.iterate(src, s, f, spec, body, orelse=s.orelse, target=s.target)

    def for_iter(self, s, f):
        """for x in it: where it is a variable that holds an iterator, which is advanced."""
        name = s.iter.id
        spec = self.loop_spec(s, f)
        if spec is None:
            raise BindError("loop at line %d of %s has no invariant" % (s.lineno, f.qualname))
        cur = f.vars[name]
        items = cur.owner if isinstance(cur.owner, SSeq) else self.heap_read(cur.owner, "$items")
        n = self.lent(items.th, items.t)
        snap = self.entry_values(spec, f)
        self.check_inv(spec, f, "entry", snap)
        self.set_var(f, name, cur)              # tell the loops around this one
        depth = len(self.loops)
        L = self.enter_loop(s, f, spec)
        if any(l[0] == "heap" for l in L.havoc) and not isinstance(cur.owner, SSeq):
            raise Unsupported("the heap is changed while an iterator is used")
        at = z3.Int(self.fresh_name("at"))
        fwd = cur.dir > 0
        if fwd:
            self.assume(at >= it(cur.at)); self.assume(at <= n)
        else:
            self.assume(at <= it(cur.at)); self.assume(at >= -1)
        f.vars[name] = SIter(cur.owner, SInt(at), cur.dir, cur.ident)
        self.assume_inv(spec, f, snap)
        try:
            if self.branch(at < n if fwd else at >= 0):
                f.vars[name] = SIter(cur.owner, mkint(at + 1 if fwd else at - 1), cur.dir, cur.ident)
                item = self.from_term(items.th.at(items.t, at), items.ek)
                try:
                    self.assign_target(s.target, item, f)
                    self.exec_block(s.body, f)
                except ContinueEx:
                    pass
                now = f.vars.get(name)
                if not isinstance(now, SIter) or now.ident is not cur.ident:
                    raise Unsupported("the iterator of a running loop is rebound")
                self.end_iteration(spec, f, L, None, snap)
                raise PathEnd()
            del self.loops[depth:]
        except BreakEx:
            del self.loops[depth:]
            return
        self.exec_block(s.orelse, f)

    def ghost_statements(self, stmts, f):
        for st in stmts:
            if len(st) == 2:
                nm, e = st
                k = self.c.ghost[nm][0]
                v = self.eval_spec(e, {}, f)
                self.note_write(("var", "<ghost>", nm), frame=self.ghost, name=nm)
                self.ghost.vars[nm] = self.ghost_value(k, v)
            else:
                o, fld, e = st
                o = self.eval_spec(o, {}, f)
                if isinstance(o, SOpt): o = o.val
                self.heap_write(o, fld, self.eval_spec(e, {}, f))

    def iterate(self, src, node, f, spec, body, orelse=(), target=None, is_yf=False):
        if spec is not None and (spec.begin or spec.end) and not getattr(body, "wrapped", False):
            plain = body
            def body(item):
                self.ghost_statements(spec.begin, f)
                try: plain(item)
                except ContinueEx: pass
                self.ghost_statements(spec.end, f)
            body.wrapped = True
        if isinstance(src, SOpt): src = self.deref(src)
        src = self.iter_of(src)
        if isinstance(src, MapGen):
            inner = body
            body = lambda item, fn=src.fn: inner(self.call_value(fn, [item], {}))
            src = src.gen
        depth = len(self.loops)
        if isinstance(src, GenCall):
            if src.contract is None:
                src = self.collect(src)
            else:
                return self.iterate_gen(src, node, f, spec, body, orelse, target)
        n, item = self.source(src)
        literal = isinstance(node, ast.For) and isinstance(node.iter, (ast.Tuple, ast.List))
        if isinstance(n, int) and n <= 8 and (spec is None or literal) or (isinstance(n, int) and spec is not None and spec.unroll):
            try:
                for k in range(n):
                    try:
                        body(item(z3.IntVal(k)))
                    except ContinueEx:
                        pass
            except BreakEx:
                return
            self.exec_block(list(orelse), f)
            return
        if spec is None:
            raise BindError("loop at line %d of %s has no invariant" % (node.lineno, f.qualname))
        iname = spec.index or "_k"
        extra = {}
        if spec.src: extra[spec.src] = src if not isinstance(src, Cell) else (src.content if not isinstance(src.content, list) else PTup(src.content))
        extra.update(self.entry_values(spec, f, extra))
        self.check_inv(spec, f, "entry", dict(extra, **{iname: 0}))
        L = self.enter_loop(node, f, spec)
        if isinstance(src, Cell) and ("cell", src.label) in L.havoc:
            raise Unsupported("the list iterated over is changed in the loop")
        k = SInt(z3.Int(self.fresh_name(iname)))
        self.assume(0 <= k.t); self.assume(k.t <= it(n))
        ex = dict(extra, **{iname: k})
        self.assume_inv(spec, f, ex)
        dec0 = self.measure(spec, ex, f) if spec.decreases else None
        f.vars[iname] = k
        for nm, v in extra.items(): f.vars[nm] = v
        try:
            if self.branch(k.t < it(n)):
                try:
                    body(item(k.t))
                except ContinueEx:
                    pass
                self.end_iteration(spec, f, L, dec0, dict(extra, **{iname: mkint(k.t + 1)}))
                raise PathEnd()
            del self.loops[depth:]
            self.assume(k.t == it(n))
            if target is not None and self.used_after(target, node, f):
                if self.branch(it(n) > 0):
                    self.assign_target(target, item(z3.simplify(it(n) - 1)), f)
        except BreakEx:
            del self.loops[depth:]
            return
        self.exec_block(list(orelse), f)

    def iter_of(self, src):
        if isinstance(src, Cell) and src.cls is not None and src.cls.__name__ in self.schema.get("iter_field", {}):
            return src.fields[self.schema["iter_field"][src.cls.__name__]]
        if isinstance(src, SObj) and "%s.__iter__" % src.cls in self.schema.get("methods", {}):
            return self.call_method(src, "__iter__", [], {})
        return src

    def materialise(self, src, node, f, elt=None):
        """list(gen) and the like, where the generator is known by its contract: a loop that appends to comp."""
        spec = self.loop_spec(node, f)
        if spec is None: raise BindError("%s has no invariant" % ast.unparse(node))
        out = self.new_list([], "comp", spec.kinds.get("comp"))
        f.vars["comp"] = out
        self.iterate(src, node, f, spec, lambda item: list_method(self, f.vars["comp"], "append", [item], {}))
        return out

    def short_circuit(self, n, f):
        """any(... for ...) and all(...): a loop that stops at the first answer."""
        g = n.args[0].generators[0]
        src = self.iter_of(self.eval(g.iter, f))
        spec = self.loop_spec(n.args[0], f)
        conj = n.func.id == "all"
        if spec is None and not isinstance(src, (GenCall, MapGen)):
            nn, item = self.source(src)
            if not isinstance(nn, int):      # the elements are known: a quantifier
                self.spec += 1
                try: return self.quantify(n.args[0].generators, f, n.args[0].elt, conj)
                finally: self.spec -= 1
        found = []
        def body(item):
            fr = Frame({}, parent=f, qualname="<comp>")
            self.assign_target(g.target, item, fr)
            for c in g.ifs:
                if not self.branch(self.truth(self.eval(c, fr))): return
            if self.branch(self.truth(self.eval(n.args[0].elt, fr))) != conj:
                found.append(1); raise BreakEx()
        self.iterate(src, n.args[0], f, spec, body)
        return (not conj) if found else conj

    def fold(self, n, f):
        """max, min or sum of a generator expression that has an annotation: the loop it stands for; acc is the result so far."""
        g = n.args[0].generators[0]
        op = n.func.id
        src = self.eval(g.iter, f)
        spec = self.loop_spec(n.args[0], f)
        self.set_var(f, "acc", 0 if op == "sum" else None)
        def body(item):
            fr = Frame({}, parent=f, qualname="<comp>")
            self.assign_target(g.target, item, fr)
            for c in g.ifs:
                if not self.branch(self.truth(self.eval(c, fr))): return
            v, acc = self.eval(n.args[0].elt, fr), f.vars["acc"]
            if op == "sum": return self.set_var(f, "acc", self.binop(ast.Add(), acc, v))
            if self.branch(self.same(acc, None)): return self.set_var(f, "acc", v)
            if self.branch(self.compare(ast.Gt() if op == "max" else ast.Lt(), v, self.deref(acc))): self.set_var(f, "acc", v)
        self.iterate(src, n.args[0], f, spec, body)
        acc = f.vars["acc"]
        if op != "sum" and self.branch(self.same(acc, None)):
            for k in n.keywords:
                if k.arg == "default": return self.eval(k.value, f)
            self.may_raise("ValueError", z3.BoolVal(False), "max/min of a non-empty sequence")
            raise PathEnd()
        return acc if op == "sum" else self.deref(acc)

    def used_after(self, target, node, f):
        names = {x.id for x in ast.walk(target) if isinstance(x, ast.Name)}
        inside = set(map(id, ast.walk(node)))
        stored = {x.id for b in node.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Load) and id(x) not in inside:
                if x.id in stored:
                    return False
                return True
        return False

    def iterate_gen(self, g, node, f, spec, body, orelse, target):
        """for-loop over a generator known by its contract."""
        c = g.contract
        if spec is None:
            raise BindError("loop at line %d of %s has no invariant" % (node.lineno, f.qualname))
        pre = spec.ghost or "g_"
        depth = len(self.loops)
        env = dict(g.bound)
        def genv():
            e = dict(env)
            for nm in c.gen.get("ghost", {}): e[nm] = self.ghost.vars[pre + nm]
            return e
        saved = self.frames
        self.frames = []
        for nm, (k, init) in c.gen.get("ghost", {}).items():
            self.note_write(("var", "<ghost>", pre + nm), frame=self.ghost, name=pre + nm)
            self.ghost.vars[pre + nm] = self.ghost_value(k, self.eval_spec(init, env))
        self.frames = saved
        snap = self.entry_values(spec, f)
        self.check_inv(spec, f, "entry", snap)
        L = self.enter_loop(node, f, spec)
        for nm, (k, init) in c.gen.get("ghost", {}).items():
            self.ghost.vars[pre + nm] = self.fresh(k, pre + nm)
        self.assume_inv(spec, f, snap)
        self.frames = []
        for e in c.gen.get("inv", []):
            self.assume(self.spec_bool(e, genv()))
        self.frames = saved
        more = z3.Bool(self.fresh_name("more"))
        try:
            if self.branch(more):
                self.bind_env = env
                item = self.make_param("item", c.gen["item"])
                e = genv(); e["item"] = item
                self.frames = []
                for x in c.gen.get("each", []):
                    self.assume(self.spec_bool(x, e))
                new = {nm: self.ghost_value(c.gen["ghost"][nm][0], self.eval_spec(u, e)) for nm, u in c.gen.get("update", {}).items()}
                self.frames = saved
                for nm, v in new.items():
                    self.ghost.vars[pre + nm] = v
                self.frames = []
                for x in c.gen.get("inv", []):
                    self.assume(self.spec_bool(x, genv()))      # obliged after each yield
                self.frames = saved
                try:
                    body(item)
                except ContinueEx:
                    pass
                self.end_iteration(spec, f, L, None, snap)
                raise PathEnd()
            del self.loops[depth:]
            self.frames = []
            for x in c.gen.get("final", []):
                self.assume(self.spec_bool(x, genv()))
            self.frames = saved
        except BreakEx:
            del self.loops[depth:]
            return
        self.exec_block(list(orelse), f)

    # ------------------------------------------------------------ whole function

    def make_param(self, name, k):
        if isinstance(k, dict):
            # a mutable object cell: {"cell": realclass or None, "fields": {...}}
            self.ncell += 1
            cell = Cell("%s.%d" % (name, self.ncell), "obj", self.ncell, cls=k.get("cls"), fields={})
            for fn, fk in k.get("fields", {}).items():
                if fn in (k.get("same") or {}):
                    continue
                cell.fields[fn] = self.make_param(name + "_" + fn, fk)
            for fn, v in (k.get("bind") or {}).items():
                cell.fields[fn] = self.bind_env[v] if v in self.bind_env else self.eval_spec(v, self.bind_env)
            if k.get("opt"):
                return SOpt(z3.Bool(self.fresh_name(name + "_none")), cell)
            return cell
        if callable(k):
            return k(self)
        k = k.strip()
        if k.startswith("dict["):      # a defaultdict(list) with integer keys
            self.ncell += 1
            return Cell("%s.%d" % (name, self.ncell), "dict", self.ncell, content=fresh_dict(self, k[5:-1]), ek=k[5:-1])
        if k.startswith("maybe["):
            return SMaybe(z3.Bool(self.fresh_name(name + "_set")), self.fresh(k[6:-1], name))
        if k.startswith("="):
            return self.eval_spec(k[1:], {}, self.frames[-1] if self.frames else None)
        return self.fresh(k, name)

    def apply_lemma(self, lm, largs, env, when=None, local=None):
        """use a lemma: when is an expression over the local variables, too; skipped where a name is not bound or it does not follow"""
        lc = self.reg.contracts["contracts.lemmas:" + lm]
        saved = self.frames
        if when is None: self.frames = []
        else:
            env = dict(env, **(local or saved[-1].vars))
            if when.startswith("!"):
                nm, _, when = when[1:].partition(";")
                if nm in env: return
        try:
            if when is not None and not self.entails(self.spec_bool(when, env)): return
            vals = [self.eval_spec(largs.get(p, p), env) for p in lc.params]
        except BindError: return
        finally: self.frames = saved
        for fv, fe in largs.items():
            if fv in lc.free: self.c.instantiate.setdefault(lc.name, {})[fv] = fe
        self.call_contract(lc, vals, {}, True)

    def execute(self):
        c = self.c
        modname, _, qual = c.key.partition(":")
        node = find_def(modname, qual)
        self.ex.fnode = node
        mod = importlib.import_module(modname)
        outer = Frame(module=mod, qualname="<free>")
        fr = Frame(module=mod, qualname=qual, node=node, parent=outer)
        self.frames = [fr]
        for name, k in c.free.items():
            outer.vars[name] = self.make_param(name, k)
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg: names.append(a.vararg.arg)
        pnames = list(c.params)
        if len(names) != len(pnames) and not set(pnames) >= set(names):
            raise BindError("parameters of %s changed" % c.key)
        ren = {}
        for i, nm in enumerate(names):
            p = nm if nm in c.params else pnames[i]
            v = self.make_param(p, c.params[p])
            fr.vars[nm] = v
            if nm != p:
                ren[p] = v
        if a.kwarg: fr.vars[a.kwarg.arg] = KwArgs()
        for p, v in ren.items():
            outer.vars[p] = v
        self.param_env = dict(fr.vars, **ren)
        self.param_env.update({k: v for k, v in outer.vars.items()})
        for r in c.requires:
            self.assume(self.spec_bool(r, self.param_env))
        self.old = self.snapshot(self.param_env)
        for nm, (k, init) in c.ghost.items():
            self.ghost.vars[nm] = self.ghost_value(k, self.eval_spec(init, self.param_env))
        isgen = is_generator_def(node) or c.gen is not None
        if c.gen is not None:
            for nm, (k, init) in c.gen.get("ghost", {}).items():
                self.ghost.vars[nm] = self.ghost_value(k, self.eval_spec(init, self.param_env))
            for x in c.gen.get("inv", []): self.oblige(self.spec_bool(x, self.ghost_env(self.param_env)), "generator invariant", x)
            fr.gen_target = self.contract_yield
        elif is_generator_def(node):
            # contract on the sequence of all values
            out = self.new_list([], "out", c.out_kind)
            self.ghost.vars["out"] = out
            def collect_one(v): list_method(self, out, "append", [v], {})
            collect_one.out = out
            fr.gen_target = collect_one
        try:
            try:
                self.exec_block(node.body, fr)
                res = None
            except ReturnEx as e:
                res = e.v
            if c.gen is not None and not is_generator_def(node) and res is not None:
                # a plain function that returns an iterator
                spec = c.loops.get("return")
                self.iterate(res, node, fr, spec, lambda item: self.contract_yield(item))
                res = None
            self.node = node
            env = dict(self.param_env)
            if c.gen is not None:
                for x in c.gen.get("final", []):
                    self.oblige(self.spec_bool(x, self.ghost_env(env)), "final", x)
            elif is_generator_def(node):
                env["result"] = self.ghost.vars["out"]
            else:
                env["result"] = res
                if isinstance(c.returns, str) and res is not None:
                    k = parse_kind(c.returns)
                    if k.op == "opt" and res is None: pass
            for nme, (k, e) in c.witness.items():
                env[nme] = self.eval_spec(e, env)
            for lm, largs, *when in c.lemmas:
                self.apply_lemma(lm, largs, env, *when)
            for e in c.cuts:
                try: g = self.spec_bool(e, env)
                except BindError: continue
                self.oblige(g, "cut", e)
            for e in c.ensures:
                self.oblige(self.spec_bool(e, env), "postcondition", e)
            for exc, cond in c.raises.items():
                if cond is not None and not cond.startswith("~"):
                    self.oblige(z3.Not(self.spec_old(cond, env)), "must-raise " + exc, cond)
            self.ex.exits.append(("return", list(self.pc)))
        except PyRaise as e:
            self.node = e.node or node
            cond = None
            for exc in c.raises:
                if exc_matches(e.name, exc): cond = c.raises[exc]
            if cond is None and not any(exc_matches(e.name, x) for x in c.raises):
                self.oblige(z3.BoolVal(False), "no-" + e.name, "does not raise " + e.name)
            elif cond:
                self.oblige(self.spec_old(cond.lstrip("~"), dict(self.param_env)), "may-raise " + e.name, cond)
            for x in c.on_raise:
                self.oblige(self.spec_bool(x, dict(self.param_env)), "after " + e.name, x)
            self.ex.exits.append(("raise", list(self.pc)))
        except PathEnd:
            pass

    def spec_old(self, cond, env):
        return self.spec_bool("old(%s)" % cond, env)

    def ghost_value(self, k, v):
        """Ghost state holds immutable values."""
        k = parse_kind(k)
        return self.from_term(self.to_term(v, k), k)

    def ghost_env(self, env):
        e = dict(env)
        for nm in self.c.gen.get("ghost", {}): e[nm] = self.ghost.vars[nm]
        return e

    def contract_yield(self, v):
        g = self.c.gen
        e = self.ghost_env(self.param_env)
        # the yielded value must be of the kind the contract promises
        if isinstance(g["item"], dict):
            if isinstance(v, SOpt) and not g["item"].get("opt"): v = self.deref(v)
            self.bind_env = dict(self.param_env)
            self.check_object(v, g["item"], "yielded value")
            v2 = v
        else:
            v2 = self.coerce(v, parse_kind(g["item"]))
        e["item"] = v2
        for x in g.get("each", []):
            self.oblige(self.spec_bool(x, e, self.frames[-1]), "yield", x)
        new = {nm: self.ghost_value(g["ghost"][nm][0], self.eval_spec(u, e)) for nm, u in g.get("update", {}).items()}
        for nm, val in new.items():
            self.note_write(("var", "<ghost>", nm), frame=self.ghost, name=nm)
            self.ghost.vars[nm] = val
        if g.get("inv"):
            e = self.ghost_env(self.param_env)
            for x in g["inv"]: self.oblige(self.spec_bool(x, e), "generator invariant", x)

    def coerce(self, v, k):
        if k.op == "tuple":
            c = self.content(v)
            if isinstance(c, (tuple, list)) and len(c) == len(k.args):
                return PTup.make([self.coerce(x, kk) for x, kk in zip(c, k.args)], k.name)
            raise Unsupported("yielded value %r is not a %r" % (v, k))
        if k.op == "opt":
            return v
        if k.op in ("seq", "list"):
            return SSeq(self.to_term(v, k), k.args[0])
        if k.op == "obj":
            if isinstance(v, SObj): return v
            return SObj(self.to_term(v, k), k.name)
        return v


# ---------------------------------------------------------------- helpers

class KwArgs:
    """The ** parameter of a function: only passed on."""
    def __init__(self): self.d = {}

class BoundFn:
    """A function bound to a receiver."""
    def __init__(self, recv, fn): self.recv, self.fn = recv, fn

class CtxGen:
    """What a function decorated with contextlib.contextmanager returns."""
    def __init__(self, gen): self.gen = gen

class SuperProxy:
    """super() in a method."""
    def __init__(self, recv, cls): self.recv, self.cls = recv, cls

class StarArg:
    def __init__(self, v): self.v = v

class Proxy:
    """Base of model objects (see contracts)."""

class ContractFn(Proxy):
    """A function value of which only a contract is known."""
    def __init__(self, name): self.name = name
    def call(self, run, args, kw):
        return run.call_contract(run.reg.contracts[self.name], args, kw, None)
    def get(self, run, name):
        raise Unsupported("attribute %s of a function" % name)

class SpecFun:
    """A (recursive) specification function."""
    def __init__(self, d): self.d = d
    def apply(self, run, args):
        d = self.d
        if len(args) != len(d.kinds): raise Unsupported("arity of %s" % d.name)
        ts = [run.to_term(run.content(a) if k.op in ("seq", "str") else a, k) for a, k in zip(args, d.kinds)]
        return run.from_term(d.fun(*ts), d.ret)

class SpecDef:
    """f(args) == body, unfolded on ground occurrences by the prover."""
    def __init__(self, name, kinds, ret, params, body, reg, schema=None):
        self.name, self.kinds, self.ret = name, [parse_kind(k) for k in kinds], parse_kind(ret)
        self.params, self.body, self.reg, self.schema = params, body, reg, schema or {}
        self.fun = z3.Function("spec_" + name, *[sort(k) for k in self.kinds], sort(self.ret))
    def unfold(self, run, terms):
        env = {p: run.from_term(t, k) for p, t, k in zip(self.params, terms, self.kinds)}
        saved, run.unfolding = run.unfolding, True
        try: v = run.eval_spec(self.body, env)
        finally: run.unfolding = saved
        if isinstance(v, Cell): v = v.content
        return self.fun(*terms) == run.to_term(v, self.ret)

def base_term(v):
    """The term that a value was made from."""
    if isinstance(v, SOpt): return v.isnone.arg(0)
    if isinstance(v, PTup): return base_term(v[0]).arg(0)
    return v.t

def has_ite(p):
    todo = [p]
    while todo:
        e = todo.pop()
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_ITE: return True
            todo.extend(e.children())
    return False

def has_len(cls):
    return any("__len__" in k.__dict__ or "__bool__" in k.__dict__ for k in cls.__mro__)

def hashable(o):
    try: hash(o); return True
    except TypeError: return False

_conc = {}
def conc_term(o):
    key = id(o) if not hashable(o) else o
    if (type(o), key) not in _conc:
        nm = getattr(o, "__qualname__", None) or repr(o)
        _conc[(type(o), key)] = z3.Const("conc_%d_%s" % (len(_conc), nm.replace(" ", "_")), ObjSort)
    return _conc[(type(o), key)]

def id_of_frame(f):
    if f.qualname == "<ghost>": return "<ghost>"
    return f.qualname

def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t): return t.as_long()
    return SInt(t)

def mkbool(t):
    if isinstance(t, bool): return t
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SBool(t)

def it(v):
    if isinstance(v, SInt): return v.t
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, z3.ArithRef): return v
    if isinstance(v, SBool): return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, SOpt): return it(v.val)
    raise Unsupported("not an integer: %r" % (v,))

def bt(v):
    if isinstance(v, SBool): return v.t
    return z3.BoolVal(v)

def zb(t): return z3.BoolVal(t) if isinstance(t, bool) else t

def zand(*ts):
    r = []
    for t in ts:
        if isinstance(t, bool):
            if not t: return False
        else: r.append(t)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)

def zor(*ts):
    r = []
    for t in ts:
        if isinstance(t, bool):
            if t: return True
        else: r.append(t)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)

def znot(t): return (not t) if isinstance(t, bool) else z3.Not(t)

def zimplies(a, b):
    if a is False or b is True: return True
    if a is True: return b
    if b is False: return znot(a)
    return z3.Implies(a, b)

_hq = {}
def has_quantifier(t):
    seen = set()
    todo = [t]
    while todo:
        e = todo.pop()
        if z3.is_quantifier(e): return True
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        todo.extend(e.children())
    return False

def exc_matches(name, handler):
    if name == handler or handler in ("Exception", "BaseException"): return True
    a, b = getattr(builtins, name, None), getattr(builtins, handler, None)
    return isinstance(a, type) and isinstance(b, type) and issubclass(a, b)

@functools.lru_cache(None)
def parse_expr(s):
    return ast.parse(s.strip(), mode="eval").body

# ---------------------------------------------------------------- built-in models

def list_method(run, cell, name, args, kw):
    if isinstance(cell, list):
        cell = run.new_list(cell, "tmp")
    c = cell.content
    if name == "append":
        v = args[0]
        if isinstance(c, list): return run.set_content(cell, c + [v])
        return run.set_content(cell, SSeq(run.mk_cat(c.th, c.t, c.th.unit(run.to_term(v, c.ek))), c.ek))
    if name == "extend":
        v = args[0]
        if isinstance(v, GenCall): v = run.collect(v)
        if isinstance(v, Iter): raise Unsupported("extend by an iterator")
        vc = run.content(v)
        if isinstance(c, list) and isinstance(vc, (list, tuple)):
            return run.set_content(cell, c + list(vc))
        if isinstance(c, list) and not c: return run.set_content(cell, vc)
        if isinstance(vc, (list, tuple)) and not vc: return
        return run.set_content(cell, run.concat(run.as_seq(c, vc.ek if isinstance(vc, SSeq) else None), vc))
    if name == "clear":
        if cell.ek is None and isinstance(c, SSeq): cell.ek = c.ek
        return run.set_content(cell, [])
    if name == "pop":
        i = args[0] if args else -1
        v = run.getitem(cell, i)
        if isinstance(c, list) and isinstance(i, int):
            n = list(c); n.pop(i); run.set_content(cell, n)
        else:
            c = run.as_seq(c); th = c.th; n = run.lent(th, c.t)
            ix = run.norm_index(i, mkint(n))
            run.set_content(cell, SSeq(run.mk_cat(th, run.mk_slice(th, c.t, z3.IntVal(0), ix), run.mk_slice(th, c.t, z3.simplify(ix + 1), n)), c.ek))
        return v
    if name == "insert":
        i, v = args
        return run.setitem(cell, Slice(i, i, None), PTup((v,)))
    if name == "reverse":
        if isinstance(c, list): return run.set_content(cell, c[::-1])
        r = c.th.rev(c.t); run.assume(c.th.len(r) == c.th.len(c.t))
        return run.set_content(cell, SSeq(r, c.ek))
    if name == "copy":
        return run.new_list(list(c) if isinstance(c, list) else c, "copy", cell.ek)
    if name == "index" and len(args) == 1:
        s = run.as_seq(c, cell.ek and parse_kind(cell.ek))
        return seq_index(run, s, args[0])
    if name == "remove":
        s = run.as_seq(c, cell.ek and parse_kind(cell.ek))
        ix = seq_index(run, s, args[0]).t
        return run.set_content(cell, SSeq(run.mk_cat(s.th, run.mk_slice(s.th, s.t, z3.IntVal(0), ix), run.mk_slice(s.th, s.t, ix + 1, run.lent(s.th, s.t))), s.ek))
    if name == "__len__": return run.length(cell)
    if name == "__getitem__": return run.getitem(cell, args[0])
    raise Unsupported("list.%s" % name)

def seq_index(run, s, x):
    """index of the first element that is equal (identity for objects), or ValueError"""
    th = s.th
    k = z3.Int(run.fresh_name("q"))
    r = z3.Int(run.fresh_name("ix"))
    found = z3.Exists([k], z3.And(0 <= k, k < th.len(s.t), run.elem_eq(s, k, x)))
    fb = z3.Bool(run.fresh_name("found"))
    run.assume(fb == found)
    run.may_raise("ValueError", fb, "value is in the list")
    run.assume(z3.And(0 <= r, r < th.len(s.t), run.elem_eq(s, r, x)))
    run.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < r), z3.Not(run.elem_eq(s, k, x)))))
    return SInt(r)

def m_insort(run, a, kw, left=False):
    """bisect.insort_right (insort_left) on a list of objects that are ordered by one field"""
    if kw or len(a) != 2: raise Unsupported("insort")
    cell = run.view(a[0]) if run.is_list_obj(a[0]) else a[0]
    s = run.as_seq(cell.content, cell.ek and parse_kind(cell.ek))
    fld = run.schema.get("order_field", {}).get(s.ek.name)
    if fld is None: raise Unsupported("insort")
    th, n, x = s.th, run.lent(s.th, s.t), run.to_term(a[1], s.ek)
    key = lambda e: z3.Select(run.heap_arr(fld)[0], e)
    i, j, p = z3.Ints(" ".join(run.fresh_name(q) for q in ("i", "j", "at")))
    run.oblige(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), key(th.at(s.t, i)) <= key(th.at(s.t, j))), patterns=[z3.MultiPattern(th.at(s.t, i), th.at(s.t, j))]), "sorted", "insort needs a sorted list")
    run.assume(z3.And(0 <= p, p <= n))
    run.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p), key(th.at(s.t, i)) < key(x) if left else key(th.at(s.t, i)) <= key(x)), patterns=[th.at(s.t, i)]))
    run.assume(z3.ForAll([i], z3.Implies(z3.And(p <= i, i < n), key(th.at(s.t, i)) >= key(x) if left else key(th.at(s.t, i)) > key(x)), patterns=[th.at(s.t, i)]))
    run.set_content(cell, SSeq(run.mk_cat(th, run.mk_cat(th, run.mk_slice(th, s.t, z3.IntVal(0), p), th.unit(x)), run.mk_slice(th, s.t, p, n)), s.ek))

def set_method(run, cell, name, args, kw):
    # only the number of elements is modelled, and the answer of a membership test on the same state of the set
    run.note_write(("cell", cell.label), cell.born)
    if name == "clear":
        cell.content = 0
        return None
    n = SInt(z3.Int(run.fresh_name("card")))
    old = it(cell.content)
    if name == "add":
        run.assume(z3.And(n.t >= old, n.t <= old + 1, n.t >= 1))
        k = run.inset.get((cell.label, id(args[0])))
        if k is not None and k[2] is cell.content:
            run.assume(n.t == z3.If(k[1], old, old + 1))
        cell.content = n
        return None
    if name in ("discard", "remove"):
        run.assume(z3.And(n.t <= old, n.t >= old - 1, n.t >= 0))
        cell.content = n
        return None
    raise Unsupported("set.%s" % name)

def fresh_dict(run, ek):
    return (z3.Const(run.fresh_name("dom"), z3.ArraySort(IntS, BoolS)), z3.Const(run.fresh_name("val"), z3.ArraySort(IntS, sort(Seq(parse_kind(ek))))))

def dict_get(run, d, key):
    """d[key] for a defaultdict(list) with integer keys"""
    k = it(key)
    ek = parse_kind(d.ek)
    dom, val = d.content
    if run.spec:
        return run.from_term(z3.Select(val, k), Seq(ek))
    if not (not run.schema.get('nofull') and run.entails_full(z3.Select(dom, k))) and not run.branch(z3.Select(dom, k)):
        run.set_content(d, (z3.Store(dom, k, True), z3.Store(val, k, SeqTheory.of(ek).empty)))
        cell = run.new_list([], "slot", ek)
    else:
        cell = run.new_list(run.from_term(z3.Select(val, k), Seq(ek)), "slot", ek)
    cell.slot = (d, k)
    return cell

def dict_method(run, d, name, args, kw):
    if name == "clear":
        dom, val = d.content
        return run.set_content(d, (z3.K(IntS, z3.BoolVal(False)), val))
    raise Unsupported("dict.%s" % name)

def map_parts(run, d):
    s = sort(d.ek)
    return s.accessor(0, 0)(d.content), s.accessor(0, 1)(d.content), s.constructor(0), d.ek.args[0], d.ek.args[1]

def map_get(run, d, key):
    dom, val, mk, kk, vk = map_parts(run, d)
    k = run.to_term(key, kk)
    if not run.spec and d.slot == "default":
        if not run.branch(z3.Select(dom, k)):
            run.set_content(d, mk(z3.Store(dom, k, True), z3.Store(val, k, run.to_term(0, vk))))
            return 0
    elif not run.spec: run.may_raise("KeyError", z3.Select(dom, k), "the key is in the dictionary")
    return run.from_term(z3.Select(val, k), vk)

def map_set(run, d, key, v):
    dom, val, mk, kk, vk = map_parts(run, d)
    k = run.to_term(key, kk)
    run.set_content(d, mk(z3.Store(dom, k, True), z3.Store(val, k, run.to_term(v, vk))))

def map_method(run, d, name, args, kw):
    dom, val, mk, kk, vk = map_parts(run, d)
    if name == "clear":
        return run.set_content(d, mk(z3.K(sort(kk), z3.BoolVal(False)), val))
    if name not in ("get", "setdefault", "pop") or kw: raise Unsupported("dict.%s" % name)
    k = run.to_term(args[0], kk)
    if name == "pop" and len(args) == 1:
        run.may_raise("KeyError", z3.Select(dom, k), "the key is in the dictionary")
    elif not run.branch(z3.Select(dom, k)):
        dflt = args[1] if len(args) > 1 else None
        if name == "setdefault":
            if isinstance(dflt, Cell) and dflt.what == "list" and vk.op == "obj":
                dflt = run.list_object(dflt, vk)
            map_set(run, d, args[0], dflt)
        return dflt
    if name == "pop":
        run.set_content(d, mk(z3.Store(dom, k, False), val))
    return run.from_term(z3.Select(val, k), vk)

def m_sorted(run, a, kw):
    if set(kw) == {"key", "reverse"} and kw["reverse"] is True and isinstance(a[0], Cell) and a[0].what == "map":
        return sorted_by_value(run, a[0], kw["key"])
    if kw: raise Unsupported("sorted with keywords")
    d = a[0]
    if isinstance(d, Iter) and d.op == "map" and len(d.args) == 2 and isinstance(d.args[0], Conc) and d.args[0].o is ord and isinstance(d.args[1], Cell) and d.args[1].what == "aset" and "ordf" in run.reg.specfuns:
        return sorted_codes(run, d.args[1])
    if not (isinstance(d, Cell) and d.what == "dict"): raise Unsupported("sorted")
    run.ex.assumed.add("sorted(dict): the keys, each once, in ascending order (CPython documentation)")
    th = SeqTheory.of(INT)
    dom = d.content[0]
    r = z3.Const(run.fresh_name("keys"), th.S)
    ix = z3.Function(run.fresh_name("ix"), IntS, IntS)
    i, j = z3.Int(run.fresh_name("q")), z3.Int(run.fresh_name("q"))
    run.assume(th.len(r) >= 0)
    run.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < th.len(r)), z3.Select(dom, th.at(r, i))), patterns=[th.at(r, i)]))
    run.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < th.len(r)), th.at(r, i) < th.at(r, j)), patterns=[z3.MultiPattern(th.at(r, i), th.at(r, j))]))
    run.assume(z3.ForAll([i], z3.Implies(z3.Select(dom, i), z3.And(0 <= ix(i), ix(i) < th.len(r), th.at(r, ix(i)) == i)), patterns=[z3.Select(dom, i)]))
    return run.new_list(SSeq(r, INT), "sorted", INT)

def sorted_codes(run, chars):
    """sorted(map(ord, a set of characters)), with the specification functions ordf and chrf"""
    run.ex.assumed.add("sorted(map(ord, set)): the code of each character in the set, each once, in ascending order (CPython documentation)")
    th = SeqTheory.of(INT)
    r = z3.Const(run.fresh_name("codes"), th.S)
    dom = chars.content
    ix = z3.Function(run.fresh_name("ix"), ObjSort, IntS)
    i, j, c = z3.Int(run.fresh_name("q")), z3.Int(run.fresh_name("q")), z3.Const(run.fresh_name("q"), ObjSort)
    ordf, chrf = run.reg.specfuns["ordf"].fun, run.reg.specfuns["chrf"].fun
    run.assume(th.len(r) >= 0)
    run.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < th.len(r)), z3.And(z3.Select(dom, chrf(th.at(r, i))), ordf(chrf(th.at(r, i))) == th.at(r, i))), patterns=[th.at(r, i)]))
    run.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < th.len(r)), th.at(r, i) < th.at(r, j)), patterns=[z3.MultiPattern(th.at(r, i), th.at(r, j))]))
    run.assume(z3.ForAll([c], z3.Implies(z3.Select(dom, c), z3.And(0 <= ix(c), ix(c) < th.len(r), th.at(r, ix(c)) == ordf(c))), patterns=[z3.Select(dom, c)]))
    return run.new_list(SSeq(r, INT), "sorted", INT)

def sorted_by_value(run, d, key):
    """sorted(d, key=d.get, reverse=True); the spec function ix tells where a key is"""
    if not (isinstance(key, Bound) and key.recv is d and key.name == "get"): raise Unsupported("sorted with another key")
    run.ex.assumed.add("sorted(d, key=d.get, reverse=True): the keys, each once, their values descending (CPython documentation)")
    dom, val, mk, kk, vk = map_parts(run, d)
    th = SeqTheory.of(kk)
    r = z3.Const(run.fresh_name("keys"), th.S)
    res = SSeq(r, kk)
    ix = lambda x: it(SpecFun(run.reg.specfuns["ix"]).apply(run, [res, run.from_term(x, kk)]))
    i, j, s = z3.Int(run.fresh_name("q")), z3.Int(run.fresh_name("q")), z3.Const(run.fresh_name("q"), sort(kk))
    run.quant += 1
    at = th.at(r, i)
    fi = z3.And(0 <= i, i < th.len(r))
    facts = [th.len(r) >= 0,
        z3.ForAll([i], z3.Implies(fi, z3.And(z3.Select(dom, at), ix(at) == i)), patterns=[at]),
        z3.ForAll([i, j], z3.Implies(z3.And(fi, i < j, j < th.len(r)), z3.Select(val, at) >= z3.Select(val, th.at(r, j))), patterns=[z3.MultiPattern(at, th.at(r, j))]),
        z3.ForAll([s], z3.Implies(z3.Select(dom, s), z3.And(0 <= ix(s), ix(s) < th.len(r), th.at(r, ix(s)) == s)), patterns=[z3.Select(dom, s), ix(s)])]
    run.quant -= 1
    for x in facts: run.assume(x)
    return run.new_list(res, "sorted", kk)

def tuple_method(run, v, name, args, kw):
    if name == "index":
        return seq_index(run, run.as_seq(v), args[0])
    if name == "__len__": return run.length(v)
    raise Unsupported("tuple.%s" % name)

def slice_method(run, v, name, args):
    if name != "indices" or not (v.step is None or v.step == 1): raise Unsupported("slice.%s" % name)
    # documented: start and stop clipped to 0..length, negative values count from the end
    n = it(args[0])
    if not run.entails(n >= 0): raise Unsupported("negative length")
    return PTup((mkint(run.clamp(v.lo, n, z3.IntVal(0))), mkint(run.clamp(v.hi, n, n)), 1))

def str_find(run, s, sub, lo, hi, rev):
    """Contract of str.find/rfind (documented behaviour of CPython)."""
    run.ex.assumed.add("str.find/str.rfind: first/last occurrence in the given bounds, or -1 (CPython documentation)")
    th = s.th
    n = run.lent(th, s.t)
    m = run.lent(th, sub.t)
    lo = run.clamp(lo, n, z3.IntVal(0)) if lo is not None else z3.IntVal(0)
    hi = run.clamp(hi, n, n) if hi is not None else n
    # an explicit start beyond the length never matches, also not the empty string; needles are non-empty here
    if not run.spec and not run.entails(m > 0): raise Unsupported("find of a possibly empty string")
    return SInt((th.rfind if rev else th.find)(s.t, sub.t, lo, hi))

def sp_occurs(run, s, sub, k):
    s, sub = run.as_seq(s), run.as_seq(sub)
    return SBool(s.th.occurs(s.t, sub.t, it(k)))

def str_method(run, s, name, args, kw):
    mkey = run.schema.get("methods", {}).get("str." + name)
    if mkey: return run.call_contract(run.reg.by_key[mkey], [s] + list(args), kw, None)
    s = run.as_seq(s)
    if name in ("find", "rfind"):
        sub = run.as_seq(args[0])
        return str_find(run, s, sub, args[1] if len(args) > 1 else None, args[2] if len(args) > 2 else None, name == "rfind")
    if name == "join":
        v = args[0]
        if isinstance(v, GenCall): v = run.collect(v)
        c = run.content(v)
        if not (isinstance(s, SSeq) and s.t.eq(s.th.empty)): raise Unsupported("join with a separator")
        if isinstance(c, (list, tuple)):
            r = PTup(())
            th = SeqTheory.of(INT)
            t = th.empty
            for x in c: t = run.mk_cat(th, t, run.to_term(x, STR))
            return SSeq(t, INT, True)
        d = run.reg.specfuns.get("join")
        if d is None: raise Unsupported("join")
        return SpecFun(d).apply(run, [c])
    if name in ("startswith", "endswith") and len(args) == 1 and not isinstance(args[0], tuple):
        sub = run.as_seq(args[0])
        n, m = run.lent(s.th, s.t), run.lent(sub.th, sub.t)
        part = run.mk_slice(s.th, s.t, z3.IntVal(0), m) if name == "startswith" else run.mk_slice(s.th, s.t, n - m, n)
        return mkbool(zand(m <= n, run.eq(SSeq(part, INT, True), sub)))
    if name == "format":
        return run.fresh(STR, "fmt")
    if name == "count":
        d = run.reg.specfuns.get("count")
        if d is None: raise Unsupported("count")
        return SpecFun(d).apply(run, [s, args[0]])
    raise Unsupported("str.%s" % name)

import bisect
MODELS = {sorted: m_sorted, bisect.insort_right: m_insort, bisect.insort_left: lambda run, a, kw: m_insort(run, a, kw, True)}
def model(*objs):
    def deco(f):
        for o in objs: MODELS[o] = f
        return f
    return deco

@model(len)
def m_len(run, a, kw): return run.length(a[0])

@model(isinstance)
def m_isinstance(run, a, kw):
    v, c = a
    return isinstance_model(run, v, c)

def isinstance_model(run, v, c):
    if isinstance(c, PTup):
        rs = [isinstance_model(run, v, x) for x in c]
        return mkbool(zor(*[r.t if isinstance(r, SBool) else r for r in rs]))
    o = c.o if isinstance(c, Conc) else None
    if isinstance(v, SOpt):
        if run.branch(v.isnone): return False
        v = v.val
    if isinstance(v, (int, SInt)) and not isinstance(v, bool): return o in (int, object)
    if isinstance(v, (bool, SBool)): return o in (int, bool, object)
    if isinstance(v, str) or isinstance(v, SSeq) and v.isstr: return o in (str, object)
    if isinstance(v, (PTup, SSeq)): return o in (tuple, object)
    if v is None: return o is type(None)
    if isinstance(v, Slice): return o is slice
    if isinstance(v, Cell):
        if v.what == "list": return o in (list, object)
        if v.cls is not None and isinstance(o, type): return issubclass(v.cls, o)
    if isinstance(v, SObj):
        inst = run.schema.get("isinstance", {})
        for k in ("%s:%s" % (v.cls, o.__name__), o.__name__):
            if k in inst:
                r = inst[k]
                return r if isinstance(r, bool) else run.eval_spec(r, {"self": v})
        if o in (int, str, tuple, slice) : return False
        f = z3.Function("isinstance_" + o.__name__, ObjSort, BoolS)
        return SBool(f(v.t))
    if isinstance(v, Conc) and isinstance(o, type): return isinstance(v.o, o)
    raise Unsupported("isinstance(%r, %r)" % (v, c))

@model(min, max)
def m_minmax(run, a, kw, which=None):
    raise Unsupported("min/max")

def _minmax(ismax):
    def f(run, a, kw):
        if kw: raise Unsupported("min/max keywords")
        vals = a
        if len(a) == 1:
            v = a[0]
            if isinstance(v, GenCall): v = run.collect(v)
            c = run.content(v)
            if isinstance(c, (tuple, list)): vals = list(c)
            else:
                s = run.as_seq(c)
                if s.ek is not INT: raise Unsupported("max of non-integers")
                run.may_raise("ValueError", s.th.len(s.t) > 0, "max/min of a non-empty sequence")
                r = z3.Int(run.fresh_name("ext")); k = z3.Int(run.fresh_name("q")); w = z3.Int(run.fresh_name("wit"))
                run.assume(z3.And(0 <= w, w < s.th.len(s.t), s.th.at(s.t, w) == r))
                run.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < s.th.len(s.t)), (s.th.at(s.t, k) <= r) if ismax else (s.th.at(s.t, k) >= r)), patterns=[s.th.at(s.t, k)]))
                return SInt(r)
        r = vals[0]
        for x in vals[1:]:
            x, y = run.as_int(run.deref(r)), run.as_int(run.deref(x))
            if isinstance(x, int) and isinstance(y, int): r = max(x, y) if ismax else min(x, y)
            else:
                p, q = it(x), it(y)
                r = mkint(z3.If((p >= q) if ismax else (p <= q), p, q))
        return r
    return f
MODELS[max] = _minmax(True)
MODELS[min] = _minmax(False)

@model(type)
def m_type(run, a, kw):
    if len(a) != 1: raise Unsupported("type()")
    v = a[0]
    if isinstance(v, SOpt): v = run.deref(v)
    if isinstance(v, Cell):
        if v.what in ("list", "set"): return Conc({"list": list, "set": set}[v.what])
        if v.cls is not None: return Conc(v.cls)
    if is_bool(v): return Conc(bool)
    if is_int(v): return Conc(int)
    if isinstance(v, str) or isinstance(v, SSeq) and v.isstr: return Conc(str)
    if isinstance(v, (PTup, SSeq)) and not getattr(v, "nt", None): return Conc(tuple)
    if isinstance(v, Conc): return Conc(type(v.o))
    if isinstance(v, SObj):
        if v.cls in run.schema.get("plain", ()): return Conc(object)          # not a list, tuple, number or string
        if v.cls + ".__new__" in run.schema.get("methods", {}): return Bound(v, "__new__")
        cls = run.schema.get("classes", {}).get(v.cls)
        if cls is not None: return Conc(cls)
    raise Unsupported("type of %r" % (v,))

@model(abs)
def m_abs(run, a, kw):
    x = it(a[0]); return mkint(z3.If(x >= 0, x, -x))

@model(int)
def m_int(run, a, kw):
    v = run.as_int(a[0])
    if is_int(v): return v
    raise Unsupported("int()")

@model(bool)
def m_bool(run, a, kw):
    t = run.truth(a[0]) if a else False
    return mkbool(t)

@model(range)
def m_range(run, a, kw):
    a = [run.as_int(run.deref(x)) for x in a]
    if len(a) == 1: return PyRange(0, a[0])
    if len(a) == 2: return PyRange(a[0], a[1])
    raise Unsupported("range step")

@model(tuple)
def m_tuple(run, a, kw):
    if not a: return PTup(())
    v = a[0]
    if isinstance(v, GenCall): v = run.collect(v)
    if isinstance(v, Iter): raise Unsupported("tuple of an iterator")
    c = run.content(v)
    return PTup(c) if isinstance(c, (list, tuple)) else c

@model(list)
def m_list(run, a, kw):
    if not a: return run.new_list([], "list")
    v = a[0]
    if isinstance(v, GenCall): return run.collect(v)
    if isinstance(v, Iter): raise Unsupported("list of an iterator")
    c = run.content(v)
    return run.new_list(list(c) if isinstance(c, (list, tuple)) else c, "list", v.ek if isinstance(v, (Cell, SSeq)) else None)

@model(set)
def m_set(run, a, kw):
    ek = run.schema.get("set_of")         # sets of this kind are modelled exactly
    if ek:
        ek = parse_kind(ek)
        if not a: return run.new_aset(ek, z3.K(sort(ek), z3.BoolVal(False)))
        n, item = run.source(a[0])
        r = run.new_aset(ek)
        k, q = z3.Int(run.fresh_name("q")), z3.Const(run.fresh_name("q"), sort(ek))
        run.spec += 1; run.quant += 1
        try: t = run.to_term(item(k), ek)
        finally: run.spec -= 1; run.quant -= 1
        run.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < it(n)), z3.Select(r.content, t))))
        run.assume(z3.ForAll([q], z3.Implies(z3.Select(r.content, q), z3.Exists([k], z3.And(0 <= k, k < it(n), t == q))), patterns=[z3.Select(r.content, q)]))
        return r
    if a: raise Unsupported("set of an iterable")
    run.ncell += 1
    return Cell("set.%d" % run.ncell, "set", run.ncell, content=0)

@model(enumerate)
def m_enumerate(run, a, kw): return Iter("enumerate", [a[0], a[1] if len(a) > 1 else 0])

@model(zip)
def m_zip(run, a, kw): return Iter("zip", a)

@model(reversed)
def m_reversed(run, a, kw):
    if isinstance(a[0], SObj) and run.schema.get("iters"):
        items = run.heap_read(a[0], "$items")
        return SIter(a[0], mkint(run.lent(items.th, items.t) - 1), -1)
    return Iter("reversed", a)

@model(iter)
def m_iter(run, a, kw):
    if isinstance(a[0], SObj) and run.schema.get("iters"): return SIter(a[0], 0, 1)
    if isinstance(a[0], SSeq): return SIter(a[0], 0, 1)
    if isinstance(a[0], SIter): return a[0]
    if isinstance(a[0], Cell) and a[0].what == "list": raise Unsupported("iter() of a list that may change")
    return a[0]

@model(object.__new__)
def m_new(run, a, kw):
    cls = a[0].o if isinstance(a[0], Conc) else None
    kind = cls and run.schema.get("alloc", {}).get("%s:%s" % (cls.__module__, cls.__qualname__))
    if not kind or len(a) > 1: raise Unsupported("object.__new__")
    return run.allocate(cls, kind)

@model(map)
def m_map(run, a, kw):
    if isinstance(a[1], GenCall): return MapGen(a[0], a[1])
    return Iter("map", a)

@model(getattr)
def m_getattr(run, a, kw):
    """an attribute that may be missing: what the schema says about it (None when it is missing)"""
    v = run.deref(a[0]) if isinstance(a[0], SOpt) else a[0]
    if isinstance(v, SObj) and len(a) == 3 and a[2] is None and "%s.__getattr__" % v.cls in run.schema.get("methods", {}):
        return run.call_method(v, "__getattr__", [a[1]], {})
    raise Unsupported("getattr of %r" % (a[0],))

@model(chr)
def m_chr(run, a, kw):
    d = run.reg.specfuns.get("chrs")
    if d is None: raise Unsupported("chr")
    return SpecFun(d).apply(run, a)

@model(re.escape)
def m_escape(run, a, kw):
    d = run.reg.specfuns.get("esc")
    if d is None: raise Unsupported("re.escape")
    return SpecFun(d).apply(run, a)

@model(slice)
def m_slice(run, a, kw):
    if len(a) == 1: return Slice(None, a[0], None)
    return Slice(a[0], a[1], a[2] if len(a) > 2 else None)

@model(itertools.repeat)
def m_repeat(run, a, kw):
    x, n = a
    ek = run.kind_of(x); th = SeqTheory.of(ek)
    t = th.rep(run.to_term(x, ek), it(n))
    run.assume(z3.Implies(it(n) >= 0, th.len(t) == it(n)))
    return SSeq(t, ek)

@model(itertools.chain)
def m_chain(run, a, kw):
    """the sequences one after the other (they must not be changed meanwhile)"""
    r = PTup(())
    for v in a:
        if isinstance(v, (Iter, GenCall)): raise Unsupported("chain of iterators")
        c = run.content(v)
        r = run.concat(r, tuple(c) if isinstance(c, list) else c)
    return r

def empty_map(run, k):
    return run.new_map(sort(k).constructor(0)(z3.K(sort(k.args[0]), z3.BoolVal(False)), sort(k).accessor(0, 1)(z3.Const(run.fresh_name("map"), sort(k)))), k)

@model(collections.defaultdict)
def m_defaultdict(run, a, kw):
    k = run.schema.get("defaultdict")
    if not (k and len(a) == 1 and isinstance(a[0], Conc) and a[0].o is int): raise Unsupported("defaultdict")
    d = empty_map(run, parse_kind(k))
    d.slot = "default"
    return d

@model(repr, format, str)
def m_repr(run, a, kw): return run.fresh(STR, "repr")

@model(id)
def m_id(run, a, kw):
    if not isinstance(a[0], SObj): return run.fresh(INT, "id")
    f, g = z3.Function("id_of", ObjSort, IntS), z3.Function("of_id", IntS, ObjSort)
    o = z3.Const("ido", ObjSort)
    run.assume(z3.ForAll([o], g(f(o)) == o, patterns=[f(o)]))        # different objects that exist at the same time have different ids
    return SInt(f(a[0].t))

@model(hash)
def m_hash(run, a, kw): return run.fresh(INT, "hash")

class MapGen:
    def __init__(self, fn, gen): self.fn, self.gen = fn, gen

# specification built-ins
def _sp(f): return f
def sp_ite(run, c, a, b):
    t = run.truth(c)
    if isinstance(t, bool): return a if t else b
    return run.ite(t, a, b)
def sp_lcp(run, x, y): return mkint(run.lcp(run.as_seq(x), run.as_seq(y)))     # not inside a quantifier
def sp_take(run, s, n): return run.getslice(run.as_seq(s), Slice(0, n, None))
def sp_cat(run, *xs):
    r = xs[0]
    for x in xs[1:]: r = run.concat(r, x)
    return r
def sp_rev(run, s):
    s = run.as_seq(s); return SSeq(s.th.rev(s.t), s.ek, s.isstr)
def sp_the(run, x): return x.val if isinstance(x, SOpt) else x
def sp_items(run, x): return run.content(x)
def sp_seq(run, *xs): return PTup(xs)
def sp_ref(run, x): return x
SPEC_BUILTINS = {"ite": sp_ite, "lcp": sp_lcp, "take": sp_take, "cat": sp_cat, "rev": sp_rev, "seq": sp_seq, "items": sp_items, "contents": sp_items, "the": sp_the, "occurs": sp_occurs}
for _f in list(SPEC_BUILTINS.values()):
    MODELS[_f] = (lambda g: lambda run, a, kw: g(run, *a))(_f)

def _spu(f):
    MODELS[f] = lambda run, a, kw: f(run, *a)
    return f
def sp_isint(run, v): return SBool(v.tag) if isinstance(v, SUnion) else is_int(v)
def sp_intof(run, v): return v.as_int() if isinstance(v, SUnion) else v if is_int(v) else 0
def sp_objof(run, v): return v.as_obj() if isinstance(v, SUnion) else v
def sp_repeat(run, x, n): return m_repeat(run, [x, n], {})
def sp_owner(run, v): return v.owner
def sp_at(run, v): return v.at
def sp_callarg(run, key, name, kind=None):
    """the argument of the last call of a function under contract; anything if it was not called"""
    for k, env in run.calls.items():
        if k.endswith(str(key)): return env[str(name)]
    if kind is None: raise BindError("%s was not called" % key)
    return run.fresh(str(kind), "uncalled")
def sp_local(run, name):
    """the current value of a variable of the code (a parameter may have been assigned to)"""
    name = run.ex.rename.get(str(name), str(name))
    for h in reversed(run.frames):
        while h is not None:
            if name in h.vars: return h.vars[name]
            h = h.parent
    raise BindError("name %r is not bound" % name)
for _n, _f in (("local", sp_local), ("callarg", sp_callarg), ("owner", sp_owner), ("passed", sp_at), ("isint", sp_isint), ("intof", sp_intof), ("objof", sp_objof), ("repeat", sp_repeat)):
    SPEC_BUILTINS[_n] = _spu(_f)
