"""SMT layer of pyvc: kinds, sorts, the axiomatised sequence theory, solving.

Every Python value the engine reasons about has a *kind*; every kind has one
SMT sort.  Sequences (str, list, tuple of unknown length) use an uninterpreted
sort per element sort, axiomatised with length/index/concat/slice (the same
style as Dafny's or Boogie's sequences); integers are mathematical, which is
what Python integers are.
"""
import functools
import re
import z3

# ---------------------------------------------------------------- kinds

class Kind:
    __slots__ = ("op", "args", "name")
    _cache = {}

    def __new__(cls, op, args=(), name=None):
        key = (op, tuple(args), name)
        k = cls._cache.get(key)
        if k is None:
            k = object.__new__(cls)
            k.op, k.args, k.name = op, tuple(args), name
            cls._cache[key] = k
        return k

    def __repr__(self):
        s = self.op
        if self.name:
            s += ":" + str(self.name)
        if self.args:
            s += "[" + ",".join(map(repr, self.args)) + "]"
        return s

INT, BOOL, STR, NONE = Kind("int"), Kind("bool"), Kind("str"), Kind("none")
OBJ = Kind("obj")
CHAR = INT     # characters are code points

def Seq(k): return Kind("seq", (k,))
def Opt(k): return Kind("opt", (k,))
def Tup(*ks): return Kind("tuple", ks)

_tok = re.compile(r"\s*([A-Za-z_][\w.]*|[\[\],:=])")

def parse_kind(s):
    if isinstance(s, Kind):
        return s
    toks = _tok.findall(s)
    pos = 0
    def peek(): return toks[pos] if pos < len(toks) else None
    def take(x=None):
        nonlocal pos
        t = toks[pos]; pos += 1
        if x is not None and t != x:
            raise ValueError("kind syntax: %r" % s)
        return t
    def kind():
        op = take()
        name = None
        if peek() == ":":
            take(":"); name = take()
        args, names = [], []
        if peek() == "[":
            take("[")
            while True:
                if toks[pos + 1:pos + 2] == ["="]:
                    names.append(take()); take("=")
                args.append(kind())
                if take() == "]":
                    break
        if op == "nt":
            return Kind("tuple", args, (name, tuple(names)))
        if op in ("int", "bool", "str", "none", "slice"):
            return Kind(op)
        if op in ("obj", "union", "iter", "riter"):
            return Kind(op, (), name)
        if op in ("seq", "opt", "tuple", "list", "set", "map"):
            return Kind(op, args)
        raise ValueError("unknown kind %r in %r" % (op, s))
    k = kind()
    if pos != len(toks):
        raise ValueError("kind syntax: %r" % s)
    return k

# ---------------------------------------------------------------- sorts

ObjSort = z3.DeclareSort("Obj")
IntS, BoolS = z3.IntSort(), z3.BoolSort()

_sorts = {}
_tupinfo = {}

def kkey(k):
    if k.op == "obj": return "O"
    if k.op == "int": return "I"
    if k.op == "bool": return "B"
    if k.op == "none": return "N"
    if k.op == "union": return "U"
    if k.op in ("iter", "riter"): return "IT"
    if k.op == "slice": return "SLICE"
    if k.op == "siter": return "SI_" + kkey(k.args[0])
    if k.op == "str": return "S_I"
    if k.op in ("seq", "list"): return "S_" + kkey(k.args[0])
    if k.op == "opt": return "P" + kkey(k.args[0])
    if k.op == "map": return "M_%s_%s_" % (kkey(k.args[0]), kkey(k.args[1]))
    if k.op == "tuple": return "T%d_%s_" % (len(k.args), "_".join(map(kkey, k.args)))
    raise TypeError("no sort for kind %r" % k)

def sort(k):
    if k.op == "int": return IntS
    if k.op == "bool": return BoolS
    if k.op == "obj": return ObjSort
    if k.op == "none": return BoolS
    key = kkey(k)
    s = _sorts.get(key)
    if s is None:
        if k.op in ("str", "seq", "list"):
            s = z3.DeclareSort(key)
        elif k.op == "tuple":
            d = z3.Datatype(key)
            d.declare("mk_" + key, *[("f%d_%s" % (i, key), sort(a)) for i, a in enumerate(k.args)])
            s = d.create()
        elif k.op == "slice":
            d = z3.Datatype(key)
            d.declare("mk_slice", ("start_slice", sort(Opt(INT))), ("stop_slice", sort(Opt(INT))))
            s = d.create()
        elif k.op == "siter":
            d = z3.Datatype(key)
            d.declare("mk_" + key, ("owner_" + key, sort(Seq(k.args[0]))), ("at_" + key, IntS))
            s = d.create()
        elif k.op in ("iter", "riter"):
            d = z3.Datatype(key)
            d.declare("mk_iter", ("owner_iter", ObjSort), ("at_iter", IntS))
            s = d.create()
        elif k.op == "union":
            d = z3.Datatype(key)
            d.declare("mk_union", ("isint_union", BoolS), ("int_union", IntS), ("obj_union", ObjSort))
            s = d.create()
        elif k.op == "map":
            d = z3.Datatype(key)
            d.declare("mk_" + key, ("dom_" + key, z3.ArraySort(sort(k.args[0]), BoolS)), ("val_" + key, z3.ArraySort(sort(k.args[0]), sort(k.args[1]))))
            s = d.create()
        elif k.op == "opt":
            d = z3.Datatype(key)
            d.declare("mk_" + key, ("none_" + key, BoolS), ("val_" + key, sort(k.args[0])))
            s = d.create()
        _sorts[key] = s
    return s

def elem_kind(k):
    return INT if k.op == "str" else k.args[0]

class SeqTheory:
    """Function symbols and axioms for one sequence sort."""
    _all = {}

    @classmethod
    def of(cls, ek):
        key = kkey(ek)
        t = cls._all.get(key)
        if t is None:
            t = cls._all[key] = cls(ek, key)
        return t

    def __init__(self, ek, key):
        self.ek = ek
        S = self.S = sort(Seq(ek))
        E = self.E = sort(ek)
        n = "S_" + key
        F = z3.Function
        self.len = F("len_" + n, S, IntS)
        self.at = F("at_" + n, S, IntS, E)
        self.empty = z3.Const("empty_" + n, S)
        self.unit = F("unit_" + n, E, S)
        self.cat = F("cat_" + n, S, S, S)
        self.slice = F("slice_" + n, S, IntS, IntS, S)
        self.rev = F("rev_" + n, S, S)
        self.rep = F("rep_" + n, E, IntS, S)
        self.eq = F("eq_" + n, S, S, BoolS)
        self.has = F("has_" + n, S, E, BoolS)
        self.occurs = F("occurs_" + n, S, S, IntS, BoolS)
        self.find = F("find_" + n, S, S, IntS, IntS, IntS)
        self.rfind = F("rfind_" + n, S, S, IntS, IntS, IntS)

    def axioms(self):
        if not hasattr(self, "_axioms"): self._axioms = self.make_axioms()
        return self._axioms

    def make_axioms(self):
        S, E = self.S, self.E
        a, b = z3.Consts("a b", S)
        x = z3.Const("x", E)
        i, j, k, m = z3.Ints("i j k m")
        ln, at, cat, sl, unit, eq, rev, rep = self.len, self.at, self.cat, self.slice, self.unit, self.eq, self.rev, self.rep
        FA = z3.ForAll
        ax = [
            FA([a], ln(a) >= 0, patterns=[ln(a)]),
            ln(self.empty) == 0,
            FA([a], z3.Implies(ln(a) == 0, a == self.empty), patterns=[ln(a)]),
            FA([x], z3.And(ln(unit(x)) == 1, at(unit(x), 0) == x), patterns=[unit(x)]),
            FA([a, b], ln(cat(a, b)) == ln(a) + ln(b), patterns=[cat(a, b)]),
            FA([a, b, i], z3.Implies(z3.And(0 <= i, i < ln(a)), at(cat(a, b), i) == at(a, i)),
               patterns=[at(cat(a, b), i)]),
            FA([a, b, i], z3.Implies(z3.And(ln(a) <= i, i < ln(a) + ln(b)), at(cat(a, b), i) == at(b, i - ln(a))),
               patterns=[at(cat(a, b), i)]),
            FA([a, i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= ln(a)), ln(sl(a, i, j)) == j - i),
               patterns=[sl(a, i, j)]),
            FA([a, i, j, k], z3.Implies(z3.And(0 <= i, i <= j, j <= ln(a), 0 <= k, k < j - i),
               at(sl(a, i, j), k) == at(a, i + k)), patterns=[at(sl(a, i, j), k)]),
            FA([a, b], eq(a, b) == z3.And(ln(a) == ln(b),
               FA([i], z3.Implies(z3.And(0 <= i, i < ln(a)), at(a, i) == at(b, i)), patterns=[at(a, i), at(b, i)])),
               patterns=[eq(a, b)]),
            FA([a, b], z3.Implies(eq(a, b), a == b), patterns=[eq(a, b)]),
            FA([a], z3.Implies(True, ln(rev(a)) == ln(a)), patterns=[rev(a)]),
            FA([a, i], z3.Implies(z3.And(0 <= i, i < ln(a)), at(rev(a), i) == at(a, ln(a) - 1 - i)),
               patterns=[at(rev(a), i)]),
            FA([x, i], z3.Implies(i >= 0, ln(rep(x, i)) == i), patterns=[rep(x, i)]),
            FA([x, i, k], z3.Implies(z3.And(0 <= k, k < i), at(rep(x, i), k) == x), patterns=[at(rep(x, i), k)]),
            # slicing algebra
            FA([a, i, j, k, m], z3.Implies(z3.And(0 <= i, i <= j, j <= ln(a), 0 <= k, k <= m, m <= j - i),
               sl(sl(a, i, j), k, m) == sl(a, i + k, i + m)), patterns=[sl(sl(a, i, j), k, m)]),
            FA([a, i], z3.Implies(i == ln(a), sl(a, 0, i) == a), patterns=[sl(a, 0, i)]),
            FA([a, b, i], z3.Implies(i == ln(a), sl(cat(a, b), 0, i) == a), patterns=[sl(cat(a, b), 0, i)]),
            FA([a, i, j, k], z3.Implies(z3.And(0 <= i, i <= j, j <= k, k <= ln(a)),
               cat(sl(a, i, j), sl(a, j, k)) == sl(a, i, k)), patterns=[cat(sl(a, i, j), sl(a, j, k))]),
        ]
        return ax

    def find_axioms(self, names):
        """str.find/str.rfind for a non-empty needle and bounds in 0..len (the documentation of CPython)."""
        S = self.S
        a, p = z3.Consts("a p", S)
        i, j, k = z3.Ints("i j k")
        ln, sl, occ, find, rfind = self.len, self.slice, self.occurs, self.find, self.rfind
        FA = z3.ForAll
        ax = [FA([a, p, k], occ(a, p, k) == z3.And(0 <= k, k + ln(p) <= ln(a), sl(a, k, k + ln(p)) == p), patterns=[occ(a, p, k)])]
        for f, rev in ((find, False), (rfind, True)):
            if f.name() not in names: continue
            pre = z3.And(ln(p) > 0, 0 <= i, j <= ln(a))
            r = f(a, p, i, j)
            ax.append(FA([a, p, i, j], z3.Implies(pre, z3.Or(r == -1, z3.And(i <= r, r + ln(p) <= j, occ(a, p, r)))), patterns=[r]))
            ax.append(FA([a, p, i, j, k], z3.Implies(z3.And(pre, i <= k, k + ln(p) <= j, z3.Or(r == -1, k > r if rev else k < r)),
                      z3.Not(occ(a, p, k))), patterns=[z3.MultiPattern(r, occ(a, p, k))]))
        return ax

def all_axioms():
    r = []
    for t in list(SeqTheory._all.values()):
        r.extend(t.axioms())
    return r

# ---------------------------------------------------------------- solving

_names = {}
def _decl_names(exprs):
    """The names of all symbols in some formulas (kept per formula: the same ones occur in many obligations)."""
    r = set()
    for e in exprs:
        got = _names.get(e.get_id())
        if got is None: got = _names[e.get_id()] = e, _names_in([e])
        r |= got[1]
    return r

def _names_in(exprs):
    seen, names = set(), set()
    todo = list(exprs)
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            todo.append(e.body())
            for p in range(e.num_patterns()):
                todo.append(e.pattern(p))
        elif z3.is_app(e):
            names.add(e.decl().name())
            todo.extend(e.children())
    return names

def relevant_axioms(exprs):
    """The axioms of the sequence theories whose symbols occur."""
    names = _decl_names(exprs)
    r = []
    for t in list(SeqTheory._all.values()):
        suffix = t.len.name()[4:]
        if any(n.endswith(suffix) and n[:-len(suffix)] in
               ("len_", "at_", "empty_", "unit_", "cat_", "slice_", "rev_", "rep_", "eq_", "has_") for n in names):
            r.extend(t.axioms())
        if "occurs_" + suffix in names or "find_" + suffix in names or "rfind_" + suffix in names:
            r.extend(t.find_axioms(names))
    return r

def to_smt2(assumptions, goal):
    s = z3.Solver()
    fs = list(assumptions) + [z3.Not(goal)]
    for f in relevant_axioms(fs):
        s.add(f)
    for f in fs:
        s.add(f)
    return s.to_smt2()
