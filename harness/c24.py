"""C24: dynamic rule items evaluate the same in one go and in two steps."""
import itertools, re, operator
from base import expect, expect_eq
import parce
from parce import rule as R, ruleitem, Language, lexicon, default_action, default_target
from parce.ruleitem import evaluate, pre_evaluate, evaluate_rule, pre_evaluate_rule, needs_evaluation
from parce.target import TargetFactory
from parce.standardaction import StandardAction

RULE = ("random expressions (depth up to 4) of call, select, target, ifeq, ifneq, ifmember, ifgroup, gselect, dselect, findmember, derive, "
        "pattern/arg/ifarg, TEXT, MATCH[n], ARG and slices, with a random match and lexicon argument; each is evaluated in one go, in two "
        "steps, as part of a rule and by a lexicon in a language, and compared with a direct interpreter of the documentation; "
        "non-trivial: the expression depends on the match and on the argument")
SHRINK = ()

A = [StandardAction("C24a"), StandardAction("C24b"), StandardAction("C24c")]

class Lang(Language):
    @lexicon
    def root(cls):
        yield "x", A[0]
    @lexicon
    def one(cls):
        yield "y", A[1]
    @lexicon
    def two(cls):
        yield "z", A[2]

LEX = [Lang.root, Lang.one, Lang.two]
ARGS = [None, "a", "ab", "b", 1, 2, 0, "", "ba", A[0]]
TEXTS = ["a", "b", "ab", "ba", "aab", "1", "aa"]
PAT = re.compile(r"(?:(zzz)|((a)?(b)?(a)?(b)?(1)?))")    # group 2 is the "rule", lastindex is 2

# expressions are JSON: ["const", v] ["text"] ["arg"] ["m", n] ["slice", e, a, b] ["fn", name, e...] -> value items
#   rule items: ["sel", idx, item...] ["ifeq", e, e, item, item] ... item: ["act", n] ["lex", n] ["int", n] ["tup", item...]

def value(rng, d):
    k = rng.randint(0, 9 if d > 0 else 4)
    if k <= 1: return ["text"]
    if k == 2: return ["arg"]
    if k == 3: return ["m", rng.randint(1, 5)]
    if k == 4: return ["const", rng.choice(["a", "b", "ab", 1, 0, 2, None])]
    if k == 5: return ["slice", ["text"] if rng.random() < .7 else value(rng, d - 1), rng.choice((None, 0, 1)), rng.choice((None, 1, 2, -1))]
    return ["fn", rng.choice(("join", "join", "rep", "first", "tuple")), *[value(rng, d - 1) for _ in range(rng.randint(1, 2))]]

def cond(rng, d, n):
    """an index expression yielding 0..n-1"""
    k = rng.randint(0, 2)
    if k == 0: return ["const", rng.randrange(n)]
    if k == 1: return ["fn", "len%d" % n, value(rng, d - 1)]
    return ["fn", "len%d" % n, value(rng, d - 1), value(rng, d - 1)]

def item(rng, d):
    if d <= 0 or rng.random() < .15:
        return rng.choice((["act", rng.randrange(3)], ["lex", rng.randrange(3)], ["int", rng.choice((-1, 1, 2))], ["tup", ["act", 0], ["int", -1]], ["tup"]))
    k = rng.randint(0, 12)
    i = lambda: item(rng, d - 1)
    v = lambda: value(rng, d - 1)
    if k <= 2:
        n = rng.randint(1, 3)
        return ["sel", cond(rng, d, n), *[i() for _ in range(n)]]
    if k == 3: return ["ifeq", v(), v(), i(), i()]
    if k == 4: return ["ifneq", v(), v(), i(), i()]
    if k == 5: return ["ifmember", v(), rng.choice((["a"], ["a", "b"], [], ["ab", "1", "aa"])), i(), i()]
    if k == 6: return ["ifgroup", rng.randint(1, 5), i(), i()]
    if k == 7:
        n = rng.randint(1, 3)
        r = [None if rng.random() < .3 else i() for _ in range(n)]
        if all(x is None for x in r): r[0] = i()
        return ["gsel", r, i()]
    if k == 8: return ["dsel", v(), [[t, i()] for t in rng.sample(TEXTS, rng.randint(0, 3))], i()]
    if k == 9: return ["find", v(), [[rng.sample(TEXTS, rng.randint(0, 3)), i()] for _ in range(rng.randint(0, 3))], i(), rng.randint(0, 1)]
    if k == 10: return ["derive", rng.randrange(3), v()]
    if k == 11:
        n = rng.randint(1, 3)
        return ["target", rng.choice((["const", rng.choice((-1, 0, 2))], ["pair", cond(rng, d, n), v()], ["pair", cond(rng, d, n), v()])),
                *[["lex", rng.randrange(3)] if rng.random() < .6 else ["sel", cond(rng, d, 2), ["lex", 0], ["lex", 2]] for _ in range(n)]]
    return ["tup", *[i() for _ in range(rng.randint(0, 3))]]

def gen(rng):
    p = rng.randint(0, 5)
    pat = (["arg", rng.randint(0, 1), rng.choice(("", "x")), rng.choice(("", "y?")), rng.choice((None, "q"))] if p == 0 else
           ["ifarg", "ab", rng.choice((None, "ba"))] if p == 1 else
           ["pat", ["fn", "join", ["arg"], ["const", "z"]]] if p == 2 else ["str", "ab?"])
    return {"pat": pat, "items": [item(rng, rng.randint(1, 4)) for _ in range(rng.randint(1, 3))],
            "arg": rng.randrange(len(ARGS)), "text": rng.choice(TEXTS)}

def _norm(x):
    return tuple(map(_norm, x)) if isinstance(x, (list, tuple)) else x
def f_join(*a): return "".join(str(x) for x in a if x is not None)
def f_rep(*a): return "".join(2 * str(x) for x in a)
def f_first(*a): return a[0]
def f_tuple(*a): return tuple(a)
FN = {"join": f_join, "rep": f_rep, "first": f_first, "tuple": f_tuple}
for _n in (1, 2, 3):
    FN["len%d" % _n] = (lambda n: lambda *a: sum(len(str(x)) for x in a) % n)(_n)
    FN["len%d" % _n].__name__ = "len"

def build(e):
    k = e[0]
    if k == "const": return e[1]
    if k == "text": return R.TEXT
    if k == "arg": return R.ARG
    if k == "m": return R.MATCH[e[1]]
    if k == "slice":
        return R.TEXT[slice(e[2], e[3])] if e[1] == ["text"] else R.call(sl, build(e[1]), e[2], e[3])
    if k == "fn": return R.call(FN[e[1]], *map(build, e[2:]))
    if k == "act": return A[e[1]]
    if k == "lex": return LEX[e[1]]
    if k == "int": return e[1]
    if k == "tup": return tuple(map(build, e[1:]))
    if k == "sel": return R.select(build(e[1]), *map(build, e[2:]))
    if k == "ifeq": return R.ifeq(*map(build, e[1:]))
    if k == "ifneq": return R.ifneq(*map(build, e[1:]))
    if k == "ifmember": return R.ifmember(build(e[1]), e[2], build(e[3]), build(e[4]))
    if k == "ifgroup": return R.ifgroup(e[1], build(e[2]), build(e[3]))
    if k == "gsel": return R.gselect(*[None if x is None else build(x) for x in e[1]], default=build(e[2]))
    if k == "dsel": return R.dselect(build(e[1]), {t: build(x) for t, x in e[2]}, build(e[3]))
    if k == "find":
        pairs = [(s, build(x)) for s, x in e[2]]
        return R.findmember(build(e[1]), pairs, build(e[3]))
    if k == "derive": return R.derive(LEX[e[1]], build(e[2]))
    if k == "pair": return (build(e[1]), build(e[2]))
    if k == "target": return R.target(build(e[1]), *map(build, e[2:]))
    raise ValueError(k)

def sl(v, a, b): return str(v)[a:b]

class Ctx:
    def __init__(self, text, match, arg):
        self.text, self.match, self.arg = text, match, arg
        self.used = set()
    def group(self, n):
        self.used.add("m")
        return self.match.group(self.match.lastindex + n)

def ref(e, c):
    k = e[0]
    if k == "const": return e[1]
    if k == "text": c.used.add("m"); return c.text
    if k == "arg": c.used.add("a"); return c.arg
    if k == "m": return c.group(e[1])
    if k == "slice":
        v = ref(e[1], c)
        return (v if e[1] == ["text"] else str(v))[e[2]:e[3]]
    if k == "fn": return FN[e[1]](*[ref(x, c) for x in e[2:]])
    if k == "act": return A[e[1]]
    if k == "lex": return LEX[e[1]]
    if k == "int": return e[1]
    if k == "tup": return tuple(ref(x, c) for x in e[1:])
    if k == "sel": return ref(e[2 + ref(e[1], c)], c)
    if k == "ifeq": return ref(e[3] if ref(e[1], c) == ref(e[2], c) else e[4], c)
    if k == "ifneq": return ref(e[3] if ref(e[1], c) != ref(e[2], c) else e[4], c)
    if k == "ifmember": return ref(e[3] if ref(e[1], c) in e[2] else e[4], c)
    if k == "ifgroup": return ref(e[2] if c.group(e[1]) is not None else e[3], c)
    if k == "gsel":
        for n, x in enumerate(e[1], 1):
            if x is not None and c.group(n) is not None:
                return ref(x, c)
        return ref(e[2], c)
    if k == "dsel":
        v = ref(e[1], c)
        for t, x in e[2]:
            if t == v: return ref(x, c)
        return ref(e[3], c)
    if k == "find":
        v = ref(e[1], c)
        for s, x in e[2]:
            if v in s: return ref(x, c)
        return ref(e[3], c)
    if k in ("derive", "target"):
        if k == "derive": i, a, lx = 0, ref(e[2], c), [["lex", e[1]]]
        else:
            if e[1][0] == "const": return e[1][1]
            i, a, lx = ref(e[1][1], c), ref(e[1][2], c), e[2:]
        l = ref(lx[i], c)
        if a is None: return l
        for old, d in c.derived:
            if old[0] is l and type(old[1]) is type(a) and old[1] == a: return d
        d = l(a)
        expect(d is l(a) and d.arg == a and d == l and d is not l, "derived lexicon %r(%r)", l, a)
        expect(d(None) is d and d(a) is d, "deriving %r again", d)
        c.derived.append(((l, a), d))
        return d
    raise ValueError(k)

def unroll(x):
    if isinstance(x, (tuple, list)):
        for y in x: yield from unroll(y)
    else:
        yield x

def same(got, want, what):
    g, w = list(unroll(got)), list(unroll(want))
    expect(len(g) == len(w) and all(a is b or (a == b and not isinstance(a, type(LEX[0]))) for a, b in zip(g, w)),
           "%s: got %r, expected %r", what, g, w)

def ref_pattern(p, arg):
    if p[0] == "str": return p[1]
    if p[0] == "arg":
        if isinstance(arg, str):
            return p[2] + (re.escape(arg) if p[1] else arg) + p[3]
        return p[4]
    if p[0] == "ifarg": return p[1] if arg else p[2]
    return f_join(arg, "z")

def build_pattern(p):
    if p[0] == "str": return p[1]
    if p[0] == "arg": return R.arg(bool(p[1]), p[2], p[3], p[4])
    if p[0] == "ifarg": return R.ifarg(p[1], p[2])
    return R.pattern(build(p[1]))

def check(case):
    arg, text = ARGS[case["arg"]], case["text"]
    m = PAT.fullmatch(text)
    if m is None or m.lastindex != 2:
        return None
    c = Ctx(text, m, arg)
    c.derived = []
    wants = []
    for e in case["items"]:
        try: wants.append(ref(e, c))
        except TypeError: return None      # e.g. deriving with an unhashable argument
    full = {"arg": arg, "text": text, "match": m}
    objs = [build(e) for e in case["items"]]
    for e, o, w in zip(case["items"], objs, wants):
        same(evaluate(o, full), w, "evaluating %r in one go" % (e,))
        part, ok = pre_evaluate(o, {"arg": arg})
        expect(ok in (0, 1, 2, 3), "status %r", ok)
        if ok & 1:
            same(part, w, "pre-evaluating %r completely" % (e,))
        if ok & 2:
            same(evaluate(o, {"text": text, "match": m}) if ok == 2 else o, w, "unchanged %r" % (e,))
        same(evaluate(part, {"text": text, "match": m}), w, "evaluating %r in two steps" % (e,))
        same(evaluate(o, full), w, "evaluating %r again" % (e,))
    # as a rule
    pat = build_pattern(case["pat"])
    r1 = pre_evaluate_rule((pat, *objs), arg)
    expect_eq(r1[0], ref_pattern(case["pat"], arg), "pattern %r with argument %r" % (case["pat"], arg))
    same(tuple(evaluate_rule(r1[1:], m)), tuple(wants), "evaluating the rule %r" % (case["items"],))
    if not needs_evaluation(r1[1:]):
        same(r1[1:], tuple(wants), "rule %r that needs no evaluation" % (case["items"],))
    # the variations of the items that do not depend on the argument contain the result
    vs = list(ruleitem.variations(r1[1:]))
    want = list(unroll(wants))
    def fits(v):
        v = list(unroll(v))
        return len(v) == len(want) and all(a is b or a == b or (a is ruleitem.a_number and isinstance(b, int)) for a, b in zip(v, want))
    expect(any(fits(v) for v in vs), "the result %r is not among the variations %r of %r", want, vs, case["items"])
    # in a real lexicon
    if want and all(isinstance(x, (int, type(LEX[0]))) for x in want[1:]):
        class L(Language):
            @lexicon
            def lex(cls):
                yield "(Q)", A[0]
                yield "(a)?(b)?(a)?(b)?(1)?", *objs
        lx = L.lex(arg)
        expect(lx is L.lex(arg) and (arg is None) == (lx is L.lex), "derived lexicon of argument %r", arg)
        got = list(itertools.islice(lx.parse(text, 0), 1))
        expect(got and got[0][:2] == (0, text), "parsing %r gives %r", text, got)
        expect(got[0][3] is want[0] or got[0][3] == want[0], "action %r instead of %r", got[0][3], want[0])
        t, w = got[0][4], TargetFactory.make(lx, want[1:])
        expect((t is None) == (w is None) and (t is None or (t.pop, len(t.push)) == (w.pop, len(w.push)) and all(a is b for a, b in zip(t.push, w.push))),
               "target %r instead of %r", t, w)
    return ["am"] if c.used == {"a", "m"} else None
