"""C19: language lookup."""
import fnmatch, re, sys, types
from base import expect, expect_eq
from parce import Language, lexicon
import parce.registry
from parce.registry import Registry, Entry

RULE = ("random chains of 1-3 registries with 0-5 entries (random names, aliases in mixed case, file name patterns, mime types and content "
        "expressions with random weights), random lookups by name and by file name, mime type and contents, compared with a direct "
        "reading of the documentation; non-trivial: at least two entries match")
SHRINK = ("regs",)

NAMES = ["Abc", "abc", "ABC", "X y", "Lang0", "lang1", "Zed", "zed", "LANG2"]
PATS = ["*.a", "*.b", "*", "make*", "x.a", "*.[ab]", "?.a"]
MIMES = ["text/a", "text/b", "Text/a"]
GUESS = ["^a", "foo", "b$", "x", "(?i)FOO"]
CONT = ["a", "foo", "xfoob", "b", "", "FOO", "yy" * 3000 + "foo", "a" * 4999 + "x"]
FILES = ["x.a", "x.b", "makefile", "nothing", "q.A", "dir.a", ""]

mod = types.ModuleType("c19mod")
sys.modules["c19mod"] = mod
for _i in range(8):
    class L(Language):
        @lexicon
        def root(cls): yield "x", "y"
        @lexicon
        def other(cls): yield "x", "y"
    L.__name__ = "Lang%d" % _i
    L.__module__ = "c19mod"
    setattr(mod, "Lang%d" % _i, L)

def entry(rng, i):
    w = lambda: rng.choice((0, 1, 2, 3, 4, 4, 6, 8)) / 8
    return [i, rng.choice(("root", "root", "other")), rng.choice(NAMES), [rng.choice(NAMES) for _ in range(rng.randint(0, 2))],
            [[rng.choice(PATS), w()] for _ in range(rng.randint(0, 3))], [[rng.choice(MIMES), w()] for _ in range(rng.randint(0, 2))],
            [[rng.choice(GUESS), w()] for _ in range(rng.randint(0, 3))], rng.choice(("", "s", "t"))]

def gen(rng):
    regs = []
    for _ in range(rng.randint(1, 3)):
        idx = list(range(8)); rng.shuffle(idx)
        regs.append([entry(rng, idx[k]) for k in range(rng.randint(0, 5))])
    o = lambda l: rng.choice(l) if rng.random() < .6 else None
    return {"regs": regs, "name": rng.choice(NAMES + ["nope", "lANG3", "Lang4"]), "file": o(FILES), "mime": o(MIMES), "cont": o(CONT)}

def qn(e): return "c19mod.Lang%d.%s" % (e[0], e[1])

def scores(reg, f, m, c):
    base = {}
    for q, e in reg.items():
        s = 0
        if f: s += max([w for p, w in e[4] if fnmatch.fnmatch(f, p)], default=0)
        if m: s += max([w for p, w in e[5] if p == m], default=0)
        if s: base[q] = s
    top = sorted(base.values(), reverse=True)
    if top and (len(top) == 1 or top[0] > top[1]):
        return base
    cands = list(base) or list(reg)
    if c:
        for q in cands:
            s = sum(w for p, w in reg[q][6] if re.search(p, c[:5000]))
            if s: base[q] = base.get(q, 0) + s
    return base

def ref_names(reg, name):
    """the acceptable answers"""
    n = name.lower()
    for test in (lambda q, e: e[2] == name, lambda q, e: name in e[3],
                 lambda q, e: e[2].lower() == n or n in [a.lower() for a in e[3]],
                 lambda q, e: q.split(".")[1].lower() == n):
        r = [q for q, e in reg.items() if test(q, e)]
        if r: return r
    return []

def check(case):
    regs, refs = [], []
    for r in case["regs"]:
        g, d = Registry(), {}
        for e in r:
            g.add(qn(e), name=e[2], desc="d", aliases=e[3], filenames=[tuple(x) for x in e[4]], mimetypes=[tuple(x) for x in e[5]], guesses=[tuple(x) for x in e[6]], section=e[7])
            d[qn(e)] = e
        regs.append(g); refs.append(d)
    if not regs: return None
    for a, b in zip(regs, regs[1:]): a.fallback = b
    name, f, m, c = case["name"], case["file"], case["mime"], case["cont"]
    n = 0
    for g, d in zip(regs, refs):
        expect_eq(set(g), set(d), "entries")
        q = g.qualname(name)
        ok = ref_names(d, name)
        expect(q in ok if ok else q is None, "qualname(%r) is %r, expected one of %r", name, q, ok)
        s = scores(d, f, m, c)
        got = g.suggest(f, m, c)
        expect_eq(sorted(got), sorted(s), "suggested languages")
        for a, b in zip(got, got[1:]):
            expect(s[a] >= s[b], "suggestions %r are not ordered by score %r", got, s)
        n = max(n, len(s), len(ok))
        bs = g.by_section()
        expect_eq({k: set(v) for k, v in bs.items()}, {k: {q for q, e in d.items() if e[7] == k} for k in {e[7] for e in d.values()}}, "by_section")
        expect_eq(g, g.copy(), "copy"); expect(g.copy().fallback is g.fallback, "fallback of the copy")
    want = next((w for w in (ref_names(d, name) for d in refs) if w), [])
    for kw in ({}, {"filename": f, "mimetype": m, "contents": c}):
        r = regs[0].find(name, **kw)
        expect(r is None if not want else r in [getattr(getattr(mod, q.split(".")[1]), q.split(".")[2]) for q in want], "find(%r) is %r, expected %r", name, r, want)
        if want: expect_eq(r.qualname in want, True, "find(%r).qualname" % name)
    best = []
    for d in refs:
        s = scores(d, f, m, c)
        if s:
            best = [q for q in s if s[q] == max(s.values())]
            break
    r = regs[0].find(filename=f, mimetype=m, contents=c)
    expect(r is None if not best else r is not None and r.qualname in best, "find(%r, %r, %r) is %r, expected %r", f, m, c and c[:50], r, best)
    # update and inherit
    if len(regs[0]) > 1:
        g = regs[0].copy()
        a, b = list(g)[:2]
        ea, eb = g[a], g[b]
        g.add(b, inherit=a, aliases=["qq"], author="me")
        expect(a not in g and set(g) == set(regs[0]) - {a}, "inherit: entries")
        expect_eq(g[b].name, ea.name, "inherit: name")
        expect_eq(list(g[b].aliases), list(ea.aliases) + ["qq"], "inherit: aliases")
        expect_eq(list(g[b].filenames), list(ea.filenames), "inherit: filenames")
        expect(regs[0][a] == ea and regs[0][b] == eb, "inherit changed another registry")
    return [n] if n > 1 else None

def _bundled():
    for q, e in parce.registry.registry.items():
        expect(parce.find(e.name) is parce.registry.registry.lexicon(parce.registry.registry.qualname(e.name)), "bundled %r", q)
