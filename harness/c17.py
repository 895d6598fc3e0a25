"""C17: standard actions are a hierarchy of singletons."""
import copy
from base import expect, expect_eq
from parce.standardaction import StandardAction
import parce.action

RULE = ("2-12 actions, given as random dotted paths over a small set of names (so that paths share prefixes, and the same name "
        "occurs at several levels and under several roots); every action and every pair of actions is compared with its path; "
        "also the predefined actions of parce.action; non-trivial: two different paths with a common prefix")
SHRINK = ("paths",)
NAMES = ["Alpha", "Beta", "C", "Delta"]
ROOTS = ["XRoot", "YRoot", "C", "Zeta9"]

def gen(rng):
    paths = []
    for _ in range(rng.randint(2, 12)):
        if paths and rng.random() < .6:
            p = list(rng.choice(paths))
            p = p[:rng.randint(1, len(p))]
        else:
            p = [rng.choice(ROOTS)]
        for _ in range(rng.choice((0, 0, 1, 1, 2, 3))):
            p.append(rng.choice(NAMES))
        paths.append(p)
    return {"paths": paths, "salt": rng.randint(0, 10**9) if rng.random() < .7 else 0, "how": rng.randint(0, 2)}

def valid(case):
    return all(case["paths"])

def make(path, how):
    a = StandardAction(path[0])
    for n in path[1:]:
        a = getattr(a, n) if how == 0 or (how == 2 and len(n) > 1) else StandardAction(n, a)
    return a

def verify(pairs):
    """pairs: list of (path tuple, action)"""
    bypath = {}
    for p, a in pairs:
        if p in bypath: expect(bypath[p] is a, "two objects for action %r", p)
        bypath[p] = a
    for p, a in pairs:
        for i in range(1, len(p)):
            if p[:i] not in bypath:
                bypath[p[:i]] = make(p[:i], 0)
    for p, a in bypath.items():
        expect(isinstance(a, StandardAction), "%r is no StandardAction", p)
        expect_eq(repr(a), ".".join(p), "repr")
        expect_eq(a._name, p[-1], "name")
        path = list(a)
        expect_eq(len(path), len(p), "length of the path of %r" % (p,))
        for i, x in enumerate(path):
            expect(x is bypath[p[:len(p) - i]], "step %d of iterating %r is %r", i, p, x)
        expect(copy.copy(a) is a and copy.deepcopy(a) is a and copy.deepcopy([a])[0] is a, "a copy of %r is another object", p)
        for n in set(p) | {"Nope", p[-1] + "x", p[-1][:-1]}:
            expect_eq(n in a, n in p, "name %r in %r" % (n, p))
        for q, b in bypath.items():
            expect_eq(a is b, p == q, "identity of %r and %r" % (p, q))
            expect_eq(a == b, p == q, "equality of %r and %r" % (p, q))
            expect_eq(a in b, p[:len(q)] == q, "%r in %r" % (p, q))
            n = 0
            while n < min(len(p), len(q)) and p[n] == q[n]: n += 1
            c = a & b
            if n: expect(c is bypath[p[:n]], "%r & %r is %r", p, q, c)
            else: expect(c is None, "%r & %r is %r", p, q, c)
    return bypath

def check(case):
    salt = "R%d" % case["salt"] if case["salt"] else "R"
    pairs = []
    for i, p in enumerate(case["paths"]):
        p = [salt + p[0], *p[1:]]
        pairs.append((tuple(p), make(p, (case["how"] + i) % 3)))
    # the same again
    for p, a in list(pairs):
        pairs.append((p, make(p, 0)))
        for how in (0, 1, 2):
            expect(make(p, how) is a, "asking for %r again gives another object", p)
    d = verify(pairs)
    if case["salt"] % 16 == 1:
        acts = [(tuple(repr(v).split(".")), v) for k, v in sorted(vars(parce.action).items()) if isinstance(v, StandardAction)]
        verify(acts)
    ps = list(d)
    return [1] if any(p != q and p[0] == q[0] for p in ps for q in ps) else None
