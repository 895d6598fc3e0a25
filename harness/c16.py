"""C16: queries select exactly the nodes their definition says."""
import itertools, re
from base import *
import langgen, samples_util
from treeutil import *

RULE = ("trees of random languages and sample texts; a start (root, random nodes, or several nodes) and a chain of 1-5 random query steps is compared, "
        "as a list of node identities, with a direct recursion over the tree; end points and delete() included; non-trivial: non-empty result")
SHRINK = ("steps", "start")

NAV = ["children", "all", "alltokens", "allcontexts", "parent", "ancestors", "first", "last", "next", "previous", "forward", "backward",
       "right", "left", "right_siblings", "left_siblings", "tokens", "contexts", "uniq", "remove_ancestors", "remove_descendants"]

def gen_step(rng):
    r = rng.random()
    if r < .5:
        return [rng.choice(NAV + ["all", "all", "children", "uniq"])]
    if r < .6:
        return ["item", rng.choice((0, 1, 2, -1, -2, -5, 7, 3))]
    if r < .66:
        o = lambda: rng.choice((None, None, 0, 1, 2, 3, -1, -2))
        return ["items", o(), o(), rng.choice((None, None, 1, 2, -1))]
    if r < .72:
        return ["slice", *rng.choice(([1], [3], [1, 4], [0, None, 2], [2, None]))]
    inv = rng.random() < .4
    k = rng.choice(("len", "len2", "in_range", "text", "lex", "startingwith", "endingwith", "containing", "matching", "action", "in_action", "filter", "map"))
    a = rng.choice(("a", "b", "ab", " ", "\n", "c", "(", ""))
    if k == "len": return [k, inv, rng.randint(0, 4)]
    if k == "len2": return [k, inv, rng.randint(0, 3), rng.randint(1, 6)]
    if k == "in_range": return [k, inv, rng.randint(0, 20), rng.choice((None, rng.randint(0, 40)))]
    if k == "text": return [k, inv, [a, rng.choice(("b", "aa", "bb"))]]
    if k == "lex": return [k, inv, rng.choice(("root", "l1", "l2"))]
    if k == "matching": return [k, inv, rng.choice(("a", "^b", "[bc]$", r"\s", "A"))]
    if k in ("action", "in_action"): return [k, inv, [rng.choice(("Text", "Name", "Literal", "Literal.String", "Comment")), rng.choice(("Keyword", "Literal", "Delimiter"))]]
    if k in ("filter", "map"): return [k, inv, 0]
    return [k, inv, a]

def gen(rng):
    if rng.random() < .12:
        c = samples_util.gen_sample(rng, 150)
    else:
        c = langgen.gen_case(rng, 40)
    c["start"] = rng.choice(([], [0], [rng.randint(0, 40)], [rng.randint(0, 40) for _ in range(rng.randint(2, 6))]))
    c["steps"] = [gen_step(rng) for _ in range(rng.choice((1, 1, 2, 2, 3, 4, 5)))]
    c["delete"] = rng.random() < .3
    return c

def sel(sub, lang):
    """The reference: node list -> node list for one step."""
    k = sub[0]
    def inv(pred, only=None):
        return lambda ns: [n for n in ns if (only is None or only(n)) and sub[1] ^ bool(pred(n))]
    isT, isC = (lambda n: n.is_token), (lambda n: n.is_context)
    kids = lambda n: list(list.__iter__(n)) if n.is_context else []
    def root_of(n):
        while n.parent is not None: n = n.parent
        return n
    def span(n):
        t = [n] if n.is_token else toks(n)
        return t
    def after(n):
        ts = toks(root_of(n)); own = span(n)
        return ts[[id(t) for t in ts].index(id(own[-1])) + 1:] if own else []
    def before(n):
        ts = toks(root_of(n)); own = span(n)
        return ts[:[id(t) for t in ts].index(id(own[0]))][::-1] if own else []
    def sibs(n, right):
        if n.parent is None: return []
        s = kids(n.parent); i = index_of(n)
        return s[i + 1:] if right else s[:i][::-1]
    def anc(n):
        r = []
        while n.parent is not None:
            n = n.parent; r.append(n)
        return r
    flat = lambda f: (lambda ns: [m for n in ns for m in f(n)])
    import langgen
    if k == "children": return flat(kids)
    if k == "all": return flat(lambda n: [n] + (nodes(n) if n.is_context else []))
    if k == "alltokens": return flat(lambda n: [n] if n.is_token else toks(n))
    if k == "allcontexts": return flat(lambda n: [] if n.is_token else [n] + [m for m in nodes(n) if m.is_context])
    if k == "parent": return flat(lambda n: [n.parent] if n.parent is not None else [])
    if k == "ancestors": return flat(anc)
    if k == "first": return flat(lambda n: kids(n)[:1])
    if k == "last": return flat(lambda n: kids(n)[-1:])
    if k == "next": return flat(lambda n: after(n)[:1])
    if k == "previous": return flat(lambda n: before(n)[:1])
    if k == "forward": return flat(after)
    if k == "backward": return flat(before)
    if k == "right": return flat(lambda n: sibs(n, True)[:1])
    if k == "left": return flat(lambda n: sibs(n, False)[:1])
    if k == "right_siblings": return flat(lambda n: sibs(n, True))
    if k == "left_siblings": return flat(lambda n: sibs(n, False))
    if k == "tokens": return lambda ns: [n for n in ns if n.is_token]
    if k == "contexts": return lambda ns: [n for n in ns if n.is_context]
    if k == "uniq":
        def f(ns):
            out = []
            for n in ns:
                if not any(n is m for m in out): out.append(n)
            return out
        return f
    if k == "remove_descendants":
        return lambda ns: [n for n in ns if not any(m is a for a in anc(n) for m in ns)]
    if k == "remove_ancestors":
        return lambda ns: [n for n in ns if not any(a is n for m in ns for a in anc(m))]
    if k == "item":
        def f(n):
            s = kids(n)
            return [s[sub[1]]] if -len(s) <= sub[1] < len(s) else []
        return flat(f)
    if k == "items": return flat(lambda n: kids(n)[slice(*sub[1:])])
    if k == "slice": return lambda ns: list(itertools.islice(ns, *sub[1:]))
    if k == "len": return inv(lambda n: len(kids(n)) == sub[2], isC)
    if k == "len2": return inv(lambda n: sub[2] <= len(kids(n)) <= sub[3], isC)
    if k == "in_range":
        e = 10**9 if sub[3] is None else sub[3]
        if sub[1]: return lambda ns: [n for n in ns if n.end <= sub[2] or n.pos >= e]
        return lambda ns: [n for n in ns if n.pos >= sub[2] and n.end <= e]
    if k == "text": return inv(lambda n: n.is_token and n.text in sub[2])
    if k == "lex": return inv(lambda n: n.is_context and n.lexicon == lang(sub[2]))
    if k == "startingwith": return inv(lambda n: n.text[:len(sub[2])] == sub[2], isT)
    if k == "endingwith": return inv(lambda n: n.text[len(n.text) - len(sub[2]):] == sub[2] if len(sub[2]) <= len(n.text) else False, isT)
    if k == "containing": return inv(lambda n: sub[2] in n.text, isT)
    if k == "matching": return inv(lambda n: re.search(sub[2], n.text), isT)
    if k == "action": return inv(lambda n: n.action in [langgen.resolve_action(a) for a in sub[2]], isT)
    if k == "in_action": return inv(lambda n: any(langgen.resolve_action(a) in list(n.action) for a in sub[2]), isT)
    if k == "filter": return lambda ns: [n for n in ns if n.pos % 2]
    if k == "map": return flat(lambda n: [n] + anc(n)[:1])
    raise ValueError(k)

def step(q, sub, lang):
    k = sub[0]
    if k in NAV: return getattr(q, k)
    if k == "item": return q[sub[1]]
    if k == "items": return q[slice(*sub[1:])]
    if k == "slice": return q.slice(*sub[1:])
    if k == "filter": return q.filter(lambda n: n.pos % 2)
    if k == "map": return q.map(lambda n: [n] + ([n.parent] if n.parent is not None else []))
    if sub[1]: q = q.is_not
    if k == "len": return q.len(sub[2])
    if k == "len2": return q.len(sub[2], sub[3])
    if k == "in_range": return q.in_range(sub[2], sub[3])
    if k == "text": return q(*sub[2])
    if k == "lex": return q(lang(sub[2]))
    if k in ("action", "in_action"): return getattr(q, k)(*[langgen.resolve_action(a) for a in sub[2]])
    return getattr(q, k)(sub[2])

def check(case):
    from parce.treebuilder import build_tree
    from parce.query import Query
    if case["mode"] == "sample":
        root = samples_util.root_lexicon(case["lang"]); L = root.language
    else:
        if not langgen.Ref(case["spec"]).run(case["text"])[1]: raise Skip()
        L = langgen.build(case["spec"]); root = L.root
    lang = lambda name: getattr(L, name, root)
    tree = build_tree(root, case["text"])
    every = [tree] + nodes(tree)
    if any(s[0] in ("len", "len2", "in_range", "filter") for s in case["steps"]) and not len(tree):
        raise Skip()
    if not case["start"]:
        q, want = tree.query, [tree]
    else:
        want = [every[i % len(every)] for i in case["start"]]
        q = want[0].query if len(want) == 1 else Query.from_nodes(want)
    size = 0
    for s in case["steps"]:
        if len(want) > 400: break
        q = step(q, s, lang)
        want = sel(s, lang)(want)
        if len(want) > 3000: raise Skip()
    got = list(q)
    def ident(ns): return [id(n) for n in ns]
    if ident(got) != ident(want):
        raise Violation("%r on %r: got %r, expected %r" % (case["steps"], case["text"], clip(got), clip(want)))
    expect(ident(list(q)) == ident(want), "a query cannot be used twice")
    expect_eq(q.count(), len(want), "count")
    expect_eq(bool(q), bool(want), "bool")
    D = object()
    expect(q.pick(D) is (want[0] if want else D), "pick")
    expect(q.pick_last(D) is (want[-1] if want else D), "pick_last")
    if len(tree):
        expect_eq(q.range(), (min(n.pos for n in want), max(n.end for n in want)) if want else (-1, -1), "range")
    if case["delete"]:
        kill = {id(n) for n in want}
        def rest(ctx):
            """Shape of what remains, None for an emptied context."""
            out = []
            for n in list.__iter__(ctx):
                if id(n) in kill: continue
                if n.is_token: out.append(n)
                else:
                    r = rest(n)
                    if r is not None: out.append((n, r))
            return out or None
        remain = [] if id(tree) in kill else (rest(tree) or [])
        def ids(l): return [id(x) if not isinstance(x, tuple) else (id(x[0]), ids(x[1])) for x in l]
        def real(ctx): return [id(n) if n.is_token else (id(n), real(n)) for n in list.__iter__(ctx)]
        wanted = ids(remain)
        if len(case["text"]) % 3 == 0 and len(want) == 1 and want[0].parent is not None:
            want[0].delete()
        else:
            q.delete()
        expect_eq(real(tree), wanted, "%r delete on %r" % (case["steps"], case["text"]))
        for c in [tree] + [n for n in nodes(tree) if n.is_context]:
            for n in list.__iter__(c):
                expect(n.parent is c, "parent after delete")
    return [case["steps"], len(want)] if want else None
