"""C07: ranges of trees."""
from base import *
import langgen, samples_util
from treeutil import *
from c05 import tree_of

RULE = ("random trees; ranges for (all or sampled) start/end pairs in every context: tokens, slices, replayed targets compared with the "
        "overlapping tokens of a linear scan; non-trivial: at least three tokens")
SHRINK = ("text",)

def gen(rng):
    if rng.random() < .08:
        c = samples_util.gen_sample(rng, 120)
    else:
        c = langgen.gen_case(rng)
    c["pick"] = rng.randint(0, 10**9)
    return c

def check_range(c, start, end, ts):
    from parce.target import TargetFactory
    from parce.tree import Range
    want = [t for t in ts if t.end > start and (end is None or t.pos < end)]
    if end is not None and end <= start: want = [] if want == [] else None   # an empty range inside a token: see below
    r = c.range(start, end)
    if want is None:
        # (an empty or reversed range has no tokens)
        want = []
    got = list(r.tokens()) if r is not None else []
    expect([id(t) for t in got] == [id(t) for t in want], "range(%r, %r): got %r, expected %r", start, end, got, want)
    if r is None:
        return
    if want:
        expect_eq(r.pos, want[0].pos, "pos of range"); expect_eq(r.end, want[-1].end, "end of range")
    n = r.ancestor
    a = n
    while a is not None and a is not c: a = a.parent
    expect(a is c, "ancestor of the range is outside the context")
    # slices reproduce the tokens and, replayed from the start, the stack
    f = TargetFactory()
    got = []
    stack = None
    for ctx, sl in r.slices(f):
        t = f.get()
        st = stack_of(ctx) + [ctx.lexicon]
        if stack is None:
            # the lexicons of the start context
            m = r.ancestor
            for i in r.start_trail[:-1]: m = list.__getitem__(m, i)
            stack = stack_of(m) + [m.lexicon]
            first = t
        if t is not None:
            expect(-t.pop < len(stack), "range target leaves the root")
            stack = (stack[:len(stack) + t.pop] if t.pop else stack) + list(t.push)
        expect(len(stack) == len(st) and all(x is y for x, y in zip(stack, st)), "replayed lexicons %r, actual %r", stack, st)
        for node in list.__getitem__(ctx, sl):
            expect(node.parent is ctx, "slice of a foreign context")
            got.extend(toks(node) if node.is_context else [node])
    expect([id(t) for t in got] == [id(t) for t in want], "slices of range(%r, %r)", start, end)

def check(case):
    import random
    rng = random.Random(case["pick"])
    tree = tree_of(case)
    ctxs = [tree] + [n for n in nodes(tree) if n.is_context]
    N = len(toks(tree)); L = len(case["text"])
    for c in (ctxs if len(ctxs) < 4 else [tree] + rng.sample(ctxs[1:], 3)):
        ts = toks(c)
        pairs = [(s, e) for s in range(0, L + 2) for e in list(range(0, L + 3)) + [None]]
        if len(pairs) > 250: pairs = rng.sample(pairs, 250)
        for s, e in pairs:
            check_range(c, s, e, ts)
    return N if N > 2 else None
