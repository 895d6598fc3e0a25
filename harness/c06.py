"""C06: navigation in document order."""
from base import *
import langgen, samples_util
from treeutil import *
from c05 import tree_of, trail_of

RULE = ("random trees; every node (and pairs of nodes) is navigated from in every direction and compared with the recursive listing of "
        "the tree; copies are compared and mutated; non-trivial: at least three tokens")
SHRINK = ("text",)

def gen(rng):
    if rng.random() < .08:
        c = samples_util.gen_sample(rng, 120)
    else:
        c = langgen.gen_case(rng)
    c["pick"] = rng.randint(0, 10**9)
    return c

def ids(x): return [id(n) for n in x]
def seq(got, want, what, *a):
    got = list(got)
    expect(ids(got) == ids(want), "%s%r: got %r, expected %r", what, a, got[:10], want[:10])
def same(got, want, what, *args):
    expect(got is want, "%s%r: got %r, expected %r", what, args, got, want)

def check(case):
    import random
    from parce import util
    from parce import treebuilderutil as tbu
    from parce.tree import Context, Token
    rng = random.Random(case["pick"])
    tree = tree_of(case)
    allt = toks(tree)
    alln = nodes(tree)
    seq(tree.tokens(), allt, "tokens")
    seq(tree.tokens(True), allt[::-1], "tokens reversed")
    seq(util.tokens(list(tree)), allt, "util.tokens")
    seq(util.tokens(list(tree), True), allt[::-1], "util.tokens reversed")
    def height(c): return 0 if not len(c) else 1 + max((height(n) for n in list.__iter__(c) if n.is_context), default=0)
    expect_eq(tree.height(), height(tree), "height")
    expect(tree.is_root() and tree.root() is tree and tree.depth() == 0, "root of the root")
    where = {id(n): k for k, n in enumerate(alln)}
    order = {id(t): k for k, t in enumerate(allt)}
    sel = alln if len(alln) <= 25 else rng.sample(alln, 25)
    for n in sel:
        i = index_of(n)
        expect_eq(n.parent_index(), i, "parent_index")
        sib = list(list.__iter__(n.parent))
        anc = []
        p = n.parent
        while p is not None: anc.append(p); p = p.parent
        seq(n.ancestors(), anc, "ancestors")
        expect_eq(n.depth(), len(anc), "depth")
        same(n.root(), tree, "root")
        got = list(n.ancestors_with_index())
        child = [n] + anc[:-1]
        expect(ids(a for a, _ in got) == ids(anc) and [k for _, k in got] == [index_of(c) for c in child], "ancestors_with_index")
        got = list(tbu.ancestors_with_index(n))
        expect_eq(n.is_first(), i == 0, "is_first"); expect_eq(n.is_last(), i == len(sib) - 1, "is_last")
        same(n.left_sibling(), sib[i-1] if i else None, "left_sibling")
        same(n.right_sibling(), sib[i+1] if i + 1 < len(sib) else None, "right_sibling")
        seq(n.left_siblings(), sib[:i][::-1], "left_siblings")
        seq(n.right_siblings(), sib[i+1:], "right_siblings")
        mine = toks(n) if n.is_context else [n]
        a, b = order[id(mine[0])], order[id(mine[-1])]
        seq(n.forward(), allt[b+1:], "forward"); seq(n.backward(), allt[:a][::-1], "backward")
        if n.is_token: seq((x[0] if isinstance(x, tuple) else x for x in tbu.backward(n)), allt[:a][::-1], "treebuilderutil.backward")
        same(n.next_token(), allt[b+1] if b + 1 < len(allt) else None, "next_token")
        same(n.previous_token(), allt[a-1] if a else None, "previous_token")
        for up in rng.sample(anc, min(len(anc), 3)):
            inside = toks(up)
            e = order[id(inside[-1])]; s = order[id(inside[0])]
            seq(n.forward(up), allt[b+1:e+1], "forward(upto)")
            seq(n.backward(up), allt[s:a][::-1], "backward(upto)")
            seq(n.ancestors(up), anc[:[id(x) for x in anc].index(id(up)) + 1], "ancestors(upto)")
            if n.is_token:
                seq(n.forward_including(up), [n] + allt[b+1:e+1], "forward_including(upto)")
                seq(n.backward_including(up), [n] + allt[s:a][::-1], "backward_including(upto)")
        if n.is_token:
            seq(n.forward_including(), allt[a:], "forward_including")
            seq(n.backward_including(), allt[:a+1][::-1], "backward_including")
            expect(n == n.text and not (n != n.text) and n == n and len(n) == len(n.text) and "{}".format(n) == n.text, "token as string")
        else:
            seq(n.tokens(), mine, "tokens"); seq(n.tokens(True), mine[::-1], "tokens reversed")
            expect_eq(n.height(), height(n), "height")
            expect(n == n.lexicon and n == n, "context equality")
    for _ in range(12):
        if not alln: break
        x, y = rng.choice(alln + [tree]), rng.choice(alln)
        ax = [x] if x.is_context else []
        p = x.parent
        while p is not None: ax.append(p); p = p.parent
        ay = [y] if y.is_context else []
        p = y.parent
        while p is not None: ay.append(p); p = p.parent
        want = next(c for c in ax if any(c is d for d in ay))
        same(x.common_ancestor(y), want, "common_ancestor")
        same(y.common_ancestor(x), want, "common_ancestor")
        py = []
        p = y.parent
        while p is not None: py.append(p); p = p.parent
        expect_eq(x.is_ancestor_of(y), any(x is d for d in py), "is_ancestor_of")
    for _ in range(12):
        if not allt: break
        x, y = rng.choice(allt), rng.choice(allt)
        c, t1, t2 = x.common_ancestor_with_trail(y)
        if x is y or x.pos < y.pos:
            want = x.common_ancestor(y)
            same(c, want, "common_ancestor_with_trail")
            expect_eq([list(t1), list(t2)], [trail_of(want, x), trail_of(want, y)], "trails")
            seq(x.forward_until_including(y), allt[order[id(x)]:order[id(y)]+1], "forward_until_including")
            seq(x.range(y).tokens(), allt[order[id(x)]:order[id(y)]+1], "token range")
        else:
            expect(c is None and t1 is None and t2 is None, "trail of a preceding token")
            seq(x.forward_until_including(y), [], "forward_until_including")
        st = [id(l) for l in stack_of(x)] == [id(l) for l in stack_of(y)]
        expect_eq(x.equals(y), x.text == y.text and x.action == y.action and st, "equals")
        expect_eq(x.state_matches(y), st, "state_matches")
    # copies
    s = shape_ids(tree)
    cp = tree.copy()
    expect_eq(shape_ids(cp), s, "copy"); check_wellformed(cp, case["text"])
    mine = {id(n) for n in alln} | {id(tree)}
    expect(not any(id(n) in mine for n in nodes(cp) + [cp]), "copy shares nodes")
    for t1, t2 in zip(allt, toks(cp)):
        expect(t1.equals(t2) and t2.equals(t1), "copied token is not equal")
        expect(not (t1 == t2) and type(t1) is type(t2), "token identity")
    if alln:
        sub = [n for n in alln if n.is_context]
        if sub:
            n = rng.choice(sub)
            c2 = n.copy(tree)
            expect(c2.parent is tree and shape_ids(c2) == shape_ids(n), "copy of a sub-context"); check_wellformed(c2, case["text"], False)
        # deleting from the copy
        for _ in range(3):
            ns = nodes(cp)
            if not ns: break
            n = rng.choice(ns)
            rest = [t for t in toks(cp) if not any(t is q for q in (toks(n) if n.is_context else [n]))]
            wantp = n.parent
            while wantp is not None and len(toks(wantp)) == len(toks(n) if n.is_context else [n]): wantp = wantp.parent
            r = n.delete()
            seq(toks(cp), rest, "tokens after delete")
            same(r, wantp, "delete() result")
            for q in nodes(cp):
                expect(q.parent is not None and (q.is_token or len(q)), "delete leaves an empty context")
        expect_eq(shape_ids(tree), s, "the original after changing the copy")
    # equality with another tree
    if allt and len(allt) > 1:
        cp = tree.copy(); ct = toks(cp)
        k = rng.randrange(len(allt))
        ct[k].text += "x"
        expect(not allt[k].equals(ct[k]), "equals with different text")
    return len(allt) if len(allt) > 2 else None
