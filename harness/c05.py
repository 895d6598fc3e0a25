"""C05: position searches against linear scans."""
from base import *
import langgen, samples_util
from treeutil import *

RULE = ("random languages and texts with gaps; every position from 0 to the length + 2 is looked up in every context of the tree with "
        "every find method and compared with a linear scan; non-trivial: at least three tokens")
SHRINK = ("text",)

def gen(rng):
    if rng.random() < .1:
        return samples_util.gen_sample(rng, 150)
    return langgen.gen_case(rng)

def tree_of(case):
    from parce.treebuilder import build_tree
    if case["mode"] == "sample":
        return build_tree(samples_util.root_lexicon(case["lang"]), case["text"])
    return build_tree(langgen.build(case["spec"]).root, case["text"])

def trail_of(ctx, tok):
    r = []
    n = tok
    while n is not ctx:
        r.append(index_of(n)); n = n.parent
    return r[::-1]

def same(got, want, what, *args):
    expect(got is want, "%s%r: got %r, expected %r", what, args, got, want)

def check(case):
    from parce import treebuilderutil as tbu
    text = case["text"]
    tree = tree_of(case)
    ctxs = [tree] + [n for n in nodes(tree) if n.is_context]
    N = len(toks(tree))
    if len(ctxs) > 40: ctxs = ctxs[:40]
    for c in ctxs:
        ts = toks(c)
        same(c.first_token(), ts[0] if ts else None, "first_token")
        same(c.last_token(), ts[-1] if ts else None, "last_token")
        ch = list(list.__iter__(c))
        lo, hi = (0, len(text) + 2) if c is tree or len(text) < 60 else (max(0, c.pos - 2), c.end + 2)
        for pos in range(lo, hi + 1):
            i = next((i for i, n in enumerate(ch) if (toks(n)[-1] if n.is_context else n).end > pos), -1)
            expect_eq(c.find(pos), i, "find(%d)" % pos)
            i = max((i for i, n in enumerate(ch) if (toks(n)[0] if n.is_context else n).pos < pos), default=-1)
            expect_eq(c.find_left(pos), i, "find_left(%d)" % pos)
            t = next((t for t in ts if t.pos + len(t.text) > pos), None)
            same(c.find_token(pos), t, "find_token", pos)
            tok, trail = c.find_token_with_trail(pos)
            same(tok, t, "find_token_with_trail", pos)
            expect_eq(trail, trail_of(c, t) if t else None, "trail at %d" % pos)
            t = next((t for t in reversed(ts) if t.pos < pos), None)
            same(c.find_token_left(pos), t, "find_token_left", pos)
            tok, trail = c.find_token_left_with_trail(pos)
            same(tok, t, "find_token_left_with_trail", pos)
            expect_eq(trail, trail_of(c, t) if t else None, "left trail at %d" % pos)
            t = next((t for t in ts if t.pos >= pos), None)
            same(c.find_token_after(pos), t, "find_token_after", pos)
            t = next((t for t in reversed(ts) if t.pos + len(t.text) <= pos), None)
            same(c.find_token_before(pos), t, "find_token_before", pos)
            same(tbu.find_token_before(c, pos)[0] if isinstance(tbu.find_token_before(c, pos), tuple) else tbu.find_token_before(c, pos), t, "treebuilderutil.find_token_before", pos)
            # the youngest context that contains the position
            best = c
            again = True
            while again:
                again = False
                for n in list.__iter__(best):
                    if n.is_context and toks(n)[0].pos <= pos < toks(n)[-1].end:
                        best = n; again = True
                        break
            same(c.find_context(pos), best, "find_context", pos)
    # the token at a position of a document
    if text and len(text) < 80 and N:
        from parce import Document
        from parce.treebuilder import TreeBuilder
        from parce.work import Worker
        d = Document(tree.lexicon, text, worker=Worker(TreeBuilder(tree.lexicon)))
        ts = [(t.pos, t.end) for t in toks(d.get_root(True))]
        for pos in range(len(text) + 1):
            # that contains it, else that ends there, else the next one in the same block; nothing after the last token
            i = next((i for i, t in enumerate(ts) if t[1] > pos), None)
            if i is not None and ts[i][0] > pos:
                if i and ts[i - 1][1] == pos: i -= 1
                elif "\n" in text[pos:ts[i][0]]: i = None
            got = d.token(pos)
            if i is None and pos >= ts[-1][1]: continue      # after the last token
            expect((got and (got.pos, got.end)) == (None if i is None else ts[i]), "Document.token(%d): got %r, expected %r", pos, got, i is not None and ts[i])
    return N if N > 2 else None
