"""C04: the tree mirrors the event stream."""
from base import *
import langgen, samples_util
from treeutil import *

RULE = ("random languages and texts (and mutated samples of bundled languages): the tree of build_tree, TreeBuilder and parce.root is "
        "compared token by token with the events and stacks of a reference lexer; non-trivial: at least two tokens")
SHRINK = ("text",)

def gen(rng):
    if rng.random() < .15:
        return samples_util.gen_sample(rng)
    return langgen.gen_case(rng)

def check(case):
    import parce
    from parce.lexer import Lexer
    from parce.treebuilder import build_tree, TreeBuilder
    from parce.tree import Context, Token, GroupToken, make_tokens
    text = case["text"]
    if case["mode"] == "sample":
        root = samples_util.root_lexicon(case["lang"]); want = None
    else:
        want, complete = langgen.Ref(case["spec"]).run(text)
        root = langgen.build(case["spec"]).root
    lexer = Lexer([root])
    events = [(list(lexer.lexicons), e.lexemes) for e in lexer.events(text)]
    tree = build_tree(root, text)
    shapes = shape_ids(tree)
    check_wellformed(tree, text)
    expect(tree.lexicon is root, "root lexicon")
    expect_eq(shape_ids(parce.root(root, text)), shapes, "parce.root")
    expect_eq(shape_ids(TreeBuilder(root).tree(text)), shapes, "TreeBuilder.tree")
    b = TreeBuilder(root); b.rebuild(text)
    expect_eq(shape_ids(b.root), shapes, "TreeBuilder.rebuild")
    check_wellformed(b.root, text)
    # tokens and their contexts
    tl = toks(tree)
    k = 0
    for n, (stack, lexemes) in enumerate(events):
        expect(k + len(lexemes) <= len(tl), "tree has fewer tokens than the events have lexemes")
        if want is not None and n < len(want):
            expect_eq([(l.name, l.arg) for l in stack], list(want[n][0]), "active lexicons at event %d" % n)
        first = tl[k]
        for g, (p, t, a) in enumerate(lexemes):
            tok = tl[k]; k += 1
            expect(tok.pos == p and tok.text == t and tok.action is a or tok.action == a, "token %r for lexeme %r", tok, (p, t, a))
            expect((tok.pos, tok.text) == (p, t), "token %r for lexeme %r", tok, (p, t, a))
            st = stack_of(tok)
            expect(len(st) == len(stack) and all(x is y for x, y in zip(st, stack)), "contexts of %r are %r, active lexicons %r", tok, st, stack)
            expect(tok.parent is first.parent, "tokens of one event in different contexts")
            if len(lexemes) == 1:
                expect(tok.group is None, "single token has a group number")
            else:
                expect_eq(tok.group, g if g < len(lexemes) - 1 else -g, "group number")
                expect(isinstance(tok, GroupToken), "group token type")
                i = index_of(tok) - g
                grp = [tok.parent[i + j] for j in range(len(lexemes))]
                got = tok.get_group()
                expect(len(got) == len(grp) and all(x is y for x, y in zip(got, grp)), "get_group")
                expect(tok.get_group_start() is grp[0], "get_group_start")
                expect(tok.get_group_end() is grp[-1], "get_group_end")
    expect_eq(k, len(tl), "number of tokens")
    # a popped context is never continued: siblings contexts are separate; each context's children are contiguous
    return k if k > 1 else None
