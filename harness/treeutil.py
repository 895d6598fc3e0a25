"""Linear-scan oracles on trees."""
from base import expect, expect_eq, Violation

def toks(ctx):
    """All tokens of the context, by plain recursion over the lists."""
    out = []
    def walk(c):
        for n in list.__iter__(c):
            if n.is_token: out.append(n)
            else: walk(n)
    walk(ctx)
    return out

def nodes(ctx):
    """All descendants in document order (context before its children)."""
    out = []
    def walk(c):
        for n in list.__iter__(c):
            out.append(n)
            if not n.is_token: walk(n)
    walk(ctx)
    return out

def stack_of(node):
    """Lexicons of the contexts from the root to the node's parent."""
    r = []
    n = node.parent
    while n is not None:
        r.append(n.lexicon)
        n = n.parent
    return r[::-1]

def index_of(node):
    for i, n in enumerate(list.__iter__(node.parent)):
        if n is node: return i
    raise Violation("node not in its parent")

def check_wellformed(root, text=None, is_root=True):
    """Structure, parents, groups, positions."""
    if is_root:
        expect(root.parent is None, "root has a parent")
    last = 0
    def walk(ctx):
        nonlocal last
        expect(ctx.is_context and not ctx.is_token, "context kind")
        group = None
        for n in list.__iter__(ctx):
            expect(n.parent is ctx, "parent of %r is not the containing context", n)
            if n.is_context:
                expect(group is None, "group interrupted by a context")
                expect(len(n) > 0, "empty context in the tree")
                walk(n)
                continue
            expect(isinstance(n.text, str) and n.text != "", "empty token")
            expect(n.pos >= last, "token %r before the end of the previous one", n)
            expect_eq(n.end, n.pos + len(n.text), "end of token")
            last = n.pos + len(n.text)
            if text is not None:
                expect_eq(text[n.pos:n.end], n.text, "text of token at %d" % n.pos)
            g = n.group
            if g is None:
                expect(group is None, "group not finished before %r", n)
            elif group is None:
                expect_eq(g, 0, "first group number")
                group = 0
            else:
                group += 1
                expect(abs(g) == group and g != 0, "group number %r, expected +-%d", g, group)
                if g < 0: group = None
        expect(group is None, "group not finished at end of context")
    walk(root)
    for c in [root] + [n for n in nodes(root) if n.is_context]:
        t = toks(c)
        if t:
            expect_eq(c.pos, t[0].pos, "pos of context")
            expect_eq(c.end, t[-1].pos + len(t[-1].text), "end of context")

def shape(ctx, lex=True):
    """Nested tuple describing the tree."""
    return (ctx.lexicon if lex else None, tuple(
        (n.pos, n.text, n.action, n.group) if n.is_token else shape(n, lex) for n in list.__iter__(ctx)))

def shape_ids(ctx):
    return (id(ctx.lexicon), tuple(
        (n.pos, n.text, n.action, n.group) if n.is_token else shape_ids(n) for n in list.__iter__(ctx)))
