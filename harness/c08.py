"""C08: incremental rebuild equals building from scratch."""
from base import *
import langgen, samples_util
from treeutil import *

RULE = ("random languages with bounded look-around, sequences of 1-6 edits at random positions (single, collected before one update, or "
        "arriving during a build); after each update the tree is compared with a fresh build; non-trivial: at least three tokens")
SHRINK = ("edits",)

def gen_edits(rng, text, n, alphabet=langgen.ALPHABET):
    edits = []
    cur = len(text)
    near = rng.random() < .4
    for _ in range(n):
        pos = rng.randint(0, cur)
        if near and edits:
            pos = max(0, min(cur, edits[-1][0] + rng.randint(-25, 40)))
        rem = min(cur - pos, rng.choice((0, 0, 1, 1, 2, 3, 8)))
        add = "".join(rng.choice(alphabet) for _ in range(rng.choice((0, 1, 1, 2, 3, 8))))
        cur += len(add) - rem
        edits.append([pos, rem, add])
    return edits

def gen(rng):
    r = rng.random()
    mode = rng.choice(("step", "step", "batch", "inject", "inject", "lexicon", "doc"))
    if r < .15:
        c = samples_util.gen_sample(rng, 300)
        c["edits"] = gen_edits(rng, c["text"], rng.randint(1, 4), "{}()[]<>\"'\\#%/*&;:=\n a0")
    else:
        long = rng.random() < .35
        spec, text = langgen.gen_rich(rng, 60, want=8, fix=fix_language)
        if long:
            # many tokens, so that a rebuild starts in the middle
            text = "".join(rng.choice((text, langgen.gen_text(rng, 60))) for _ in range(rng.randint(2, 5)))[:260]
        c = {"mode": "any", "spec": spec, "text": text, "edits": gen_edits(rng, text, rng.randint(1, 5))}
    c["how"] = mode
    c["at"] = rng.randint(0, rng.choice((5, 20, 60)))
    # changes that also set the root lexicon, by number of the edit
    c["roots"] = {str(rng.randint(0, 4)): rng.randint(0, 5)} if mode in ("batch", "inject", "doc") and rng.random() < .3 else {}
    return c

LOOKBEHIND = ("(?<=a)b", "\\bb", "^a")
UNBOUNDED = ("(a)(\\s*)(b)",)

def fix_language(spec):
    """Only rules with bounded look-ahead, and every rule recognisable by its action."""
    for name, d in spec["lexicons"]:
        d["rules"] = [r for r in d["rules"] if r[0] not in UNBOUNDED]
        for i, r in enumerate(d["rules"]):
            if r[0] in LOOKBEHIND:
                r[1] = "Name.B%d" % i

def apply(text, e):
    pos = min(e[0], len(text)); rem = min(e[1], len(text) - pos)
    return text[:pos] + e[2] + text[pos+rem:], pos, rem, len(e[2])

class Inject(list):
    """A change list in which a change turns up at the n-th look."""
    def __init__(self, n, pending):
        super().__init__(); self.n, self.pending = n, pending
    def __bool__(self):
        self.n -= 1
        if self.n < 0 and self.pending:
            self.append(self.pending.pop(0)); self.n = 3
        return len(self) > 0

def check(case):
    from parce.treebuilder import TreeBuilder, build_tree
    from parce.lexer import Lexer
    text = case["text"]
    if case["mode"] == "sample":
        root = samples_util.root_lexicon(case["lang"])
    else:
        ref = langgen.Ref(case["spec"])
        t = text
        for e in [None] + case["edits"]:
            if e: t = apply(t, e)[0]
            if not ref.run(t)[1] or ref.leading_gap:
                raise Skip()
            if (case["how"] == "lexicon" or case["roots"]) and not all(ref.run(t, 0, [(l[0], a)])[1] for l in case["spec"]["lexicons"] for a in ((None, "ab", "b") if l[0] == "root" else (None,))):
                raise Skip()
        lang = langgen.build(case["spec"])
        root = lang.root
    orig = root
    b = TreeBuilder(root)
    b.rebuild(text)
    N = 0
    def compare(what):
        nonlocal N
        fresh = build_tree(root, text)
        if shape_ids(b.root) != shape_ids(fresh):
            raise Violation("%s: text %r: incremental tree differs from fresh tree\n%s\n%s" % (what, text, show(b.root), show(fresh)))
        check_wellformed(b.root, text)
        if root is None:
            expect(b.root.lexicon is None and len(b.root) == 0, "no root lexicon, but a tree")
            return
        lx = Lexer([root]); list(lx.events(text))
        got = b.lexicons
        expect(len(got) == len(lx.lexicons) - 1 and all(x is y for x, y in zip(got, lx.lexicons[1:])),
               "%s: open lexicons %r, expected %r", what, got, lx.lexicons[1:])
        N = max(N, len(toks(fresh)))
    def new_root(n):
        other = [orig, None]
        if case["mode"] == "any":
            other = [orig("ab"), orig("b"), None] + [getattr(lang, l[0]) for l in case["spec"]["lexicons"]]
        return other[n % len(other)]
    def how_ok(text, root):
        """The text is within the property's domain."""
        if case["mode"] != "any" or root is None: return True
        st = [(root.name, root.arg)]
        return ref.run(text, 0, st)[1] and not ref.leading_gap
    compare("first build")
    edits = case["edits"]
    how = case["how"]
    if how in ("step", "lexicon"):
        for k, e in enumerate(edits):
            text, s, r, a = apply(text, e)
            if how == "lexicon" and k == 1:
                other = [root, None]
                if case["mode"] == "any":
                    other = [root("ab"), root("b"), None] + [getattr(lang, l[0]) for l in case["spec"]["lexicons"]]
                root = other[case["at"] % len(other)]
                b.rebuild(text, root)
            elif how == "lexicon" and k == 3:
                root = orig
                b.rebuild(text, root)
            else:
                b.rebuild(text, False, s, r, a)
            compare("edit %d" % k)
    elif how == "doc":
        from parce import Document
        from parce.work import Worker
        if not text: raise Skip()
        d = Document(root, text, worker=Worker(TreeBuilder(root)))   # no threads: those are property C25
        b = d.builder()
        d.get_root(True)
        compare("first build of the document")
        expect(d.get_root(True) is b.root, "root of the document")
        for k, e in enumerate(edits):
            if str(k) in case["roots"]:
                root = new_root(case["roots"][str(k)])
                d.set_root_lexicon(root)
            new, s, r, a = apply(text, e)
            if k % 2 or k + 1 == len(edits):
                d[s:s+r] = e[2]
            else:
                with d:
                    d[s:s+r] = e[2]
                    if s + r < len(text) and len(text) < 200:
                        d[len(text):] = e[2]      # a second edit at the end
                        new += e[2]
            text = new
            expect_eq(d.text(), text, "text of the document")
            d.get_root(True)
            if how_ok(text, root):
                compare("document edit %d" % k)
            else:
                raise Skip()
            expect(d.get_root() is b.root and d.get_root(True) is b.root, "root of the document")
            expect([id(x) for x in d.open_lexicons()] == [id(x) for x in b.lexicons], "open lexicons of the document")
    elif how == "batch":
        root_changes = []
        for k, e in enumerate(edits):
            text, s, r, a = apply(text, e)
            rl = False
            if str(k) in case["roots"]:
                rl = root = new_root(case["roots"][str(k)])
            if k + 1 < len(edits):
                b.add_changes(text, rl, s, r, a)
            else:
                b.rebuild(text, rl, s, r, a)
        compare("collected edits")
    else:
        pending = []
        for k, e in enumerate(edits):
            text, s, r, a = apply(text, e)
            rl = False
            if str(k) in case["roots"]:
                rl = root = new_root(case["roots"][str(k)])
            pending.append((text, rl, s, r, a))
        if pending:
            b.changes = Inject(case["at"], pending[1:])
            b.rebuild(*pending[0])
            while b.changes.pending:
                b.rebuild(*b.changes.pending.pop(0))
        b.changes = []
        compare("edits during build")
    return N if N > 2 else None

def show(ctx):
    import io
    f = io.StringIO()
    ctx.dump(f)
    return f.getvalue()[:1500]
