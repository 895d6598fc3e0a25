"""C15: transforming text, tree and edited document agree."""
from base import *
import langgen, samples_util, c08
from treeutil import *
from parce.transform import Transformer, Transform, Item, ItemList, add_untransformed, transform_text, transform_tree

RULE = ("random languages with a random Transform (methods for a random subset of the lexicons, some wanting untransformed contexts); the result of "
        "transforming the text, the tree (twice, and after an interrupt), and a document after each of 0-5 edits are compared with a direct recursion over a fresh tree; "
        "also the bundled languages' own Transforms; non-trivial: a transform method was called for a sub-context")
SHRINK = ("edits", "text")

def gen(rng):
    r = rng.random()
    if r < .12:
        import samples_util
        name = rng.choice(("example.json", "example.css", "example.xml", "example.html", "example.toml", "example.ini"))
        name = rng.choice([n for n in ("example.json", "example.css", "example.xml") if n in samples_util.LANGS])
        t = samples_util.text_of(name)
        c = {"mode": "sample", "lang": name, "text": samples_util.mutate(rng, t[:rng.randint(0, 400)])}
        c["edits"] = c08.gen_edits(rng, c["text"], rng.randint(1, 3), "{}()[]<>\"'\\#%/*&;:=\n a0")
    else:
        spec, text = langgen.gen_rich(rng, 60, want=8)
        c08.fix_language(spec)
        c = {"mode": "any", "spec": spec, "text": text, "edits": c08.gen_edits(rng, text, rng.randint(0, 5))}
        names = [l[0] for l in spec["lexicons"]]
        c["meths"] = {n: rng.choice((1, 1, 1, 2, 2, 0)) for n in names}     # 0: none, 1: plain, 2: wants untransformed
        if rng.random() < .95 and not c["meths"]["root"]: c["meths"]["root"] = rng.choice((1, 2))
        c["pos"] = rng.choice((0, 0, 0, 3))
        if len(names) > 2 and rng.random() < .3:
            spec["split"] = rng.randint(1, len(names) - 1)
        # what happens before an edit of the document: a new transformer, none, another root lexicon
        c["before"] = {str(rng.randint(0, 4)): rng.choice(("transformer", "none", "root0", "root1", "root2", "rootnone")) for _ in range(rng.choice((0, 0, 1, 2)))}
    return c

def conv(items):
    expect(type(items) is ItemList, "not an ItemList")
    out = []
    for i in items:
        if i.is_token:
            out.append(("T", i.text, i.action, i.group))
        elif i.name == "<untransformed>":
            out.append(("U", strip(i.obj)))
        else:
            out.append(("I", i.name, i.obj))
    return tuple(out)

def strip(ctx):
    return (ctx.lexicon, tuple(("T", n.text, n.action, n.group) if n.is_token else strip(n) for n in list.__iter__(ctx)))

HOOK = []

def interrupted(t, tree, after):
    """Transform the tree again, from an empty cache, and interrupt when a method is called for the given time."""
    for n in nodes(tree):
        if n.is_context: t.invalidate_node(n)
    log, calls = [], []
    for e in ("started", "updated", "finished"):
        t.connect(e, lambda *a, e=e: log.append(e))
    def hook():
        calls.append(1)
        if len(calls) == after: t.interrupt(tree)
    HOOK.append(hook)
    try: t.build(tree)
    finally: HOOK.clear()
    if len(calls) >= after:
        expect(log == ["started", "finished"], "interrupted: events %r", log)
    else:
        expect(log == ["started", "updated", "finished"], "not interrupted: events %r", log)

def make_transform(meths, names=None):
    ns = {}
    for name, kind in meths.items():
        if not kind or names is not None and name not in names: continue
        def meth(self, items, name=name):
            if HOOK: HOOK[0]()
            return (name, items.arg, conv(items))
        ns[name] = add_untransformed(meth) if kind == 2 else meth
    return type("TheTransform", (Transform,), ns)()

def direct(ctx, meths):
    """Direct reading: the value of the transform method for a context."""
    name = ctx.lexicon.name
    kind = meths.get(name, 0)
    if not kind: return None
    out = []
    for n in list.__iter__(ctx):
        if n.is_token:
            out.append(("T", n.text, n.action, n.group))
        elif meths.get(n.lexicon.name, 0):
            out.append(("I", n.lexicon.name, direct(n, meths)))
        elif kind == 2:
            out.append(("U", strip(n)))
    return (name, ctx.lexicon.arg, tuple(out))

def check(case):
    from parce.treebuilder import TreeBuilder, build_tree
    from parce.work import Worker
    import parce
    text = case["text"]
    sub = 0
    if case["mode"] == "sample":
        root = samples_util.root_lexicon(case["lang"])
        mk = Transformer
        want = lambda tree: Transformer().transform_tree(tree)
        same = lambda a, b: norm(a) == norm(b)
    else:
        ref = langgen.Ref(case["spec"])
        t = text
        for e in [None] + case["edits"]:
            if e: t = c08.apply(t, e)[0]
            if not ref.run(t)[1] or ref.leading_gap:
                raise Skip()
        lang = langgen.build(case["spec"])
        root = lang.root
        k = case["spec"].get("split")
        names = [l[0] for l in case["spec"]["lexicons"]]
        tf = make_transform(case["meths"], names[:k] if k else None)
        tf2 = k and make_transform(case["meths"], names[k:])
        def mk():
            t = Transformer(); t.add_transform(lang, tf)
            if k: t.add_transform(lang.other, tf2)
            return t
        want = lambda tree: direct(tree, case["meths"])
        same = lambda a, b: a == b
    tree = build_tree(root, text)
    w = want(tree)
    def eq(got, w, what):
        if not same(got, w):
            raise Violation("%s: text %r: got %r, expected %r" % (what, text, clip(got), clip(w)))
    t = mk()
    eq(t.transform_tree(tree), w, "transform_tree")
    eq(t.transform_tree(tree), w, "transform_tree again")
    t.build(tree)
    eq(t.result(tree), w, "result")
    if case["mode"] == "any":
        interrupted(t, tree, 1 + len(text) % 4)
        eq(t.result(tree), w, "result after an interrupt")
        t.build(tree)
        eq(t.result(tree), w, "result after an interrupt, completed")
    eq(mk().transform_text(root, text), w, "transform_text")
    if case["mode"] == "any" and not k:
        eq(transform_tree(tree, tf), w, "function transform_tree")
        eq(transform_text(root, text, tf), w, "function transform_text")
        p = case.get("pos", 0)
        if p and p <= len(text) and ref.run(text, p)[1]:
            tree2 = build_tree(root, text, p)
            eq(mk().transform_text(root, text, p), direct(tree2, case["meths"]), "transform_text from %d" % p)
    elif case["mode"] != "any":
        eq(transform_text(root, text), w, "function transform_text")
    # document
    b = TreeBuilder(root)
    d = parce.Document(root, "", worker=Worker(b), transformer=mk())
    log = []
    d.worker().connect("transform_finished", lambda: log.append(1))
    d.set_text(text)
    if text:
        eq(d.get_transform(True), w, "document")
        expect(log, "transform_finished not emitted")
    b2 = TreeBuilder(root)
    t2 = mk()
    t2.connect_treebuilder(b2)
    b2.rebuild(text)
    eq(t2.result(b2.root), w, "connected transformer")
    split = case["mode"] == "any" and k
    droot = root
    for j, e in enumerate(case["edits"]):
        old = text
        text, s, r, a = c08.apply(text, e)
        if text == old: continue
        log.clear()
        todo = case.get("before", {}).get(str(j), "")
        root2 = False
        if todo == "transformer":
            d.set_transformer(mk())
            eq(d.get_transform(True), want(build_tree(droot, old)) if droot else None, "document with new transformer")
        elif todo == "none":
            d.set_transformer(None)
            expect(d.get_transform(True) is None, "a result without transformer")
        elif todo.startswith("root"):
            if todo == "rootnone": root2 = None
            else:
                n = names[int(todo[4:]) % len(names)]
                root2 = getattr(lang if not split or names.index(n) < split else lang.other, n)
                rr = langgen.Ref(case["spec"])
                if not rr.run(old, 0, [(n, None)])[1] or not rr.run(text, 0, [(n, None)])[1] or rr.leading_gap: raise Skip()
            droot = root2
            d.set_root_lexicon(root2)
            expect(d.root_lexicon() is root2, "root lexicon not set")
            eq(d.get_transform(True), want(build_tree(droot, old)) if droot and d.transformer() else None, "document with other root lexicon")
            b2.rebuild(old, root2)
        if droot is not root:
            rr = langgen.Ref(case["spec"])
            if droot and (not rr.run(text, 0, [(droot.name, None)])[1] or rr.leading_gap): raise Skip()
        d[s:s + r] = e[2]
        b2.rebuild(text, False, s, r, a)
        w = want(build_tree(droot, text)) if droot else None
        eq(d.get_transform(True), w if d.transformer() else None, "document after edit %d" % j)
        if todo == "none":
            t3 = mk(); d.set_transformer(t3)
            expect(d.transformer() is t3, "transformer not set")
            eq(d.get_transform(True), w, "document with transformer set again")
        expect(log, "transform_finished not emitted after edit %d", j)
        eq(t2.result(b2.root), w, "connected transformer after edit %d" % j)
    n = sum(1 for x in nodes(tree) if x.is_context)
    return [n] if n and w is not None else None

def norm(o):
    """Comparable form of the results of the bundled transforms."""
    if isinstance(o, (str, int, float, bool, type(None))): return repr(o)
    if isinstance(o, dict): return ("d", tuple((norm(k), norm(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)): return (type(o).__name__, tuple(norm(x) for x in o))
    if hasattr(o, "text") and hasattr(o, "action"): return ("T", o.text, repr(o.action))
    d = {}
    for c in type(o).__mro__:
        for s in getattr(c, "__slots__", ()) or ():
            if isinstance(s, str) and hasattr(o, s) and s not in ("__weakref__", "parent", "_parent"): d[s] = getattr(o, s)
    d.update(getattr(o, "__dict__", {}))
    return (type(o).__name__, tuple((k, norm(v)) for k, v in sorted(d.items()) if "parent" not in k))
