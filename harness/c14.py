"""C14: formatting keeps the text intact."""
import html, re
from base import expect, expect_eq, Skip, rnd_text
import langgen, samples_util
from treeutil import toks
import parce
from parce import Language, lexicon, Document, Cursor
import parce.action as A
from parce import util
from parce.formatter import Formatter, SimpleFormatter, FormatRange, FormatContext
from parce.theme import Theme, css_class
from parce.out.html import HtmlFormatter, SimpleHtmlFormatter

RULE = ("trees of random languages, of three nested languages with own themes, and of (mutated) samples of the bundled languages; random regions; "
        "formatters with and without base format, unparsed format and several themes; HTML output; random ordered streams for smoothing and clipping; "
        "non-trivial: some range was formatted")
SHRINK = ("text", "stream")

class LA(Language):
    @lexicon
    def root(cls):
        yield "[a-c]", A.Text
        yield "[d-f]+", A.Keyword
        yield "[x-z]", A.Comment
        yield r"\(", A.Delimiter, LB.root
        yield r"\[", A.Delimiter, LC.root
        yield r"\{", A.Delimiter, cls.root
        yield r"[])}]", A.Delimiter, -1
        yield r"<>", A.Delimiter, LB.root, -1, LC.root

class LB(LA):
    @lexicon
    def root(cls):
        yield "[a-f]", A.String
        yield from LA.root()

class LC(LA):
    @lexicon
    def root(cls):
        yield "b+", A.Number
        yield r"!", A.Escape, -2
        yield from LA.root()

def _root(cls):
    return cls.root

SHEETS = [
    ".parce .text { color: #111111; } .parce .keyword { font-weight: bold; } .parce .delimiter { color: #222222; } .parce { color: #000; }",
    ".parce .text { color: #333333; } .parce .literal { color: #444444; } .parce .comment { font-style: italic; } .parce .delimiter {color: #333333; }",
    ".parce .string { color: #555555; } .parce .text { color: #555555 } .parce { background: #fafafa; color: #010101; }",
    ".parce .text { color: #333333; } ._unparsed { color: #999999; }",
    ".parce { } .parce .delimiter { color: red }",
    "",
]
_themes = {}
def theme(i):
    if i not in _themes:
        _themes[i] = Theme(stylesheet=SHEETS[i])
    return _themes[i]

def gen(rng):
    r = rng.random()
    if r < 0.15:
        stream, p = [], rng.randint(0, 3)
        for _ in range(rng.randint(0, 8)):
            p += rng.choice((0, 0, 0, 1, 2))
            e = p + rng.randint(1, 4)
            stream.append([p, e, rng.choice(("a", "a", "b"))])
            p = e
        lo = stream[0][0] if stream else 0
        hi = stream[-1][1] if stream else 5
        return {"mode": "stream", "stream": stream, "start": rng.choice((0, lo, lo + (1 if stream and stream[0][1] > lo + 1 else 0))),
                "end": rng.choice((None, hi, max(lo + 1, hi - 1)))}
    def region(n):
        if rng.random() < .3: return [0, None]
        s = rng.randint(0, n)
        return [s, rng.choice((None, rng.randint(s, n), rng.randint(s, n), n))]
    fm = {"base": rng.choice((0, 1)), "themes": [rng.randrange(len(SHEETS)), *(rng.choice((None, None, *range(len(SHEETS)))) for _ in range(3))], "bases": [rng.random() < .3 for _ in range(3)]}
    if r < 0.5:
        t = rnd_text(rng, "aabbcdfxz12 ()[]{}!<>\n&", 24)
        if rng.random() < .3: t = t.replace("<", "<>")
        return {"mode": "abc", "text": t, "region": region(len(t)), "fm": fm}
    if r < 0.8:
        c = langgen.gen_case(rng, 30)
        while c.get("mode") == "sample" or "spec" not in c:
            c = langgen.gen_case(rng, 30)
        c["mode"] = "lang"
        c["region"] = region(len(c["text"])); c["fm"] = fm
        return c
    c = samples_util.gen_sample(rng, 300)
    c["region"] = region(len(c["text"])); c["fm"] = fm
    return c

def cover(items):
    """position -> payload"""
    d = {}
    for p, e, *rest in items:
        for i in range(p, e):
            expect(i not in d, "position %d covered twice", i)
            d[i] = tuple(rest)
    return d

def ordered(items, start, end):
    last = start
    for p, e, *rest in items:
        expect(p < e, "empty range %r", (p, e))
        expect(p >= last, "range %r not after %d", (p, e), last)
        last = e
    expect(end is None or last <= end, "range beyond the region: %d > %r", last, end)

def check(case):
    m = case["mode"]
    if m == "stream":
        st = [tuple(x) for x in case["stream"]]
        ordered(st, 0, None)
        got = list(util.merge_adjacent(iter(st)))
        ordered(got, 0, None)
        expect_eq(cover(got), cover(st), "merge_adjacent")
        for a, b in zip(got, got[1:]):
            expect(a[1] != b[0] or a[2:] != b[2:], "not merged: %r %r", a, b)
        expect(all(type(g) is tuple for g in got), "not tuples")
        got = list(util.merge_adjacent(iter(st), FormatRange))
        expect(all(type(g) is FormatRange for g in got), "factory not used")
        s, e = case["start"], case["end"]
        if st and (s >= st[0][1] or e is not None and e <= st[-1][0]): raise Skip()
        got = list(util.fix_boundaries(iter(st), s, e))
        c = cover(st)
        expect_eq(cover(got), {k: v for k, v in c.items() if k >= s and (e is None or k < e)}, "fix_boundaries(%r, %r)" % (s, e))
        expect_eq(len(got), len(st), "fix_boundaries: items")
        return ["stream", len(st)] if st else None
    text = case["text"]
    if m == "abc":
        lex = LA.root
    elif m == "sample":
        lex = samples_util.root_lexicon(case["lang"])
    else:
        lex = langgen.build(case["spec"])
        lex = getattr(lex, "root", lex)
    d = Document(lex, text)
    tree = d.get_root(True)
    all_toks = toks(tree)
    start, end = case["region"]
    hi = len(text) if end is None else end
    langs = {"abc": [LA, LB, LC]}.get(m, [])
    if m == "sample" and case["lang"] == "example.html":
        from parce.lang.css import Css
        from parce.lang.javascript import JavaScript
        from parce.lang.html import Html
        langs = [Css, JavaScript, Html]
    fm = case["fm"]
    themes = {None: (theme(fm["themes"][0]), bool(fm["base"]))}
    for lang, i, b in zip(langs, fm["themes"][1:], fm["bases"]):
        if i is not None: themes[lang] = (theme(i), b)
    f = Formatter(None, lambda tf: tf.css_properties() and tuple(sorted(tf.css_properties().items())) or None)
    for lang, (th, b) in themes.items():
        f.add_theme(th, lang, b)
    conv = lambda tf: tuple(sorted(tf.css_properties().items())) or None
    def fmt(tok):
        th, b = themes.get(tok.parent.lexicon.language, themes[None])
        if b: return conv(th.baseformat() + th.textformat(tok.action))
        return conv(th.textformat(tok.action))
    unparsed = conv(themes[None][0].textformat(parce.formatter._Unparsed))
    bases = {conv(th.baseformat()) for th, b in themes.values() if b}
    class FC(FormatContext):
        def __init__(self): self.log = []
        def start(self, fc): self.log.append(("start", fc.theme))
        def switch(self, fc): self.log.append(("switch", fc.theme))
        def done(self): self.log.append(("done",))
    fc = FC()
    got = list(f.format_ranges(tree, start, end, fc))
    expect(fc.log[0] == ("start", themes[None][0]) and fc.log[-1] == ("done",) and all(x[0] == "switch" for x in fc.log[1:-1]), "format context calls %r", fc.log)
    ordered(got, start, hi)
    have = cover(got)
    tokpos = {}
    for t in all_toks:
        for i in range(t.pos, t.end): tokpos[i] = t
    for i in range(start, hi):
        g = have.get(i, (None,))[0]
        t = tokpos.get(i)
        if t is not None:
            w = fmt(t)
            if w is None and unparsed is not None:
                th, b = themes.get(t.parent.lexicon.language, themes[None])
                w = conv(th.baseformat()) if b else None
            expect_eq(g, w, "format at %d (%r) of %r [%r:%r]" % (i, t.text, text, start, end))
        elif unparsed is not None:
            inner = end is not None or any(t.pos > i for t in all_toks)
            expect(g == unparsed or (not inner and g is None), "unparsed text at %d has format %r", i, g)
        else:
            expect(g is None or g in bases, "text without token at %d has format %r", i, g)
    # text
    pieces = list(f.format_text(text, tree, start, end))
    expect_eq("".join(p for p, _ in pieces), text[start:hi], "format_text")
    expect(all(p for p, _ in pieces), "empty piece")
    p = start
    for s, g in pieces:
        for i in range(p, p + len(s)):
            expect_eq(have.get(i, (None,))[0], g, "format_text at %d" % i)
        p += len(s)
    cur = Cursor(d, start, end) if end != start else Cursor(d, start)
    if cur.has_selection():
        expect_eq(list(f.format_document(cur)), pieces, "format_document")
    else:
        expect_eq(list(f.format_document(cur)), [], "format_document")
    # simple formatter
    sf = SimpleFormatter()
    got = list(sf.format_ranges(tree, start, end))
    ordered(got, start, hi)
    expect_eq(cover(got), {i: (css_class(t.action),) for i, t in tokpos.items() if start <= i < hi and css_class(t.action) is not None}, "SimpleFormatter")
    # html
    if cur.has_selection():
        hf = HtmlFormatter()
        for lang, (th, b) in themes.items(): hf.add_theme(th, lang, b)
        for h in (hf, SimpleHtmlFormatter()):
            out = h.html(cur)
            expect_eq(html.unescape(re.sub(r'</?span(?: (?:style|class)="[^"<>]*")?>', "", out)), text[start:hi], "html text")
            expect_eq(re.sub(r'<span (?:style|class)="[^"<>]*">([^<>]*)</span>', r"\1", out).count("<"), 0, "html structure")
            expect(out in h.full_html(cur), "full_html")
            # the style of every character
            if h is hf:
                pf = Formatter(factory=lambda tf: "".join("%s: %s;" % p for p in sorted(tf.css_properties().items())).replace(" ", "") or None)
                for lang, (th, b) in themes.items(): pf.add_theme(th, lang, b)
            else:
                pf = sf
            want = [fmt and fmt.replace(" ", "") for t, fmt in pf.format_document(cur) for c in t]
            got = []
            for attr, t, plain in re.findall(r'<span (?:style|class)="([^"<>]*)">([^<>]*)</span>|([^<>]+)', out):
                got.extend([html.unescape(attr).replace(" ", "") or None] * len(html.unescape(t or plain)))
            expect_eq(got, want, "html styles")
    # actions
    got = list(util.merge_adjacent_actions(all_toks))
    expect_eq(cover(got), {i: (t.action,) for i, t in tokpos.items()}, "merge_adjacent_actions")
    got = list(util.merge_adjacent_actions_with_language(all_toks))
    expect_eq(cover(got), {i: (t.action, t.parent.lexicon.language) for i, t in tokpos.items()}, "merge_adjacent_actions_with_language")
    return [m, len(got)] if any(i in tokpos for i in range(start, hi)) else None
