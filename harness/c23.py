"""C23: automatic indenting only changes leading whitespace and is idempotent."""
from base import expect, expect_eq
import parce
from parce import Document, Cursor, Language, lexicon, default_action
from parce import indent as I
from parce.indent import Indenter, Indent
from parce.standardaction import StandardAction
from parce.lang.css import Css
from parce.lang.lilypond import LilyPond

RULE = ("random texts of 1-9 lines (nested braces, blank and whitespace-only lines, tabs, any indent) in Css, LilyPond, a language with an own "
        "Indent that yields all kinds of events, or one without Indent; a random range; random indent string; indent, indent again, "
        "increase/decrease, auto_indent, strip_trailing_blanks; the result is compared line by line and, for braces, with the nesting "
        "depth; non-trivial: indenting changed a line")
SHRINK = ("lines",)
A = StandardAction("C23")

class Ind(Language):
    @lexicon
    def root(cls):
        yield r"[{}|=!~&.]", A
        yield r"\w+", A.word
class IndIndent(Indent):
    def events(self, block, tokens, prev_indents):
        for t in tokens:
            if t == "{": yield I.INDENT
            elif t == "}": yield I.DEDENT
            elif t == "|": yield I.NO_INDENT
            elif t == "=": yield I.ALIGN, "     "
            elif t == "!": yield I.NO_DEDENT
            elif t == "~": yield I.PREFER_INDENT, " "
            elif t == "&": yield I.NO_STRIP
            elif t == ".":
                x = block.text()
                yield I.CURRENT_INDENT, x[:len(x) - len(x.lstrip())]
class Plain(Language):
    @lexicon
    def root(cls):
        yield r"\w+", A.word

LANG = {"css": Css, "ly": LilyPond, "ind": Ind, "plain": Plain, "braces": Ind}

def gen(rng):
    lang = rng.choice(("css", "css", "ly", "ind", "ind", "braces", "plain"))
    toks = {"css": ["a {", "{", "}", "color: red;", "b", "/* { */", "@media x {"], "ly": ["{", "}", "<<", ">>", "c4", "\\x", "%{ {", "%}"],
            "ind": list("{}{}|=!~&.") + ["w", "foo"], "braces": list("{}{}") + ["w"], "plain": ["w", "x", "{"]}[lang]
    lines = []
    for _ in range(rng.randint(1, 9)):
        ws = rng.choice(("", "", " ", "  ", "    ", "\t", " \t ", "      "))
        body = " ".join(rng.choice(toks) for _ in range(rng.choice((0, 1, 1, 2, 3))))
        lines.append(ws + body + rng.choice(("", "", " ", "\t ")))
    return {"lang": lang, "lines": lines, "unit": rng.choice(("  ", "  ", "    ", "\t", " ")), "sel": [rng.random(), rng.random()],
            "all": rng.random() < .5, "blank": rng.random() < .9, "wild": rng.random() < .5}

def valid(case): return bool(case["lines"])

def split(l): return l[:len(l) - len(l.lstrip())], l.lstrip()

def depth_lines(lines, unit, opn, cls):
    depth, out, ind = 0, [], 0
    for l in lines:
        depth += ind
        ds = de = ind = 0
        find = True
        for t in l.split():
            if t in opn: ind += 1; find = False
            elif t in cls:
                if find: ds += 1
                elif ind: ind -= 1
                else: de += 1
        depth = max(0, depth - ds)
        out.append(unit * depth + l.lstrip())
        depth = max(0, depth - de)
    return out

def check(case):
    lines, unit, lang = case["lines"], case["unit"], case["lang"]
    text = "\n".join(lines)
    L = LANG[lang]
    ind = Indenter()
    ind.indent_string = unit
    ind.indent_blank_lines = case["blank"]
    if lang in ("ind", "braces"): ind.add_indent(Ind, IndIndent())
    if case["all"]: a, b = 0, None
    else:
        a, b = sorted(int(x * (len(text) + 1)) for x in case["sel"])
    starts = []
    p = 0
    for l in lines:
        starts.append(p); p += len(l) + 1
    def doc():
        d = Document(L.root, text)
        return d, Cursor(d, a, b)
    locked = {i for i, l in enumerate(lines) if lang == "ind" and "|" in l}
    # indent
    d, c = doc()
    ind.indent(c)
    new = d.text().split("\n")
    expect_eq(len(new), len(lines), "number of lines after indenting")
    changed = 0
    for i, (old, got) in enumerate(zip(lines, new)):
        expect_eq(split(got)[1], split(old)[1], "text of line %d" % i)
        if starts[i] < a or (b is not None and starts[i] > b) or i in locked:
            expect_eq(got, old, "line %d that may not be changed" % i)
        changed += got != old
    once = d.text()
    if case["all"] and lang == "braces":
        expect_eq(new, depth_lines(lines, unit, "{", "}"), "indent of nested braces")
    ind.indent(c)
    expect_eq(d.text(), once, "indenting twice")
    if case["all"]:
        # the indenting before does not matter, except where it may not be changed
        if lang in ("braces", "plain"):
            d2 = Document(L.root, "\n".join("   " + l for l in lines))
            ind.indent(Cursor(d2, 0, None))
            expect_eq(d2.text(), once, "indenting another indent of the same lines")
    # increase and decrease
    d, c = doc()
    blocks = [i for i in range(len(lines)) if any(bl.pos == starts[i] for bl in c.blocks())]
    ind.increase_indent(c)
    new = d.text().split("\n")
    expect_eq(new, [unit + l if i in blocks and i not in locked else l for i, l in enumerate(lines)], "increase_indent")
    ind.decrease_indent(c)
    expect_eq(d.text(), text, "increasing and decreasing the indent")
    d, c = doc()
    ind.decrease_indent(c)
    want = []
    for i, l in enumerate(lines):
        ws, body = split(l)
        want.append((ws[len(unit):] if ws.startswith(unit) else "") + body if i in blocks and i not in locked else l)
    expect_eq(d.text().split("\n"), want, "decrease_indent")
    # auto indent
    for i, l in enumerate(lines):
        d = Document(L.root, text)
        c = Cursor(d, starts[i] + int(case["sel"][0] * (len(l) + 1)))
        ind.auto_indent(c)
        new = d.text().split("\n")
        expect_eq(len(new), len(lines), "auto_indent: number of lines")
        for j, (old, got) in enumerate(zip(lines, new)):
            if j == i and i not in locked: expect_eq(split(got)[1], split(old)[1], "auto_indent: text of line %d" % i)
            else: expect_eq(got, old, "auto_indent: line %d" % j)
            expect(not split(got)[0].strip(), "auto_indent: no whitespace")
        once = d.text()
        ind.auto_indent(c)
        expect_eq(d.text(), once, "auto_indent twice")
    # strip
    d, c = doc()
    ind.strip_trailing_blanks(c)
    want = [l.rstrip() if i in blocks and not (lang == "ind" and "&" in l) else l for i, l in enumerate(lines)]
    expect_eq(d.text().split("\n"), want, "strip_trailing_blanks")
    return [1] if changed else None
