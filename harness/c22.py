"""C22: CSS cascade, text formats and colours."""
import functools
from base import expect, expect_eq
from parce import css, theme
from parce.css import StyleSheet, Element, Color, color2hex
from parce.standardaction import StandardAction

RULE = ("random style sheets written as CSS text (1-7 rules with 1-3 selectors of compound parts and combinators, attribute selectors with all "
        "operators, pseudo classes, !important, repeated properties, rules inside @media/@supports) and a random element tree; for every "
        "element the properties are compared with a direct implementation of the cascade on the rules; random text formats are added "
        "and subtracted; colours in all notations are converted forth and back; non-trivial: at least two rules match one element")
SHRINK = ("rules", "tree")
NAMES, CLS, IDS = ["a", "b", "em"], ["x", "y", "z", "parce", "k:l"], ["i", "j"]
ATTRS = ["title", "lang", "data-q"]
VALS = ["", "en", "en-US", "foo", "foo bar", "FOO", "barfoo", "a"]
OPS = ["=", "~=", "|=", "^=", "$=", "*="]
PSEUDO = ["first-child", "last-child", "only-child", "first-of-type", "last-of-type", "empty", "focus", "hover"]
PROPS = ["color", "margin", "border", "font-size"]
PVALS = ["red", "#fff", "12px", "1.5em", "solid", "\"q\"", "0", "50%", "u(1)"]

def compound(rng):
    s = {"el": rng.choice([None, None, "*", *NAMES]), "cls": [rng.choice(CLS[:rng.choice((1, 2, 5))]) for _ in range(rng.choice((0, 0, 1, 1, 2)))],
         "id": [rng.choice(IDS)] if rng.random() < .15 else [], "attr": [], "pc": [], "pe": []}
    if rng.random() < .25:
        s["attr"].append([rng.choice(ATTRS), rng.choice([None, *OPS]), rng.choice(VALS), rng.choice((None, None, "i"))])
    if rng.random() < .2: s["pc"].append(rng.choice(PSEUDO))
    if rng.random() < .05: s["pe"].append("selection")
    if not any(s.values()): s["el"] = rng.choice(["*", *NAMES])
    return s

def complex_(rng):
    r = [compound(rng)]
    for _ in range(rng.choice((0, 0, 0, 0, 1, 1, 2, 3))):
        r += [rng.choice(" >+~"), compound(rng)]
    return r

def node(rng, d):
    attrs = {}
    for a in ATTRS:
        if rng.random() < .3: attrs[a] = rng.choice(VALS)
    if rng.random() < .7: attrs["class"] = " ".join(rng.choice(CLS[:rng.choice((2, 5))]) for _ in range(rng.choice((0, 1, 1, 2, 3))))
    if rng.random() < .2: attrs["id"] = rng.choice(IDS)
    return {"name": rng.choice(NAMES), "attrs": attrs, "pc": [p for p in ("focus", "hover") if rng.random() < .2], "pe": ["selection"] if rng.random() < .1 else [],
            "ch": [node(rng, d - 1) for _ in range(rng.choice((0, 1, 2, 3)))] if d else []}

FPROPS = [["color", ["#123", "red", "rgb(1,2,3)"]], ["background-color", ["blue", "#ffff"]], ["font-size", ["12px", "large", "1.5em", "small"]],
          ["font-style", ["italic", "oblique", "oblique 10deg", "normal"]], ["font-weight", ["bold", "700", "normal"]], ["font-kerning", ["auto", "none"]],
          ["text-decoration-line", ["underline", "underline overline", "none"]], ["text-decoration-style", ["dotted", "wavy"]], ["text-decoration-color", ["lime"]],
          ["font-family", ["serif", "\"Foo bar\", monospace"]], ["font-variant-caps", ["small-caps"]], ["caret-color", ["#00ff0080"]], ["font-stretch", ["condensed", "expanded"]],
          ["font-variant-position", ["sub", "super"]]]
FPROPS[12][1].append("75%"); FPROPS[2][1] += ["0.5px", "120%", "x-large"]; FPROPS[9][1] += ["'a \\\"b\\\\'"]; FPROPS[4][1] += ["lighter"]; FPROPS[6][1] += ["line-through"]

# values written in CSS and what they mean: (text, number, unit, color, funcname, quoted, url)
def V(text=None, number=None, unit=None, color=None, funcname=None, quoted=None, url=None): return (text, number, unit, color, funcname, quoted, url)
MEAN = {"red": V("red", color=(255, 0, 0, 1.0)), "#fff": V("#fff", color=(255, 255, 255, 1.0)), "12px": V("12", 12, "px"), "1.5em": V("1.5", 1.5, "em"),
        "solid": V("solid"), '"q"': V("q", quoted=True), "0": V("0", 0), "50%": V("50", 50, "%"), "u(1)": V(funcname="u"), "-3px": V("-3", -3, "px"), "+.5": V("+.5", .5),
        "'s \\'t'": V("s 't", quoted=True), '"a\\62 c"': V("abc", quoted=True), '"a\\\nb"': V("ab", quoted=True), 'url("x.png")': V(url="x.png"), "url(y.png)": V(url="y.png"), "url('z')": V(url="z"),
        "rgb(1,2,3)": V(color=(1, 2, 3, 1.0)), "rgb(100%, 0%, 20%)": V(color=(255, 0, 51, 1.0)), "rgba(1 2 3 / 50%)": V(color=(1, 2, 3, .5)), "rgb(300,-1,255)": V(color=(255, 0, 255, 1.0)),
        "transparent": V("transparent", color=(0, 0, 0, 0)), "\\73olid": V("solid"), "so\\6c id": V("solid"), '"\\110000 x"': V("\ufffdx", quoted=True), '"\\10ffff x"': V("\U0010ffffx", quoted=True)}
PVALS += [k for k in MEAN if k not in PVALS]

# shorthands: text -> attributes
SHORT = [
    ["font: 12px serif", dict(font_size=12, font_size_unit="px", font_family=["serif"])],
    ["font: italic bold 12pt \"A b\", monospace", dict(font_style="italic", font_weight="bold", font_size=12, font_size_unit="pt", font_family=["A b", "monospace"])],
    ["font: 700 1.5em cursive", dict(font_weight=700, font_size=1.5, font_size_unit="em", font_family=["cursive"])],
    ["font: small-caps condensed lighter 9px math", dict(font_variant_caps="small-caps", font_stretch="condensed", font_weight="lighter", font_size=9, font_size_unit="px", font_family=["math"])],
    ["font: caption", dict(font_family=["caption"])], ["font: menu", dict(font_family=["menu"])],
    ["text-decoration: underline", dict(text_decoration_line=["underline"])],
    ["text-decoration: underline overline dotted red", dict(text_decoration_line=["underline", "overline"], text_decoration_style="dotted", text_decoration_color=(255, 0, 0, 1.0))],
    ["text-decoration: line-through wavy", dict(text_decoration_line=["line-through"], text_decoration_style="wavy")],
    ["background: url(x) #000", dict(background_color=(0, 0, 0, 1.0))], ["background-color: lime", dict(background_color=(0, 255, 0, 1.0))],
    ["font-style: oblique 10deg", dict(font_style="oblique", font_style_angle=10, font_style_angle_unit="deg")], ["font-style: oblique", dict(font_style="oblique")],
    ["font-size: 120%", dict(font_size=120, font_size_unit="%")], ["font-size: larger", dict(font_size="larger")], ["font-stretch: 75%", dict(font_stretch=75)],
    ["font-weight: 300", dict(font_weight=300)], ["font-family: \"X\", Y, serif", dict(font_family=["X", "serif"])], ["text-decoration-line: underline none overline", dict(text_decoration_line=["overline"])],
    ["caret-color: #12345678", dict(caret_color=(0x12, 0x34, 0x56, 0x78 / 255))], ["font-kerning: none", dict(font_kerning="none")], ["font-variant-position: super", dict(font_variant_position="super")],
    ["font-variant-caps: unicase", dict(font_variant_caps="unicase")],
]

def gen(rng):
    def decls():
        return [[rng.choice(PROPS), [rng.choice(PVALS) for _ in range(rng.choice((1, 1, 2)))], rng.random() < .2] for _ in range(rng.randint(0, 3))]
    rules = [[[complex_(rng) for _ in range(rng.choice((1, 1, 2, 3)))], decls(), rng.choice((0, 0, 0, 1, 2))] for _ in range(rng.choice((1, 2, 3, 4, 5, 6, 7, 9)))]
    fmts = [[[p, rng.choice(v)] for p, v in rng.sample(FPROPS, rng.randint(0, 4))] for _ in range(3)]
    return {"rules": rules, "tree": node(rng, rng.choice((1, 2, 3))), "fmts": fmts, "style": rng.randint(0, 3),
            "color": [rng.choice((3, 4, 6, 8)), rng.getrandbits(32)], "rgb": [rng.choice((0, 1, 17, 100, 128, 254, 255)) for _ in range(3)], "alpha": rng.choice((None, 0, 1, .5, .25))}

def valid(case):
    if not isinstance(case['tree'], dict): return False
    def comp(x): return isinstance(x, dict) and set(x) == {"el", "cls", "id", "attr", "pc", "pe"} and any(x.values()) and all(x["cls"] + x["id"]) and x["el"] != "" and all(len(a) == 4 and a[0] in ATTRS and a[1] in (None, *OPS) for a in x["attr"]) and all(x["pc"] + x["pe"])
    def node(n): return n["name"] in NAMES and all(map(node, n["ch"]))
    return bool(case["rules"]) and node(case["tree"]) and all(len(r) == 3 and r[0] and all(
        len(c) % 2 and all(comp(x) if i % 2 == 0 else x in (" ", ">", "+", "~") for i, x in enumerate(c)) for c in r[0]) and
        all(len(d) == 3 and d[0] in PROPS and d[1] and all(v in PVALS for v in d[1]) for d in r[1]) for r in case["rules"])

# ---- writing the style sheet
def w_compound(s):
    r = s["el"] or ""
    for c in s["cls"]: r += "." + c.replace(":", "\\:" if s["el"] else "\\3a ")
    for i in s["id"]: r += "#" + i
    for n, op, v, f in s["attr"]:
        q = "'" if len(v) % 2 else '"'
        if v.isalpha() and n == "lang": q = ""
        r += "[" + n + ((op + q + v + q + (" " + f if f else "")) if op else "") + "]"
    for p in s["pc"]: r += ":" + p
    for p in s["pe"]: r += "::" + p
    return r
def w_complex(c, st):
    r = ""
    for x in c:
        r += w_compound(x) if isinstance(x, dict) else " " if x == " " else (x if st & 1 else " " + x + " ")
    return r
def w_rules(rules, st):
    out = []
    for sels, decls, cond in rules:
        nl = "\n" if st & 2 else " "
        t = ("," + nl).join(w_complex(c, st) for c in sels) + nl + "{" + nl
        t += "".join("%s: %s%s;%s" % (p, " ".join(v), (" !important" if st & 1 else "!important") if imp else "", nl) for p, v, imp in decls) + "}"
        if cond == 1: t = "@media screen {" + nl + t + nl + "}"
        elif cond == 2: t = "@supports (display: grid) { " + t + " }"
        if st & 2: t = "/* comment , { } */" + t
        out.append(t)
    return "\n".join(out)

# ---- reference
class N:
    def __init__(self, d, parent=None):
        self.d, self.parent = d, parent
        self.ch = [N(c, self) for c in d["ch"]]
def ref_compound(n, s):
    d = n.d
    if s["el"] not in (None, "*") and s["el"] != d["name"]: return False
    if not set(s["cls"]) <= set(d["attrs"].get("class", "").split()): return False
    if any(i != d["attrs"].get("id") for i in s["id"]): return False
    for a, op, v, f in s["attr"]:
        if a not in d["attrs"]: return False
        if op:
            x = d["attrs"][a]
            if f: x, v = x.lower(), v.lower()
            ok = {"=": x == v, "~=": v in x.split() and v != "", "|=": x == v or x[:len(v) + 1] == v + "-", "^=": v != "" and x[:len(v)] == v,
                  "$=": v != "" and x[len(x) - len(v):] == v if len(v) <= len(x) else False, "*=": v != "" and x.find(v) >= 0}[op]
            if not ok: return False
    sib = n.parent.ch if n.parent else [n]
    i = next(k for k, x in enumerate(sib) if x is n)
    for p in s["pc"]:
        ok = {"first-child": i == 0, "last-child": i == len(sib) - 1, "only-child": len(sib) == 1,
              "first-of-type": all(x.d["name"] != d["name"] for x in sib[:i]), "last-of-type": all(x.d["name"] != d["name"] for x in sib[i + 1:]),
              "empty": not n.ch}.get(p, p in d["pc"])
        if not ok: return False
    return all(p in d["pe"] for p in s["pe"])
def ref_matches(n, c):
    if not ref_compound(n, c[-1]): return False
    if len(c) == 1: return True
    op, rest = c[-2], c[:-2]
    if op in " >":
        p = n.parent
        while p:
            if ref_matches(p, rest): return True
            if op == ">": return False
            p = p.parent
        return False
    if not n.parent: return False
    i = next(k for k, x in enumerate(n.parent.ch) if x is n)
    c2 = n.parent.ch[:i] if op == "~" else n.parent.ch[i - 1:i] if i else []
    return any(ref_matches(x, rest) for x in c2)
def spec(c):
    cs = [x for x in c if isinstance(x, dict)]
    return (sum(len(x["id"]) for x in cs), sum(len(x["cls"]) + len(x["attr"]) + len(x["pc"]) for x in cs),
            sum((x["el"] not in (None, "*")) + len(x["pe"]) for x in cs))

def flat(values):
    return [v if isinstance(v, str) else (v.text, v.number, v.unit, v.color, v.funcname, v.quoted, v.url) for v in values]

@functools.lru_cache(2000)
def parse_value(prop, text):
    return css.CssTransform, StyleSheet.from_text("a { %s: %s }" % (prop, text)).style.rules[0].properties[prop]

def check(case):
    text = w_rules(case["rules"], case["style"])
    sheet = StyleSheet.from_text(text)
    style = sheet.style
    if case["style"] == 0 and len(case["rules"]) > 1:
        k = len(case["rules"]) // 2
        style = (StyleSheet.from_text(w_rules(case["rules"][:k], 0)) + StyleSheet.from_text(w_rules(case["rules"][k:], 0))).style
    if case["style"] == 3 and len(case["rules"]) > 1:
        import tempfile, os
        k = len(case["rules"]) // 2
        with tempfile.TemporaryDirectory() as d:
            with open(os.path.join(d, "one.css"), "w") as f: f.write('@import "main.css";' * (case["color"][1] % 4 != 2) + w_rules(case["rules"][:k], 0))
            t = '@import %s;' % ('"one.css"', "url(one.css)", "url('one.css') screen", "'one.css'")[case["color"][1] % 4] + w_rules(case["rules"][k:], 0)
            with open(os.path.join(d, "main.css"), "w") as f: f.write(t)
            s1 = StyleSheet.from_file(os.path.join(d, "main.css"))
            expect_eq(sorted(map(os.path.basename, set(s1.filenames()))), ["main.css", "one.css"], "file names")
            if case["color"][1] % 4 == 2:
                expect_eq(len(s1.filter_conditions("import", lambda r: False).style.rules), len(case["rules"]) - k, "filtered import")
            style = s1.style
            s2 = StyleSheet.from_data(t.encode(), os.path.join(d, "main.css"))
            expect_eq(len(s2.style.rules), len(s1.style.rules), "rules from data")
            expect_eq(len(StyleSheet.from_text(t, os.path.join(d, "main.css"), allow_import=False).style.rules), len(case["rules"]) - k, "rules without import")
    single = {}
    def val(p, v):
        k = (p, tuple(v))
        if k not in single:
            single[k] = flat(parse_value(p, " ".join(v))[1])
            expect_eq([(*x[:3], x[3] and tuple(x[3]), *x[4:]) for x in single[k]], [MEAN[x] for x in v], "values written as %r" % (v,))
        return single[k]
    n = 0
    root = N(case["tree"])
    def walk(node, parent):
        nonlocal n
        a = dict(node.d["attrs"])
        e = Element(node.d["name"], parent, node.d["pc"], node.d["pe"], **a)
        elems.append((node, e))
        for c in node.ch: walk(c, e)
    elems = []
    walk(root, None)
    for node, e in elems:
        best = {}
        nmatch = 0
        for k, (sels, decls, cond) in enumerate(case["rules"]):
            if not any(ref_matches(node, c) for c in sels): continue
            nmatch += 1
            s = max(map(spec, sels))
            for j, (p, v, imp) in enumerate(decls):
                key = (imp, s, k, j)
                if p not in best or key > best[p][0]: best[p] = (key, v)
        n = max(n, nmatch)
        got = style.select_element(e)
        expect_eq(len(got.rules), nmatch, "number of rules that match %r in %s" % (node.d, text))
        props = got.properties()
        expect_eq({p: flat(v) for p, v in props.items()}, {p: val(p, v[1]) for p, v in best.items()}, "properties of %r with %s" % (node.d, text))
    for keep in (True, False):
        f = sheet.filter_conditions("media", lambda r: keep)
        expect_eq(len(f.style.rules), sum(1 for r in case["rules"] if keep or r[2] != 1), "filtered rules")
    # theme
    if case["style"] == 1:
        th = theme.Theme(stylesheet=text)
        act = getattr(StandardAction("Xx"), "y")
        e = Element(class_="xx y", parent=Element(class_="parce"))
        for role, st in (("window", "default"), ("selection", "default"), ("x", "default"), ("window", "focus"), ("window", "disabled"), ("selection", "focus"), ("y", "hover")):
            e2 = Element(class_="parce" if role in ("window", "selection") else "parce " + role, pseudo_elements=["selection"] if role == "selection" else None,
                         pseudo_classes=[st] if st in ("focus", "disabled") else None)
            expect(th.baseformat(role, st) == theme.TextFormat(style.select_element(e2).properties()), "base format of the theme for %s, %s", role, st)
        expect(th.textformat(act) == theme.TextFormat(style.select_element(e).properties()), "format of the theme")
    # text formats
    fmts = []
    for f in case["fmts"]:
        t = "a {" + ";".join("%s: %s" % (p, v) for p, v in f) + "}"
        fmts.append(theme.TextFormat(StyleSheet.from_text(t).style.rules[0].properties))
    empty = theme.TextFormat({})
    expect(not empty, "an empty format is true")
    def written(props):
        return theme.TextFormat(StyleSheet.from_text("a {" + ";".join("%s: %s" % (p, v) for p, v in props.items()) + "}").style.rules[0].properties)
    one = [[(p, theme.TextFormat({p: parse_value(p, v)[1]})) for p, v in f] for f in case["fmts"]]
    ATT = [k for k in vars(theme.TextFormat) if not k.startswith("_") and not callable(getattr(theme.TextFormat, k))]
    def state(f): return {k: (list(x) if isinstance(x, (list, tuple)) and not isinstance(x, Color) else x) for k in ATT for x in [getattr(f, k)]}
    GROUP = {"font-size": ("font_size", "font_size_unit"), "font-style": ("font_style", "font_style_angle", "font_style_angle_unit")}
    def want(seq):
        r = state(empty)
        for f in seq:
            for p, v in f:
                for k in GROUP.get(p, (p.replace("-", "_"),)): r[k] = state(v)[k]
        return r
    for a, fa in zip(fmts, one):
        expect_eq(state(a), want([fa]), "format read from %r" % case["fmts"])
        expect(bool(a) == bool(fa), "truth of a format")
        w = written(a.css_properties())
        dd = state(a)
        expect_eq(state(w), dd, "format written as %r" % a.css_properties())
        expect(a + empty == a and empty + a == a and not (a != a + empty), "adding an empty format")
        expect(not (a - a), "a format minus itself")
        for b, fb in zip(fmts, one):
            expect_eq(state(a + b), want([fa, fb]), "sum of the formats %r" % case["fmts"])
            d = a - b
            for k, v in state(d).items():
                if v != getattr(empty, k) and v: expect_eq(v, state(a)[k], "difference of formats: %s" % k)
            expect_eq(state(b + d), want([fb, fa]), "b + (a - b) with formats %r" % case["fmts"])
            for c, fc in zip(fmts, one):
                expect_eq(state(a + b + c), state(a + (b + c)), "associativity")
    t, w = SHORT[case["color"][1] % len(SHORT)]
    got = state(theme.TextFormat(StyleSheet.from_text("a {" + t + "}").style.rules[0].properties))
    w = {**state(empty), **w}
    expect_eq({k: tuple(v) if isinstance(v, Color) else v for k, v in got.items()}, w, "format read from %r" % t)
    # colours
    l, bits = case["color"]
    h = format(bits, "08x")[-l:]
    full = "".join(x * 2 for x in h) if l < 6 else h
    c = parse_value("color", "#" + h)[1][0].color
    rgba = [int(full[i:i + 2], 16) for i in range(0, len(full), 2)]
    expect_eq([c.r, c.g, c.b], rgba[:3], "colour #%s" % h)
    expect(abs(c.a - (rgba[3] / 255 if len(rgba) > 3 else 1)) < 1e-9, "opacity of #%s", h)
    x = color2hex(c)
    expect_eq(parse_value("color", x)[1][0].color, c, "colour #%s written as %s" % (h, x))
    expect_eq(parse_value("color", "#" + h.upper())[1][0].color, c, "colour #%s in upper case" % h)
    r, g, b = case["rgb"]
    al = case["alpha"]
    for f in ("rgb(%d, %d, %d)", "rgb(%d %d %d)") if al is None else ("rgba(%d, %d, %d, " + str(al) + ")",):
        c = parse_value("color", f % (r, g, b))[1][0].color
        expect_eq((c.r, c.g, c.b, c.a), (r, g, b, 1.0 if al is None else al), f % (r, g, b))
    from parce.lang.css_words import CSS3_NAMED_COLORS
    name = sorted(CSS3_NAMED_COLORS)[bits % len(CSS3_NAMED_COLORS)]
    expect_eq(tuple(parse_value("color", name)[1][0].color), (*CSS3_NAMED_COLORS[name], 1.0), name)
    return [n] if n > 1 else None
