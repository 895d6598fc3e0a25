LANG = '''
from parce import *
from parce.rule import *
import parce, random
import parce.action as a
'''
SEEDS = [
dict(id="B18", property="C14", edits=[("parce/formatter.py", """                                n = n.parent
                                check_lang(n.lexicon.language)
                                i = stack.pop() + 1
""", """                                n = n.parent
                                i = stack.pop() + 1
""")], demo=LANG + '''
from parce.formatter import Formatter
from parce.theme import Theme
import tempfile, os
def theme(text):
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "t.css")
        with open(fn, "w") as f:
            f.write(text)
        th = Theme(fn)
        th.style
        return th
class In(Language):
    @lexicon
    def root(cls):
        yield r"\\>", a.Delimiter, -1
        yield "[a-z]+", a.Text
class Out(Language):
    @lexicon
    def root(cls):
        yield r"\\<", a.Delimiter, In.root
        yield "[a-z]+", a.Text
th1 = theme(".text { color: #010101; } .delimiter { color: #020202; }")
th2 = theme(".text { color: #030303; } .delimiter { color: #040404; }")
f = Formatter(th1)
f.add_theme(th2, In)
t = root(Out.root, "ab <cd> ef")
got = {r.pos: r.textformat.color[0] for r in f.format_ranges(t)}
assert got[0] == 1 and got[4] == 3 and got[8] == 1, got
''', needs="two themes, one for a nested language, and text of the outer language after the nested part", what="text after an embedded language is formatted with the theme of the embedded language"),
dict(id="B20", property="C15", edits=[("parce/transform.py", "                    if pop <= 0:\n", "                    if pop < 0:\n")], demo=LANG + '''
from parce.transform import Transform, transform_text, transform_tree
class L(Language):
    @lexicon
    def root(cls):
        yield r"\\(", a.Delimiter, cls.par
        yield "[a-z]+", a.Text
    @lexicon
    def par(cls):
        yield r"\\)", a.Delimiter, -1
        yield "[a-z]+", a.Text
class T(Transform):
    def root(self, items):
        return [str(i) if i.is_token else None for i in items]
s = "a (b) c"
one = transform_text(L.root, s, transform=T())
two = transform_tree(root(L.root, s), T())
assert one == two, (one, two)
''', needs="a context without a transform method that ends by popping exactly to the context around it", what="everything after the skipped context is lost when transforming text directly"),
dict(id="B21", property="C15", edits=[("parce/transform.py", """        while node.parent:
            self._cache.pop(node, None)
            node = node.parent""", """        while node.parent and node in self._cache:
            del self._cache[node]
            node = node.parent""")], demo=LANG + '''
from parce.transform import Transform, Transformer, transform_tree
import parce.transform as pt
class L(Language):
    @lexicon
    def root(cls):
        yield r"\\(", a.Delimiter, cls.par
        yield "[a-z]+", a.Text
    @lexicon
    def par(cls):
        yield r"\\)", a.Delimiter, -1
        yield r"\\[", a.Delimiter, cls.sub
        yield "[a-z]+", a.Text
    @lexicon
    def sub(cls):
        yield r"\\]", a.Delimiter, -1
        yield "[a-z]+", a.Text
class T(Transform):
    def root(self, items):
        return [i.text if i.is_token else i.obj for i in items]
    @pt.add_untransformed
    def par(self, items):
        return [i.text if i.is_token else [n.text for n in i.obj.tokens()] for i in items]
def transform(text):
    tf = Transformer()
    tf.add_transform(L, T())
    return tf.transform_tree(root(L.root, text))
tf = Transformer()
tf.add_transform(L, T())
d = parce.Document(L.root, "a (b [c e f g h i j k] d) x y z", transformer=tf)
assert d.get_transform(True) == transform(d.text())
d[12:13] = "qq"
assert d.get_transform(True) == transform(d.text()), d.get_transform(True)
''', needs="an edit inside a context that has no transform method, in a context that does show its contents", what="the cached result of the surrounding context is kept although its contents changed"),
dict(id="B23", property="C16", edits=[("parce/query.py", "            l.sort(key=lambda n: n.pos)\n", "")], demo=LANG + '''
class L(Language):
    @lexicon
    def root(cls):
        yield "[a-z]", a.Text
t = root(L.root, "abcdef")
from parce.query import Query
Query(lambda: iter([t[3], t[1], t[0]])).delete()
assert [n.text for n in t] == list("cef"), list(t)
''', needs="deleting nodes of one parent that were not selected in document order", what="wrong nodes are deleted or an IndexError is raised"),
dict(id="B24", property="C16", edits=[("parce/query.py", "            if not any(id(p) in ids for p in n.ancestors()):\n", "            if id(n.parent) not in ids:\n")], demo=LANG + '''
class L(Language):
    @lexicon
    def root(cls):
        yield r"\\(", a.Delimiter, cls.root
        yield r"\\)", a.Delimiter, -1
        yield "[a-z]", a.Text
t = root(L.root, "a(b(c)d)e")
from parce.query import Query
ctx = t.find_token(2).parent
sel = [ctx, t.find_token(4)]
assert list(Query(lambda: iter(sel)).remove_descendants) == [ctx]
''', needs="a selection with a node and its grandparent, but not the parent", what="the deeper node is kept although an ancestor is in the selection"),
dict(id="B25", property="C17", edits=[("parce/standardaction.py", "            return any(t._name == other for t in self)\n", "            return any(t._name.startswith(other) for t in self)\n")], demo='''
import parce.action as a
assert "String" in a.String
assert "Str" not in a.String and "" not in a.String
''', needs="testing membership with a string that is only a prefix of an ancestor's name", what="an action seems to belong to names that are no ancestor"),
dict(id="B26", property="C18", edits=[("parce/regex.py", "elif len(items) == 1 and items[0][1] <= 1:", "elif len(items) == 1:")], demo='''
import re, itertools
from parce.regex import words2regexp
ws = ["", "aa", "ab", "ba", "bb"]
for ws in (ws, ["x" + w for w in ws], ws[1:]):
    rx = re.compile(words2regexp(ws))
    for l in range(5):
        for w in map("".join, itertools.product("abx", repeat=l)):
            assert bool(rx.fullmatch(w)) == (w in ws), (w, rx.pattern)
''', needs="word lists whose optional part is a repeated group", what="the expression also matches fewer repetitions than any of the words have"),
dict(id="B27", property="C18", edits=[("parce/regex.py", "                   re.escape(chr(a)) + '-' + re.escape(chr(b))\n", "                   re.escape(chr(a)) + '-' + chr(b)\n")], demo='''
import re
from parce.regex import make_charclass
rx = re.compile("[" + make_charclass("XYZ[" + chr(92)) + "]")
rx = re.compile("[" + make_charclass("Z[" + chr(92) + "]") + "]")
for c in map(chr, range(128)):
    assert bool(rx.fullmatch(c)) == (c in "Z[" + chr(92) + "]"), c
''', needs="a range of three or more characters that ends at a backslash or closing bracket", what="the character class matches other characters or does not compile"),
dict(id="B28", property="C19", edits=[("parce/registry.py", "            if len(names) == 1 or weights[names[0]] > weights[names[1]]:", "            if len(names) == 1 or weights[names[0]] >= weights[names[1]]:")], demo='''
from parce.registry import Registry
r = Registry()
r.add("m.A.root", name="A", desc="A", filenames=[("*.x", 1)])
r.add("m.B.root", name="B", desc="B", filenames=[("*.x", 1)], guesses=[("^magic", .5)])
assert r.suggest("f.x", contents="magic")[0] == "m.B.root"
assert r.suggest("f.x")[0] == "m.A.root"
''', needs="two languages with the same score for a filename, and contents that decide", what="the contents are not looked at, the first registered one wins"),
dict(id="B29", property="C19", edits=[("parce/registry.py", "            for lexicon in lexicons(self):\n                return lexicon\n            self = self.fallback\n", "            for lexicon in lexicons(self):\n                return lexicon\n            self = self.fallback if not self else None\n")], demo='''
from parce.registry import Registry
import parce.registry
f = Registry()
f.add("parce.lang.json.Json.root", name="JJ", desc="x", filenames=[("*.jj", 1)])
r = Registry(f)
r.add("parce.lang.css.Css.root", name="CC", desc="x", filenames=[("*.cc", 1)])
from parce.lang.json import Json
from parce.lang.css import Css
assert r.find("cc") is Css.root
assert r.find("JJ") is Json.root
assert r.find(filename="a.jj") is Json.root
''', needs="a registry with entries, and a lookup only its fallback can answer", what="the fallback is only consulted for an empty registry"),
dict(id="B30", property="C20", edits=[("parce/util.py", """        (codecs.BOM_UTF32_LE, 'utf_32_le'),
        (codecs.BOM_UTF32_BE, 'utf_32_be'),
        (codecs.BOM_UTF16_LE, 'utf_16_le'),
        (codecs.BOM_UTF16_BE, 'utf_16_be'),
""", """        (codecs.BOM_UTF16_LE, 'utf_16_le'),
        (codecs.BOM_UTF16_BE, 'utf_16_be'),
        (codecs.BOM_UTF32_LE, 'utf_32_le'),
        (codecs.BOM_UTF32_BE, 'utf_32_be'),
""")], demo='''
from parce.util import get_bom_encoding
for enc in ("utf-32", "utf-16", "utf-8-sig"):
    e, data = get_bom_encoding("h\\xe9llo".encode(enc))
    assert data.decode(e) == "h\\xe9llo", (enc, e)
''', needs="data in little endian UTF-32 with a byte order mark", what="the data is taken for UTF-16"),
dict(id="B31", property="C21", edits=[("parce/util.py", "            bisect.insort_right(slots, observer)", "            bisect.insort_left(slots, observer)")], demo='''
from parce.util import Observable
o = Observable(); l = []
for i, p in enumerate((0, 1, 0, 1, -1)):
    o.connect("x", (lambda i: lambda: l.append(i))(i), priority=p)
o.emit("x")
assert l == [4, 0, 2, 1, 3], l
''', needs="two slots with the same priority", what="slots of the same priority are called in reverse order of connection"),
dict(id="B32", property="C21", edits=[("parce/util.py", """            return self.func == other.func
        return NotImplemented

    def __ne__""", """            return self.func == other.func and self.priority == other.priority
        return NotImplemented

    def __ne__""")], demo='''
from parce.util import Observable
o = Observable(); l = []
f = lambda: l.append(1)
o.connect("x", f, priority=5)
o.disconnect("x", f)
o.emit("x")
assert l == [], l
''', needs="disconnecting a slot that was connected with a priority", what="the slot remains connected"),
dict(id="B33", property="C22", edits=[("parce/css.py", "                if key not in result or (important and key not in important_properties):", "                if key not in result or important:")], demo='''
from parce.css import StyleSheet, Element
s = StyleSheet.from_text("p.x { color: red !important; } p { color: blue !important; }")
e = Element("p", **{"class": "x"})
p = s.style.select_element(e).properties()
assert p["color"][0].text == "red", p
''', needs="two important declarations of one property in rules of different specificity", what="the less specific important declaration wins"),
dict(id="B34", property="C22", edits=[("parce/css.py", "        rules = sorted(get_rules(self.rules),\n            key=lambda rule: calculate_specificity(rule.prelude))\n        rules.reverse()\n", "        rules = sorted(get_rules(self.rules),\n            key=lambda rule: calculate_specificity(rule.prelude), reverse=True)\n")], demo='''
from parce.css import StyleSheet, Element
s = StyleSheet.from_text("p { color: red; } p { color: blue; }")
p = s.style.select_element(Element("p")).properties()
assert p["color"][0].text == "blue", p
''', needs="two matching rules with the same specificity", what="the earlier rule wins"),
dict(id="B35", property="C23", edits=[("parce/indent.py", "                if cursor.end is not None and block.end >= cursor.end:", "                if cursor.end is not None and block.end > cursor.end:")], demo=LANG + '''
from parce.indent import Indenter
from parce.document import Cursor
from parce.lang.css import Css
d = parce.Document(Css.root, "p {\\ncolor: red;\\nwidth: 1px;\\n}\\n")
Indenter().indent(Cursor(d, 4, 15))
assert d.text() == "p {\\n  color: red;\\nwidth: 1px;\\n}\\n", d.text()
''', needs="a range that ends exactly at the end of a line", what="the line after the range is indented as well"),
dict(id="B36", property="C23", edits=[("parce/indent.py", """                    if info.indent.startswith(self.indent_string):
                        remove = self.indent_string
                    else:
                        remove = info.indent
""", """                    remove = self.indent_string
""")], demo=LANG + '''
from parce.indent import Indenter
from parce.document import Cursor
from parce.lang.css import Css
d = parce.Document(Css.root, "p {\\n color: red;\\n}\\n")
Indenter().decrease_indent(Cursor(d, 4, 10))
assert d.text() == "p {\\ncolor: red;\\n}\\n", d.text()
''', needs="a line whose leading whitespace is shorter than the indent string", what="decreasing the indent removes a character of the text"),
dict(id="B37", property="C24", edits=[("parce/ruleitem.py", "            return type(self)((0, arg), lexicon), _CHANGED", "            return type(self)((index, arg), lexicon), _CHANGED")], demo=LANG + '''
from parce.ruleitem import target, pre_evaluate, evaluate, select, VariableItem
class L(Language):
    @lexicon
    def one(cls):
        yield "x", a.Text
    @lexicon
    def two(cls):
        yield "x", a.Text
ARGI, TXT = VariableItem("arg"), VariableItem("text")
t = target((1, "q"), L.one, select(TXT, L.one, L.two))
o, ok = pre_evaluate(t, {"arg": 1})
assert evaluate(o, {"text": 1}) is evaluate(t, {"arg": 1, "text": 1})
''', needs="a target with a known index other than 0 whose lexicon still depends on the match", what="an index error, or the wrong lexicon, when the rule is evaluated in two steps"),
dict(id="B38", property="C24", edits=[("parce/lexicon.py", "            return vanilla(arg)\n", "            return Lexicon(self.descriptor, self.language, arg)\n")], demo=LANG + '''
class L(Language):
    @lexicon
    def one(cls):
        yield "x", a.Text
assert L.one("a") is L.one("a")
assert L.one("a")("b") is L.one("b")
''', needs="deriving from a lexicon that is itself derived", what="a new lexicon object each time"),
]
