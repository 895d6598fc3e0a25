LANG = '''
from parce import *
from parce.rule import *
import parce, random
import parce.action as a
'''
SEEDS = [
dict(id="B04", property="C01", edits=[("parce/lexicon.py", """                for m in finditer(text, pos):
                    if m.start() > pos:
                        t = text[pos:m.start()]
""", """                for m in finditer(text, pos):
                    if text[pos:m.start()].strip():
                        t = text[pos:m.start()]
""")], demo=LANG + '''
class L(Language):
    @lexicon
    def root(cls):
        yield default_action, select(call(len, TEXT), a.Text, a.Name, a.Comment)
        yield "[0-9]+", a.Number
        yield "[;]", a.Delimiter
t = "1 2;ab"
assert "".join(x for e in parce.events(L.root, t) for p, x, c in e.lexemes) == t
''', needs="a lexicon with a dynamic default action and several patterns, with only whitespace between two matches", what="unknown text that is whitespace is dropped from the event stream"),
dict(id="B05", property="C02", edits=[("parce/target.py", """            elif -target.pop <= len(self._push):
                self._push[target.pop:] = target.push
""", """            elif -target.pop <= len(self._push):
                del self._push[target.pop:]
                self._push.extend(target.push[-1:])
""")], demo=LANG + """
from parce.lexer import Lexer
class L(Language):
    @lexicon
    def root(cls):
        yield "[a-z]", a.Text
        yield r"\\(", a.Delimiter, cls.one
    @lexicon
    def one(cls):
        yield default_target, -1, cls.two, cls.three
    @lexicon
    def two(cls):
        yield "[a-z]", a.Name
        yield r"\\)", a.Delimiter, -1
    @lexicon
    def three(cls):
        yield "[a-z]", a.Name
        yield r"\\)", a.Delimiter, -1
l = Lexer([L.root])
stack = [L.root]
for e in l.events("x(y)y)x"):
    if e.target:
        assert -e.target.pop < len(stack), (e, stack)
        if e.target.pop: del stack[e.target.pop:]
        stack.extend(e.target.push)
    assert stack == l.lexicons, (stack, l.lexicons)
""", needs="a default target that leaves a lexicon entered since the last event and enters two others", what="one of the lexicons is lost in the events: the replayed stack differs from that of the lexer"),
dict(id="B06", property="C03", edits=[("parce/lexer.py", """if target.pop and -target.pop >= len(lexicons):""", """if txt and target.pop and -target.pop >= len(lexicons):""")], demo=LANG + """
import signal
class L(Language):
    @lexicon
    def root(cls):
        yield "x", a.Text
        yield default_target, -1
signal.alarm(20)
assert [t.text for t in root(L.root, "x??x").tokens()] == ["x", "x"]
class L(Language):
    @lexicon
    def root(cls):
        yield "x", a.Text
        yield r"(?=\\()", None, cls.one
    @lexicon
    def one(cls):
        yield r"\\(", a.Text
        yield default_target, -2
assert [t.text for t in root(L.root, "x(?x").tokens()] == ["x", "(", "x"]
""", needs="a default target in the root lexicon, or one that leaves more lexicons than there are", what="parsing such a text raises an exception"),
dict(id="B07", property="C04", edits=[("parce/tree.py", """            j += 1
            while j < z and p[j].group > 0:
                j += 1
        return p[i:j+1]""", """            j += 1
            while j < z and p[j].group:
                j += 1
        return p[i:j+1]""")], demo=LANG + '''
class L(Language):
    @lexicon
    def root(cls):
        yield "(a)(b)(c)", bygroup(a.Text, a.Name, a.Comment)
        yield "x", a.Text
t = root(L.root, "abcabcx")
assert [x.text for x in t[0].get_group()] == ["a", "b", "c"]
assert [x.pos for x in t[1].get_group()] == [0, 1, 2], t[1].get_group()
assert [x.pos for x in t[2].get_group()] == [0, 1, 2]
''', needs="a group that is asked for from a token that is not the last, followed directly by something else", what="the group contains tokens of what follows"),
dict(id="B08", property="C08", edits=[("parce/treebuilderutil.py", "    return all(l1 is l2 for l1, l2 in zip(e1.target.push, e2.target.push))", "    return e1.target.push[-1] is e2.target.push[-1]")], demo=LANG + '''
from parce.treebuilder import TreeBuilder
class L(Language):
    @lexicon
    def root(cls):
        yield r"\\{(?=[^ab]*([ab]))", a.Keyword, derive(cls.outer, MATCH[1]), cls.inner
        yield "x", a.Text
    @lexicon
    def outer(cls):
        yield arg(), a.Comment, -1
        yield "x", a.Text
    @lexicon
    def inner(cls):
        yield r"\\}", a.Delimiter, -1
        yield "x", a.Text
def shape(n): return (n.lexicon.name, n.lexicon.arg, [shape(c) if c.is_context else (c.pos, c.text, c.action) for c in n])
import itertools
random.seed(5)
for n in range(1500):
    text = "".join(random.choice(["x", "{", "{", "}", "a", "b", " "]) for _ in range(random.randrange(2, 30)))
    b = TreeBuilder(L.root); b.rebuild(text)
    for _ in range(3):
        i = random.randrange(len(text) + 1); r = min(random.randrange(3), len(text) - i); new = random.choice(["", "x", "a", "b", "}"])
        text = text[:i] + new + text[i + r:]
        b.rebuild(text, False, i, r, len(new))
        assert shape(b.root) == shape(root(L.root, text)), text
''', needs="an edit before a token that enters two lexicons at once, the first of them derived with another argument than before", what="the old derived lexicon is kept"),
dict(id="B09", property="C08", edits=[("parce/treebuilder.py", """tokens[0].equals(tail_token) and \\
                            (context or not context.lexicon.consume) :""", """tokens[0].equals(tail_token):""")], demo=LANG + '''
from parce.treebuilder import TreeBuilder
class L(Language):
    @lexicon
    def root(cls):
        yield "[xy(]", a.Text, cls.one
        yield "[q)]", a.Text
    @lexicon(consume=True)
    def one(cls):
        yield r"\\)", a.Delimiter, -1
        yield r"\\(", a.Text, cls.one
        yield "[xy]", a.Text
        yield "q", a.Name
        yield "w", a.Name, -1
def shape(n): return (n.lexicon.name, n.lexicon.arg, [shape(c) if c.is_context else (c.pos, c.text, c.action) for c in n])
random.seed(6)
for n in range(3000):
    text = "".join(random.choice("xx((q)w ") for _ in range(random.randrange(2, 30)))
    b = TreeBuilder(L.root); b.rebuild(text)
    for _ in range(4):
        i = random.randrange(len(text) + 1); r = min(random.randrange(3), len(text) - i); new = random.choice(["", "x", "(", "w", ")", "q"])
        text = text[:i] + new + text[i + r:]
        b.rebuild(text, False, i, r, len(new))
        assert shape(b.root) == shape(root(L.root, text)), text
''', needs="an edit just before a context that consumes its first token, with the same token and state afterwards", what="the tail is reused in the middle of the new context"),
dict(id="B10", property="C05", edits=[("parce/tree.py", "            while n.is_context and n.pos <= pos:", "            while n.is_context and n.pos < pos:")], demo=LANG + '''
class L(Language):
    @lexicon
    def root(cls):
        yield r"(?=\\()", a.Delimiter, cls.one
        yield "x", a.Text
    @lexicon
    def one(cls):
        yield r"\\)", a.Delimiter, -1
        yield r"\\(", a.Delimiter
t = root(L.root, "x()x")
assert [t.find_context(i).lexicon.name for i in range(4)] == ["root", "one", "one", "root"], [t.find_context(i).lexicon.name for i in range(4)]
''', needs="a position exactly at the start of a context", what="find_context gives the parent of the context"),
dict(id="B11", property="C06", edits=[("parce/tree.py", """                n = n.parent
                copy = copy.parent
                i = len(copy)
""", """                n = n.parent
                i = len(copy)
                copy = copy.parent
""")], demo=LANG + '''
class L(Language):
    @lexicon
    def root(cls):
        yield r"\\(", a.Delimiter, cls.one
        yield "x", a.Text
    @lexicon
    def one(cls):
        yield r"\\(", a.Delimiter, cls.one
        yield r"\\)", a.Delimiter, -1
        yield "x", a.Text
def shape(n): return (n.lexicon.name, [shape(c) if c.is_context else (c.pos, c.text, c.action) for c in n])
import signal; signal.alarm(10)
for s in ("xxx(x)x", "(x(xx)x)", "x(xx)x(x)x"):
    t = root(L.root, s)
    assert shape(t.copy()) == shape(t), s
''', needs="a context whose number of children differs from its index in its parent", what="the copy of a tree misses or repeats nodes"),
dict(id="B12", property="C07", edits=[("parce/tree.py", """                for p, i in ancestors[-2::-1]:
""", """                for p, i in ancestors[-2:0:-1]:
""")], demo=LANG + """
class L(Language):
    @lexicon
    def root(cls):
        yield r"\\(", a.Delimiter, cls.one
        yield "[a-z]", a.Text
    @lexicon
    def one(cls):
        yield r"\\(", a.Delimiter, cls.one
        yield r"\\)", a.Delimiter, -1
        yield "[a-z]", a.Text
t = root(L.root, "a(b(c(d)e)f)g")
for i in range(13):
    for j in range(i + 1, 14):
        r = t.range(i, j)
        assert "".join(x.text for x in r.tokens()) == "a(b(c(d)e)f)g"[i:j], (i, j)
""", needs="a range that starts at least two contexts below the common ancestor", what="the tokens of the uppermost of those contexts are left out"),
dict(id="B14", property="C10", edits=[("parce/mutablestring.py", "            end = max(end for end, text in c)\n", "            end = c[-1][0]\n")], demo='''
from parce.document import Document
d = Document("abcdef")
with d:
    d[1:4] = "X"
    d[1:1] = "Y"
assert d.text() == "aXYef", d.text()
''', needs="two edits at the same position in one context, the last replacing less text than another", what="the text that is replaced by the first edit stays"),
dict(id="B15", property="C11", edits=[("parce/document.py", """        for undo in itertools.chain(self._undo_stack, self._redo_stack):
            undo[1] = True""", """        for undo in self._undo_stack:
            undo[1] = True""")], demo='''
from parce.document import Document
d = Document("a")
d.append("b")
d.modified = False      # "ab" is saved
d.undo()
assert d.modified
d.modified = False      # "a" is saved
d.redo()
assert d.modified, "the text differs from the saved text"
''', needs="saving (modified = False) after an undo, then a redo", what="the document claims to be unmodified after a redo past the saved state"),
dict(id="B16", property="C12", edits=[("parce/document.py", """        self._update_cursors(changes)
        self._revision += 1
""", """        if changes[0][0] < len(self):
            self._update_cursors(changes)
        self._revision += 1
""")], demo='''
from parce.document import Document, Cursor
d = Document("abcdef")
c = Cursor(d, 3, 6)
d.append("gh")
assert (c.pos, c.end) == (3, 8), (c.pos, c.end)
''', needs="a cursor that ends at the end of the document, to which text is appended", what="the cursor does not grow with text appended at its end"),
dict(id="B17", property="C13", edits=[("parce/document.py", """            n = self._block_number = d[:self.pos].count(d.block_separator)""", """            n = self._block_number = len(d[:self.pos].splitlines())""")], demo='''
from parce.document import Document
d = Document("a\\x0cb\\nc\\nd")
assert [d.find_block(i).block_number for i in (4, 6)] == [1, 2]
''', needs="text with another kind of line separator than the block separator (such as a form feed)", what="the block number is too high"),
]
