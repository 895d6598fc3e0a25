SEEDS = [
dict(id="B01", property="C05", edits=[("parce/tree.py", """                if n.is_context:
                    n = n.last_token()
                if n.pos < pos:""", """                if n.is_context:
                    n = n.first_token()
                if n.pos < pos:""")],
 demo='''
from parce import *
import parce.action as a
class L(Language):
    @lexicon
    def root(cls):
        yield r"\\(", a.Delimiter, cls.par
        yield "[a-z]+", a.Text
    @lexicon
    def par(cls):
        yield r"\\)", a.Delimiter, -1
        yield "[a-z]+", a.Text
t = root(L.root, "x (a b c) y")
assert t.find_token_after(5).text == "b", t.find_token_after(5)
assert t.find_token_after(4).text == "b", t.find_token_after(4)
''', needs="a position inside a context whose first token starts before it", what="find_token_after skips the rest of a context that starts before the position"),
dict(id="B02", property="C07", edits=[("parce/tree.py", """        if end is not None and end < tree.end:
            if end <= start:""", """        if end is not None and end + 1 < tree.end:
            if end <= start:""")],
 demo='''
from parce import *
import parce.action as a
class L(Language):
    @lexicon
    def root(cls):
        yield "[a-z]", a.Text
t = root(L.root, "abcdef")
assert [x.text for x in t.range(1, 5).tokens()] == list("bcde"), list(t.range(1, 5).tokens())
''', needs="a range ending exactly one character before the end of the tree", what="the range contains the last token too"),
dict(id="B03", property="C09", edits=[("parce/treebuilderutil.py", """        if pos < self.start:
            return pos
        elif""", """        if pos <= self.start:
            return pos
        elif""")],
 demo='''
from parce.treebuilderutil import Changes
c = Changes()
c.add("abXYcd", start=2, removed=0, added=2)
assert c.new_position(1) == 1
assert c.new_position(2) == 4, c.new_position(2)
''', needs="an old position exactly at the start of the merged edit", what="the translated position points before the inserted text instead of at the same old text"),
]
