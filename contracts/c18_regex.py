"""Contracts on character classes (property C18).

ordf and chrf are the code of a character and the character of a code.  The text of a class is the text of its ranges,
one after the other: txt(a, b) is that of the range from a to b.  That such a text in brackets matches the characters in one
of the ranges is what the re module documents.
"""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef
import parce.regex as pr

K = "parce.regex:"
R = "seq[tuple[int,int]]"
CH = "seq[obj:char]"

def load(reg):
    def spec(name, kinds, ret, params, body=None):
        reg.specfuns[name] = SpecDef(name, kinds, ret, params, body, reg)
    spec("ordf", ["obj:char"], "int", ["c"]); spec("chrf", ["int"], "obj:char", ["x"]); spec("chrs", ["int"], "str", ["x"]); spec("esc", ["str"], "str", ["s"])
    spec("wanted", [CH, "int"], "bool", ["s", "x"])
    spec("join", ["seq[str]"], "str", ["s"], 'ite(len(s) == 0, "", join(take(s, len(s) - 1)) + s[len(s) - 1])')
    spec("txt", ["int", "int"], "str", ["a", "b"], "ite(a == b, esc(chrs(a)), ite(a == b - 1, esc(chrs(a)) + esc(chrs(b)), esc(chrs(a)) + '-' + esc(chrs(b))))")
    spec("txts", [R, "int"], "str", ["s", "n"], "ite(n <= 0, '', txts(s, n - 1) + txt(s[n - 1][0], s[n - 1][1]))")
    sch = {"fields": {}, "classes": {}, "methods": {}, "set_of": "obj:char", "list_values": True}
    AX = ['forall("obj:char", lambda c: chrf(ordf(c)) is c, pat=ordf(c))', 'forall("str;str", lambda a, b: esc(a + b) == esc(a) + esc(b), pat=esc(a + b))',
          # what is wanted: the codes of the given characters
          'forall("int", lambda x: wanted(chars, x) == any(ordf(chars[k]) == x for k in range(len(chars))), pat=wanted(chars, x))', 'forall("int", lambda k: implies(0 <= k and k < len(chars), wanted(chars, ordf(chars[k]))), pat=chars[k])']
    IN = "{0}[j][0] <= x and x <= {0}[j][1]"
    reg.add(Contract(K + "make_charclass", params={"chars": CH}, returns="str", requires=AX, schema=sch, kinds={"buf[]": "tuple[int,int]"}, witness={"rs": (R, "buf")},
        ensures=["result == txts(rs, len(rs))",
                 'forall("int", lambda j: implies(0 <= j and j < len(rs), rs[j][0] <= rs[j][1]), pat=rs[j])',
                 'forall("int;int", lambda j, x: implies(0 <= j and j < len(rs) and %s, wanted(chars, x)), pat=(rs[j], wanted(chars, x)))' % IN.format("rs"),
                 'forall("int", lambda k: implies(0 <= k and k < len(chars), any(rs[j][0] <= ordf(chars[k]) and ordf(chars[k]) <= rs[j][1] for j in range(len(rs)))), pat=chars[k])'],
        loops={0: Loop(index="n", src="r", inv=['forall("int", lambda j: implies(0 <= j and j < len(buf), buf[j][0] <= buf[j][1]), pat=buf[j])',
                   'forall("int;int", lambda j, x: implies(0 <= j and j < len(buf) and %s, wanted(chars, x)), pat=(buf[j], wanted(chars, x)))' % IN.format("buf"),
                   'forall("int", lambda m: implies(0 <= m and m < n, any(buf[j][0] <= r[m] and r[m] <= buf[j][1] for j in range(len(buf)))), pat=r[m])']),
               "comp0": Loop(index="n", kinds={"comp": "str"}, inv=["len(comp) == n", "join(comp) == txts(buf, n)"])}))
    return sch
