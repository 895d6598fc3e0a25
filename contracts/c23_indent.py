"""Contracts on indenting (property C23).

Within the edit context of a document the text does not change: the edits are collected (C10).  A ghost field of the
document holds those edits; what they may touch is stated in terms of the lines: lead(b) is the number of
characters of leading whitespace of the block b.  blank(s) stands for "s consists of blanks that do not end a line".
"""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef
import parce.indent as pi

K = "parce.indent:AbstractIndenter."
EDITS = "seq[tuple[int,int,str]]"
D, C, B, I = "obj:doc", "obj:cursor", "obj:block", "obj:info"
FIELDS = {"g_edits": EDITS, "lines": "seq[obj:block]", "doc": D, "pos": "int", "end": "opt[int]", "bend": "int", "text_": "str",
          "allow_indent": "bool", "allow_strip": "bool", "is_blank": "bool", "indent": "str", "prefer_indent": "opt[str]", "indents": "seq[opt[str]]", "dedents_start": "int", "dedents_end": "int", "of": B,
          "indent_string": "str", "indent_blank_lines": "bool"}
SELF = "obj:indenter"
METHODS = {"cursor.document": "spec:document", "cursor.blocks": "spec:cursor.blocks", "doc.insert": "spec:insert", "doc.__delitem__": "spec:del", "doc.__setitem__": "spec:set",
           "indenter.indent_info": "spec:info", "block.text": "spec:text", "str.rstrip": "spec:rstrip", "doc.blocks": "spec:doc.blocks", "block.__len__": "spec:len"}

def load(reg):
    def spec(name, kinds, ret, params, body=None):
        reg.specfuns[name] = SpecDef(name, kinds, ret, params, body, reg)
    spec("lead", [B], "int", ["b"]); spec("blank", ["str"], "bool", ["s"]); spec("info", [SELF, B], I, ["s", "b"]); spec("rst", ["str", "opt[str]"], "str", ["s", "chars"])
    spec("clines", [C], "seq[obj:block]", ["c"])
    C10 = "in an edit context an edit is collected, the text and the blocks stay as they are (C10, C13)"
    reg.add(Contract("spec:document", params={"self": C}, returns=D, ensures=["result is self.doc"], trusted="Cursor.document"))
    reg.add(Contract("spec:cursor.blocks", params={"self": C}, returns="seq[obj:block]", ensures=["result == clines(self)"], trusted="Cursor.blocks: the lines the cursor is in (bounded, C13)"))
    reg.add(Contract("spec:doc.blocks", params={"self": D}, returns="seq[obj:block]", ensures=["result == self.lines"], trusted="AbstractDocument.blocks: all lines (proved in C13)"))
    reg.add(Contract("spec:insert", params={"self": D, "pos": "int", "text": "str"}, modifies=["heap.g_edits"], ensures=["self.g_edits == cat(old(self.g_edits), seq((pos, pos, text)))"], trusted=C10))
    reg.add(Contract("spec:del", params={"self": D, "key": "slice"}, modifies=["heap.g_edits"], ensures=["self.g_edits == cat(old(self.g_edits), seq((key.start, key.stop, '')))"], trusted=C10))
    reg.add(Contract("spec:set", params={"self": D, "key": "slice", "text": "str"}, modifies=["heap.g_edits"], ensures=["self.g_edits == cat(old(self.g_edits), seq((key.start, key.stop, text)))"], trusted=C10))
    reg.add(Contract("spec:info", params={"self": SELF, "block": B, "prev_indents": "obj:any"}, returns=I, ensures=["result is info(self, block)"], trusted="indent_info: the indent is the leading whitespace of the line (bounded)"))
    reg.add(Contract("spec:text", params={"self": B}, returns="str", ensures=["result == self.text_"], trusted="Block.text"))
    reg.add(Contract("spec:len", params={"self": B}, returns="int", ensures=["result == len(self.text_)"], trusted="Block.__len__ (proved in C13)"))
    reg.add(Contract("spec:rstrip", params={"self": "str", "chars": "opt[str]"}, returns="str", ensures=["result == rst(self, chars)"], trusted="str.rstrip"))
    # one line more or less: what each line gives
    sch = {"fields": FIELDS, "methods": METHODS, "classes": {}, "files": ("doc",), "always_true": ("info", "block")}
    def each(name, piece, extra=""):
        spec(name, [SELF, "seq[obj:block]", "int", "opt[str]"], EDITS, ["s", "l", "n", "chars"], "ite(n <= 0, seq(), cat({0}(s, l, n - 1, chars), {1}))".format(name, piece.replace("INFO", "info(s, l[n - 1])").replace("LINE", "l[n - 1]")))
    each("incs", "ite(INFO.allow_indent, seq((LINE.pos, LINE.pos, s.indent_string)), seq())")
    each("decs", "ite(INFO.allow_indent and len(INFO.indent) > 0, seq((LINE.pos, LINE.pos + ite(occurs(INFO.indent, s.indent_string, 0), len(s.indent_string), len(INFO.indent)), '')), seq())")
    each("strips", "ite(INFO.allow_strip and len(rst(LINE.text_, chars)) != len(LINE.text_), seq((LINE.pos + len(rst(LINE.text_, chars)), LINE.end, '')), seq())")
    for f, g, chars in (("increase_indent", "incs", "None"), ("decrease_indent", "decs", "None"), ("strip_trailing_blanks", "strips", "chars")):
        params = {"self": SELF, "cursor": C}
        if chars != "None": params["chars"] = "opt[str]"
        s2 = dict(sch, fields=dict(FIELDS, end="int", bend="int")) if f == "strip_trailing_blanks" else sch
        reg.add(Contract(K + f, params=params, requires=["len(cursor.doc.g_edits) == 0"], modifies=["heap.g_edits"], schema=s2,
            ensures=["cursor.doc.g_edits == %s(self, clines(cursor), len(clines(cursor)), %s)" % (g, chars)],
            loops=[Loop(index="i_", inv=["d.g_edits == %s(self, clines(cursor), i_, %s)" % (g, chars)])]))
    # whole ranges: an edit replaces leading whitespace of a line in the range by other whitespace
    spec("li", ["int"], "int", ["pos"])
    reg.add(Contract("spec:anyinfo", params={"self": SELF, "block": B, "prev_indents": "seq[str]"}, returns=I,
        ensures=["0 <= len(result.indent) and len(result.indent) <= lead(block)", "blank(result.indent)", "implies(result.prefer_indent is not None, blank(the(result.prefer_indent)))",
                 'forall("int", lambda k: implies(0 <= k and k < len(result.indents) and result.indents[k] is not None, blank(the(result.indents[k]))), pat=result.indents[k])',
                 "result.dedents_start >= 0 and result.dedents_end >= 0"],
        trusted="indent_info: the indent is part of the leading whitespace of the line, indents consist of blanks (bounded)"))
    LINES = ['forall("int", lambda k: implies(0 <= k and k < len(cursor.doc.lines), li(cursor.doc.lines[k].pos) == k and cursor.doc.lines[k].end is not None), pat=cursor.doc.lines[k])']
    BLANKS = ["blank(self.indent_string)", "blank('')", 'forall("str;str", lambda a, b: implies(blank(a) and blank(b), blank(a + b)), pat=a + b)']
    E, j = "cursor.doc.g_edits[k]", "li(cursor.doc.g_edits[k][0])"
    line = "cursor.doc.lines[%s]" % j
    def edits(n):
        return ['forall("int", lambda k: implies(0 <= k and k < len(cursor.doc.g_edits), 0 <= %s and %s < %s), pat=cursor.doc.g_edits[k])' % (j, j, n),
            'forall("int", lambda k: implies(0 <= k and k < len(cursor.doc.g_edits), {l}.pos == {e}[0] and {e}[0] <= {e}[1] and {e}[1] <= {e}[0] + lead({l})), pat=cursor.doc.g_edits[k])'.format(l=line, e=E),
            'forall("int", lambda k: implies(0 <= k and k < len(cursor.doc.g_edits), blank({e}[2])), pat=cursor.doc.g_edits[k])'.format(e=E),
            'forall("int", lambda k: implies(0 <= k and k < len(cursor.doc.g_edits), {e}[0] >= cursor.pos and ({j} == 0 or cursor.end is None or the(cursor.doc.lines[{j} - 1].end) < the(cursor.end))), pat=cursor.doc.g_edits[k])'.format(e=E, j=j),
            'forall("int", lambda k, m: implies(0 <= k and k < m and m < len(cursor.doc.g_edits), %s < %s), pat=(cursor.doc.g_edits[k], cursor.doc.g_edits[m]))' % (j, j.replace("[k]", "[m]"))]
    sch2 = dict(sch, methods=dict(METHODS, **{"indenter.indent_info": "spec:anyinfo"}))
    stack = ["len(indents) > 0", 'forall("int", lambda q: implies(0 <= q and q < len(indents), blank(indents[q])), pat=indents[q])']
    reg.add(Contract(K + "indent", params={"self": SELF, "cursor": C}, requires=["len(cursor.doc.g_edits) == 0"] + LINES + BLANKS, modifies=["heap.g_edits"], schema=sch2,
        ensures=edits("len(cursor.doc.lines)"), kinds={"indents[]": "str"},
        loops=[Loop(index="i_", kinds={"prev_info": "opt[obj:info]"}, inv=edits("i_") + stack + [
                   "i_ == 0 or cursor.end is None or the(cursor.doc.lines[i_ - 1].end) < the(cursor.end)",
                   'implies(prev_info is not None, forall("int", lambda k: implies(0 <= k and k < len(the(prev_info).indents) and the(prev_info).indents[k] is not None, blank(the(the(prev_info).indents[k]))), pat=the(prev_info).indents[k]))']),
               Loop(index="q_", inv=stack + ["blank(current_indent)"])]))
    # one line: at most one edit, of the line that the cursor is in
    spec("blockat", [C], B, ["c"])
    reg.add(Contract("spec:block", params={"self": C}, returns=B, ensures=["result is blockat(self)"], trusted="Cursor.block: the line at the position of the cursor"))
    reg.add(Contract("spec:is_first", params={"self": B}, returns="bool", ensures=["result == (self.num == 0)"], trusted="Block.is_first (proved in C13)"))
    reg.add(Contract("spec:previous_block", params={"self": B}, returns="opt[obj:block]", ensures=["(result is None) == (self.num == 0)", "implies(result is not None, the(result).num == self.num - 1)"], trusted="Block.previous_block (proved in C13)"))
    sch3 = dict(sch2, fields=dict(FIELDS, num="int"), methods=dict(sch2["methods"], **{"cursor.block": "spec:block", "block.is_first": "spec:is_first", "block.previous_block": "spec:previous_block"}))
    ED = "cursor.doc.g_edits"
    reg.add(Contract(K + "auto_indent", params={"self": SELF, "cursor": C}, requires=["len(cursor.doc.g_edits) == 0", "blockat(cursor).num >= 0"] + BLANKS, modifies=["heap.g_edits"], schema=sch3,
        ensures=["len({0}) <= 1".format(ED),
                 "implies(len({0}) == 1, {0}[0][0] == blockat(cursor).pos and {0}[0][0] <= {0}[0][1] and {0}[0][1] <= {0}[0][0] + lead(blockat(cursor)) and blank({0}[0][2]))".format(ED)],
        loops=[Loop(kinds={"b": "obj:block", "info": "obj:info"}, inv=["b.num >= 0", "blank(new_indent)"], decreases="b.num")]))
    return sch
