"""Contracts on the blocks (lines) of a document (property C13).

starts is the ghost sequence of the positions where a line starts: the first is 0, every other one follows directly
after a separator, and between the start of a line and the separator that ends it there is no other separator.  Every
text has exactly one such sequence.
"""
from pyvc.contract import Contract, Loop
import parce.document as pd

DOC = {"cls": pd.Document, "fields": {"_text": "str", "block_separator": "str"}}
BLOCK = {"cls": pd.Block, "fields": {"_document": DOC, "pos": "int", "end": "int", "_block_number": "maybe[int]"}}
NEWBLOCK = {"cls": pd.Block, "fields": {"pos": "int", "end": "int", "_block_number": "maybe[int]"}}
STARTS = "seq[int]"

def T(doc):
    """The meaning of starts for the text of a document."""
    t, s = doc + "._text", doc + ".block_separator"
    return ["len(%s) > 0" % s,
        "len(starts) > 0 and starts[0] == 0",
        'forall("int", lambda k: implies(0 <= k and k < len(starts), 0 <= starts[k] and starts[k] <= len({t})), pat=starts[k])'.format(t=t),
        'forall("int", lambda k: implies(0 < k and k < len(starts), occurs({t}, {s}, starts[k] - len({s}))), pat=starts[k])'.format(t=t, s=s),
        # every occurrence ends at a line start (own is the index of the line after a separator)
        'forall("int", lambda p: implies(occurs({t}, {s}, p), 0 < own(p) and own(p) < len(starts) and starts[own(p)] == p + len({s})), pat=occurs({t}, {s}, p))'.format(t=t, s=s),
        'forall("int", lambda i, j: implies(0 <= i and i < j and j < len(starts), starts[i] + len({s}) <= starts[j]), pat=(starts[i], starts[j]))'.format(s=s)]

def isline(b, doc, k):
    """b is the k-th line"""
    return "{b}.pos == starts[{k}] and {b}.end == ite({k} + 1 < len(starts), starts[{k} + 1] - len({d}.block_separator), len({d}._text))".format(b=b, d=doc, k=k)

def numbered(b, k):
    return "implies({b}._block_number is not None, {b}._block_number == {k})".format(b=b, k=k)

D = "parce.document:AbstractDocument."
B = "parce.document:Block."

def load(reg):
    import pyvc.interp as I
    reg.specfuns["own"] = I.SpecDef("own", ["int"], "int", ["p"], None, reg)
    # what str.count counts: with the text cut off where line k starts there are k separators
    reg.specfuns["count"] = I.SpecDef("count", ["str", "str"], "int", ["s", "sub"], None, reg)
    COUNT = lambda doc: ["count({d}._text, {d}.block_separator) == len(starts) - 1".format(d=doc),
        'forall("int", lambda k: implies(0 <= k and k < len(starts), count({d}._text[:starts[k]], {d}.block_separator) == k), pat=starts[k])'.format(d=doc)]
    free = {"starts": STARTS, "line": "int"}
    P = ["0 <= position"]
    LINE = ["0 <= line < len(starts)"]
    each = lambda cond, res: 'forall("int", lambda k: implies(0 <= k and k < len(starts) and %s, result == %s), pat=starts[k])' % (cond, res)
    # the line that a position is in: the last one that does not start after it
    reg.add(Contract(D + "find_start_of_block", params={"self": DOC, "position": "int"}, returns="int", free={"starts": STARTS},
        requires=T("self") + P, ensures=["0 <= result <= len(self._text)", each("starts[k] <= position and (k + 1 == len(starts) or position < starts[k + 1])", "starts[k]")]))
    reg.add(Contract(D + "find_end_of_block", params={"self": DOC, "position": "int"}, returns="int", free={"starts": STARTS},
        requires=T("self") + P,
        ensures=["0 <= result <= len(self._text)", each("starts[k] <= position and (k + 1 == len(starts) or position <= starts[k + 1] - len(self.block_separator))",
            "ite(k + 1 < len(starts), starts[k + 1] - len(self.block_separator), len(self._text))")]))
    at = "starts[line] <= position and (line + 1 == len(starts) or position < starts[line + 1])"
    reg.add(Contract(D + "find_block", params={"self": DOC, "position": "int"}, returns=dict(NEWBLOCK, bind={"_document": "self"}), free=free,
        requires=T("self") + ["0 <= position"] + LINE + [at],
        ensures=[isline("result", "self", "line"), numbered("result", "line"), "result._document is self"]))
    reg.add(Contract(D + "find_block_by_number", params={"self": DOC, "number": "int"}, returns=dict(NEWBLOCK, bind={"_document": "self"}, opt=True), free={"starts": STARTS},
        requires=T("self"),
        ensures=["(result is None) == (number >= len(starts) or number < -len(starts))",
                 "implies(result is not None and number >= 0, %s and %s and result._document is self)" % (isline("result", "self", "number"), numbered("result", "number")),
                 "implies(result is not None and number < 0, %s and %s and result._document is self)" % (isline("result", "self", "(len(starts) + number)"), numbered("result", "len(starts) + number"))],
        loops=[Loop(index="i", inv=["i <= len(starts)", "text == self._text and sep == self.block_separator and l == len(sep)",
                    "implies(i == 0, end == -l)",
                    "implies(i > 0, pos == starts[i - 1] and end == ite(i < len(starts), starts[i] - l, len(text)))",
                    "implies(i > 0, bound(pos))"], kinds={"pos": "maybe[int]"}),
               Loop(index="i", inv=["i <= len(starts)", "text == self._text and sep == self.block_separator and l == len(sep)",
                    "implies(i == 0, pos == len(text) + l)",
                    "implies(i > 0, pos == starts[len(starts) - i] and end == ite(i > 1, starts[len(starts) - i + 1] - l, len(text)))", "implies(i > 0, bound(end))"], kinds={"end": "maybe[int]"})]))
    reg.add(Contract(D + "block_count", params={"self": DOC}, returns="int", free={"starts": STARTS},
        requires=T("self") + COUNT("self"), ensures=["result == len(starts)"]))
    # a block that is line number `line` of its document
    BL = T("self._document") + LINE + [isline("self", "self._document", "line"), numbered("self", "line")]
    reg.add(Contract(B + "is_first", params={"self": BLOCK}, returns="bool", free=free, requires=BL, ensures=["result == (line == 0)"]))
    reg.add(Contract(B + "is_last", params={"self": BLOCK}, returns="bool", free=free, requires=BL, ensures=["result == (line == len(starts) - 1)"]))
    reg.add(Contract(B + "block_number", params={"self": BLOCK}, returns="int", free=free, requires=BL + COUNT("self._document"), ensures=["result == line", numbered("self", "line")]))
    NB = dict(NEWBLOCK, bind={"_document": "self._document"}, opt=True)
    for name, d, none in (("next_block", "+ 1", "line == len(starts) - 1"), ("previous_block", "- 1", "line == 0")):
        reg.add(Contract(B + name, params={"self": BLOCK}, returns=NB, free=free, requires=BL,
            ensures=["(result is None) == (%s)" % none,
                     "implies(result is not None, %s and %s and result._document is self._document)" % (isline("result", "self._document", "(line %s)" % d), numbered("result", "line " + d))]))
    # iterating a region: line after line, from the one that start is in, up to the last one that starts before end
    SELFBLOCK = dict(NEWBLOCK, bind={"_document": "self"})
    inv = ["block is None or 0 <= at and at < len(starts) and (%s) and (%s) and block._document is self" % (isline("block", "self", "at"), numbered("block", "at"))]
    reg.add(Contract(D + "blocks", params={"self": DOC, "start": "int", "end": "opt[int]"}, free=free,
        requires=T("self") + ["0 <= start"] + LINE + [at.replace("position", "start")],
        instantiate={B + "next_block": {"line": "at - 1"}},     # when the block was yielded, at has moved on
        gen={"item": SELFBLOCK, "ghost": {"at": ("int", "line")}, "update": {"at": "at + 1"},
             "each": ["0 <= at < len(starts)", "(%s) and (%s)" % (isline("item", "self", "at"), numbered("item", "at")),
                      "at == line or end is None or starts[at] < end"],
             "final": ["at > line", "at == len(starts) or end is not None and starts[at] >= end"]},
        loops=[Loop(inv=inv + ["at >= line", "implies(block is None, at == len(starts) and at > line)", "end is None"], kinds={"block": dict(SELFBLOCK, opt=True)}, decreases="ite(block is None, 0, len(starts) - at + 1)"),
               Loop(inv=inv + ["block is not None", "at >= line", "end is not None", "at == line or starts[at] < end"], kinds={"block": dict(SELFBLOCK, opt=True)}, decreases="len(starts) - at")]))
    return {}
