"""Contracts on how cursors move with the text (property C12).

off[k] is (ghost) by how much the text after the first k changes has grown.
"""
from pyvc.contract import Contract, Loop
import parce.document as pd
from .doc_common import *

DOC = {"cls": pd.Document, "fields": {"_cursors": "seq[obj:cursor]"}}
FIELDS = {"pos": "int", "end": "opt[int]"}

def P(c, n):
    """Where the position of cursor c must be when the first n changes are taken into account."""
    p = "old(%s.pos)" % c
    return ['forall("int", lambda j: implies(0 <= j and j < {n} and changes[j][0] < {p} and {p} <= changes[j][1], {c}.pos == changes[j][0] + off[j]), pat=changes[j])'.format(n=n, p=p, c=c),
            'forall("int", lambda j: implies(0 <= j and j <= {n} and (j == 0 or changes[j - 1][1] < {p}) and (j == {n} or {p} <= changes[j][0]), {c}.pos == {p} + off[j]), pat=off[j])'.format(n=n, p=p, c=c)]

def E(c, n):
    e = "old(%s.end)" % c
    return ["({c}.end is None) == ({e} is None)".format(c=c, e=e),
            'forall("int", lambda j: implies({e} is not None and 0 <= j and j < {n} and changes[j][0] <= {e} and {e} <= changes[j][1] and (j + 1 == {n} or {e} < changes[j + 1][0]), '
            '{c}.end == changes[j][0] + off[j] + len(changes[j][2])), pat=changes[j])'.format(n=n, e=e, c=c),
            'forall("int", lambda j: implies({e} is not None and 0 <= j and j <= {n} and (j == 0 or changes[j - 1][1] < {e}) and (j == {n} or {e} < changes[j][0]), {c}.end == {e} + off[j]), pat=off[j])'.format(n=n, e=e, c=c)]

def every(parts, lo, hi, arr="self._cursors"):
    return ['forall("int", lambda q: implies(%s <= q and q < %s, %s), pat=%s[q])' % (lo, hi, x, arr) for x in parts]

def load(reg):
    c = "self._cursors[q]"
    # the list of tuples that the loops run over
    cur = ['len(cursors) == len(self._cursors)',
           'forall("int", lambda q: implies(0 <= q and q < len(self._cursors), cursors[q][0] is {c} and cursors[q][1] == old({c}.pos) and cursors[q][2] == old({c}.end)), pat=self._cursors[q])'.format(c=c),
           'forall("int", lambda q: implies(0 <= q and q < len(self._cursors), cursors[q][0] is {c} and cursors[q][1] == old({c}.pos) and cursors[q][2] == old({c}.end)), pat=cursors[q])'.format(c=c)]
    reg.add(Contract("parce.document:AbstractDocument._update_cursors", params={"self": DOC, "changes": CHANGES}, free={"off": "seq[int]"},
        requires=SORTED + OFF + [
            # a WeakSet holds every cursor once
            'forall("int", lambda i, j: implies(0 <= i and i < j and j < len(self._cursors), self._cursors[i] is not self._cursors[j]), pat=(self._cursors[i], self._cursors[j]))'],
        ensures=every(P(c, "len(changes)") + E(c, "len(changes)"), "0", "len(self._cursors)"),
        modifies=["heap.pos", "heap.end"],
        loops=[Loop(index="i", inv=["offset == off[i]"] + cur + every(P(c, "i") + E(c, "i"), "0", "len(self._cursors)")),
               Loop(index="m", inv=["0 <= i < len(changes)", "start == changes[i][0] and end == changes[i][1] and text == changes[i][2]",
                                    "new_start == start + off[i] and new_end == new_start + len(text) and offset == off[i + 1]"] + cur +
                    every(P(c, "i + 1") + E(c, "i + 1"), "0", "m") + every(P(c, "i") + E(c, "i"), "m", "len(self._cursors)"))]))
    return {"fields": FIELDS}
