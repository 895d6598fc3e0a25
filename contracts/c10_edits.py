"""Contracts on editing a (mutable string) document (property C10)."""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef
import parce.mutablestring as ms
import pyvc.interp as I
from .doc_common import *

PENDING = "dict[tuple[int,str]]"
DOC = {"cls": ms.MutableString, "fields": {"_text": "str", "_edit_context": "int", "_changes": PENDING,
       # ghost: what was reported by the last call of text_changed, and how often it was called
       "g_pos": "int", "g_removed": "int", "g_added": "int", "g_count": "int"}}
A = "parce.mutablestring:AbstractMutableString."
M = "parce.mutablestring:MutableString."

def MERGED(r, d):
    """r is what the pending edits in d add up to: one change for every start, in ascending order, up to the farthest end"""
    return ["len(%s) > 0" % r] + [x.replace("changes", r) for x in SORTED] + [x.format(r=r, d=d) for x in (
        'forall("int", lambda k: implies(0 <= k and k < len({r}), {r}[k][0] in {d}._changes and {r}[k][1] <= len({d}._text)), pat={r}[k])',
        'forall("int;int", lambda k, j: implies(0 <= k and k < len({r}) and 0 <= j and j < len({d}._changes[{r}[k][0]]), {d}._changes[{r}[k][0]][j][0] <= {r}[k][1]), pat=({r}[k], {d}._changes[{r}[k][0]][j]))',
        'forall("int", lambda k: implies(0 <= k and k < len({r}), {r}[k][2] == jtext({d}._changes[{r}[k][0]]) and any({d}._changes[{r}[k][0]][j][0] == {r}[k][1] for j in range(len({d}._changes[{r}[k][0]])))), pat={r}[k])',
        'forall("int", lambda k: implies(k in {d}._changes, any({r}[i][0] == k for i in range(len({r})))), pat=(k in {d}._changes))')]

def load(reg):
    splice_specs(reg)
    # the texts of edits with the same start are joined in the order in which they were made
    reg.specfuns["jtext"] = SpecDef("jtext", ["seq[tuple[int,str]]"], "str", ["c"], "join([t for e, t in c])", reg)
    FITS = ['forall("int", lambda k: implies(0 <= k and k < len(changes), changes[k][1] <= len(self._text)), pat=changes[k])']
    # the new text is the old one with every range replaced
    reg.add(Contract(M + "_update_text", params={"self": DOC, "changes": CHANGES},
        requires=SORTED + FITS,
        ensures=["self._text == spliced(old(self._text), changes)"], modifies=["self._text"], kinds={"out": "str"},
        loops={"generate_text#0": Loop(index="i", inv=["tail == tailof(changes, i)", "join(out) == built(self._text, changes, i)", "self._text == old(self._text)"])}))
    # pending edits: what _get_changes makes of them
    WF = ['forall("int;int", lambda k, i: implies(k in self._changes and 0 <= i and i < len(self._changes[k]), 0 <= k and k <= self._changes[k][i][0] and self._changes[k][i][0] <= len(self._text)), pat=self._changes[k][i])',
          'forall("int", lambda k: implies(k in self._changes, len(self._changes[k]) > 0), pat=self._changes[k])']
    # some pending edit starts inside the range of one that starts earlier
    OVERLAP = "exists(\"int;int;int\", lambda a, b, i: a in self._changes and b in self._changes and a < b and 0 <= i and i < len(self._changes[a]) and b < self._changes[a][i][0])"
    NONEMPTY = ['exists("int", lambda k: k in self._changes)']
    reg.add(Contract(A + "_get_changes", params={"self": DOC}, returns=CHANGES, out_kind="tuple[int,int,str]",
        requires=WF + NONEMPTY,
        raises={"RuntimeError": OVERLAP},
        ensures=MERGED("result", "self"),
        loops=[Loop(index="i", inv=["len(positions) > 0", "len(out) == i", "implies(i == 0, end == positions[0])",
            'forall("int", lambda k: implies(0 <= k and k < i, out[k][0] == positions[k] and 0 <= out[k][0] and out[k][0] <= out[k][1] and out[k][0] in self._changes and out[k][1] <= len(self._text) and out[k][1] <= end), pat=out[k])',
            'forall("int", lambda a, b: implies(0 <= a and a < b and b < i, out[a][1] <= out[b][0]), pat=(out[a], out[b]))',
            'forall("int;int", lambda k, j: implies(0 <= k and k < i and 0 <= j and j < len(self._changes[out[k][0]]), self._changes[out[k][0]][j][0] <= out[k][1]), pat=(out[k], self._changes[out[k][0]][j]))',
            "implies(i > 0, end == out[i - 1][1])",
            "implies(i > 0, any(self._changes[positions[i - 1]][j][0] == end for j in range(len(self._changes[positions[i - 1]]))))",
            'forall("int", lambda k: implies(0 <= k and k < i, out[k][2] == jtext(self._changes[out[k][0]]) and any(self._changes[out[k][0]][j][0] == out[k][1] for j in range(len(self._changes[out[k][0]])))), pat=out[k])'],
            cuts=["text == jtext(self._changes[start])"])]))
    reg.add(Contract(A + "_get_changes", name=A + "_get_changes (each change)", params={"self": DOC},
        requires=WF + NONEMPTY, raises={"RuntimeError": "~" + OVERLAP},
        gen={"item": "tuple[int,int,str]", "ghost": {"last": ("int", "-1")}, "update": {"last": "item[0]"},
             "each": ["item[0] in self._changes", "last < item[0]",
                      # texts of edits with the same start are joined in the order in which they were made
                      "item[2] == jtext(self._changes[item[0]])",
                      "item[1] == max([e for e, t in self._changes[item[0]]])"]},
        loops=[Loop(index="i", inv=["len(positions) > 0", "last == ite(i == 0, -1, positions[i - 1])", "implies(i == 0, end == positions[0])",
             'forall("int;int", lambda k, j: implies(0 <= k and k < i and 0 <= j and j < len(self._changes[positions[k]]), self._changes[positions[k]][j][0] <= end), pat=(positions[k], self._changes[positions[k]][j]))',
             "implies(i > 0, any(self._changes[positions[i - 1]][j][0] == end for j in range(len(self._changes[positions[i - 1]]))))"])]))
    reg.add(Contract(A + "text_changed", params={"self": DOC, "position": "int", "removed": "int", "added": "int"},
        modifies=["self.g_pos", "self.g_removed", "self.g_added", "self.g_count"],
        ensures=["self.g_pos == position and self.g_removed == removed and self.g_added == added and self.g_count == old(self.g_count) + 1"],
        trusted="observer: the ghost fields record with which arguments the notification is called"))
    # ch: the changes that were applied
    WITNESS = {"ch": (CHANGES, 'callarg("_update_text", "changes", "%s")' % CHANGES)}
    DONE = [x.replace("self._changes", "old(self._changes)").replace("self._text", "old(self._text)") for x in MERGED("ch", "self")] + \
           ["self._text == spliced(old(self._text), ch) and self.g_pos == ch[0][0] and self.g_removed == ch[len(ch) - 1][1] - ch[0][0]"]
    APPLIED = ["implies(not old(%s), self._text == old(self._text) and self.g_count == old(self.g_count))" % NONEMPTY[0],
               "implies(old(%s), self.g_count == old(self.g_count) + 1 and self.g_added == len(self._text) - len(old(self._text)) + self.g_removed)" % NONEMPTY[0],
               *("implies(old(%s), %s)" % (NONEMPTY[0], x) for x in DONE),
               "not (%s)" % NONEMPTY[0]]
    # an error leaves the text as it is, nothing pending, and reports nothing
    UNTOUCHED = ["self._text == old(self._text) and self.g_count == old(self.g_count)", "not (%s)" % NONEMPTY[0]]
    MOD = ["self._text", "self._changes[]", "self.g_pos", "self.g_removed", "self.g_added", "self.g_count"]
    reg.add(Contract(A + "_apply_changes", params={"self": DOC}, requires=WF, raises={"RuntimeError": OVERLAP},
        on_raise=UNTOUCHED, ensures=APPLIED, modifies=MOD, witness=WITNESS,
        loops=[Loop(index="i", inv=["implies(i == 0, added == 0 and old == head)", "implies(i > 0, old == tailof(changes, i) and added == len(built(self._text, changes, i)) - head)", "head == changes[0][0]"])]))
    # the key: a slice as Python defines it, or a single position
    KEYS = {"slice": lambda run: I.Slice(run.fresh("opt[int]", "lo"), run.fresh("opt[int]", "hi"), None), "int": "int"}
    n = "len(self._text)"
    low = lambda v: "({d} if {v} is None else ite({v} < 0, max(0, {n} + {v}), min({n}, {v})))".replace("{n}", n)
    bounds = lambda v, d: low(v).format(v=v, d=d)
    S, E = bounds("key.start", "0"), bounds("key.stop", n)
    SLICE = ["result[0] == %s" % S, "result[1] == max(%s, %s)" % (S, E), "0 <= result[0] <= result[1] <= %s" % n]
    reg.add(Contract(A + "_parse_key", name=A + "_parse_key (slice)", params={"self": DOC, "key": KEYS["slice"]}, returns="tuple[int,int]", ensures=SLICE))
    reg.add(Contract(A + "_parse_key", name=A + "_parse_key (position)", params={"self": DOC, "key": "int"}, returns="tuple[int,int]",
        raises={"IndexError": "key >= %s or key < -%s" % (n, n)},
        ensures=["result[0] == ite(key < 0, %s + key, key)" % n, "result[1] == result[0] + 1", "0 <= result[0] < %s" % n]))
    # item assignment and reading
    real = "(len(text) > 0 or s_ != e_) and (e_ - s_ != len(text) or old(self._text)[s_:e_] != text)"
    pick = lambda m: {A + m: lambda args: A + m + (" (slice)" if isinstance(args[1], I.Slice) else " (position)")}
    SCH = {"contracts": {**pick("_parse_key"), **pick("__getitem__")}, "nofull": True}
    for kind, s_, e_, rs in (("slice", S, "max(%s, %s)" % (S, E), {}),
                             ("position", "ite(key < 0, %s + key, key)" % n, "ite(key < 0, %s + key, key) + 1" % n, {"IndexError": "key >= %s or key < -%s" % (n, n)})):
        K = KEYS["slice" if kind == "slice" else "int"]
        DEF = ["s_ == %s" % s_, "e_ == %s" % e_]
        sub = lambda x: x.replace("s_", "(old(%s))" % s_).replace("e_", "(old(%s))" % e_)
        reg.add(Contract(A + "__getitem__", name=A + "__getitem__ (%s)" % kind, params={"self": DOC, "key": K}, returns="str", raises=rs,
            ensures=[sub("result == self._text[s_:e_]")], schema=SCH))
        FREE = dict(free={"s_": "int", "e_": "int"}, raises=rs, params={"self": DOC, "key": K, "text": "str"}, modifies=MOD, schema=SCH)
        SAME = 'forall("int", lambda k: implies(%s, (k in self._changes) == old(k in self._changes) and self._changes[k] == old(self._changes[k])), pat=self._changes[k])'
        # inside a context an edit is only remembered; one that changes nothing is not even that
        reg.add(Contract(A + "__setitem__", name=A + "__setitem__ (%s, in a context)" % kind, **FREE,
            requires=WF + DEF + ["self._edit_context > 0"],
            ensures=WF + ["self._text == old(self._text)", "self.g_count == old(self.g_count)", "self._edit_context == old(self._edit_context)",
                "implies(not (%s), %s)" % (real, SAME % "True"),
                "implies(%s, s_ in self._changes and self._changes[s_] == ite(old(s_ in self._changes), old(self._changes[s_]), seq()) + seq((e_, text)))" % real,
                "implies(%s, %s)" % (real, SAME % "k != s_")]))
        # outside, it is done at once and reported
        reg.add(Contract(A + "__setitem__", name=A + "__setitem__ (%s)" % kind, **FREE, fuel=4,
            requires=DEF + ["self._edit_context == 0", "not (%s)" % NONEMPTY[0]],
            cuts=["len(ch) > 0 and ch[0][0] == s_", "len(ch) == 1", "ch[0][1] == e_", "[t for e, t in seq((e_, text))] == seq(text)", "join(seq(text)) == text", "jtext(seq((e_, text))) == text", "ch[0][2] == text", "built(old(self._text), ch, 0) == \"\"",
                  "built(old(self._text), ch, 1) == old(self._text)[:s_] + text", "tailof(ch, 1) == e_"],
            ensures=["not (%s)" % NONEMPTY[0], "self._edit_context == 0",
                "implies(not (%s), self._text == old(self._text) and self.g_count == old(self.g_count))" % real,
                "implies(%s, self.g_count == old(self.g_count) + 1)" % real,
                "implies(%s, self.g_pos == s_)" % real,
                "implies(%s, self.g_removed == e_ - s_)" % real,
                "implies(%s, self._text == old(self._text)[:s_] + text + old(self._text)[e_:])" % real,
                "implies(%s, self.g_added == len(text))" % real]))
        IMM = [x for x in reg.contracts[A + "__setitem__ (%s)" % kind].ensures]
        SI = {"contracts": {A + "__setitem__": A + "__setitem__ (%s)" % kind}}
        NOCTX = ["self._edit_context == 0", "not (%s)" % NONEMPTY[0]]
        # the other ways to edit come down to the same
        reg.add(Contract(A + "__delitem__", name=A + "__delitem__ (%s)" % kind, params={"self": DOC, "key": K}, free={"s_": "int", "e_": "int"}, raises=rs, modifies=MOD,
            requires=DEF + NOCTX, schema=SI, instantiate={A + "__setitem__ (%s)" % kind: {"s_": "s_", "e_": "e_"}},
            ensures=[x.replace("len(text)", "0").replace(" != text", ' != ""').replace(" + text", "") for x in IMM]))
    INS = dict(free={"s_": "int", "e_": "int"}, modifies=MOD)
    AT = ["s_ == ite(pos < 0, max(0, {n} + pos), min({n}, pos))".format(n=n), "e_ == s_"]
    SLI = A + "__setitem__ (slice)"
    reg.add(Contract(A + "insert", params={"self": DOC, "pos": "int", "text": "str"}, requires=AT + NOCTX, schema={"contracts": {A + "__setitem__": SLI}}, ensures=reg.contracts[SLI].ensures, **INS))
    reg.add(Contract(A + "append", params={"self": DOC, "text": "str"}, requires=["s_ == %s and e_ == s_" % n] + NOCTX,
        ensures=reg.contracts[SLI].ensures + ["self._text == old(self._text) + text"], **INS))
    reg.add(Contract(A + "__iadd__", params={"self": DOC, "text": "str"}, requires=["s_ == %s and e_ == s_" % n] + NOCTX,
        ensures=["result is self", "self._text == old(self._text) + text"], **INS))
    reg.add(Contract(A + "set_text", params={"self": DOC, "text": "str"}, requires=["s_ == 0 and e_ == %s" % n, "self._edit_context >= 0", "implies(self._edit_context == 0, not (%s))" % NONEMPTY[0]],
        schema={"contracts": {A + "__setitem__": SLI}}, raises={"RuntimeError": "self._edit_context != 0"}, on_raise=["self._text == old(self._text)"],
        ensures=["self._text == text"], **INS))
    CTX = A + "__setitem__ (slice, in a context)"
    for name, params, at in (("insert", {"self": DOC, "pos": "int", "text": "str"}, AT), ("append", {"self": DOC, "text": "str"}, ["s_ == %s and e_ == s_" % n])):
        reg.add(Contract(A + name, name=A + name + " (in a context)", params=params, requires=WF + at + ["self._edit_context > 0"], ensures=reg.contracts[CTX].ensures,
            schema={"contracts": {A + "__setitem__": CTX, A + "insert": A + "insert (in a context)"}}, **INS))
    # contexts: only the last exit applies the edits, an exception discards them all
    reg.add(Contract(A + "__enter__", params={"self": DOC}, modifies=["self._edit_context"], ensures=["result is self", "self._edit_context == old(self._edit_context) + 1"]))
    KEEP = "self._text == old(self._text) and self.g_count == old(self.g_count)"
    EX = {"exc_type": "opt[int]", "exc_val": "opt[int]", "exc_tb": "opt[int]"}
    CMOD = dict(modifies=MOD + ["self._edit_context"])
    reg.add(Contract(A + "__exit__", name=A + "__exit__ (exception)", params={"self": DOC, **EX}, requires=["exc_type is not None"],
        ensures=[KEEP, "not (%s)" % NONEMPTY[0], "self._edit_context == 0", "not result"], **CMOD))
    reg.add(Contract(A + "__exit__", name=A + "__exit__ (inner)", params={"self": DOC, **EX}, requires=["exc_type is None", "self._edit_context > 1"],
        ensures=[KEEP, "self._edit_context == old(self._edit_context) - 1", SAME % "True", "not result"], **CMOD))
    reg.add(Contract(A + "__exit__", name=A + "__exit__ (last)", params={"self": DOC, **EX}, requires=WF + ["exc_type is None", "self._edit_context == 1"],
        raises={"RuntimeError": OVERLAP}, on_raise=UNTOUCHED + ["self._edit_context == 0"], witness={"ch": (CHANGES, "ch")},
        ensures=APPLIED + ["self._edit_context == 0", "not result"], **CMOD))
    # the text itself
    reg.add(Contract(M + "text", params={"self": DOC}, returns="str", ensures=["result == self._text"]))
    reg.add(Contract(A + "__str__", params={"self": DOC}, returns="str", ensures=["result == self._text"]))
    reg.add(Contract(A + "__len__", params={"self": DOC}, returns="int", ensures=["result == %s" % n]))
    reg.add(Contract(A + "__add__", params={"self": DOC, "text": "str"}, returns="str", ensures=["result == self._text + text"]))
    reg.add(Contract(A + "__radd__", params={"self": DOC, "text": "str"}, returns="str", ensures=["result == text + self._text"]))
    return {}
