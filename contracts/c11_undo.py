"""Contracts on undo and redo (property C11)."""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef
import parce.document as pd, parce.util as pu
from .doc_common import *

STACK = "list[tuple[%s,bool]]" % CHANGES
SW = {"cls": pu.Switch, "fields": {"_value": "int"}}
DOC = {"cls": pd.Document, "fields": {"_text": "str", "_revision": "int", "_modified": "bool", "undo_redo_enabled": "bool", "_undo_stack": STACK, "_redo_stack": STACK,
       "_in_undo": SW, "_in_redo": SW,
       # ghost: the edits made in the current context
       "_edit_context": "int", "g_edits": CHANGES,
       # ghost: the last value that was announced
       "g_undo": "bool", "g_redo": "bool"}}
D = "parce.document:Document."
AD = "parce.document:AbstractDocument."
SWOK = ["self._in_undo._value >= 0 and self._in_redo._value >= 0"]
FITS = ['forall("int", lambda k: implies(0 <= k and k < len(changes), changes[k][1] <= len(self._text)), pat=changes[k])']
# observers know whether there is something to undo and redo
KNOWN = ["self.g_undo == (len(self._undo_stack) > 0)", "self.g_redo == (len(self._redo_stack) > 0)"]

def load(reg):
    splice_specs(reg)
    undo_lemmas(reg)
    reg.add(Contract(D + "_reverse_changes", params={"self": DOC, "changes": CHANGES}, free={"off": "seq[int]"}, returns=CHANGES,
        requires=SORTED + OFF + FITS, ensures=REVERSED("result", "changes", "self._text"),
        kinds={"out": "tuple[int,int,str]"},
        loops={"reverse_changes#0": Loop(index="i", inv=["len(out) == i", "head == off[i]",
            *(x.replace("len(changes)", "i") for x in REVERSED("out", "changes", "self._text")[1:])])}))
    MINE = "seq((changes, self._modified))"
    reg.add(Contract(D + "_store_undo", params={"self": DOC, "changes": CHANGES}, requires=SWOK, modifies=["self._undo_stack[]", "self._redo_stack[]"],
        ensures=["implies(self._in_undo._value > 0, self._redo_stack == old(self._redo_stack) + %s and self._undo_stack == old(self._undo_stack))" % MINE,
                 "implies(self._in_undo._value == 0, self._undo_stack == old(self._undo_stack) + %s)" % MINE,
                 "implies(self._in_undo._value == 0 and self._in_redo._value > 0, self._redo_stack == old(self._redo_stack))",
                 # a new edit makes redo impossible
                 "implies(self._in_undo._value == 0 and self._in_redo._value == 0, len(self._redo_stack) == 0)"]))
    reg.add(Contract(D + "can_undo", params={"self": DOC}, returns="bool", ensures=["result == (len(self._undo_stack) > 0)"]))
    reg.add(Contract(D + "can_redo", params={"self": DOC}, returns="bool", ensures=["result == (len(self._redo_stack) > 0)"]))
    reg.add(Contract("parce.util:Observable.emit", params={"self": DOC, "event": "str", "args": None}, modifies=["self.g_undo", "self.g_redo"],
        ensures=["self.g_undo == (args[0] if event == 'undo_available' else old(self.g_undo))", "self.g_redo == (args[0] if event == 'redo_available' else old(self.g_redo))"],
        trusted="observer: the ghost fields record what was announced last; connected functions do not edit the document"))
    reg.add(Contract(D + "_set_all_undo_redo_modified", params={"self": DOC}, modifies=["self._undo_stack[]", "self._redo_stack[]"],
        ensures=["len(self._{s}_stack) == len(old(self._{s}_stack))".format(s=s) for s in ("undo", "redo")] +
                ['forall("int", lambda k: implies(0 <= k and k < len(self._{s}_stack), self._{s}_stack[k][0] == old(self._{s}_stack)[k][0] and self._{s}_stack[k][1]), pat=self._{s}_stack[k])'.format(s=s) for s in ("undo", "redo")],
        trusted="writes through the elements of both stacks; checked by the bounded part"))
    reg.add(Contract(AD + "_update_cursors", params={"self": DOC, "changes": CHANGES}, trusted="touches only cursors; proved in c12_cursors (C12)"))
    reg.add(Contract("parce.mutablestring:MutableString._update_text", params={"self": DOC, "changes": CHANGES}, requires=SORTED + FITS,
        ensures=["self._text == spliced(old(self._text), changes)"], modifies=["self._text"], trusted="proved in c10_edits (C10)"))
    STK = ["self._undo_stack[]", "self._redo_stack[]"]
    reg.add(Contract(D + "@modified", params={"self": DOC, "modified": "bool"}, requires=SWOK, modifies=["self._modified"] + STK,
        ensures=["self.g_undo == old(self.g_undo) and self.g_redo == old(self.g_redo)", "self._modified == ite(self._in_undo._value > 0 or self._in_redo._value > 0, old(self._modified), modified)",
                 "implies(modified, self._undo_stack == old(self._undo_stack) and self._redo_stack == old(self._redo_stack))",
                 # what can be undone and redone stays the same; all other states differ from the saved one
                 *('forall("int", lambda k: implies(0 <= k and k < len(old(self._{s}_stack)), self._{s}_stack[k][0] == old(self._{s}_stack)[k][0] and (self._{s}_stack[k][1] or self._in_undo._value > 0 or self._in_redo._value > 0 or modified)), pat=self._{s}_stack[k])'.format(s=s) for s in ("undo", "redo")),
                 *("len(self._{s}_stack) == len(old(self._{s}_stack))".format(s=s) for s in ("undo", "redo"))]))
    reg.add(Contract(D + "_update_text", params={"self": DOC, "changes": CHANGES}, free={"off": "seq[int]"}, requires=SORTED + OFF + FITS + SWOK + KNOWN,
        modifies=["self._text", "self._revision", "self._modified"] + STK,
        cuts=["implies(%s, spliced(self._text, self._%s_stack[len(self._%s_stack) - 1][0]) == old(self._text))" % (c, st, st) for c, st in (("self.undo_redo_enabled and self._in_undo._value > 0", "redo"), ("self.undo_redo_enabled and self._in_undo._value == 0", "undo"))],
        lemmas=[("splice_undo", {"t": "old(self._text)", "ch": "changes", "rev": 'callarg("_store_undo", "changes")', "off": "off"})],
        ensures=KNOWN + ["self._text == spliced(old(self._text), changes)", "self._revision == old(self._revision) + 1",
            "implies(self._in_undo._value == 0 and self._in_redo._value == 0, self._modified)",
            "implies(not self.undo_redo_enabled, self._undo_stack == old(self._undo_stack) and self._redo_stack == old(self._redo_stack))",
            # the last entry takes the text back to where it was
            "implies(self.undo_redo_enabled and self._in_undo._value > 0, spliced(self._text, self._redo_stack[len(self._redo_stack) - 1][0]) == old(self._text) and self._redo_stack[len(self._redo_stack) - 1][1] == old(self._modified) and self._undo_stack == old(self._undo_stack) and self._redo_stack[:len(self._redo_stack) - 1] == old(self._redo_stack))",
            "implies(self.undo_redo_enabled and self._in_undo._value == 0, spliced(self._text, self._undo_stack[len(self._undo_stack) - 1][0]) == old(self._text) and self._undo_stack[len(self._undo_stack) - 1][1] == old(self._modified) and self._undo_stack[:len(self._undo_stack) - 1] == old(self._undo_stack))",
            "implies(self.undo_redo_enabled and self._in_undo._value == 0 and self._in_redo._value > 0, self._redo_stack == old(self._redo_stack))",
            "implies(self.undo_redo_enabled and self._in_undo._value == 0 and self._in_redo._value == 0, len(self._redo_stack) == 0)"]))
    reg.add(Contract(D + "clear_undo_redo", params={"self": DOC}, requires=KNOWN, modifies=STK, ensures=KNOWN + ["len(self._undo_stack) == 0 and len(self._redo_stack) == 0"]))
    # undo and redo apply the last entry as one edit, and restore the modified state that was stored with it
    ED = "parce.mutablestring:AbstractMutableString."
    reg.add(Contract(ED + "__enter__", params={"self": DOC}, modifies=["self._edit_context", "self.g_edits"], ensures=["self._edit_context == old(self._edit_context) + 1", "len(self.g_edits) == 0"],
        trusted="proved in c10_edits (C10); the ghost sequence g_edits starts"))
    reg.add(Contract(ED + "__setitem__", params={"self": DOC, "key": None, "text": "str"}, requires=["self._edit_context > 0", "0 <= key.start <= key.stop <= len(self._text)"],
        modifies=["self.g_edits"], ensures=["self.g_edits == old(self.g_edits) + seq((key.start, key.stop, text))"],
        trusted="in a context an edit is only remembered: proved in c10_edits (C10); g_edits records them"))
    reg.add(Contract(ED + "__exit__", params={"self": DOC, "exc_type": None, "exc_val": None, "exc_tb": None},
        requires=["exc_type is None", "self._edit_context == 1"] + SWOK + KNOWN,
        modifies=["self._text", "self._revision", "self._edit_context"] + STK,
        ensures=KNOWN + ["self._edit_context == 0", "self._text == spliced(old(self._text), self.g_edits)",
            "implies(self._in_undo._value > 0, self._undo_stack == old(self._undo_stack))",
            "implies(self._in_undo._value == 0 and self._in_redo._value > 0, self._redo_stack == old(self._redo_stack))"],
        trusted="edits of one context that are in order and do not overlap act as one splice through Document._update_text (C10; _update_text above); while undoing or redoing the modified state is not touched"))
    ENTRY = "stack[len(stack) - 1][0]"
    VALID = ['forall("int", lambda k: implies(len(stack) > 0 and 0 <= k and k < len({e}), 0 <= {e}[k][0] and {e}[k][0] <= {e}[k][1] and {e}[k][1] <= len(self._text)), pat={e}[k])'.format(e=ENTRY),
             'forall("int", lambda i, j: implies(len(stack) > 0 and 0 <= i and i < j and j < len({e}), {e}[i][1] <= {e}[j][0]), pat=({e}[i], {e}[j]))'.format(e=ENTRY)]
    for mine, other in (("undo", "redo"), ("redo", "undo")):
        me = "self._%s_stack" % mine
        UNDO = dict(
            requires=SWOK + KNOWN + ["self._in_undo._value == 0 and self._in_redo._value == 0", "self._edit_context >= 0"] + on(VALID, me, "stack"),
            raises={"RuntimeError": "self._edit_context > 0"}, on_raise=["self._text == old(self._text)", "%s == old(%s)" % (me, me)],
            modifies=["self._text", "self._revision", "self._modified", "self._edit_context", "self.g_edits"] + STK,
            ensures=KNOWN + ["implies(len(old({m})) == 0, self._text == old(self._text) and self._modified == old(self._modified))".format(m=me),
                "implies(len(old({m})) > 0, self._text == spliced(old(self._text), old({m})[len(old({m})) - 1][0]))".format(m=me),
                "implies(len(old({m})) > 0, self._modified == old({m})[len(old({m})) - 1][1])".format(m=me),
                "implies(len(old({m})) > 0, len({m}) == len(old({m})) - 1)".format(m=me),
                "self._in_undo._value == 0 and self._in_redo._value == 0 and self._edit_context == 0"])
        reg.add(Contract(D + "_apply_undo_redo", name=D + "_apply_undo_redo (%s)" % mine,
            params={"self": DOC, "switch": "=self._in_%s" % mine, "stack": "=%s" % me},
            loops=[Loop(index="i", inv=["self.g_edits == take(changes, i)", "self._edit_context == 1", "self._text == old(self._text)"])], **UNDO))
        reg.add(Contract(D + mine, params={"self": DOC}, schema={"inline": {D + "_apply_undo_redo"}},
            loops={"_apply_undo_redo#0": Loop(index="i", inv=["self.g_edits == take(changes, i)", "self._edit_context == 1", "self._text == old(self._text)"])}, **UNDO))
    return {}
