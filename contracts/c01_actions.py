"""C01: splitting over sub-groups, delegating and skipping yield ordered pieces of the matched text."""
from pyvc.contract import Contract, Loop
from . import lexer_common as lc, c02_target as ct
import parce.ruleitem as ri

L = lc.LEXEME
SCHEMA = {
    "fields": {"lastindex": "int", "gstart": "seq[int]", "gtext": "seq[opt[str]]", "consume": "bool"},
    "methods": {"match.start": "spec:match.start_i", "match.group": "spec:match.group_i",
                "action.replace": "spec:ActionItem.replace", "action.evaluate": "spec:Item.evaluate"},
    "elem_kinds": {"Lexer.lexicons": "obj:lexicon"},
    "inline": ["parce.lexer:Lexer.__init__"],
    "contracts": {"parce.lexer:Lexer.events": "parce.lexer:Lexer.events (slices)"},
}

def load(reg):
    doc = "documented behaviour of the re module"
    M = {"self": "obj:match", "i": "int"}
    rng = ["0 <= i < len(self.gstart)", "len(self.gstart) == len(self.gtext)"]
    reg.add(Contract("spec:match.start_i", params=M, requires=rng, returns="int", ensures=["result == self.gstart[i]"], trusted=doc))
    reg.add(Contract("spec:match.group_i", params=M, requires=rng, returns="opt[str]",
        ensures=["(result is None) == (self.gtext[i] is None)", "implies(result is not None, result == self.gtext[i])"], trusted=doc))
    reg.add(Contract("spec:Item.evaluate", params={"self": "obj:action", "ns": "obj:dict"}, returns="obj:action", trusted="any value"))
    reg.add(Contract("parce.util:unroll", params={"obj": "obj:action"}, returns="seq[obj:action]", ensures=["len(result) <= 1"],
        trusted="a dynamic action evaluates to at most one action (domain of C01)"))
    lc.replace_spec(reg)
    reg.add(Contract("parce.lexer:Lexer.filter_actions",
        params={"self": lc.LEXER, "action": "obj:action", "pos": "int", "text": "opt[str]", "match": "obj:match"},
        requires=["implies(text is not None, pos >= 0)"],
        returns="seq[%s]" % L, out_kind=L,
        ensures=["implies(text is None, len(result) == 0)"] + ["implies(text is not None, %s)" % x for x in lc.pieces("result", "pos", "text")],
        loops=[Loop(index="n", inv=["text is not None", "implies(n == 0, len(out) == 0)"] + lc.pieces("out", "pos", "text"), kinds={"action": "obj:action"})]))
    idx = "range(match.lastindex + 1, match.lastindex + 1 + len(self._actions))"
    grp = ["match.lastindex >= 0", "match.lastindex + 1 + len(self._actions) <= len(match.gtext)", "len(match.gstart) == len(match.gtext)",
           "all(implies(match.gtext[k] is not None, pos <= match.gstart[k] and match.gstart[k] + len(match.gtext[k]) <= pos + len(text) and "
           "text[match.gstart[k] - pos:match.gstart[k] - pos + len(match.gtext[k])] == match.gtext[k]) for k in %s)" % idx,
           "all(all(implies(match.gtext[j] is not None and match.gtext[k] is not None, match.gstart[j] + len(match.gtext[j]) <= match.gstart[k]) for j in range(match.lastindex + 1, k)) for k in %s)" % idx]
    reg.add(Contract("parce.ruleitem:SubgroupAction.replace",
        params={"self": {"cls": ri.SubgroupAction, "fields": {"_actions": "seq[obj:action]"}}, "lexer": lc.LEXER, "pos": "int", "text": "str", "match": "obj:match"},
        requires=["pos >= 0"] + grp,
        returns="seq[%s]" % L, out_kind=L,
        ensures=lc.pieces("result", "pos", "text"),
        note="groups of the pattern do not nest or overlap (domain of C01); they are pieces of the match by the re documentation",
        loops=[Loop(index="n", inv=lc.pieces("out", "pos", "text") + [
            "all(all(implies(match.gtext[k] is not None, out[j][0] + len(out[j][1]) <= match.gstart[k]) for j in range(len(out))) for k in range(match.lastindex + 1 + n, match.lastindex + 1 + len(self._actions)))"])]))
    reg.add(Contract("parce.ruleitem:SkipAction.replace",
        params={"self": {"cls": ri.SkipAction, "fields": {}}, "lexer": lc.LEXER, "pos": "int", "text": "str", "match": "obj:match"},
        requires=["pos >= 0"], returns="seq[%s]" % L, out_kind=L, ensures=["len(result) == 0"]))
    c = lc.events(reg, "slices")
    c.trusted = "proved in c01_lexer"
    c.free = {}
    reg.add(Contract("parce.ruleitem:DelegateAction.replace",
        params={"self": {"cls": ri.DelegateAction, "fields": {"_lexicon": "obj:lexicon"}}, "lexer": lc.LEXER, "pos": "int", "text": "str", "match": "obj:match"},
        requires=["pos >= 0"], returns="seq[%s]" % L, out_kind=L,
        ensures=lc.pieces("result", "pos", "text"),
        loops=[Loop(ghost="g_", inv=lc.pieces("out", "pos", "text") + ["0 <= g_end", "all(out[j][0] + len(out[j][1]) <= pos + g_end for j in range(len(out)))"]),
               Loop(index="n", src="lx", inv=lc.pieces("out", "pos", "text") + ["0 <= n <= len(e.lexemes)",
                   "all(all(out[j][0] + len(out[j][1]) <= pos + e.lexemes[k][0] for j in range(len(out))) for k in range(n, len(e.lexemes)))",
                   "all(out[j][0] + len(out[j][1]) <= pos + g_end for j in range(len(out)))"])]))
    return SCHEMA
