"""Shared pieces of the contracts on lexer.py, lexicon.py and the dynamic actions (C01, C02, C03)."""
import ast
from pyvc.contract import Contract, Loop, find_def, is_generator_def
from pyvc.values import BindError
from . import c02_target as ct
from .c02_target import TARGET
import parce.lexer, parce.target

LEXEME = "tuple[int,str,obj:action]"
ITEM = "tuple[int,str,obj:match,obj:action,opt[%s]]" % TARGET
EVENT = "nt:Event[target=opt[%s],lexemes=seq[%s]]" % (TARGET, LEXEME)
LEXER = {"cls": parce.lexer.Lexer, "fields": {"lexicons": "list[obj:lexicon]"}}

def pieces(L, base, txt):
    """L is a sequence of non-empty, ordered, disjoint pieces of txt, which starts at base."""
    return ["all(len({L}[k][1]) > 0 and {b} <= {L}[k][0] and {L}[k][0] + len({L}[k][1]) <= {b} + len({t}) and "
            "{t}[{L}[k][0] - {b}:{L}[k][0] - {b} + len({L}[k][1])] == {L}[k][1] for k in range(len({L})))".format(L=L, b=base, t=txt),
            "all(all({L}[j][0] + len({L}[j][1]) <= {L}[k][0] for j in range(k)) for k in range(len({L})))".format(L=L)]

SCHEMA = {"union_true": True,
    "elem_kinds": {"TargetFactory._push": "obj:lexicon", "Lexer.lexicons": "obj:lexicon"},
    "inline": ["parce.target:TargetFactory.__init__", "parce.lexer:Lexer.__init__"],
    "fields": {"consume": "bool"},
    "methods": {"lexicon.parse": "spec:Lexicon.parse", "action.replace": "spec:ActionItem.replace"},
}

def parse_spec(reg, slices=True):
    """What every parse function promises (proved for each of them in c01_parse)."""
    reg.add(Contract("spec:Lexicon.parse", params={"self": "obj:lexicon", "text": "str", "pos": "int"},
        requires=["0 <= pos <= len(text)"],
        gen=dict(item=ITEM, ghost={"end": ("int", "pos")},
            inv=["pos <= end <= len(text)"],
            each=["item[0] >= end", "item[0] + len(item[1]) <= len(text)", "text[item[0]:item[0] + len(item[1])] == item[1]",
                  "implies(item[4] is not None, item[4].pop <= 0)"],
            update={"end": "item[0] + len(item[1])"}),
        trusted="the attribute parse of a lexicon is one of the functions built by Lexicon._get_parse_function, each of which is proved to satisfy this contract (c01_parse)"))

def replace_spec(reg, key="spec:ActionItem.replace", trusted="replace() of every ActionItem; the built-in ones are proved (c01_actions)"):
    reg.add(Contract(key, params={"self": "obj:action", "lexer": LEXER, "pos": "int", "text": "str", "match": "obj:match"},
        requires=["pos >= 0"],
        returns="seq[%s]" % LEXEME,
        ensures=pieces("result", "pos", "text"), trusted=trusted))

def events(reg, aspect):
    """The contract of Lexer.events in one of three aspects: slices, stack, termination."""
    slices, stack, term = aspect == "slices", aspect == "stack", aspect == "termination"
    wf = ["len(lexicons) >= 1", "0 <= pos <= len(text)", "target_factory._pop <= 0"]
    inner = ["len(lexicons) >= 1", "0 <= g_end <= len(text)", "target_factory._pop <= 0"]
    ghost, each, update, req = {}, ["len(item.lexemes) > 0"], {}, ["len(self.lexicons) >= 1", "0 <= pos <= len(text)"]
    dec, assume = None, ()
    if slices:
        ghost["end"] = ("int", "pos")
        wf.append("0 <= end <= pos"); inner.append("0 <= end <= g_end")
        each += ["item.lexemes[0][0] >= end"] + pieces("item.lexemes", "0", "text")
        update["end"] = "item.lexemes[len(item.lexemes) - 1][0] + len(item.lexemes[len(item.lexemes) - 1][1])"
    if stack:
        ghost["stack"] = ("seq[obj:lexicon]", "self.lexicons")
        both = ["lexicons[0] == root0", "len(stack) + target_factory._pop >= 1",
                "lexicons == follow(stack, target_factory._pop, target_factory._push)"]
        wf += both; inner += both
        req += ["self.lexicons[0] == root0"]
        each += ["self.lexicons == ite(item.target is None, stack, follow(stack, item.target.pop, item.target.push))",
                 "implies(item.target is not None, item.target.pop <= 0 and len(stack) + item.target.pop >= 1)",
                 "self.lexicons[0] == root0"]
        update["stack"] = "ite(item.target is None, stack, follow(stack, item.target.pop, item.target.push))"
    if term:
        inner += ["len(lexicons) == lex0", "len(circular) == card0"]
        dec = "(len(text) - pos, nstates - len(circular), len(lexicons))"
        assume = [("len(circular) <= nstates", "the number of different zero-width state changes at one position is bounded "
                   "(the premise of C03: zero-width rules do not push lexicons without bound)")]
    c = Contract("parce.lexer:Lexer.events", name="parce.lexer:Lexer.events (%s)" % aspect,
        params={"self": LEXER, "text": "str", "pos": "int"},
        free={"nstates": "int", "root0": "obj:lexicon"},
        requires=req,
        gen=dict(item=EVENT, ghost=ghost, each=each, update=update),
        loops=[Loop(inv=wf, decreases=dec, assume=assume, kinds={}),
               Loop(inv=inner, ghost="g_", snap={"lex0": "len(lexicons)", "card0": "len(circular)"} if term else {})])
    reg.add(c)
    return c

def parse_variants():
    """[(index, names used)] of the nested functions called parse."""
    fn = find_def("parce.lexicon", "Lexicon._get_parse_function")
    res = []
    for n in ast.walk(fn):
        if isinstance(n, ast.FunctionDef) and n.name == "parse":
            res.append(n)
    res.sort(key=lambda n: n.lineno)
    return [(i, {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}, n) for i, n in enumerate(res)]
