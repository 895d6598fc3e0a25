"""C01: the parse functions that a lexicon compiles to, the dynamic actions, filter_actions."""
from pyvc.contract import Contract, Loop
from pyvc.interp import ContractFn
from pyvc.values import BindError
from . import lexer_common as lc
from .c02_target import TARGET

K = "parce.lexicon:Lexicon._get_parse_function/"
MATCH_SCHEMA = {
    "fields": {"mstart": "int", "mend": "int", "mtext": "str", "lastindex": "int"},
    "methods": {"match.start": "spec:match.start", "match.end": "spec:match.end", "match.group": "spec:match.group"},
}

def match_specs(reg):
    doc = "documented behaviour of the re module"
    M = {"self": "obj:match"}
    reg.add(Contract("spec:match.start", params=M, returns="int", ensures=["result == self.mstart"], trusted=doc))
    reg.add(Contract("spec:match.end", params=M, returns="int", ensures=["result == self.mend"], trusted=doc))
    reg.add(Contract("spec:match.group", params=M, returns="str", ensures=["result == self.mtext"], trusted=doc))
    ok = ["{m}.mstart <= {m}.mend", "{m}.mend <= len(text)", "{m}.mtext == text[{m}.mstart:{m}.mend]"]
    reg.add(Contract("spec:finditer", params={"text": "str", "pos": "int"},
        requires=["0 <= pos <= len(text)"],
        gen=dict(item="obj:match", ghost={"end": ("int", "pos")}, inv=["pos <= end <= len(text)"],
            each=["item.mstart >= end"] + [x.format(m="item") for x in ok], update={"end": "item.mend"}),
        trusted="re: finditer(text, pos) yields finitely many matches from left to right, each starting at or after the end of the previous one; " + doc))
    reg.add(Contract("spec:rxmatch", params={"text": "str", "pos": "int"}, returns="opt[obj:match]",
        requires=["0 <= pos <= len(text)"],
        ensures=["implies(result is not None, result.mstart == pos)"] + ["implies(result is not None, %s)" % x.format(m="result") for x in ok],
        trusted="re: match(text, pos) matches at pos; " + doc))
    reg.add(Contract("spec:token", params={"m": "obj:match"}, returns=lc.ITEM,
        ensures=["result[0] == m.mstart", "result[1] == m.mtext", "implies(result[4] is not None, result[4].pop <= 0)"],
        trusted="proved in c01_parse (token)"))
    reg.add(Contract("spec:replace", params={"m": "obj:match"}, returns="tuple[obj:action,opt[%s]]" % TARGET,
        ensures=["implies(result[1] is not None, result[1].pop <= 0)"],
        trusted="the result of TargetFactory.make has pop <= 0 (proved in c02_target)"))
    reg.add(Contract("spec:dynamic_default_action", params={"text": "str"}, returns="obj:action", trusted="any action"))

def load(reg):
    match_specs(reg)
    fn = lambda name: (lambda run: ContractFn(name))
    FREE = {
        "needle": "str", "l": "int", "action": "obj:action", "target": "opt[%s]" % TARGET,
        "default_action": "obj:action", "default_target": TARGET,
        "dynamic_default_action": fn("spec:dynamic_default_action"), "finditer": fn("spec:finditer"),
        "match": fn("spec:rxmatch"), "token": fn("spec:token"),
    }
    variants = lc.parse_variants()
    if len(variants) < 4:
        raise BindError("the parse functions were not found")
    for i, names, node in variants:
        free = {n: FREE[n] for n in FREE if n in names}
        req = ["0 <= pos <= len(text)"]
        if "needle" in names: req += ["len(needle) > 0"]
        if "l" in names: req += ["l == len(needle)"]
        if "target" in names: req += ["implies(target is not None, target.pop <= 0)"]
        if "default_target" in names: req += ["default_target.pop <= 0"]
        cover = "default_action" in names or "dynamic_default_action" in names
        dtarget = "default_target" in names
        each = ["item[0] >= end", "item[0] + len(item[1]) <= len(text)", "text[item[0]:item[0] + len(item[1])] == item[1]",
                "implies(item[4] is not None, item[4].pop <= 0)"]
        final = ["0 <= end <= len(text)"]
        ghost = {"end": ("int", "pos"), "left": ("bool", "False")}
        update = {"end": "item[0] + len(item[1])", "left": "item[4] is not None"}
        if cover or dtarget: each.append("item[0] == end")
        if cover: final.append("end == len(text)")
        if dtarget: final.append("end == len(text) or left")
        inv = ["0 <= pos <= len(text)", "pos == end"]
        isfind = "finditer" in names
        if isfind: inv.append("g_end == pos")
        loops = {0: Loop(inv=inv, ghost="g_", decreases=None if isfind else "len(text) - pos"),
                 "return": Loop(inv=["0 <= end <= len(text)", "end == g_end"], ghost="g_")}
        kind = "dynamic default action" if "dynamic_default_action" in names else "default action" if cover else "default target" if dtarget else "skip unknown text"
        how = "needle" if "needle" in names else "finditer" if isfind else "match" if "match" in names else "no patterns"
        reg.add(Contract(K + "parse#%d" % i, name="%sparse (%s, %s)" % (K, how, kind),
            params={"text": "str", "pos": "int"}, free=free, requires=req,
            gen=dict(item=lc.ITEM, ghost=ghost, each=each, update=update, final=final),
            loops=loops))
    reg.add(Contract(K + "token", params={"m": "obj:match"}, returns=lc.ITEM,
        free={"static": "list[opt[tuple[obj:action,opt[%s]]]]" % TARGET, "replace": fn("spec:replace")},
        requires=["0 <= m.lastindex < len(static)",
                  "all(implies(static[k] is not None and static[k][1] is not None, static[k][1].pop <= 0) for k in range(len(static)))"],
        ensures=["result[0] == m.mstart", "result[1] == m.mtext", "implies(result[4] is not None, result[4].pop <= 0)"]))
    return MATCH_SCHEMA
