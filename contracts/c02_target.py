"""Contracts on target.TargetFactory (property C02).

A target (pop, push) stands for the function on stacks
    follow(stack, pop, push) = stack without its last -pop items, plus push.
A factory's pending target does the same with its _pop and _push.
"""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef
import parce.target as pt

TARGET = "nt:Target[pop=int,push=seq[obj:lexicon]]"
FACTORY = {"cls": pt.TargetFactory, "fields": {"_pop": "int", "_push": "list[obj:lexicon]"}}

def specs(reg):
    reg.specfuns["follow"] = SpecDef("follow", ["seq[obj:lexicon]", "int", "seq[obj:lexicon]"], "seq[obj:lexicon]",
        ["stack", "pop", "push"], "cat(take(stack, len(stack) + pop), push)", reg)

INV = "self._pop <= 0"

def contracts(reg):
    """TargetFactory without make (also used by the contracts of the lexer)."""
    specs(reg)
    K = "parce.target:TargetFactory."
    reg.add(Contract(K + "__init__", params={"self": {"cls": pt.TargetFactory, "fields": {}}},
        ensures=["self._pop == 0", "len(self._push) == 0"], kinds={}))
    reg.add(Contract(K + "add",
        params={"self": FACTORY, "target": "opt[%s]" % TARGET},
        requires=[INV, "implies(target is not None, target.pop <= 0)"],
        ensures=[INV,
            "implies(target is None, self._pop == old(self._pop) and self._push == old(self._push))",
            "implies(target is not None and -target.pop <= old(len(self._push)), self._pop == old(self._pop) and "
                "self._push == cat(take(old(self._push), old(len(self._push)) + target.pop), target.push))",
            "implies(target is not None and -target.pop > old(len(self._push)), self._pop == old(self._pop) + old(len(self._push)) + target.pop and "
                "self._push == target.push)",
        ],
        modifies=["self._pop", "self._push[]"]))
    # the meaning, for every stack that is deep enough
    reg.add(Contract(K + "add", name=K + "add (meaning)",
        params={"self": FACTORY, "target": "opt[%s]" % TARGET},
        free={"stack": "seq[obj:lexicon]"},
        requires=[INV, "implies(target is not None, target.pop <= 0)",
            "len(stack) + self._pop >= 0",
            "implies(target is not None, len(stack) + self._pop + len(self._push) + target.pop >= 0)"],
        ensures=[
            "len(stack) + self._pop >= 0",
            "implies(target is None, follow(stack, self._pop, self._push) == follow(stack, old(self._pop), old(self._push)))",
            "implies(target is not None, follow(stack, self._pop, self._push) == follow(follow(stack, old(self._pop), old(self._push)), target.pop, target.push))",
        ],
        modifies=["self._pop", "self._push[]"]))
    reg.add(Contract(K + "get", params={"self": FACTORY}, returns="opt[%s]" % TARGET,
        requires=[INV],
        ensures=[
            "(result is None) == (old(self._pop) == 0 and old(len(self._push)) == 0)",
            "implies(result is not None, result.pop == old(self._pop) and result.push == old(self._push))",
            "self._pop == 0 and len(self._push) == 0",
        ],
        modifies=["self._pop", "self._push[]"]))
    reg.add(Contract(K + "push", params={"self": FACTORY, "lexicons": "seq[obj:lexicon]"},
        requires=[INV],
        ensures=["self._pop == old(self._pop)", "self._push == cat(old(self._push), lexicons)"],
        modifies=["self._push[]"]))
    reg.add(Contract(K + "pop", params={"self": FACTORY, "pop": "int"},
        requires=[INV, "pop <= 0"],
        ensures=[INV,
            "implies(-pop <= old(len(self._push)), self._pop == old(self._pop) and self._push == take(old(self._push), old(len(self._push)) + pop))",
            "implies(-pop > old(len(self._push)), self._pop == old(self._pop) + old(len(self._push)) + pop and len(self._push) == 0)",
        ],
        modifies=["self._pop", "self._push[]"]))
    return {}

def load(reg):
    contracts(reg)
    # make: for every stack that is deep enough, following the result is the same as performing
    # the items one after another (step), where the stack is the ghost 'st'
    K = "parce.target:TargetFactory."
    reg.specfuns["perform"] = SpecDef("perform", ["seq[obj:lexicon]", "obj:lexicon", "seq[union:lexicon]", "int"], "seq[obj:lexicon]",
        ["st", "lex", "rule", "k"],
        "ite(k <= 0, st, ite(isint(rule[k - 1]), "
        "ite(intof(rule[k - 1]) < 0, follow(perform(st, lex, rule, k - 1), intof(rule[k - 1]), seq()), cat(perform(st, lex, rule, k - 1), repeat(lex, intof(rule[k - 1])))), "
        "cat(perform(st, lex, rule, k - 1), seq(objof(rule[k - 1])))))", reg)
    reg.add(Contract(K + "make",
        params={"cls": lambda run: __import__("pyvc.values", fromlist=["Conc"]).Conc(pt.TargetFactory), "lexicon": "obj:lexicon", "rule": "seq[union:lexicon]"},
        free={"st": "seq[obj:lexicon]"},
        requires=[
            # the ghost stack is deep enough for every step
            "all(implies(isint(rule[k]) and intof(rule[k]) < 0, len(perform(st, lexicon, rule, k)) + intof(rule[k]) >= 0) for k in range(len(rule)))",
        ],
        returns="opt[%s]" % TARGET,
        ensures=[
            "implies(result is not None, result.pop <= 0 and len(st) + result.pop >= 0)",
            "implies(result is not None, follow(st, result.pop, result.push) == perform(st, lexicon, rule, len(rule)))",
            "implies(result is None, st == perform(st, lexicon, rule, len(rule)))",
        ],
        loops=[Loop(index="i", inv=["f._pop <= 0", "len(st) + f._pop >= 0", "follow(st, f._pop, f._push) == perform(st, lexicon, rule, i)"],
                    kinds={"t": "union:lexicon"})]))
    return {"union_true": True, "elem_kinds": {"TargetFactory._push": "obj:lexicon"}, "inline": [K + "__init__"]}
