"""Contracts on the construction of a tree (property C04).

Ghost fields of a node: live (it has been created), depth, lo (the position of its first
token), closed (nothing is added to it any more) and, when closed, hi (it ends there).
"""
from pyvc.contract import Contract, Loop
from pyvc.values import Conc
import parce.tree as pt, parce.lexer
from .lexer_common import LEXEME, EVENT, LEXER
from . import lexer_common, c02_target

FIELDS = {"$items": "seq[obj:node]", "parent": "opt[obj:node]", "pos": "int", "text": "str", "action": "obj:action", "lexicon": "opt[obj:lexicon]",
          "is_context": "bool", "is_token": "bool", "group": "opt[int]", "live": "bool", "depth": "int", "lo": "int", "hi": "int", "closed": "bool", "num": "int"}
NODE = "obj:node"
LEXEMES = "seq[%s]" % LEXEME
T = "parce.tree:"
TOKEN = {"lo": "self.pos", "hi": "self.pos + len(self.text)", "closed": "True", "num": "ite(self.group is None, 0, self.group)", "depth": "ite(self.parent is None, 0, self.parent.depth + 1)"}
SCHEMA = {"fields": FIELDS, "alloc": {T + "Context": "node", T + "Token": "node", T + "GroupToken": "node"},
          "ghost_new": {T + "Token": TOKEN, T + "GroupToken": TOKEN,
                        T + "Context": {"closed": "False", "depth": "ite(self.parent is None, 0, self.parent.depth + 1)", "lo": "local('lexemes')[0][0]"}},
          "truth": {"lexicon": "True"}, "elem_kinds": {"Lexer.lexicons": "obj:lexicon"}, "inline": ["parce.lexer:Lexer.__init__"]}
WRITTEN = ["parent", "pos", "text", "action", "is_context", "is_token", "group", "live", "depth", "lo", "hi", "closed", "num"]

def frame(fields=WRITTEN):
    """what was created before has not changed"""
    return ["forall(lambda n: implies(old(n.live), n.{0} == old(n.{0})), pat=n.{0})".format(f) for f in fields]

def token(t, lex, parent, group):
    return ["{t}.live and not old({t}.live)", "{t}.is_token and not {t}.is_context", "{t}.parent == {p}", "{t}.pos == {l}[0] and {t}.text == {l}[1] and {t}.action is {l}[2]",
            "{t}.closed and {t}.lo == {t}.pos and {t}.hi == {t}.pos + len({t}.text)", "implies({p} is not None, {t}.depth == {p}.depth + 1)", "{t}.group == {g}"]

def tokens(res, n, parent, group):
    return ['forall("int", lambda k: implies(0 <= k and k < {n}, {x}), pat={r}[k])'.format(n=n, r=res, x=" and ".join("(%s)" % x for x in token(0, 0, 0, 0)).format(
                t=res + "[k]", l="lexemes[k]", p=parent, g=group)),
            # nothing else has been created
            "forall(lambda n: implies(n.live and not old(n.live), 0 <= n.num and n.num < {n} and {r}[n.num] is n), pat=n.live)".format(n=n, r=res),
            'forall("int", lambda j, k: implies(0 <= j and j < k and k < {n}, {r}[j] is not {r}[k]), pat=({r}[j], {r}[k]))'.format(n=n, r=res)]

def load(reg):
    heap = ["heap." + f for f in WRITTEN]
    PAR = ["implies(parent is not None, parent.live)"]
    reg.add(Contract(T + "GroupToken.make_group", params={"cls": "=GroupToken", "parent": "opt[obj:node]", "lexemes": LEXEMES}, returns="seq[obj:node]",
        requires=["len(lexemes) > 0"] + PAR,
        ensures=["len(result) == len(lexemes)"] + tokens("result", "len(lexemes)", "parent", "ite(k == len(lexemes) - 1, -k, k)") + frame(),
        modifies=heap,
        loops={"comp0": Loop(index="i", kinds={"comp": "obj:node"}, inv=["len(comp) == i"] + tokens("comp", "i", "parent", "k") + frame())}))
    reg.add(Contract(T + "make_tokens", params={"lexemes": LEXEMES, "parent": "opt[obj:node]"}, returns="seq[obj:node]",
        requires=["len(lexemes) > 0"] + PAR,
        ensures=["len(result) == len(lexemes)"] + tokens("result", "len(lexemes)", "parent", "ite(len(lexemes) == 1, None, ite(k == len(lexemes) - 1, -k, k))") + frame(),
        modifies=heap))
    # what C01 and C02 prove about the events, together
    end = "item.lexemes[len(item.lexemes) - 1][0] + len(item.lexemes[len(item.lexemes) - 1][1])"
    reg.add(Contract("parce.lexer:Lexer.events", params={"self": LEXER, "text": "str", "pos": "int"},
        requires=["len(self.lexicons) >= 1", "0 <= pos <= len(text)"],
        gen=dict(item=EVENT, ghost={"end": ("int", "pos"), "stack": ("seq[obj:lexicon]", "self.lexicons"), "all": (LEXEMES, "()")},
            inv=["len(stack) >= 1", "stack[0] is old(self.lexicons)[0]"],
            each=["len(item.lexemes) > 0", "item.lexemes[0][0] >= end", "all(len(item.lexemes[k][1]) > 0 and item.lexemes[k][0] >= end for k in range(len(item.lexemes)))",
                  'forall("int", lambda j, k: implies(0 <= j and j < k and k < len(item.lexemes), item.lexemes[j][0] + len(item.lexemes[j][1]) <= item.lexemes[k][0]), pat=(item.lexemes[j], item.lexemes[k]))',
                  "implies(item.target is not None, item.target.pop <= 0 and len(stack) + item.target.pop >= 1)"],
            update={"end": end, "stack": "ite(item.target is None, stack, take(stack, len(stack) + item.target.pop) + item.target.push)", "all": "all + item.lexemes"}),
        trusted="proved in c01_lexer and c02_lexer"))
    C = "implies(n.live and n.is_context and 0 <= k and k < len(n), %s)"
    kids = lambda x: 'forall("obj:node;int", lambda n, k: %s, pat=n[k])' % (C % x)
    every = lambda x, pat="n.live": "forall(lambda n: implies(n.live, %s), pat=%s)" % (x, pat)
    def LINKS(cur):
        return [kids("n[k].live and n[k].parent is not None and n[k].parent is n and n[k].depth == n.depth + 1"),
                # in order, and a child is closed before the next one begins
                'forall("obj:node;int;int", lambda n, j, k: implies(n.live and n.is_context and 0 <= j and j < k and k < len(n), n[j].closed and n[j].hi <= n[k].lo), pat=(n[j], n[k]))',
                kids("n[k].lo >= n.lo or n is root"), "forall(lambda n: implies(n.live and n.is_context and len(n) > 0 and n is not root, n[0].lo == n.lo), pat=n.lo)",
                kids("implies(n.closed, n[k].closed and n[k].hi <= n.hi)"),
                every("n.lo <= {c} and implies(n.closed, n.lo < n.hi and n.hi <= {c})".format(c=cur)).replace("n.lo <= %s and" % cur, "(n is root or n.lo <= %s) and" % cur)]
    TREE = ["root.live and root.is_context and root.parent is None and root.depth == 0 and not root.closed",
            every("n.is_context == (not n.is_token)", "n.is_token"),
            "forall(lambda n: implies(n.live and n is not root, n.parent is not None and n.parent.live and n.parent.is_context and n.depth == n.parent.depth + 1 and n.depth > 0), pat=n.depth)",
            "forall(lambda n: implies(n.live and not n.closed and n is not root, n.parent is not None and not n.parent.closed), pat=n.closed)"]
    def UPTO(stack, cond):
        return ["context.live and context.is_context and not context.closed",
            "forall(lambda n, m: implies(n.live and m.live and not n.closed and not m.closed and n.depth == m.depth, n is m), pat=(n.closed, m.closed))",
            "forall(lambda n: implies(n.live and not n.closed, n.is_context and 0 <= n.depth and n.depth <= context.depth), pat=n.closed)",
            "forall(lambda n: implies(n.live and not n.closed%s, n.lexicon is not None and n.lexicon is %s[n.depth]), pat=n.closed)" % (cond, stack)]
    OPEN = lambda stack: UPTO(stack, "")
    FULL = "forall(lambda n: implies(n.live and n.is_context and n is not root, len(n) > 0), pat=n.is_context)"
    FULLBUT = FULL.replace("len(n) > 0", "len(n) > 0 or n is context")
    TOKS = ["len(toks) == len(g_all)"] + ['forall("int", lambda k: implies(0 <= k and k < len(toks), %s), pat=toks[k])' % x for x in (
            "toks[k].live and toks[k].is_token", "toks[k].pos == g_all[k][0]", "toks[k].text == g_all[k][1]", "toks[k].action is g_all[k][2]")]
    reg.add(Contract("parce.treebuilder:build_tree", params={"root_lexicon": "opt[obj:lexicon]", "text": "str", "pos": "int"}, returns="obj:node",
        requires=["0 <= pos <= len(text)", "forall(lambda n: not n.live, pat=n.live)"],
        ghost={"toks": ("seq[obj:node]", "()")},
        ensures=["result.lexicon == root_lexicon"] + [x.replace("root", "result").replace("result_lexicon", "root_lexicon") for x in TREE + [FULL] + LINKS("0")[:-1]],
        loops=[Loop(ghost="g_", inv=TREE + LINKS("g_end") + OPEN("g_stack") + [FULL, "context.depth == len(g_stack) - 1", "root.lexicon == root_lexicon", "root_lexicon is not None"] + TOKS,
                    end=[("toks", "toks + context[len(context) - len(lexemes):]")]),
               Loop(index="i", snap={"d0": "context.depth"}, begin=[("context", "hi", "lexemes[0][0]"), ("context", "closed", "True")],
                    inv=TREE + LINKS("lexemes[0][0]") + UPTO("g_stack", " and n.depth <= d0 + target.pop") + TOKS[1:] + ["len(toks) == len(g_all) - len(lexemes)", FULL, "target is not None", "context.depth == d0 - i", "len(g_stack) == d0 + 1 + target.pop + len(target.push)"]),
               Loop(index="i", snap={"d0": "context.depth"},
                    inv=TREE + LINKS("lexemes[0][0]") + UPTO("g_stack", "") + TOKS[1:] + ["len(toks) == len(g_all) - len(lexemes)", FULLBUT, "target is not None", "context.depth == d0 + i", "len(g_stack) == d0 + 1 + len(target.push)",
                         "all(g_stack[d0 + 1 + k] is target.push[k] for k in range(len(target.push)))", "len(context) > 0 or context is root or context.lo == lexemes[0][0]"])]))
    return SCHEMA
