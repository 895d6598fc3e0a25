"""Contracts on the navigation in a tree (property C06)."""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef
from pyvc.values import Conc
from .tree_common import *

N, C = "parce.tree:Node.", "parce.tree:Context."
CTX = ["self.intree", "self.is_context"]
CHILD = ["self.intree", "self.parent is not None", "self.idx >= 0"]
free = {"toks": TOKS}

def nx(x):
    return "ite(passed({x}) < len(owner({x})), owner({x})[passed({x})].tlo, owner({x}).thi)".format(x=x)
def pv(x):
    return "ite(passed({x}) >= 0, owner({x})[passed({x})].thi, owner({x}).tlo)".format(x=x)

def tokens(reg):
    """Context.tokens yields the tokens of the context in order, each once."""
    for rev in (False, True):
        p, lo, hi = (pv, "thi", "tlo") if rev else (nx, "tlo", "thi")
        wf = lambda x: "owner({x}).intree and owner({x}).is_context and LO <= passed({x}) and passed({x}) <= len(owner({x})) - 1 - LO and self.tlo <= owner({x}).tlo and owner({x}).thi <= self.thi and (owner({x}) is self or len(owner({x})) > 0)".replace("LO <=", "-1 <=" if rev else "0 <=").replace("- 1 - LO", "- 1" if rev else "").format(x=x)
        inv = [wf("gen"), "all(%s for j in range(len(stack)))" % wf("stack[j]"),
               "k == " + p("gen"),
               "implies(len(stack) == 0, owner(gen) is self)",
               "implies(len(stack) > 0, owner(stack[0]) is self)", "implies(len(stack) > 0, {0} == owner(gen).{1})".format(p("stack[len(stack) - 1]"), hi),
               'forall("int", lambda j, l: implies(0 <= j and l == j + 1 and l < len(stack), {0} == owner(stack[l]).{1}), pat=(owner(stack[j]), owner(stack[l])))'.format(p("stack[j]"), hi)]
        reg.add(Contract(C + "tokens", name=C + "tokens" + (" (reverse)" if rev else ""),
            params={"self": NODE, "reverse": "=%r" % rev}, free=free,
            requires=WF_SHAPE + CTX,
            gen=dict(item=NODE, ghost={"k": ("int", "self." + lo)},
                inv=["self.tlo <= k <= self.thi"],
                each=["item is toks[%s]" % ("k - 1" if rev else "k"), "self.tlo <= k - 1" if rev else "k < self.thi"],
                update={"k": "k - 1" if rev else "k + 1"}, final=["k == self." + hi]),
            loops=[Loop(inv=inv, hints=[h.format(o="owner(stack[len(stack) - 1])", d="passed(stack[len(stack) - 1])", p=p("stack[len(stack) - 1]")) for h in (
                        ("implies(len(stack) > 0 and 0 <= {d} and {d} + 1 < len({o}), {o}[{d}].thi == {o}[{d} + 1].tlo)",
                         "implies(len(stack) > 0 and -1 <= {d} and {d} + 1 < len({o}), {p} == {o}[{d} + 1].tlo)") if rev else
                        ("implies(len(stack) > 0 and 0 < {d} and {d} < len({o}), {o}[{d} - 1].thi == {o}[{d}].tlo)",
                         "implies(len(stack) > 0 and 0 < {d} and {d} <= len({o}), {p} == {o}[{d} - 1].thi)"))]),
                   Loop(inv=inv)],
            kinds={"stack[]": "riter:node" if rev else "iter:node"}))

def util_tokens(reg):
    U = "parce.util:tokens"
    for rev in (False, True):
        first, last = ("nodes[len(nodes) - 1].thi", "nodes[0].tlo") if rev else ("nodes[0].tlo", "nodes[len(nodes) - 1].thi")
        item = "toks[k - 1]" if rev else "toks[k]"
        upd = "k - 1" if rev else "k + 1"
        at = "ite(i < len(old(nodes)), old(nodes)[%s].%s, %s)" % (("len(old(nodes)) - 1 - i", "thi", "old(nodes)[0].tlo") if rev else ("i", "tlo", "old(nodes)[len(old(nodes)) - 1].thi"))
        reg.add(Contract(U, name=U + (" (reverse)" if rev else ""),
            params={"nodes": "seq[obj:node]", "reverse": "=%r" % rev}, free=free,
            requires=WF_SHAPE + ["all(nodes[j].intree and nodes[j].tlo < nodes[j].thi for j in range(len(nodes)))",
                'forall("int", lambda i, j: implies(0 <= i and i < j and j < len(nodes), nodes[i].thi <= nodes[j].tlo and implies(j == i + 1, nodes[i].thi == nodes[j].tlo)), pat=(nodes[i], nodes[j]))'],
            gen=dict(item=NODE, ghost={"k": ("int", "ite(len(nodes) > 0, %s, -1)" % first)},
                inv=["implies(len(nodes) == 0, k == -1)", "implies(len(nodes) > 0, nodes[0].tlo <= k and k <= nodes[len(nodes) - 1].thi)"],
                each=["item is " + item, "len(nodes) > 0 and k > 0 and k <= len(toks)" if rev else "len(nodes) > 0 and 0 <= k and k < len(toks)"],
                update={"k": upd}, final=["implies(len(nodes) > 0, k == %s)" % last]),
            loops={0: Loop(index="i", inv=["implies(len(old(nodes)) > 0, k == %s)" % at, "implies(len(old(nodes)) == 0, k == -1)"]),
                   "yf0": Loop(inv=["k == g_k"], ghost="g_")}))

SAME = "result == self.idx"

def nodes(reg):
    P = {"self": NODE}
    reg.add(Contract(N + "parent_index", params=P, returns="int", free=free, requires=WF + CHILD,
        ensures=["0 <= result < len(self.parent)", "self.parent[result] is self", "result == self.idx"],
        loops=[Loop(inv=["0 <= lo <= hi <= len(p)", "lo <= self.idx", "self.idx <= hi", "self.idx < len(p)"], decreases="hi - lo")]))
    reg.add(Contract(N + "is_last", params=P, returns="bool", free=free, requires=WF + CHILD, ensures=["result == (self.idx == len(self.parent) - 1)"]))
    reg.add(Contract(N + "is_first", params=P, returns="bool", free=free, requires=WF + CHILD, ensures=["result == (self.idx == 0)"]))
    reg.add(Contract(N + "left_sibling", params=P, returns="opt[obj:node]", free=free, requires=WF + CHILD,
        ensures=["(result is None) == (self.parent is None or self.idx == 0)", "implies(result is not None, result is self.parent[self.idx - 1])"]))
    reg.add(Contract(N + "right_sibling", params=P, returns="opt[obj:node]", free=free, requires=WF + CHILD,
        ensures=["(result is None) == (self.parent is None or self.idx == len(self.parent) - 1)", "implies(result is not None, result is self.parent[self.idx + 1])"]))
    reg.add(Contract(N + "left_siblings", params=P, free=free, requires=WF + CHILD, out_kind="obj:node",
        ensures=["implies(self.parent is None, len(result) == 0)",
                 "implies(self.parent is not None, len(result) == self.idx and all(result[k] is self.parent[self.idx - 1 - k] for k in range(len(result))))"]))
    reg.add(Contract(N + "right_siblings", params=P, free=free, requires=WF + CHILD, out_kind="obj:node",
        ensures=["implies(self.parent is None, len(result) == 0)",
                 "implies(self.parent is not None, len(result) == len(self.parent) - 1 - self.idx and all(result[k] is self.parent[self.idx + 1 + k] for k in range(len(result))))"]))
    # climbing: each item is the parent of the previous one, up to the root or upto
    reg.add(Contract(N + "ancestors", params={"self": NODE, "upto": "opt[obj:node]"}, free=free, requires=[W_DEPTH, "self.intree"],
        gen=dict(item=NODE, ghost={"cur": ("obj:node", "self"), "n": ("int", "0")},
            inv=["cur.intree", "cur.depth + n == self.depth", "n >= 0"],
            each=["cur.parent is not None", "item is cur.parent", "n == 0 or upto is None or cur is not upto"],
            update={"cur": "item", "n": "n + 1"},
            final=["cur.parent is None or n > 0 and upto is not None and cur is upto"]),
        loops=[Loop(inv=["cur.intree", "cur.depth + n == self.depth", "n >= 0", "implies(node is not None, cur.parent is not None and node is cur.parent)", "implies(node is None, cur.parent is None)",
                         "n == 0 or upto is None or cur is not upto"], decreases="cur.depth")]))
    reg.add(Contract(N + "ancestors_with_index", params={"self": NODE, "upto": "opt[obj:node]"}, free=free, requires=WF + ["self.intree"],
        gen=dict(item="tuple[obj:node,int]", ghost={"cur": ("obj:node", "self"), "m": ("int", "0")},
            inv=["cur.intree", "m >= 0"],
            each=["cur.parent is not None", "item[0] is cur.parent", "item[1] == cur.idx", "m == 0 or upto is None or cur is not upto"],
            update={"cur": "item[0]", "m": "m + 1"},
            final=["cur.parent is None or m > 0 and upto is not None and cur is upto"]),
        loops=[Loop(inv=["g_cur is cur", "g_n == m", "n is cur", "cur.intree"], ghost="g_")]))
    reg.specfuns["top"] = SpecDef("top", ["obj:node", "opt[obj:node]"], "obj:node", ["n", "upto"],
        "ite(n.parent is None, n, ite(upto is not None and n.parent is upto, n.parent, top(n.parent, upto)))", reg)
    # follows from the others: lemma top_covers
    reg.add(Contract("contracts.lemmas:top_covers", params={"n": NODE, "upto": "opt[obj:node]"}, free=free, requires=[W_NODE, W_KIDS, W_PARENT, W_DEPTH, "n.intree"],
        ensures=["top(n, upto).intree and top(n, upto).tlo <= n.tlo and n.thi <= top(n, upto).thi"],
        loops=[Loop(inv=["m.intree", "m.tlo <= n.tlo", "n.thi <= m.thi", "top(n, upto) is top(m, upto)"], decreases="m.depth",
            hints=["implies(m.parent is not None, m.parent[m.idx] is m and m.parent.tlo <= m.tlo and m.thi <= m.parent.thi)"])]))
    for rev in (False, True):
        hi, item, upd, name = ("tlo", "toks[k - 1]", "k - 1", "backward") if rev else ("thi", "toks[k]", "k + 1", "forward")
        wf = ["g_cur.intree", "g_cur.tlo < g_cur.thi"]
        reg.add(Contract(N + name, params={"self": NODE, "upto": "opt[obj:node]"}, free=free,
            requires=WF + [W_TOP, "self.intree", "self.tlo < self.thi"],
            gen=dict(item=NODE, ghost={"k": ("int", "self." + hi)},
                inv=["0 <= k <= len(toks)", "top(self, upto).tlo <= k and k <= self.tlo" if rev else "self.thi <= k and k <= top(self, upto).thi"],
                each=["item is " + item, "0 < k" if rev else "k < len(toks)"], update={"k": upd}, final=["k == top(self, upto)." + hi]),
            loops={0: Loop(inv=wf + ["k == g_cur." + hi, "g_m >= 0", "k <= self.tlo" if rev else "self.thi <= k",
                        "ite(g_m > 0 and upto is not None and g_cur is upto, top(self, upto) is g_cur, top(self, upto) is top(g_cur, upto))"], ghost="g_"),
                   "yf0": Loop(inv=wf + ["k >= 0", "k == h_k or h_k == -1 and k == g_cur." + hi,
                        "top(self, upto).tlo <= g_cur.tlo and k <= self.tlo" if rev else "g_cur.thi <= top(self, upto).thi and self.thi <= k",
                        "g_cur[0].tlo == g_cur.tlo" if rev else "g_cur[len(g_cur) - 1].thi == g_cur.thi"], ghost="h_")}))
        reg.add(Contract("parce.tree:Token.%s_including" % name, params={"self": NODE, "upto": "opt[obj:node]"}, free=free,
            requires=WF + [W_TOP, "self.intree", "self.is_token"],
            gen=dict(item=NODE, ghost={"k": ("int", "self.tlo")}, 
                each=["0 <= k < len(toks)", "item is toks[k]"], update={"k": upd}, final=["k == " + ("top(self, upto).tlo - 1" if rev else "top(self, upto).thi")]),
            loops={"yf0": Loop(inv=["k == g_k" + (" - 1" if rev else "")], ghost="g_")}))
    reg.add(Contract(N + "root", params=P, returns="obj:node", free=free, requires=WF + ["self.intree"],
        ensures=["result.intree", "result.parent is None", "result is top(self, None)"],
        loops=[Loop(inv=["g_cur is root", "top(self, None) is top(root, None)"], ghost="g_")]))
    reg.specfuns["anc"] = SpecDef("anc", ["obj:node", "obj:node"], "bool", ["a", "n"], "n.parent is not None and (n.parent is a or anc(a, n.parent))", reg)
    reg.add(Contract(N + "is_ancestor_of", params={"self": NODE, "node": NODE}, returns="bool", free=free, requires=WF + ["self.intree", "node.intree"],
        ensures=["result == anc(self, node)"],
        loops=[Loop(inv=["anc(self, node) == anc(self, g_cur)"], ghost="g_")]))
    for f, d in (("next_token", "self.thi < top(self, None).thi"), ("previous_token", "self.tlo > top(self, None).tlo")):
        reg.add(Contract(N + f, params=P, returns="opt[obj:node]", free=free, requires=WF + [W_TOP, "self.intree", "self.tlo < self.thi"],
            ensures=["(result is None) == (not (%s))" % d, "implies(result is not None, result is toks[%s])" % ("self.thi" if f == "next_token" else "self.tlo - 1"), "implies(result is not None, result.is_token)"],
            loops=[Loop(inv=["g_k == self." + ("thi" if f == "next_token" else "tlo")], ghost="g_")]))

W_TOP = 'forall("obj:node;opt[obj:node]", lambda n, u: implies(n.intree, top(n, u).tlo <= n.tlo and n.thi <= top(n, u).thi), pat=top(n, u))'

def load(reg):
    tokens(reg)
    util_tokens(reg)
    nodes(reg)
    return dict(SCHEMA, iters=True, methods={"node.tokens": C + "tokens", **{"node." + x: N + x for x in
        ("parent_index", "ancestors", "ancestors_with_index", "forward", "backward", "root")}})
