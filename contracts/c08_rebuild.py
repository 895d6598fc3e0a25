"""Contracts on parts of the incremental rebuild (property C08)."""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef
from pyvc.values import Conc
import parce.lexer
import parce.treebuilder as tb, parce.treebuilderutil as tu
from .tree_common import *
from . import c05_find, c06_nav, c09_changes

U = "parce.treebuilderutil:"
free = {"toks": TOKS}
# links only: these functions also work while a tree has empty contexts
L_KIDS = ('forall("obj:node;int", lambda n, k: implies(n.intree and n.is_context and 0 <= k and k < len(n), n[k].intree and n[k].idx == k and n[k].parent is not None and n[k].parent is n), pat=n[k])')

LO, HI = "ite(slice_.start is None, 0, slice_.start)", "ite(slice_.stop is None, old(len(context)), slice_.stop)"

def load(reg):
    c09_changes.load(reg)
    reg.elsewhere("c09_changes")
    c05_find.load(reg)
    reg.elsewhere("c05_find")
    sch6 = c06_nav.load(reg)
    reg.elsewhere("c06_nav")
    reg.add(Contract(U + "ancestors_with_index", params={"node": NODE}, requires=[L_KIDS, W_PARENT, W_DEPTH, "node.intree"],
        gen=dict(item="tuple[obj:node,int]", ghost={"cur": ("obj:node", "node")},
            inv=["cur.intree"],
            each=["cur.parent is not None", "item[0] is cur.parent", "item[1] == cur.idx"],
            update={"cur": "item[0]"}, final=["cur.parent is None"]),
        loops=[Loop(inv=["node is cur", "cur.intree", "implies(cur.parent is not None, 0 <= cur.idx and len(cur.parent) > 0)"], decreases="node.depth")]))
    reg.add(Contract(U + "backward", params={"node": NODE}, free=free, requires=WF + ["node.intree", "node.tlo < node.thi"],
        gen=dict(item=NODE, ghost={"k": ("int", "node.tlo")}, inv=["0 <= k <= len(toks)"],
            each=["item is toks[k - 1]", "0 < k"], update={"k": "k - 1"}, final=["k == top(old(node), None).tlo"]),
        loops={0: Loop(inv=["g_cur.intree", "g_cur.tlo < g_cur.thi", "k == g_cur.tlo", "top(old(node), None) is top(g_cur, None)"], ghost="g_"),
               "yf0": Loop(inv=["g_cur.intree", "g_cur.tlo < g_cur.thi", "k >= 0", "k == h_k or h_k == -1 and k == g_cur.tlo"], ghost="h_")}))
    reg.add(Contract(U + "find_token_before", params={"node": NODE, "pos": "int"}, returns="opt[obj:node]", free=free,
        requires=WF_DOWN + ["node.intree", "node.is_context", "all(len(toks[k]) == toks[k].end - toks[k].pos for k in range(len(toks)))"],
        ensures=[x.replace("self", "old(node)") for x in (
          "implies(result is None, all(toks[k].end > pos for k in range(self.tlo, self.thi)))",
          "implies(result is not None, result.is_token and self.tlo <= result.tlo < self.thi and toks[result.tlo] is result and result.end <= pos and "
          "all(toks[k].end > pos for k in range(result.tlo + 1, self.thi)))")],
        loops=c05_find.BEFORE_LOOPS("old(node)")))
    sch = dict(sch6, fields=dict(FIELDS, lexicon="obj:lexicon", mirror="obj:node", new="bool", live="bool"), truth={'node': 'len(self) > 0'},
               methods=dict(sch6['methods'], **{'node.first_token': 'parce.tree:Context.first_token'}))
    # the lexicons from the root to the token
    reg.specfuns["up"] = SpecDef("up", ["obj:node", "int"], "obj:node", ["n", "k"], "ite(k <= 0, n, up(n, k - 1).parent)", reg)
    reg.add(Contract(U + "get_lexer", params={"token": NODE}, returns={"cls": parce.lexer.Lexer, "fields": {"lexicons": "list[obj:lexicon]"}}, free=free,
        requires=WF + ["token.intree", "token.is_token"],
        ensures=["len(result.lexicons) == token.depth", 'forall("int", lambda k: implies(0 <= k and k < token.depth, result.lexicons[k] is up(token, token.depth - k).lexicon), pat=result.lexicons[k])'],
        loops={"comp0": Loop(ghost="g_", kinds={"comp": "obj:lexicon"}, inv=["len(comp) == g_n", "g_cur is up(token, g_n)",
            'forall("int", lambda k: implies(0 <= k and k < len(comp), comp[k] is up(token, k + 1).lexicon), pat=comp[k])'])}))
    # an empty context with the same ancestry: mirror is the old context that a new one stands for
    reg.add(Contract(U + "new_tree", params={"token": NODE}, returns="tuple[obj:node,obj:node]", free=free,
        requires=[W_DEPTH, "token.intree", "token.parent is not None", "forall(lambda n: not n.new, pat=n.new)", "forall(lambda n: implies(n.intree, n.live), pat=n.intree)"],
        ensures=["result[0].new and len(result[0]) == 0 and result[0].mirror is token.parent", "result[1].new and result[1].parent is None and result[1].mirror.parent is None",
                 "forall(lambda m: implies(m.new, m.lexicon is m.mirror.lexicon), pat=m.new)",
                 "forall(lambda m: implies(m.new and m is not result[1], m.parent is not None and m.parent.new and m.parent.mirror == m.mirror.parent and len(m.parent) == 1 and m.parent[0] is m), pat=m.new)"],
        modifies=["heap.parent", "heap.$items", "heap.lexicon", "heap.mirror", "heap.new", "heap.live", "heap.is_context", "heap.is_token"],
        loops=[Loop(ghost="g_", inv=["c is n and c.new and c.parent is None and g_cur.intree and c.mirror is g_cur", "context.new and len(context) == 0 and context.mirror is token.parent",
                 "forall(lambda m: implies(m.new, m.lexicon is m.mirror.lexicon and not m.intree and m.live and m.mirror.intree), pat=m.new)", W_DEPTH, "forall(lambda n: implies(n.intree, n.live), pat=n.intree)",
                 "forall(lambda m: implies(not m.new, m.parent == old(m.parent) and m.lexicon is old(m.lexicon)), pat=m.new)",
                 "forall(lambda m: implies(m.new and m is not c, m.parent is not None and m.parent.new and m.parent.mirror == m.mirror.parent and len(m.parent) == 1 and m.parent[0] is m), pat=m.new)"])],
        schema=dict(sch, alloc={"parce.tree:Context": "node"}, ghost_new={"parce.tree:Context": {"new": "True", "mirror": ["local('p')", "local('token').parent"]}})))
    B = "parce.treebuilder:TreeBuilder."
    # all tokens from an index move, nothing else does
    lo = "ite(index < len(context), context[index].tlo, context.thi)"
    reg.add(Contract(B + "replace_pos", params={"self": {"cls": tb.TreeBuilder, "fields": {}}, "context": NODE, "index": "int", "offset": "int"}, free=free,
        requires=[W_TOKS] + WF_SHAPE + ["context.intree and context.is_context", "0 <= index"],
        ensures=['forall("int", lambda k: implies({lo} <= k and k < context.thi, toks[k].pos == old(toks[k].pos) + offset), pat=toks[k])'.format(lo=lo),
                 'forall(lambda n: implies(not (n.intree and n.is_token and {lo} <= n.tlo and n.tlo < context.thi), n.pos == old(n.pos)), pat=n.pos)'.format(lo=lo)],
        modifies=["heap.pos"],
        loops=[Loop(ghost="g_", inv=[
            'forall("int", lambda k: implies({lo} <= k and k < g_k, toks[k].pos == old(toks[k].pos) + offset), pat=toks[k])'.format(lo=lo),
            'forall(lambda n: implies(not (n.intree and n.is_token and {lo} <= n.tlo and n.tlo < g_k), n.pos == old(n.pos)), pat=n.pos)'.format(lo=lo),
            "implies(index < len(context), {lo} <= g_k and g_k <= context.thi)".format(lo=lo), "implies(index >= len(context), g_k == -1)", "implies(index < len(context), context[len(context) - 1].thi == context.thi)"],
            hints=["implies(index < len(context), context[len(context) - 1].thi == context.thi)"])]))
    reg.add(Contract(B + "replace_nodes", params={"self": {"cls": tb.TreeBuilder, "fields": {}}, "context": NODE, "slice_": "slice", "nodes": "seq[obj:node]"},
        requires=["implies(slice_.start is not None, 0 <= slice_.start and slice_.start <= len(context))", "implies(slice_.stop is not None, 0 <= slice_.stop and slice_.stop <= len(context))",
                  "ite(slice_.start is None, 0, slice_.start) <= ite(slice_.stop is None, len(context), slice_.stop)"],
        ensures=["len(context) == old(len(context)) - {hi} + {lo} + len(nodes)".format(lo=LO, hi=HI),
                 'forall("int", lambda k: implies(0 <= k and k < {lo}, context[k] is old(context[k])), pat=context[k])'.format(lo=LO),
                 'forall("int", lambda k: implies(0 <= k and k < len(nodes), context[{lo} + k] is nodes[k]), pat=nodes[k])'.format(lo=LO),
                 'forall("int", lambda k: implies({lo} + len(nodes) <= k and k < len(context), context[k] is old(context[k - len(nodes) - {lo} + {hi}])), pat=context[k])'.format(lo=LO, hi=HI.replace("old(len(context))", "len(context)"))],
        modifies=["heap.$items"]))
    # pending changes are merged in order and none is left
    CH = {"cls": tu.Changes, "fields": {"text": "str", "root_lexicon": "obj", "start": "int", "removed": "int", "added": "int"}}
    c9 = "old(self.changes)"
    at = "len(old(self.changes)) - len(self.changes)"
    reg.add(Contract(B + "get_changes", params={"self": {"cls": tb.TreeBuilder, "fields": {"changes": "list[tuple[str,obj,int,int,int]]"}}}, returns=CH,
        requires=["all(0 <= self.changes[i][2] and self.changes[i][3] >= 0 and self.changes[i][4] >= 0 and self.changes[i][2] + self.changes[i][4] <= len(self.changes[i][0]) for i in range(len(self.changes)))",
                  'forall("int", lambda i, j: implies(0 <= i and j == i + 1 and j < len(self.changes), self.changes[j][2] + self.changes[j][3] <= len(self.changes[i][0]) and '
                  'len(self.changes[j][0]) - len(self.changes[i][0]) == self.changes[j][4] - self.changes[j][3]), pat=(self.changes[i], self.changes[j]))'],
        ensures=["len(self.changes) == 0", "(result.start == -1) == (len({c}) == 0)".format(c=c9),
                 "implies(len({c}) > 0, result.text == {c}[len({c}) - 1][0] and result.start + result.added <= len(result.text))".format(c=c9),
                 "implies(len({c}) > 0, result.added - result.removed == len(result.text) - len({c}[0][0]) + {c}[0][4] - {c}[0][3])".format(c=c9),
                 'forall("int", lambda k: implies(0 <= k and k < len({c}), result.start <= {c}[k][2]), pat={c}[k])'.format(c=c9)],
        modifies=["self.changes"],
        loops=[Loop(inv=["len(self.changes) <= len({c})".format(c=c9),
                 'forall("int", lambda k: implies(0 <= k and k < len(self.changes), self.changes[k] == {c}[{at} + k]), pat=self.changes[k])'.format(c=c9, at=at),
                 "implies({at} == 0, c.start == -1)".format(at=at),
                 "implies({at} > 0, c.start >= 0 and c.removed >= 0 and c.added >= 0 and c.text == {c}[{at} - 1][0] and c.start + c.added <= len(c.text) and "
                 "c.added - c.removed == len(c.text) - len({c}[0][0]) + {c}[0][4] - {c}[0][3])".format(at=at, c=c9),
                 'forall("int", lambda k: implies(0 <= k and k < {at}, c.start <= {c}[k][2]), pat={c}[k])'.format(c=c9, at=at)], decreases="len(self.changes)")]))
    return sch
