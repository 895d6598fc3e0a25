"""Contracts on transforming a tree (property C15).

tr(n) is the result for the context n: its method, applied to the argument of its lexicon and to the items its(n) of its
children.  A tree is seen through nk(n) and kid(n, i), the children of n; they do not change meanwhile.
The cache is valid: what it has for a node of the tree is the result for that node.
A ghost field of a list of items tells which context it belongs to.
"""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef
import parce.transform as pt

K = "parce.transform:"
NODE, SEQ = "obj:node", "seq[obj:node]"
L = "obj:items"

def load(reg):
    def spec(name, kinds, ret, params, body=None):
        reg.specfuns[name] = SpecDef(name, kinds, ret, params, body, reg)
    # filters of a list of items
    sch = {"fields": {"$items": SEQ, "is_token": "bool", "action": "obj:value", "name": "obj:value"}, "classes": {}, "methods": {}}
    spec("toks", [SEQ, "int"], SEQ, ["s", "n"], "ite(n <= 0, seq(), cat(toks(s, n - 1), ite(s[n - 1].is_token, seq(s[n - 1]), seq())))")
    spec("itms", [SEQ, "int"], SEQ, ["s", "n"], "ite(n <= 0, seq(), cat(itms(s, n - 1), ite(s[n - 1].is_token, seq(), seq(s[n - 1]))))")
    for f, g in (("tokens", "toks"), ("items", "itms")):
        reg.add(Contract(K + "ItemList." + f, params={"self": L}, out_kind=NODE, ensures=["result == %s(items(self), len(items(self)))" % g], schema=sch,
            loops=[Loop(index="n", inv=["out == %s(items(self), n)" % g])]))
    AT = "ite(index < 0, index + len(items(self)), index)"
    VAL = "ite({0}.is_token, {0}.action, {0}.name)"
    reg.add(Contract(K + "ItemList.peek", params={"self": L, "index": "int", "values": "seq[obj:value]"}, returns="bool", schema=sch,
        ensures=["result == ({0} >= 0 and {0} + len(values) <= len(items(self)) and all({1} is values[k] for k in range(len(values))))".format(AT, VAL.format("items(self)[%s + k]" % AT))],
        loops={"comp0": Loop(index="n", kinds={"comp": "obj:value"}, inv=["len(comp) == n", 'forall("int", lambda k: implies(0 <= k and k < n, comp[k] is %s), pat=comp[k])' % VAL.format("items(self)[index + k]")])}))
    # the cache
    C = "self._cache"
    TF = {"cls": pt.Transformer, "fields": {"_cache": "map[obj:node,obj:res]", "_interrupt": "map[obj:node,bool]"}}
    cs = {"fields": {"parent": "opt[obj:node]"}, "classes": {}, "methods": {}, "always_true": ("node",)}
    spec("up", [NODE, "int"], NODE, ["n", "k"], "ite(k <= 0, n, the(up(n, k - 1).parent))")
    spec("above", [NODE, NODE, "int"], "bool", ["x", "n", "k"], "k > 0 and (above(x, n, k - 1) or x is up(n, k - 1))")
    reg.add(Contract(K + "Transformer.invalidate_node", params={"self": TF, "node": NODE}, modifies=[C + "[]"], schema=cs, ghost={"k": ("int", "0")}, witness={"d": ("int", "k")},
        ensures=["d >= 0 and up(old(node), d).parent is None",
                 # the node and its ancestors but the root
                 'forall("obj:node", lambda x: (x in {c}) == (old(x in {c}) and not above(x, old(node), d)), pat=(x in {c}))'.format(c=C),
                 'forall("obj:node", lambda x: implies(x in {c}, {c}[x] is old({c}[x])), pat={c}[x])'.format(c=C)],
        loops=[Loop(inv=["k >= 0 and node is up(old(node), k)", 'forall("obj:node", lambda x: (x in {c}) == (old(x in {c}) and not above(x, old(node), k)), pat=(x in {c}))'.format(c=C),
                         'forall("obj:node", lambda x: implies(x in {c}, {c}[x] is old({c}[x])), pat={c}[x])'.format(c=C)], end=[("k", "k + 1")])]))
    reg.add(Contract(K + "Transformer.result", params={"self": TF, "tree": NODE}, returns="opt[obj:res]", schema=cs, ensures=["(result is None) == (tree not in %s)" % C, "implies(tree in {0}, the(result) is {0}[tree])".format(C)]))
    reg.add(Contract(K + "Transformer.interrupt", params={"self": TF, "tree": NODE}, schema=cs, modifies=["self._interrupt[]"], ensures=["tree in self._interrupt and self._interrupt[tree]"]))
    # a tree
    FIELDS = {"$items": SEQ, "is_token": "bool", "parent": "opt[obj:node]", "lexicon": "opt[obj:lexicon]", "language": "obj:lang", "name": "str", "arg": "obj:any", "_arg": "obj:any", "owner": NODE, "live": "bool", "intree": "bool", "_cache": "map[obj:node,obj:res]", "_interrupt": "map[obj:node,bool]", "log": "seq[str]"}
    TF = "obj:tf"
    spec("T", ["obj:lang"], "obj:transform", ["l"]); spec("getm", ["obj:transform", "str"], "opt[obj:meth]", ["t", "name"]); spec("allow", ["obj:meth"], "bool", ["m"])
    spec("kid", [NODE, "int"], NODE, ["n", "i"]); spec("nk", [NODE], "int", ["n"]); spec("app", ["obj:meth", "obj:any", SEQ], "obj:res", ["m", "a", "s"])
    spec("mk", ["str", "obj:res"], NODE, ["name", "r"])
    spec("methof", [NODE], "opt[obj:meth]", ["n"], "getm(T(the(n.lexicon).language), the(n.lexicon).name)")
    spec("tr", [NODE], "obj:res", ["n"], "app(the(methof(n)), the(n.lexicon).arg, its(n, nk(n)))")
    spec("its", [NODE, "int"], SEQ, ["n", "k"], "ite(k <= 0, seq(), cat(its(n, k - 1), piece(n, kid(n, k - 1))))")
    spec("piece", [NODE, NODE], SEQ, ["n", "c"], "ite(c.is_token, seq(c), ite(methof(c) is not None, seq(mk(the(c.lexicon).name, tr(c))), ite(allow(the(methof(n))), seq(mk('<untransformed>', c)), seq())))")
    reg.add(Contract(K + "Transformer.get_transform", params={"self": None, "language": "obj:lang"}, returns="obj:transform", ensures=["result is T(language)"], trusted="the transform of a language, one for each (dictionary)"))
    reg.add(Contract(K + "_allow_untransformed", params={"meth": "obj:meth"}, returns="bool", ensures=["result == allow(meth)"], trusted="a mark on the method"))
    reg.add(Contract("spec:getm", params={"self": "obj:transform", "name": "str"}, returns="opt[obj:meth]", ensures=["result == getm(self, name)"], trusted="getattr"))
    reg.add(Contract("spec:meth", params={"self": "obj:meth", "s": L}, returns="obj:res", modifies=["heap._interrupt"],
        ensures=["result is app(self, s._arg, contents(s))", 'forall("obj:tf;obj:node", lambda t, x: implies(old(x in t._interrupt), x in t._interrupt), pat=(x in t._interrupt))', 'forall("obj:tf;obj:node", lambda t, x: implies(old(x in t._interrupt and t._interrupt[x]), t._interrupt[x]), pat=t._interrupt[x])'],
        trusted="a method of a transform: any function of the argument and the items; meanwhile the transformer may be told to stop"))
    reg.add(Contract("spec:kid", params={"self": NODE, "i": "int"}, returns=NODE, requires=["0 <= i and i < nk(self)"], ensures=["result is kid(self, i)"], trusted="the children of a context"))
    reg.add(Contract("spec:nk", params={"self": NODE}, returns="int", ensures=["result == nk(self)"], trusted="the children of a context"))
    reg.add(Contract(K + "Item", name="Item (result)", params={"name": "str", "obj": "obj:res"}, returns=NODE, ensures=["result is mk(name, obj)"], trusted="a named tuple"))
    ts = {"fields": FIELDS, "classes": {"tf": pt.Transformer}, "always_true": ("node", "lexicon", "meth"), "alloc": {K + "ItemList": "items"},
          "methods": {"transform.__getattr__": "spec:getm", "meth.__call__": "spec:meth", "node.__getitem__": "spec:kid", "node.__len__": "spec:nk"}}
    WF = ['forall(lambda n: implies(n.intree and not n.is_token, (n is tree or n.lexicon is not None) and nk(n) >= 0), pat=n.intree)',
          'forall("obj:node;int", lambda n, k: implies(n.intree and not n.is_token and 0 <= k and k < nk(n), kid(n, k).intree and kid(n, k).parent is not None and the(kid(n, k).parent) is n), pat=kid(n, k))']
    VALID = 'forall("obj:node", lambda n: implies(n.intree and n in {c}, {c}[n] is tr(n)), pat=(n in {c}))'.format(c=C)
    def entry(k):
        return ["{e}[0].live and {e}[0].owner.intree and not {e}[0].owner.is_token and methof({e}[0].owner) is not None", "1 <= {e}[1] and {e}[1] <= nk({e}[0].owner)", "contents({e}[0]) == its({e}[0].owner, {e}[1] - 1)",
                "{e}[0]._arg is the({e}[0].owner.lexicon).arg", "{e}[3] == allow(the(methof({e}[0].owner)))", "methof(kid({e}[0].owner, {e}[1] - 1)) is not None and the(methof(kid({e}[0].owner, {e}[1] - 1))) is {e}[2]",
                "not kid({e}[0].owner, {e}[1] - 1).is_token"]
    STACK = ['forall("int", lambda k: implies(0 <= k and k < len(stack), %s), pat=stack[k])' % " and ".join("(%s)" % x.format(e="stack[k]") for x in entry("k")),
             'forall("int", lambda k: implies(0 <= k and k < len(stack) - 1, kid(stack[k][0].owner, stack[k][1] - 1) is stack[k + 1][0].owner), pat=stack[k])',
             'forall("int", lambda j, k: implies(0 <= j and j < k and k < len(stack), stack[j][0] is not stack[k][0]), pat=(stack[j], stack[k]))',
             'forall("int", lambda k: implies(0 <= k and k < len(stack), stack[k][0] is not items), pat=stack[k])']
    TOP = ["implies(len(stack) == 0, node is tree)", "implies(len(stack) > 0, stack[0][0].owner is tree and kid(stack[len(stack) - 1][0].owner, stack[len(stack) - 1][1] - 1) is node)"]
    HERE = ["node.intree and not node.is_token and methof(node) is not None", "items.live and items._arg is the(node.lexicon).arg", "add_untransformed == allow(the(methof(node)))", "transform is T(curlang)",
            "tree in self._interrupt", VALID]
    reg.add(Contract(K + "Transformer.transform_tree", fuel=3, params={"self": TF, "tree": NODE}, returns="opt[obj:res]", schema=ts, modifies=["heap._cache", "heap._interrupt", "heap.$items", "heap.live", "heap._arg", "heap.owner"], kinds={"stack[]": "tuple[obj:items,int,obj:meth,bool]"},
        requires=["tree.intree and not tree.is_token", VALID] + WF,
        ensures=["tree in self._interrupt", "implies(tree.lexicon is None or methof(tree) is None, result is None)", "implies(tree.lexicon is not None and methof(tree) is not None and not self._interrupt[tree], result is not None and the(result) is tr(tree))", VALID],
        loops=[Loop(begin=[("items", "owner", "node")], kinds={"node": NODE, "items": L}, inv=STACK + TOP + HERE + ["0 <= i and i <= nk(node)", "contents(items) == its(node, i)"]),
               Loop(index="q", snap={"i0": "i"}, inv=STACK + TOP + HERE + ["items.owner is node", "0 <= i0 and i0 + q <= nk(node)", "contents(items) == its(node, i0 + q)"])]))
    # with the events: the result is stored and announced only when the transformation has not been interrupted
    reg.add(Contract("spec:emit", params={"self": TF, "event": "str", "*args": "seq[obj:any]"}, modifies=["heap.log", "heap._interrupt"],
        ensures=["self.log == cat(old(self.log), seq(event))", 'forall("obj:tf;obj:node", lambda t, x: implies(old(x in t._interrupt), x in t._interrupt), pat=(x in t._interrupt))'], trusted="Observable.emit (proved in C21); a slot may tell the transformer to stop"))
    ps = dict(ts, methods=dict(ts["methods"], **{"tf.emit": "spec:emit"}))
    reg.add(Contract(K + "Transformer.process", params={"self": TF, "tree": NODE}, out_kind="str", schema=ps, modifies=["heap._cache", "heap._interrupt", "heap.log", "heap.$items", "heap.live", "heap._arg", "heap.owner"],
        requires=["tree.intree and not tree.is_token", "tree.lexicon is not None and methof(tree) is not None", VALID, "len(self.log) == 0"] + WF,
        ensures=["len(result) == 3 and result[0] == 'build' and result[1] == 'replace' and result[2] == 'done'", VALID,
                 "len(self.log) >= 2 and self.log[0] == 'started' and self.log[len(self.log) - 1] == 'finished'",
                 "implies(len(self.log) > 2, len(self.log) == 3 and self.log[1] == 'updated' and tree in self._cache and self._cache[tree] is tr(tree))"]))
    return sch
