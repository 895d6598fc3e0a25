"""Contracts on standard actions (property C17).

depth is a ghost measure: the number of ancestors; up(n, k) is the k-th ancestor.
"""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef
import parce.standardaction as ps

A = "obj:action"
K = "parce.standardaction:StandardAction."
FIELDS = {"_name": "str", "_parent": "opt[obj:action]", "depth": "int"}
W = ["forall(lambda n: n.depth >= 0 and (n.depth == 0) == (n._parent is None) and implies(n._parent is not None, n._parent.depth == n.depth - 1), pat=n.depth)"]

def isup(x, y):
    """x is y or an ancestor of y"""
    return "any(up(%s, k) is %s for k in range(%s.depth + 1))" % (y, x, y)

def load(reg):
    reg.specfuns["up"] = SpecDef("up", [A, "int"], A, ["n", "k"], "ite(k <= 0, n, up(n, k - 1)._parent)", reg)
    P = {"self": A}
    reg.add(Contract(K + "__iter__", params=P, requires=W,
        gen=dict(item=A, ghost={"k": ("int", "0"), "cur": ("opt[obj:action]", "self")},
            inv=["0 <= k and k <= self.depth + 1", "(cur is None) == (k == self.depth + 1)", "implies(cur is not None, cur is up(self, k) and cur.depth == self.depth - k)"],
            each=["item is up(self, k)", "k <= self.depth"], update={"k": "k + 1", "cur": "item._parent"}, final=["k == self.depth + 1"]),
        loops=[Loop(inv=["node == cur"] + ["0 <= k and k <= self.depth + 1", "(cur is None) == (k == self.depth + 1)", "implies(cur is not None, cur is up(self, k) and cur.depth == self.depth - k)"], kinds={"node": "opt[obj:action]"}, decreases="self.depth + 1 - k")]))
    none = lambda x, n, y, cond: 'forall("int", lambda j: implies(0 <= j and j < %s, not (%s)), pat=up(%s, j))' % (n, cond.format("up(%s, j)" % y), y)
    reg.add(Contract(K + "__contains__", name=K + "__contains__ (action)", params={"self": A, "other": A}, returns="bool", requires=W,
        ensures=["result == " + isup("self", "other")],
        loops={"comp1": Loop(ghost="g_", inv=[none("self", "g_k", "other", "{} is self")])}))
    reg.add(Contract(K + "__contains__", name=K + "__contains__ (name)", params={"self": A, "other": "str"}, returns="bool", requires=W,
        ensures=["result == any(up(self, k)._name == other for k in range(self.depth + 1))"],
        loops={"comp0": Loop(ghost="g_", inv=[none("self", "g_k", "self", "{}._name == other")])}))
    reg.add(Contract(K + "__and__", params={"self": A, "other": A}, returns="opt[obj:action]", requires=W,
        ensures=["implies(result is None, all(not (%s) for j in range(self.depth + 1)))" % isup("up(self, j)", "other"),
                 "implies(result is not None, any(up(self, j) is result and all(not (%s) for i in range(j)) for j in range(self.depth + 1)))" % isup("up(self, i)", "other"),
                 "implies(result is not None, %s)" % isup("result", "other")],
        loops={"list0": Loop(ghost="g_", kinds={"comp": A}, inv=["len(comp) == g_k", 'forall("int", lambda j: implies(0 <= j and j < len(comp), comp[j] is up(other, j)), pat=comp[j])',
                    'forall("int", lambda j: implies(0 <= j and j < len(comp), comp[j] is up(other, j)), pat=up(other, j))']),
               0: Loop(ghost="h_", inv=["all(not (%s) for j in range(h_k))" % isup("up(self, j)", "other")])}))
    for m in ("__copy__", "__deepcopy__"):
        reg.add(Contract(K + m, params=dict(P, **({"memo": "obj"} if m == "__deepcopy__" else {})), returns=A, ensures=["result is self"]))
    # the one action of a name under a parent (or at the top): there is one, it is known after the call, no other is touched
    sch = {"fields": dict(FIELDS, __dict__="map[str,obj:action]", live="bool"), "methods": {}, "classes": {"action": ps.StandardAction},
           "alloc": {"parce.standardaction:StandardAction": "action"}}
    TOP = "_toplevel_actions"
    OK = ['forall("obj:action;str", lambda p, s: implies(s in p.__dict__, p.__dict__[s]._name == s and p.__dict__[s]._parent is not None and p.__dict__[s]._parent is p and p.__dict__[s].live), pat=p.__dict__[s])',
          'forall("str", lambda s: implies(s in {t}, {t}[s]._name == s and {t}[s]._parent is None and {t}[s].live), pat={t}[s])'.format(t=TOP)]
    for top in (False, True):
        d = TOP if top else "parent.__dict__"
        reg.add(Contract(K + "__new__", name=K + "__new__" + (" (top level)" if top else ""), params={"cls": "=StandardAction", "name": "str", "parent": "=None" if top else A}, returns=A,
            free={TOP: "map[str,obj:action]"}, requires=OK + ([] if top else ["parent.live"]),
            ensures=["result._name == name", "result._parent is None" if top else "result._parent is not None and result._parent is parent", "result.live",
                     "name in {d} and {d}[name] is result".format(d=d),
                     "implies(old(name in {d}), result is old({d}[name]))".format(d=d),
                     "implies(old(not (name in {d})), old(not result.live))".format(d=d),
                     # all others stay what they are
                     'forall("str", lambda s: implies(s != name, (s in {d}) == old(s in {d}) and implies(s in {d}, {d}[s] is old({d}[s]))), pat={d}[s])'.format(d=d)] + OK +
                    ["forall(lambda n: implies(old(n.live), n._name == old(n._name) and n._parent == old(n._parent)), pat=n.live)"],
            modifies=["heap._name", "heap._parent", "heap.__dict__", "heap.live", TOP + "[]"], schema=sch))
    # an attribute that does not start with an underscore is the sub-action of that name
    reg.add(Contract(K + "__getattr__", params={"self": A, "name": "str"}, returns=A, free={TOP: "map[str,obj:action]"}, requires=OK + ["self.live"],
        raises={"AttributeError": "len(name) > 0 and name[0:1] == '_'"},
        ensures=["result._name == name and result._parent is not None and result._parent is self", "name in self.__dict__ and self.__dict__[name] is result",
                 "implies(old(name in self.__dict__), result is old(self.__dict__[name]))"],
        modifies=["heap._name", "heap._parent", "heap.__dict__", "heap.live", TOP + "[]"], schema=dict(sch, contracts={})))
    return {"fields": FIELDS, "methods": {"action.__iter__": K + "__iter__"}, "classes": {"action": ps.StandardAction}}
