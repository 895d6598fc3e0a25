"""Contracts on the groups of tokens (property C04): gs and ge are (ghost) the indices of the first and last token of the group."""
from pyvc.contract import Contract, Loop
from .tree_common import *
from . import c06_nav

G = "parce.tree:GroupToken."
free = {"toks": TOKS}
W_GROUP = ("forall(lambda n: implies(n.intree and n.is_token and n.group is not None, n.parent is not None and 0 <= n.gs and n.gs <= n.idx and n.idx <= n.ge and n.gs < n.ge and n.ge < len(n.parent) and "
           "n.group == ite(n.idx == n.ge, n.gs - n.idx, n.idx - n.gs)), pat=n.group)")
W_SAME = ('forall("obj:node;int", lambda n, k: implies(n.intree and n.is_token and n.group is not None and n.gs <= k and k <= n.ge, '
          "n.parent[k].intree and n.parent[k].is_token and n.parent[k].group is not None and n.parent[k].gs == n.gs and n.parent[k].ge == n.ge and n.parent[k].idx == k and n.parent[k].parent == n.parent), pat=n.parent[k])")
REQ = WF + [W_GROUP, W_SAME, "self.intree", "self.is_token", "self.group is not None", "self.parent is not None"]

def load(reg):
    sch = c06_nav.load(reg)
    reg.elsewhere("c06_nav")
    inv = lambda v: ["self.idx + 1 <= {0} and {0} <= self.ge".format(v), "self.idx < self.ge"]
    reg.add(Contract(G + "get_group", params={"self": NODE}, returns="list[obj:node]", free=free, requires=REQ,
        ensures=["len(result) == self.ge + 1 - self.gs", 'forall("int", lambda k: implies(0 <= k and k < len(result), result[k] is self.parent[self.gs + k]), pat=result[k])'],
        loops=[Loop(inv=inv("j") + ["i == self.gs"], decreases="z - j")]))
    reg.add(Contract(G + "get_group_start", params={"self": NODE}, returns=NODE, free=free, requires=REQ, ensures=["result is self.parent[self.gs]"]))
    reg.add(Contract(G + "get_group_end", params={"self": NODE}, returns=NODE, free=free, requires=REQ, ensures=["result is self.parent[self.ge]"],
        loops=[Loop(inv=inv("i"), decreases="z - i")]))
    return dict(sch, fields=dict(FIELDS, group="opt[int]", gs="int", ge="int"))
