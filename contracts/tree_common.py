"""Shared specification of a well-formed tree (C05, C06, C07).

A tree is seen through the ghost sequence toks of all its tokens: a node n covers
toks[n.tlo:n.thi].  The well-formedness that the contracts require is what C04 is
about: children are adjacent, in order, not empty, and know their parent.
(depth and rank are ghost measures: rank decreases from a context to its children.)
"""
from pyvc.contract import Contract, Loop

FIELDS = {"$items": "seq[obj:node]", "parent": "opt[obj:node]", "pos": "int", "end": "int", "is_context": "bool", "is_token": "bool",
          "tlo": "int", "thi": "int", "rank": "int", "depth": "int", "idx": "int", "intree": "bool"}

TOKS = "seq[obj:node]"

# every token of the tree
W_TOKS = ("all(toks[k].intree and toks[k].is_token and not toks[k].is_context and toks[k].tlo == k and toks[k].thi == k + 1 and "
          "toks[k].pos < toks[k].end for k in range(len(toks)))")
W_ORDER = 'forall("int", lambda i, j: implies(0 <= i and i < j and j < len(toks), toks[i].end <= toks[j].pos and toks[i].pos < toks[j].pos and toks[i].end < toks[j].end), pat=(toks[i], toks[j]))'
# every node of the tree
W_NODE = ("forall(lambda n: implies(n.intree, n.is_token == (not n.is_context) and 0 <= n.tlo and n.tlo <= n.thi and n.thi <= len(toks) and n.rank >= 0 and "
          "implies(n.tlo < n.thi, n.pos == toks[n.tlo].pos and n.end == toks[n.thi - 1].end) and "
          "implies(n.is_token, n.thi == n.tlo + 1 and toks[n.tlo] is n)), pat=n.intree)")
# the children of a context
W_KIDS = ('forall("obj:node;int", lambda n, k: implies(n.intree and n.is_context and 0 <= k and k < len(n), '
          "n[k].intree and n[k].tlo < n[k].thi and n.tlo <= n[k].tlo and n[k].thi <= n.thi and n[k].rank < n.rank and "
          "n[k].parent is not None and n[k].parent is n and n[k].idx == k and "
          "implies(k == 0, n[k].tlo == n.tlo) and implies(k == len(n) - 1, n[k].thi == n.thi)), pat=n[k])")
W_SIBS = ('forall("obj:node;int;int", lambda n, i, j: implies(n.intree and n.is_context and 0 <= i and i < j and j < len(n), n[i].thi <= n[j].tlo and implies(j == i + 1, n[i].thi == n[j].tlo)), pat=(n[i], n[j]))')
# an empty context is the root
W_EMPTY = ("forall(lambda n: implies(n.intree and n.is_context, (len(n) == 0) == (n.tlo == n.thi) and implies(n.parent is not None, len(n) > 0)), pat=n.intree)")
# parents
W_PARENT = ("forall(lambda n: implies(n.intree and n.parent is not None, n.parent.intree and n.parent.is_context and 0 <= n.idx and n.idx < len(n.parent) and "
            "n.parent[n.idx] is n), pat=n.idx)")
W_DEPTH = ("forall(lambda n: implies(n.intree, n.depth >= 0 and (n.depth == 0) == (n.parent is None) and implies(n.parent is not None, "
           "n.parent.intree and n.parent.is_context and n.parent.depth == n.depth - 1)), pat=n.depth)")

WF = [W_TOKS, W_ORDER, W_NODE, W_KIDS, W_SIBS, W_EMPTY, W_PARENT, W_DEPTH]
WF_DOWN = [W_TOKS, W_ORDER, W_NODE, W_KIDS, W_SIBS, W_EMPTY]
WF_SHAPE = [W_NODE, W_KIDS, W_SIBS, W_EMPTY]       # no positions

SCHEMA = {"fields": FIELDS, "methods": {}}
NODE = "obj:node"

def valid(a, trail, cond=None):
    """trail leads from a, over contexts, to a token"""
    return valid_prefix(a, trail, cond) + guard(cond, ["implies(len({t}) > 0, walk({a}, {t}).is_token and walk({a}, {t}).intree)".format(a=a, t=trail)])

def guard(cond, parts):
    return ["implies(%s, %s)" % (cond, x) if cond else x for x in parts]

def valid_prefix(a, trail, cond=None):
    return guard(cond, [x.format(a=a, t=trail) for x in (
            'forall("int", lambda k: implies(0 <= k and k < len({t}), walk({a}, take({t}, k)).is_context and walk({a}, take({t}, k)).intree and '
            '0 <= {t}[k] and {t}[k] < len(walk({a}, take({t}, k))) and walk({a}, take({t}, k + 1)) is walk({a}, take({t}, k))[{t}[k]]), pat={t}[k])',
            "walk({a}, take({t}, 0)) is {a} and walk({a}, take({t}, len({t}))) is walk({a}, {t})")])
