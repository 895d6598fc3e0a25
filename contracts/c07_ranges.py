"""Contracts on tree ranges (property C07)."""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef
from pyvc.values import Conc
import parce.tree as pt
from .tree_common import *
from . import c05_find, c06_nav

R = "parce.tree:Range."
RANGE = {"cls": pt.Range, "fields": {"ancestor": NODE, "start_trail": "list[int]", "end_trail": "list[int]"}}

def load(reg):
    sch = c05_find.load(reg)
    reg.elsewhere("c05_find")
    c06_nav.util_tokens(reg)
    reg.elsewhere("c06_nav")
    free = {"toks": TOKS}
    a, st, et = "self.ancestor", "self.start_trail", "self.end_trail"
    OK = ["self.ancestor.intree and self.ancestor.is_context and len(self.ancestor) > 0"] + valid(a, st) + valid(a, et) + [
        # the ancestor is the youngest common one, and the start is not after the end
        "implies(len({s}) > 0 and len({e}) > 0, {s}[0] < {e}[0] or {s}[0] == {e}[0] and len({s}) == 1 and len({e}) == 1)".format(s=st, e=et)]
    FIRST = "ite(len({s}) > 0, walk({a}, {s}).tlo, {a}.tlo)".format(a=a, s=st)
    LAST = "ite(len({s}) > 0, walk({a}, {s}).thi, {a}.thi)".format(a=a, s=et)
    lo, hi = "ite(item[1].start is None, 0, item[1].start)", "ite(item[1].stop is None, len(item[0]), item[1].stop)"
    T = lambda k: "take(%s, %s)" % (st, k)
    ANC = ["len(ancestors) == m", "n is walk({a}, {t})".format(a=a, t=T("m + 1")),
           'forall("int", lambda q: implies(0 <= q and q < len(ancestors), ancestors[q][0] is walk({a}, {t}) and ancestors[q][1] == {s}[q + 1]), pat=ancestors[q])'.format(a=a, t=T("q + 1"), s=st)]
    reg.add(Contract(R + "slices", params={"self": RANGE, "target_factory": "=None"}, free=free,
        requires=WF_SHAPE + OK,
        gen=dict(item="tuple[obj:node,slice]", ghost={"at": ("int", FIRST)},
            each=["item[0].intree and item[0].is_context", "0 <= %s <= %s <= len(item[0])" % (lo, hi),
                  "implies(%s < %s, item[0][%s].tlo == at)" % (lo, hi, lo)],
            update={"at": "ite(%s < %s, item[0][%s - 1].thi, at)" % (lo, hi, hi)},
            final=["at == " + LAST]),
        kinds={"ancestors[]": "tuple[obj:node,int]"},
        loops=[Loop(index="m", inv=ANC),
               Loop(index="j", inv=["at == ancestors[len(ancestors) - 1 - j][0].thi", "len(ancestors) > 0"] + [x.replace("== m", "== len(%s) - 1" % st) for x in ANC if x[:4] != "n is"]),
               Loop(index="q", inv=["n is walk({a}, take({e}, q + 1))".format(a=a, e=et), "at == n.tlo"])]))
    # all tokens from the first to the last, in order, each once
    reg.add(Contract(R + "tokens", params={"self": RANGE}, free=free, requires=WF_SHAPE + OK,
        gen=dict(item=NODE, ghost={"at": ("int", FIRST)}, each=["item is toks[at]", "at < len(toks)"], update={"at": "at + 1"}, final=["at == " + LAST]),
        loops={0: Loop(ghost="s_", inv=["at == s_at"]), "yf0": Loop(ghost="g_", inv=["implies(g_k != -1, at == g_k)", "implies(g_k == -1, at == s_at)"])}))
    # from a region of the text: the first token that ends after the start, the last one that starts before the end
    SPLIT = "walk(walk(a, take(t, n)), take(t[n:], {k})) is walk(a, take(t, n + {k}))"
    reg.add(Contract("contracts.lemmas:walk_split", params={"a": NODE, "t": "seq[int]", "n": "int"}, requires=["0 <= n <= len(t)"],
        ensures=['forall("int", lambda j: implies(0 <= j and j <= len(t) - n, %s), pat=take(t[n:], j))' % SPLIT.format(k="j")],
        loops=[Loop(inv=["0 <= k <= len(t) - n", 'forall("int", lambda j: implies(0 <= j and j <= k, %s), pat=take(t[n:], j))' % SPLIT.format(k="j")], decreases="len(t) - n - k")]))
    ALL = 'forall("int;int", lambda n, j: implies(0 <= n and n %s and 0 <= j and j <= len(t) - n, {0}), pat=take(t[n:], j))'.format(SPLIT.format(k="j"))
    reg.add(Contract("contracts.lemmas:walk_splits", params={"a": NODE, "t": "seq[int]"}, ensures=[ALL % "<= len(t)"], loops=[Loop(index="i", inv=[ALL % "< i"])]))
    OKA = ["a.intree and a.is_context"]
    reg.add(Contract("contracts.lemmas:walk_covers", params={"a": NODE, "t": "seq[int]", "n": "int"}, free=free, requires=WF_SHAPE + OKA + valid("a", "t") + ["0 <= n <= len(t)"],
        ensures=["walk(a, take(t, n)).tlo <= walk(a, t).tlo and walk(a, t).thi <= walk(a, take(t, n)).thi"],
        loops=[Loop(inv=["n <= k <= len(t)", "walk(a, take(t, k)).tlo <= walk(a, t).tlo and walk(a, t).thi <= walk(a, take(t, k)).thi"], decreases="k", hints=["implies(k > 0, t[k - 1] >= 0)"])]))
    reg.add(Contract("contracts.lemmas:trail_order", params={"a": NODE, "s": "seq[int]", "e": "seq[int]"}, free=free,
        requires=WF_SHAPE + OKA + valid("a", "s") + valid("a", "e") + ["len(s) > 0 and len(e) > 0"],
        ensures=["lcp(s, e) < len(s) and lcp(s, e) < len(e) or len(s) == len(e) and walk(a, s) is walk(a, e)",
                 "implies(lcp(s, e) < len(s) and lcp(s, e) < len(e), ite(s[lcp(s, e)] < e[lcp(s, e)], walk(a, s).thi <= walk(a, e).tlo, walk(a, e).thi <= walk(a, s).tlo))"],
        loops=[Loop(inv=["0 <= k <= len(s)", "k <= len(e)", "k <= lcp(s, e)", "walk(a, take(s, k)) is walk(a, take(e, k))"], decreases="len(s) - k")]))
    reg.add(Contract("contracts.lemmas:trail_inner", params={"a": NODE, "t": "seq[int]"}, free=free, requires=valid("a", "t"),
        ensures=['forall("int", lambda k: implies(0 <= k and k < len(t), t[k] >= 0 and walk(a, take(t, k)).is_context), pat=take(t, k))']))
    HERE = "walk(walk(a, take(t, n)), take(t[n:], k))"
    reg.add(Contract("contracts.lemmas:trail_rest", params={"a": NODE, "t": "seq[int]"}, free=free, requires=valid("a", "t"),
        ensures=['forall("int;int", lambda n, k: implies(0 <= n and 0 <= k and n + k < len(t), t[n + k] == t[n:][k] and {h}.is_context and {h}.intree and 0 <= t[n:][k] and t[n:][k] < len({h}) and '
                 'walk(walk(a, take(t, n)), take(t[n:], k + 1)) is {h}[t[n:][k]]), pat=t[n:][k])'.format(h=HERE),
                 'forall("int", lambda n: implies(0 <= n and n < len(t), walk(walk(a, take(t, n)), t[n:]) is walk(a, t) and walk(walk(a, take(t, n)), take(t[n:], len(t) - n)) is walk(a, t)), pat=t[n:])']))
    IN = lambda k: "toks[{k}].end > start and (end is None or toks[{k}].pos < end)".format(k=k)
    reg.add(Contract("contracts.lemmas:inside", params={"lo": "int", "hi": "int", "start": "int", "end": "opt[int]"}, free=free,
        requires=WF_DOWN + ["0 <= lo and lo < hi and hi <= len(toks)", "toks[lo].end > start", "end is None or toks[hi - 1].pos < end"],
        ensures=["all(%s for k in range(lo, hi))" % IN("k")]))
    RES = lambda xs: ["implies(result is not None, %s)" % x.replace("self.", "result.") for x in xs]
    ORDER = {"a": "tree", "s": "start_trail", "e": "end_trail"}
    reg.add(Contract(R + "from_tree", params={"cls": lambda run: Conc(pt.Range), "tree": NODE, "start": "int", "end": "opt[int]"}, free=free,
        requires=WF_DOWN + ["tree.intree and tree.is_context and start >= 0", "tree.tlo == tree.thi or toks[tree.tlo].pos >= 0"],
        ensures=["implies(result is None, end is not None and end <= start or all(not (%s) for k in range(tree.tlo, tree.thi)))" % IN("k")] + RES(OK) + RES([
                 "tree.tlo <= {f} and {f} < {l} and {l} <= tree.thi".format(f=FIRST, l=LAST),
                 # (and so do all tokens between these two: lemma inside)
                 "toks[%s].end > start" % FIRST, "end is None or toks[%s - 1].pos < end" % LAST,
                 "all(not (%s) for k in range(tree.tlo, %s))" % (IN("k"), FIRST),
                 "all(not (%s) for k in range(%s, tree.thi))" % (IN("k"), LAST)]),
        lemmas=[("trail_order", ORDER, "!n;start_trail is not None and end_trail is not None and len(start_trail) > 0 and len(end_trail) > 0")],
        cuts=RES(["walk(self.ancestor, take(self.{t}, len(self.{t}))) is walk(self.ancestor, self.{t})".format(t=t) for t in ("start_trail", "end_trail")] + [
              "tree.tlo <= {f} and {l} <= tree.thi and {f} < len(toks) and {l} > 0".format(f=FIRST, l=LAST)]),
        kinds={"[]": "int"}, loops=[Loop(index="m", lemmas=[("trail_order", ORDER), ("trail_inner", {"a": "tree", "t": "start_trail"}), ("trail_inner", {"a": "tree", "t": "end_trail"}), ("trail_rest", {"a": "tree", "t": "start_trail"}), ("trail_rest", {"a": "tree", "t": "end_trail"})],
            inv=["context is walk(tree, take(start_trail, m))", "context is walk(tree, take(end_trail, m))", "m < len(start_trail) and m < len(end_trail)",
                 "context.is_context and context.intree", "m <= lcp(start_trail, end_trail)"])]))
    # the borders
    reg.add(Contract(R + "pos", params={"self": RANGE}, returns="int", free=free, requires=WF_SHAPE + OK, ensures=["result == toks[%s].pos" % FIRST],
        loops=[Loop(index="m", inv=["n is walk({a}, take({e}, m))".format(a=a, e=st)])]))
    reg.add(Contract(R + "end", params={"self": RANGE}, returns="int", free=free, requires=WF_SHAPE + OK, ensures=["result == toks[%s - 1].end" % LAST],
        loops=[Loop(index="m", inv=["n is walk({a}, take({e}, m))".format(a=a, e=et)])]))
    return dict(sch, truth={"node": "not self.is_context or len(self) > 0"})
