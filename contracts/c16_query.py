"""Contracts on the steps of a query (property C16).

A query is seen as the sequence src of the nodes that it iterates over (the same each
time).  What a step yields is given by a specification function: f(src, i) is what the
first i nodes of the source give, so the result of the step is f(src, len(src)).
"""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef, ContractFn
import parce.query as pq
from .tree_common import *
from . import c05_find, c06_nav

Q = "parce.query:Query."
QUERY = {"cls": pq.Query, "fields": {"src": "seq[obj:node]", "_inv": "bool"}}
S = "seq[obj:node]"
SRC = "all(self.src[i].intree and self.src[i].is_token == (not self.src[i].is_context) for i in range(len(self.src)))"

def load(reg):
    sch = c06_nav.load(reg)
    reg.elsewhere("c06_nav")
    sch = dict(sch, fields=dict(FIELDS, text="str", action="obj:action", lexicon="obj:lexicon"), truth={"node": "self.is_token or len(self) > 0"}, iter_field={"Query": "src"},
               opaque_in=("what", "action"), set_of="int", methods=dict(sch["methods"], **{"node." + x: c06_nav.N + x for x in ("next_token", "previous_token", "left_sibling", "right_sibling", "left_siblings", "right_siblings")}))
    sch.pop("iters")
    free = {"toks": TOKS}

    def step(name, piece, args={}, key=None, wf=(), loops={}, requires=(), toks=False, first=0):
        """piece: what one node n of the source gives (a sequence); args: parameters of the step"""
        base = (key or name).replace(" ", "_").replace("(", "").replace(")", "").replace("__", "")
        extra = {a: k for a, k in args.items() if not k.startswith("=")}
        if toks: extra["toks"] = TOKS
        names = list(extra)
        call = lambda f, *a: "%s(%s)" % (f, ", ".join(list(a) + ["self._inv" if x == "inv" and "self" in a[0] else x for x in names]))
        p, q = "p_" + base, "q_" + base
        reg.specfuns[p] = SpecDef(p, [NODE] + list(extra.values()), S, ["n"] + names, piece, reg)
        reg.specfuns[q] = SpecDef(q, [S, "int"] + list(extra.values()), S, ["s", "i"] + names, "ite(i <= 0, take(s, 0), cat(%s, %s))" % (call(q, "s", "i - 1"), call(p, "s[i - 1]")), reg)
        L = {k: Loop(index="i_", inv=["out == " + call(q, "self.src", "i_")]) for k in (first if isinstance(first, tuple) else (first,))}
        for k, (ghost, inv) in loops.items():
            L[k] = Loop(ghost=ghost, inv=[x.replace("DONE", call(q, "self.src", "i_")).replace("NODE", "self.src[i_]") for x in inv])
        reg.add(Contract(Q + name, name=Q + (key or name), params=dict({"self": QUERY}, **{a: k for a, k in args.items() if a != "inv"}), free=free if toks or wf else {},
            requires=list(wf) + [SRC] + list(requires), out_kind=NODE, loops=L, ensures=["result == " + call(q, "self.src", "len(self.src)")]))

    one = lambda c: "ite(%s, seq(n), seq())" % c
    ok = ["all(self.src[i].tlo < self.src[i].thi for i in range(len(self.src)))"]
    # navigators
    T = dict(wf=WF + [c06_nav.W_TOP], toks=True, requires=ok)
    step("children", "ite(n.is_context, items(n), seq())")
    step("__getitem__", "ite(n.is_context and -len(n) <= key and key < len(n), seq(items(n)[ite(key < 0, key + len(n), key)]), seq())", args={"key": "int"}, key="__getitem__ (index)", first=1)
    step("__getitem__", "ite(n.is_context, items(n)[key.start:key.stop], seq())", args={"key": "slice"}, key="__getitem__ (slice)")
    step("parent", "ite(n.parent is not None, seq(the(n.parent)), seq())", wf=[W_PARENT])
    step("first", "ite(n.is_context and len(n) > 0, seq(items(n)[0]), seq())")
    step("last", "ite(n.is_context and len(n) > 0, seq(items(n)[len(n) - 1]), seq())")
    step("alltokens", "toks[n.tlo:n.thi]", wf=WF, toks=True, loops={"yf0": ("g_", ["out == cat(DONE, toks[NODE.tlo:g_k])"])})
    step("next", "ite(n.thi < top(n, None).thi, seq(toks[n.thi]), seq())", **T)
    step("previous", "ite(n.tlo > top(n, None).tlo, seq(toks[n.tlo - 1]), seq())", **T)
    step("forward", "toks[n.thi:top(n, None).thi]", loops={"yf0": ("g_", ["out == cat(DONE, toks[NODE.thi:g_k])"])}, **T)
    step("backward", "rev(toks[top(n, None).tlo:n.tlo])", loops={"yf0": ("g_", ["out == cat(DONE, rev(toks[g_k:NODE.tlo]))"])}, **T)
    reg.specfuns["up"] = SpecDef("up", ["obj:node", "int"], "obj:node", ["n", "k"], "ite(k <= 0, n, up(n, k - 1).parent)", reg)
    reg.specfuns["ups"] = SpecDef("ups", ["obj:node", "int"], S, ["n", "k"], "ite(k <= 0, seq(), cat(ups(n, k - 1), seq(up(n, k))))", reg)
    step("ancestors", "ups(n, n.depth)", wf=WF, loops={"yf0": ("g_", ["out == cat(DONE, ups(NODE, g_n))", "g_cur is up(NODE, g_n)"])})
    step("right", "ite(n.parent is not None and n.idx + 1 < len(n.parent), seq(items(n.parent)[n.idx + 1]), seq())", wf=WF)
    step("left", "ite(n.parent is not None and n.idx > 0, seq(items(n.parent)[n.idx - 1]), seq())", wf=WF)
    step("right_siblings", "ite(n.parent is not None, items(n.parent)[n.idx + 1:len(n.parent)], seq())", wf=WF)
    step("left_siblings", "ite(n.parent is not None, rev(items(n.parent)[0:n.idx]), seq())", wf=WF)
    # selectors
    step("tokens", one("n.is_token"))
    step("contexts", one("n.is_context"))
    inv = {"inv": "bool"}
    step("len", one("n.is_context and inv != (len(n) == min_length)"), args=dict(inv, min_length="int", max_length="=None"))
    step("len", one("n.is_context and inv != (min_length <= len(n) and len(n) <= max_length)"), args=dict(inv, min_length="int", max_length="int"), key="len (range)", first=1)
    step("in_range", one("ite(inv, n.end <= start or n.pos >= end, n.pos >= start and n.end <= end)"), args=dict(inv, start="int", end="int"), first=(0, 1))
    step("in_range", one("ite(inv, n.end <= start or n.pos >= 9223372036854775807, n.pos >= start and n.end <= 9223372036854775807)"), args=dict(inv, start="int", end="=None"), key="in_range (no end)", first=(0, 1))
    step("__call__", one("inv != ite(n.is_token, n.text in what, n.lexicon in what)"), args=dict(inv, what="obj:what"))
    step("startingwith", one("n.is_token and inv != n.text.startswith(text)"), args=dict(inv, text="str"))
    step("endingwith", one("n.is_token and inv != n.text.endswith(text)"), args=dict(inv, text="str"))
    step("containing", one("n.is_token and inv != (text in n.text)"), args=dict(inv, text="str"))
    step("action", one("n.is_token and inv != (n.action in actions)"), args=dict(inv, actions="obj:what"))
    step("in_action", one("n.is_token and inv != any(n.action in a for a in actions)"), args=dict(inv, actions="seq[obj:action]"))
    # all descendants, depth first: desc(n, i) is what the first i children give
    SEQI = "seq[int]"
    if "walk" not in reg.specfuns: reg.specfuns["walk"] = SpecDef("walk", [NODE, SEQI], NODE, ["n", "t"], "ite(len(t) == 0, n, walk(n, take(t, len(t) - 1))[t[len(t) - 1]])", reg)
    reg.specfuns["onpath"] = SpecDef("onpath", [NODE, SEQI], "bool", ["a", "t"],
        "len(t) == 0 or onpath(a, take(t, len(t) - 1)) and walk(a, take(t, len(t) - 1)).intree and walk(a, take(t, len(t) - 1)).is_context and 0 <= t[len(t) - 1] and t[len(t) - 1] < len(walk(a, take(t, len(t) - 1)))", reg)
    for f, leaf in (("all", "seq(n[i - 1])"), ("allcontexts", "seq()")):
        d, pre = "desc_" + f, "pre_" + f
        reg.specfuns[d] = SpecDef(d, [NODE, "int"], S, ["n", "i"], "ite(i <= 0, seq(), cat({d}(n, i - 1), ite(n[i - 1].is_context, cat(seq(n[i - 1]), {d}(n[i - 1], len(n[i - 1]))), {leaf})))".format(d=d, leaf=leaf), reg)
        reg.specfuns[pre] = SpecDef(pre, [NODE, SEQI], S, ["a", "t"],
            "ite(len(t) == 0, seq(), cat(cat({pre}(a, take(t, len(t) - 1)), {d}(walk(a, take(t, len(t) - 1)), t[len(t) - 1])), seq(walk(a, t))))".format(d=d, pre=pre), reg)
        st = ["onpath(old(n), stack)", "n is walk(old(n), stack)", "n.intree and n.is_context"]
        inv = st + ["out == cat({pre}(old(n), stack), {d}(n, j))".format(pre=pre, d=d), "0 <= j and j <= len(n)"]
        reg.add(Contract(Q + f + "/innergen", params={"n": NODE}, free=free, requires=[W_KIDS, "n.intree and n.is_context"], out_kind=NODE,
            loops={0: Loop(inv=inv), 1: Loop(index="i_", snap={"n0": "n", "j0": "j", "s0": "stack"}, inv=["n is n0 and j == j0 and stack == s0"] + st + ["out == cat({pre}(old(n), stack), {d}(n, j + i_))".format(pre=pre, d=d), "0 <= j and j <= len(n)"])},
            kinds={"stack[]": "int"}, fuel=1,
            ensures=["result == %s(n, len(n))" % d]))
    step("all", "ite(n.is_context, cat(seq(n), desc_all(n, len(n))), seq(n))", wf=WF)
    step("allcontexts", "ite(n.is_context, cat(seq(n), desc_allcontexts(n, len(n))), seq())", wf=WF)
    # sets
    src = [SRC]
    reg.specfuns["member"] = SpecDef("member", [S, "int", NODE], "bool", ["s", "i", "n"], "any(s[j] is n for j in range(i))", reg)
    reg.specfuns["memb"] = SpecDef("memb", [S, "int", NODE], "bool", ["s", "i", "n"], "i > 0 and (s[i - 1] is n or memb(s, i - 1, n))", reg)
    reg.specfuns["q_uniq"] = SpecDef("q_uniq", [S, "int"], S, ["s", "i"], "ite(i <= 0, seq(), cat(q_uniq(s, i - 1), ite(memb(s, i - 1, s[i - 1]), seq(), seq(s[i - 1]))))", reg)
    reg.add(Contract(Q + "uniq", params={"self": QUERY}, requires=src, out_kind=NODE,
        loops=[Loop(index="i_", inv=["out == q_uniq(self.src, i_)", "forall(lambda n: (id(n) in seen) == memb(self.src, i_, n))"])],
        ensures=["result == q_uniq(self.src, len(self.src))"]))
    reg.specfuns["anyanc"] = SpecDef("anyanc", [S, NODE], "bool", ["s", "n"], "n.parent is not None and (member(s, len(s), n.parent) or anyanc(s, n.parent))", reg)
    reg.specfuns["q_rd"] = SpecDef("q_rd", [S, "int"], S, ["s", "i"], "ite(i <= 0, seq(), cat(q_rd(s, i - 1), ite(anyanc(s, s[i - 1]), seq(), seq(s[i - 1]))))", reg)
    reg.add(Contract(Q + "remove_descendants", params={"self": QUERY}, requires=src + WF, free=free, out_kind=NODE,
        loops={0: Loop(index="i_", inv=["out == q_rd(self.src, i_)"]),
               "comp0": Loop(ghost="g_", inv=["anyanc(self.src, self.src[i_]) == anyanc(self.src, g_cur)"])},
        cuts=[], ensures=["result == q_rd(self.src, len(self.src))"]))
    # end points
    reg.add(Contract(Q + "__bool__", params={"self": QUERY}, returns="bool", ensures=["result == (len(self.src) > 0)"], loops=[Loop(index="i", inv=["i == 0"])]))
    for f, i in (("pick", "0"), ("pick_last", "len(self.src) - 1")):
        reg.add(Contract(Q + f, params={"self": QUERY, "default": "obj:node"}, returns="obj:node", ensures=["result is ite(len(self.src) > 0, self.src[%s], old(default))" % i],
            loops=[Loop(index="i", inv=["i == 0"] if f == "pick" else ["default is ite(i > 0, self.src[i - 1], old(default))"])]))
    reg.add(Contract(Q + "count", params={"self": QUERY}, returns="int", ensures=["result == len(self.src)"]))
    reg.add(Contract(Q + "is_not", params={"self": {"cls": pq.Query, "fields": {"_gen": "obj:gen", "_inv": "bool"}}}, ensures=["result._gen is self._gen", "result._inv == (not self._inv)"]))
    # the function of the caller is any function of the node
    reg.specfuns["pred"] = SpecDef("pred", [NODE], "bool", ["n"], None, reg)
    reg.specfuns["func"] = SpecDef("func", [NODE], S, ["n"], None, reg)
    reg.add(Contract("spec:pred", params={"n": NODE}, returns="bool", ensures=["result == pred(n)"], trusted="any function of a node"))
    reg.add(Contract("spec:func", params={"n": NODE}, returns=S, ensures=["result == func(n)"], trusted="any function of a node"))
    for f, piece in (("filter", "ite(pred(s[i - 1]), seq(s[i - 1]), seq())"), ("map", "func(s[i - 1])")):
        q = "q_" + f
        reg.specfuns[q] = SpecDef(q, [S, "int"], S, ["s", "i"], "ite(i <= 0, seq(), cat(%s(s, i - 1), %s))" % (q, piece), reg)
        reg.add(Contract(Q + f, params={"self": QUERY, "predicate" if f == "filter" else "function": (lambda f: lambda run: ContractFn("spec:pred" if f == "filter" else "spec:func"))(f)},
            out_kind=NODE, loops={0: Loop(index="i_", inv=["out == %s(self.src, i_)" % q])}, ensures=["result == %s(self.src, len(self.src))" % q]))
    return sch
