"""Contracts on the lookup of languages (property C19).

A registry has the keys in order, and the entry of every key; ix tells where a key is.
"""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef
import parce.registry as pr

K = "parce.registry:Registry."
S, OS, R = "str", "opt[str]", "obj:registry"
WS = "seq[tuple[str,int]]"
FIELDS = {"keys_": "seq[str]", "ent": "map[str,obj:entry]", "fallback": "opt[obj:registry]", "rank": "int", "name": S, "aliases": "seq[str]", "filenames": WS, "mimetypes": WS, "guesses": WS}

def load(reg):
    def spec(name, kinds, ret, params, body=None):
        reg.specfuns[name] = SpecDef(name, kinds, ret, params, body, reg)
    spec("ix", ["seq[str]", S], "int", ["s", "x"])
    spec("lower", [S], S, ["s"]); spec("parts", [S], "seq[str]", ["s"])
    spec("fnm", [S, S], "bool", ["f", "p"]); spec("hits", [S, S], "bool", ["rx", "t"])
    doc = "standard library"
    reg.add(Contract("spec:lower", params={"self": S}, returns=S, ensures=["result == lower(self)"], trusted=doc))
    reg.add(Contract("spec:rsplit", params={"self": S, "sep": S, "n": "int"}, returns="seq[str]", ensures=["result == parts(self)"], trusted=doc))
    reg.add(Contract("spec:reg.items", params={"self": R}, returns="seq[tuple[str,obj:entry]]",
        ensures=["len(result) == len(self.keys_)", 'forall("int", lambda i: implies(0 <= i and i < len(result), result[i][0] == self.keys_[i] and result[i][1] is self.ent[self.keys_[i]]), pat=result[i])'], trusted="dict.items: keys and values in order"))
    reg.add(Contract("spec:reg.keys", params={"self": R}, returns="seq[str]", ensures=["result == self.keys_"], trusted="the keys of a dict, in order"))
    reg.add(Contract("spec:reg.get", params={"self": R, "key": S}, returns="obj:entry", raises={"KeyError": "not has(self, key)"}, ensures=["result is self.ent[key]"], trusted="dict access"))
    reg.add(Contract("fnmatch:fnmatch", params={"name": S, "pat": S}, returns="bool", ensures=["result == fnm(name, pat)"], trusted=doc))
    reg.add(Contract("re:search", params={"pattern": S, "string": S}, returns="opt[obj:match]", ensures=["(result is not None) == hits(pattern, string)"], trusted=doc))
    spec("has", [R, S], "bool", ["r", "s"], "0 <= ix(r.keys_, s) and ix(r.keys_, s) < len(r.keys_) and r.keys_[ix(r.keys_, s)] == s")
    KEYS = 'forall("int", lambda i: implies(0 <= i and i < len(self.keys_), ix(self.keys_, self.keys_[i]) == i), pat=self.keys_[i])'
    DOTS = 'forall("int", lambda i: implies(0 <= i and i < len(self.keys_), len(parts(self.keys_[i])) == 3 and len(self.keys_[i]) > 0), pat=self.keys_[i])'
    # by name: the first that has the name; else the first with the alias; else case is ignored; else the name of the class
    E = "self.ent[self.keys_[{i}]]"
    m = ["{e}.name == name", "any({e}.aliases[k] == name for k in range(len({e}.aliases)))",
         "(lower(name) == lower({e}.name) or any(lower({e}.aliases[k]) == lower(name) for k in range(len({e}.aliases))))",
         "lower(name) == lower(parts(self.keys_[{i}])[1])"]
    m = [x.replace("{e}", E) for x in m]
    for i, x in enumerate(m):
        spec("m%d" % i, [R, S, "int"], "bool", ["self", "name", "i"], x.format(i="i"))
    n = "len(self.keys_)"
    # the first that matches in one of these ways, among the first n
    for i in (1, 2, 3):
        spec("first%d" % i, [R, S, "int"], OS, ["self", "name", "n"], "ite(n <= 0, None, ite(first{0}(self, name, n - 1) is not None, first{0}(self, name, n - 1), ite(m{0}(self, name, n - 1), self.keys_[n - 1], None)))".format(i))
    no = "all(self.ent[self.keys_[j]].name != name for j in range(%s))"
    f = lambda i, n: "first%d(self, name, %s)" % (i, n)
    ens = ["implies(not %s, result is not None and any(self.ent[self.keys_[k]].name == name and the(result) == self.keys_[k] and %s for k in range(%s)))" % (no % n, no % "k", n),
           "implies(%s, result == ite({0} is not None, {0}, ite({1} is not None, {1}, {2})))".format(*[f(i, n) for i in (1, 2, 3)]) % (no % n)]
    lists = ("aliases", "nocases", "classes")
    inv = [no % "n"]
    for i, l in enumerate(lists, 1):
        inv += ["(len(%s) == 0) == (%s is None)" % (l, f(i, "n")), "implies(len({0}) > 0, {1} is not None and the({1}) == {0}[0])".format(l, f(i, "n"))]
    reg.add(Contract(K + "qualname", params={"self": R, "name": S}, returns=OS, requires=[KEYS, DOTS], ensures=ens , kinds={x + "[]": S for x in lists},
        loops=[Loop(index="n", inv=inv), Loop(index="q", inv=["q == 0"])]))
    # by filename, mimetype and contents: the weights
    spec("bestf", [WS, S, "int"], "opt[int]", ["l", "f", "n"], "ite(n <= 0, None, ite(fnm(f, l[n - 1][0]) and (bestf(l, f, n - 1) is None or l[n - 1][1] > the(bestf(l, f, n - 1))), l[n - 1][1], bestf(l, f, n - 1)))")
    spec("bestm", [WS, S, "int"], "opt[int]", ["l", "f", "n"], "ite(n <= 0, None, ite(l[n - 1][0] == f and (bestm(l, f, n - 1) is None or l[n - 1][1] > the(bestm(l, f, n - 1))), l[n - 1][1], bestm(l, f, n - 1)))")
    spec("guess", [WS, S, "int"], "int", ["l", "f", "n"], "ite(n <= 0, 0, guess(l, f, n - 1) + ite(hits(l[n - 1][0], f), l[n - 1][1], 0))")
    given = "({0} is not None and len({0}) > 0)"
    B = "ite({g} and {b}({e}, the({x}), len({e})) is not None, the({b}({e}, the({x}), len({e}))), 0)"
    fw = lambda f, fld, x: B.format(g=given.format(x), b=f, e="r.ent[s]." + fld, x=x)
    spec("wf", [R, S, OS], "int", ["r", "s", "filename"], fw("bestf", "filenames", "filename"))
    spec("wm", [R, S, OS], "int", ["r", "s", "mimetype"], fw("bestm", "mimetypes", "mimetype"))
    spec("cut", [OS], S, ["c"], "ite(c is None, '', the(c)[0:ite(len(the(c)) < 5000, len(the(c)), 5000)])")
    spec("wc", [R, S, OS], "int", ["r", "s", "contents"], "ite(%s, guess(r.ent[s].guesses, cut(contents), len(r.ent[s].guesses)), 0)" % given.format("contents"))
    W1, W2, W3 = "wf(self, s, filename)", "wm(self, s, mimetype)", "wc(self, s, old(contents))"
    q = lambda body, w="weights": 'forall("str", lambda s: %s, pat=%s[s])' % (body, w)
    def W(dom, val):
        return ['forall("str", lambda s: (s in weights) == (%s), pat=(s in weights))' % dom, q("implies(s in weights, weights[s] == %s)" % val)]
    HAS = "(0 <= ix(self.keys_, {0}) and ix(self.keys_, {0}) < len(self.keys_) and self.keys_[ix(self.keys_, {0})] == {0})"
    has, wf, wm = HAS.format("s"), "wf(self, {0}, filename)", "wm(self, {0}, mimetype)"
    b_in = lambda s: "(%s and (%s != 0 or %s != 0))" % (HAS.format(s), wf.format(s), wm.format(s))
    b_val = lambda s: "(%s + %s)" % (wf.format(s), wm.format(s))
    loops = {0: Loop(index="n", inv=W(has + " and ix(self.keys_, s) < n and %s != 0" % W1, W1), kinds={"acc": "opt[int]"}),
             1: Loop(index="n", inv=W(has + " and ({0} != 0 or ix(self.keys_, s) < n and {1} != 0)".format(W1, W2), "{0} + ite(ix(self.keys_, s) < n, {1}, 0)".format(W1, W2))),
             "comp0": Loop(index="k", kinds={"acc": "opt[int]"}, inv=["acc == bestf(self.ent[name].filenames, the(filename), k)"]),
             "comp1": Loop(index="k", kinds={"acc": "opt[int]"}, inv=["acc == bestm(self.ent[name].mimetypes, the(mimetype), k)"])}
    inres = "(0 <= ix(result, s) and ix(result, s) < len(result) and result[ix(result, s)] == s)"
    # without contents the weights of the filename and the mimetype decide
    reg.add(Contract(K + "suggest", params={"self": R, "filename": OS, "mimetype": OS, "contents": "=None"}, returns="seq[str]", requires=[KEYS],
        ensures=['forall("int", lambda i: implies(0 <= i and i < len(result), ix(result, result[i]) == i and %s), pat=result[i])' % b_in("result[i]"),
                 'forall("str", lambda s: implies(%s, %s), pat=%s)' % (b_in("s"), inres, wf.format("s")),
                 "all(all(%s >= %s for j in range(i + 1, len(result))) for i in range(len(result)))" % (b_val("result[i]"), b_val("result[j]"))],
        loops=loops, schema={"fields": FIELDS, "methods": METHODS, "defaultdict": "map[str,int]", "classes": {}, "always_true": ("match", "entry", "registry")}))
    # with the contents alone, their first 5000 characters decide
    wc = "guess(self.ent[{0}].guesses, cut(old(contents)), len(self.ent[{0}].guesses))"
    spec("sum_", [R, S, OS], "int", ["self", "s", "contents"], wc.format("s").replace("old(contents)", "contents"))
    wc = "sum_(self, {0}, old(contents))"
    w0 = wc.format("s")
    c_in = lambda s: "(%s and %s != 0)" % (HAS.format(s), wc.format(s))
    reg.add(Contract(K + "suggest", name=K + "suggest#contents", params={"self": R, "filename": "=None", "mimetype": "=None", "contents": OS}, returns="seq[str]", requires=[KEYS],
        ensures=["implies(not %s, len(result) == 0)" % given.format("old(contents)"),
                 'implies(%s, forall("int", lambda i: implies(0 <= i and i < len(result), ix(result, result[i]) == i and %s), pat=result[i]))' % (given.format("old(contents)"), c_in("result[i]")),
                 'implies(%s, forall("str", lambda s: implies(%s, %s), pat=%s))' % (given.format("old(contents)"), c_in("s"), inres, w0),
                 "all(all(%s >= %s for j in range(i + 1, len(result))) for i in range(len(result)))" % (wc.format("result[i]"), wc.format("result[j]"))],
        loops={2: Loop(index="n", inv=["contents == cut(old(contents))"] + W(has + " and ix(self.keys_, s) < n and %s != 0" % w0, w0)),
               "comp2": Loop(index="k", kinds={"acc": "int"}, inv=["acc == guess(self.ent[name].guesses, contents, k)"])},
        schema={"fields": FIELDS, "methods": METHODS, "defaultdict": "map[str,int]", "classes": {}, "always_true": ("match", "entry", "registry")}))
    # where to look: this registry, then its fallback
    spec("qn", [R, S], OS, ["r", "name"]); spec("sg", [R, OS, OS, OS], "seq[str]", ["r", "filename", "mimetype", "contents"]); spec("lex", [S], "obj:lexicon", ["q"])
    reg.add(Contract("spec:qualname", params={"self": R, "name": S}, returns=OS, ensures=["result == qn(self, name)"], trusted="Registry.qualname depends on the registry and the name only; it has its own contract"))
    reg.add(Contract("spec:suggest", params={"self": R, "filename": OS, "mimetype": OS, "contents": OS}, returns="seq[str]", ensures=["result == sg(self, filename, mimetype, contents)"], trusted="Registry.suggest depends on the registry and its arguments only; it has its own contracts"))
    reg.add(Contract("spec:lexicon", params={"self": R, "qualname": S}, returns="obj:lexicon", ensures=["result is lex(qualname)"], trusted="importing a lexicon by its name"))
    spec("starts", ["seq[obj:lexicon]", "obj:lexicon"], "bool", ["s", "x"], "len(s) > 0 and s[0] is x")
    SG = "sg({0}, filename, mimetype, contents)"
    sch = {"fields": FIELDS, "methods": dict(METHODS, **{"registry.qualname": "spec:qualname", "registry.suggest": "spec:suggest", "registry.lexicon": "spec:lexicon"}), "classes": {}, "always_true": ("registry", "lexicon")}
    A = {"filename": OS, "mimetype": OS, "contents": OS}
    spec("byname", [R, S], "opt[obj:lexicon]", ["r", "name"], "ite(qn(r, name) is not None and len(qn(r, name)) > 0, lex(the(qn(r, name))), ite(r.fallback is None, None, byname(the(r.fallback), name)))")
    spec("byrest", [R, OS, OS, OS], "opt[obj:lexicon]", ["r", "filename", "mimetype", "contents"], "ite(len({0}) > 0, lex({0}[0]), ite(r.fallback is None, None, byrest(the(r.fallback), filename, mimetype, contents)))".format(SG.format("r")))
    named = "(name is not None and len(name) > 0)"
    ans = "ite(%s, byname({0}, the(name)), byrest({0}, filename, mimetype, contents))" % named
    reg.add(Contract(K + "find", params=dict(A, self="opt[obj:registry]", name=OS), returns="opt[obj:lexicon]", requires=["self is not None"], 
        ensures=["result == " + ans.format("the(old(self))")], schema=sch,
        loops={0: Loop(inv=["%s == ite(self is None, None, %s)" % (ans.format("the(old(self))"), ans.format("the(self)"))]), 1: Loop(index="q", inv=["q == 0"]), "lexicons#1#0": Loop(index="i_", inv=["len(out) == i_", "implies(i_ > 0, starts(out, lex(%s[0])))" % SG.format("reg")])}, kinds={"out": "obj:lexicon"}))
    return {"fields": FIELDS, "methods": METHODS, "classes": {}}

METHODS = {"str.lower": "spec:lower", "str.rsplit": "spec:rsplit", "registry.items": "spec:reg.items", "registry.__iter__": "spec:reg.keys", "registry.keys": "spec:reg.keys", "registry.__getitem__": "spec:reg.get"}
