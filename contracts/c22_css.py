"""Contracts on style sheets (property C22).

The values of a declaration are a sequence of strings (a Value that is not the string '!important' is never equal to it); the
properties of a rule are a dictionary with its keys in order.
"""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef
import parce.css as pc

S, V, R, P, E = "str", "seq[str]", "obj:rule", "obj:props", "obj:element"
IT = "seq[tuple[str,seq[str]]]"
FIELDS = {"rules": "seq[obj:rule]", "properties": P, "its": IT, "prelude": "obj:prelude", "keyword": "str"}
METHODS = {"props.items": "spec:items", "element.match": "spec:match"}

def load(reg):
    def spec(name, kinds, ret, params, body=None):
        reg.specfuns[name] = SpecDef(name, kinds, ret, params, body, reg)
    spec("kx", [P, S], "int", ["p", "k"])
    reg.add(Contract("spec:items", params={"self": P}, returns=IT, ensures=["result == self.its", 'forall("int", lambda i: implies(0 <= i and i < len(result), kx(self, result[i][0]) == i), pat=result[i])'], trusted="dict.items: every key once"))
    has = "(0 <= kx(p, k) and kx(p, k) < len(p.its) and p.its[kx(p, k)][0] == k)"
    spec("imp", [V], "bool", ["v"], "v[-1:] == seq('!important')")
    spec("bare", [V], V, ["v"], "ite(imp(v), v[:-1], v)")
    spec("dec", [P, S], "opt[seq[str]]", ["p", "k"], "ite(%s, p.its[kx(p, k)][1], None)" % has)
    D = "dec(r[n - 1].properties, k)"
    # the first important declaration and the first declaration of k, in the first n rules
    spec("firsti", ["seq[obj:rule]", S, "int"], "opt[seq[str]]", ["r", "k", "n"],
        "ite(n <= 0, None, ite(firsti(r, k, n - 1) is not None, firsti(r, k, n - 1), ite({0} is not None and imp(the({0})), bare(the({0})), None)))".format(D))
    spec("firstd", ["seq[obj:rule]", S, "int"], "opt[seq[str]]", ["r", "k", "n"],
        "ite(n <= 0, None, ite(firstd(r, k, n - 1) is not None, firstd(r, k, n - 1), ite({0} is not None, bare(the({0})), None)))".format(D))
    def state(n, res="result"):
        return ['forall("str", lambda k: (k in %s) == (firstd(self.rules, k, %s) is not None), pat=(k in %s))' % (res, n, res),
                'forall("str", lambda k: implies(k in {0}, {0}[k] == ite(firsti(self.rules, k, {1}) is not None, the(firsti(self.rules, k, {1})), the(firstd(self.rules, k, {1})))), pat={0}[k])'.format(res, n)]
    def imps(n):
        return ['forall("str", lambda k: (k in important_properties) == (firsti(self.rules, k, %s) is not None), pat=(k in important_properties))' % n, 'forall("str", lambda k: implies(k in important_properties, k in result), pat=(k in result))']
    N = "ite(kx(rule.properties, k) < m and 0 <= kx(rule.properties, k) and kx(rule.properties, k) < len(rule.properties.its) and rule.properties.its[kx(rule.properties, k)][0] == k, n + 1, n)"
    sch = {"fields": FIELDS, "methods": METHODS, "classes": {}, "newdict": "map[str,seq[str]]", "set_of": "str", "always_true": ("rule",)}
    reg.add(Contract("parce.css:Style.properties", params={"self": "obj:style"}, returns="map[str,seq[str]]", ensures=state("len(self.rules)"), schema=sch,
        loops=[Loop(index="n", inv=state("n") + imps("n")), Loop(index="m", inv=state(N) + imps(N))]))
    # the rules that match
    spec("matches", [E, "obj:prelude"], "bool", ["e", "p"])
    reg.add(Contract("spec:match", params={"self": E, "prelude": "obj:prelude"}, returns="bool", ensures=["result == matches(self, prelude)"], trusted="AbstractElement.match"))
    spec("sel", ["seq[obj:rule]", E, "int"], "seq[obj:rule]", ["r", "e", "n"], "ite(n <= 0, seq(), cat(sel(r, e, n - 1), ite(matches(e, r[n - 1].prelude), seq(r[n - 1]), seq())))")
    reg.add(Contract("parce.css:Style.select_element", params={"self": "obj:style", "element": E}, out_kind=R, ensures=["result == sel(self.rules, element, len(self.rules))"],
        loops=[Loop(index="n", inv=["out == sel(self.rules, element, n)"])]))
    # the declarations in one rule: an important one stays, else the last one counts
    OB = "opt[tuple[str,seq[str]]]"
    ITS = "seq[tuple[str,%s]]" % OB
    reg.add(Contract("spec:decls", params={"self": "obj:items"}, returns=ITS, ensures=["result == self.decls"], trusted="Items.items: the names and objects"))
    X = "l[n - 1][1]"
    spec("lastd", [ITS, S, "int"], "opt[seq[str]]", ["l", "k", "n"],
        "ite(n <= 0, None, ite({0} is not None and l[n - 1][0] == 'declaration' and the({0})[0] == k and (imp(the({0})[1]) or lastd(l, k, n - 1) is None or not imp(the(lastd(l, k, n - 1)))), the({0})[1], lastd(l, k, n - 1)))".format(X))
    def dstate(n, d):
        return ['forall("str", lambda k: (k in %s) == (lastd(items.decls, k, %s) is not None), pat=(k in %s))' % (d, n, d),
                'forall("str", lambda k: implies(k in {0}, {0}[k] == the(lastd(items.decls, k, {1}))), pat={0}[k])'.format(d, n)]
    reg.add(Contract("parce.css:CssTransform.inline", params={"self": "obj:transform", "items": "obj:items"}, returns="map[str,seq[str]]", ensures=dstate("len(items.decls)", "result"),
        schema=dict(sch, fields={"decls": ITS}, methods={"items.items": "spec:decls"}), loops=[Loop(index="n", inv=dstate("n", "d"))]))
    # conditions
    spec("pred", ["obj:predicate", R], "bool", ["p", "r"])
    spec("keepc", ["seq[obj:rule]", S, "obj:predicate", "int"], "seq[obj:rule]", ["r", "k", "p", "n"], "ite(n <= 0, seq(), cat(keepc(r, k, p, n - 1), ite(not (r[n - 1].iscond and r[n - 1].keyword == k) or pred(p, r[n - 1]), seq(r[n - 1]), seq())))")
    reg.add(Contract("spec:pred", params={"self": "obj:predicate", "r": R}, returns="bool", ensures=["result == pred(self, r)"], trusted="the predicate may be any function"))
    reg.add(Contract("parce.css:StyleSheet.filter_conditions", params={"self": "obj:sheet", "keyword": S, "predicate": "obj:predicate"}, out_kind=R, ensures=["result == keepc(self.rules, keyword, predicate, len(self.rules))"],
        schema=dict(sch, fields=dict(FIELDS, iscond="bool"), methods={"predicate.__call__": "spec:pred"}, isinstance={"rule:Condition": "self.iscond"}),
        loops=[Loop(index="n", inv=["out == keepc(self.rules, keyword, predicate, n)"])]))
    # selectors: a list of selectors with operators in between.  An operator is a string; a selector is never equal to one.
    L = "seq[str]"
    EF = {"parent_": "opt[obj:element]", "prev": "seq[obj:element]", "nxt": "seq[obj:element]", "name_": S, "count": "int"}
    spec("one", [E, S], "bool", ["e", "s"])
    reg.add(Contract("spec:one", params={"self": E, "selector": S}, returns="bool", ensures=["result == one(self, selector)"], trusted="AbstractElement.match_selector depends on the element and the selector"))
    reg.add(Contract("spec:get_parent", params={"self": E}, returns="opt[obj:element]", ensures=["result == self.parent_"], trusted="get_parent is abstract"))
    reg.add(Contract("spec:prev", params={"self": E}, returns="seq[obj:element]", ensures=["result == self.prev"], trusted="previous_siblings is abstract"))
    reg.add(Contract("spec:next", params={"self": E}, returns="seq[obj:element]", ensures=["result == self.nxt"], trusted="next_siblings is abstract"))
    reg.add(Contract("spec:name", params={"self": E}, returns=S, ensures=["result == self.name_"], trusted="get_name is abstract"))
    reg.add(Contract("spec:count", params={"self": E}, returns="int", ensures=["result == self.count"], trusted="get_child_count is abstract"))
    rest = "l[0:len(l) - 2]"
    spec("msel", [E, L], "bool", ["e", "l"],
        "len(l) > 0 and one(e, l[len(l) - 1]) and (len(l) <= 2 or ite(l[len(l) - 2] == '>', e.parent_ is not None and msel(the(e.parent_), {0}), ite(l[len(l) - 2] == ' ', manc(e.parent_, {0}),"
        " ite(l[len(l) - 2] == '+', len(e.prev) > 0 and msel(e.prev[0], {0}), any(msel(e.prev[k], {0}) for k in range(len(e.prev)))))))".format(rest))
    spec("manc", ["opt[obj:element]", L], "bool", ["e", "l"], "e is not None and (msel(the(e), l) or manc(the(e).parent_, l))")
    A = "parce.css:AbstractElement."
    M = {"element.get_parent": "spec:get_parent", "element.previous_siblings": "spec:prev", "element.next_siblings": "spec:next", "element.get_name": "spec:name", "element.get_child_count": "spec:count",
         "element.match_selector": "spec:one", "element.match_selectors": A + "match_selectors", "element.previous_sibling": A + "previous_sibling", "element.next_sibling": A + "next_sibling"}
    es = {"fields": EF, "methods": M, "classes": {}, "always_true": ("element",)}
    for f, g in (("previous_sibling", "prev"), ("next_sibling", "nxt")):
        reg.add(Contract(A + f, params={"self": E}, returns="opt[obj:element]", ensures=["(result is None) == (len(self.%s) == 0)" % g, "implies(len(self.{0}) > 0, the(result) is self.{0}[0])".format(g)], schema=es, loops=[Loop(index="i_", inv=["i_ == 0"])]))
    reg.add(Contract(A + "match_selectors", params={"self": E, "selectors": L}, returns="bool", ensures=["result == msel(self, old(selectors))"], schema=es,
        loops={0: Loop(kinds={"element": "opt[obj:element]"}, inv=["manc(self.parent_, selectors) == manc(element, selectors)"])}))
    reg.add(Contract(A + "match", params={"self": E, "prelude": "seq[seq[str]]"}, returns="bool", ensures=["result == any(msel(self, prelude[k]) for k in range(len(prelude)))"], schema=es))
    reg.add(Contract(A + "is_first_child", params={"self": E}, returns="bool", ensures=["result == (len(self.prev) == 0)"], schema=es))
    reg.add(Contract(A + "is_last_child", params={"self": E}, returns="bool", ensures=["result == (len(self.nxt) == 0)"], schema=es))
    reg.add(Contract(A + "is_only_child", params={"self": E}, returns="bool", ensures=["result == (len(self.prev) == 0 and len(self.nxt) == 0)"], schema=es))
    reg.add(Contract(A + "is_first_of_type", params={"self": E}, returns="bool", ensures=["result == all(self.prev[k].name_ != self.name_ for k in range(len(self.prev)))"], schema=es))
    reg.add(Contract(A + "is_last_of_type", params={"self": E}, returns="bool", ensures=["result == all(self.nxt[k].name_ != self.name_ for k in range(len(self.nxt)))"], schema=es))
    reg.add(Contract(A + "is_empty", params={"self": E}, returns="bool", ensures=["result == (self.count == 0)"], schema=es))
    # one selector
    AT = "seq[tuple[str,opt[str],opt[str],opt[str]]]"
    SEL, OS = "obj:selector", "opt[str]"
    parts = {"class_selector": "seq[str]", "element_selector": "seq[str]", "id_selector": "seq[str]", "attribute_selector": AT, "pseudo_class": "seq[tuple[str,obj:sellist]]", "pseudo_element": "seq[str]"}
    SF = {"p_" + k: v for k, v in parts.items()}
    for k, v in parts.items():
        reg.add(Contract("spec:get_" + k, params={"self": SEL, "default": "obj:any"}, returns=v, ensures=["result == self.p_" + k], trusted="dict.get with an empty tuple as default"))
    EM = {"get_classes": ("classes", "seq[str]"), "get_name": ("name_", S), "get_id": ("id_", OS), "get_attributes": ("attrs", "obj:attrs"), "get_pseudo_classes": ("pcs", "seq[str]"), "get_pseudo_elements": ("pes", "seq[str]")}
    for k, (f, v) in EM.items():
        reg.add(Contract("spec:e_" + k, params={"self": E}, returns=v, ensures=["result %s self.%s" % ("is" if v.startswith("obj") else "==", f)], trusted=k + " is abstract"))
    spec("ahas", ["obj:attrs", S], "bool", ["a", "k"]); spec("aval", ["obj:attrs", S], S, ["a", "k"])
    spec("low", [S], S, ["s"]); spec("words", [S], "seq[str]", ["s"]); spec("sw", [S, S], "bool", ["s", "t"]); spec("ew", [S, S], "bool", ["s", "t"]); spec("pseudo", [E, S], "opt[bool]", ["e", "c"])
    doc = "standard library"
    reg.add(Contract("spec:attr", params={"self": "obj:attrs", "key": S}, returns=S, raises={"KeyError": "not ahas(self, key)"}, ensures=["result == aval(self, key)"], trusted="dict access"))
    reg.add(Contract("spec:low", params={"self": S}, returns=S, ensures=["result == low(self)"], trusted=doc))
    reg.add(Contract("spec:words", params={"self": S}, returns="seq[str]", ensures=["result == words(self)"], trusted=doc))
    reg.add(Contract("spec:sw", params={"self": S, "t": S}, returns="bool", ensures=["result == sw(self, t)"], trusted=doc))
    reg.add(Contract("spec:ew", params={"self": S, "t": S}, returns="bool", ensures=["result == ew(self, t)"], trusted=doc))
    reg.add(Contract("spec:pseudo", params={"self": E, "c": S}, returns="opt[bool]", ensures=["result == pseudo(self, c)"], trusted="the dispatcher calls the method for the pseudo class, or gives None"))
    cmp_ = ("ite({op} == '=', {t} == {v}, ite({op} == '~=', any(words({v})[j] == {t} for j in range(len(words({v})))), ite({op} == '|=', {t} == {v} or sw({v}, {t} + '-'),"
            " len({t}) > 0 and ite({op} == '^=', sw({v}, {t}), ite({op} == '$=', ew({v}, {t}), ite({op} == '*=', {t} in {v}, True))))))")
    X = "selector.p_attribute_selector[k]"
    V_ = "aval(self.attrs, %s[0])" % X
    am = "(ahas(self.attrs, {x}[0]) and ({x}[1] is None or len({x}[1]) == 0 or {x}[2] is None or ite({x}[3] is not None and (the({x}[3]) == 'i' or the({x}[3]) == 'I'), {low}, {exact})))".format(
        x=X, low=cmp_.format(op="the(%s[1])" % X, t="low(the(%s[2]))" % X, v="low(%s)" % V_), exact=cmp_.format(op="the(%s[1])" % X, t="the(%s[2])" % X, v=V_))
    Y = "selector.p_pseudo_class[k][0]"
    allof = lambda body, n: "all(%s for k in range(%s))" % (body, n)
    attrsok = lambda n: allof(am, n)
    pcok = lambda n: allof("ite(pseudo(self, {0}) is None, any(self.pcs[j] == {0} for j in range(len(self.pcs))), the(pseudo(self, {0})))".format(Y), n)
    peok = lambda n: allof("any(self.pes[j] == selector.p_pseudo_element[k] for j in range(len(self.pes)))", n)
    ss = {"fields": dict(SF, **{f: v for f, v in EM.values()}), "classes": {}, "always_true": ("element", "attrs"),
          "methods": dict({"element." + k: "spec:e_" + k for k in EM}, **dict({"selector.get:" + k: "spec:get_" + k for k in parts},
              **{"attrs.__getitem__": "spec:attr", "str.lower": "spec:low", "str.split": "spec:words", "str.startswith": "spec:sw", "str.endswith": "spec:ew", "element._pseudo_class": "spec:pseudo"}))}
    p = lambda k: "selector.p_" + k
    reg.add(Contract(A + "match_selector", params={"self": E, "selector": SEL}, returns="bool", schema=ss,
        ensures=["result == (all(any(self.classes[j] == {0}[k] for j in range(len(self.classes))) for k in range(len({0}))) and all({1}[k] == self.name_ for k in range(len({1})))"
                 " and all(self.id_ is not None and {2}[k] == the(self.id_) for k in range(len({2})))".format(*[p(k) for k in parts])
                 + " and %s and %s and %s)" % (attrsok("len(%s)" % p("attribute_selector")), pcok("len(%s)" % p("pseudo_class")), peok("len(%s)" % p("pseudo_element")))],
        loops=[Loop(index="n", inv=[attrsok("n")]), Loop(index="n", inv=[pcok("n")]), Loop(index="n", inv=[peok("n")])]))
    return {"fields": FIELDS, "methods": METHODS, "classes": {}, "always_true": ("rule",)}
