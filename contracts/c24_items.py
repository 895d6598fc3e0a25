"""Contracts on dynamic rule items (property C24).

ev(o) is the value of an object when everything is known: the lexicon argument and the match.  What an item of a class
means is its definition of ev.  Evaluating gives ev(o); evaluating in part gives an object with the same ev, and says
truly whether it is complete (then it is the value) or unchanged (then it is the object itself).
"""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef
import parce.ruleitem as ri

K = "parce.ruleitem:"
O, T, N = "obj:v", "seq[obj:v]", "obj:ns"
RES, REST = "tuple[obj:v,int]", "tuple[seq[obj:v],int]"
ERR = {"_EvaluationError": None}

def load(reg):
    def spec(name, kinds, ret, params, body=None):
        reg.specfuns[name] = SpecDef(name, kinds, ret, params, body, reg)
    spec("ev", [O], O, ["o"]); spec("evt", [T], T, ["s"]); spec("app", [O, T], O, ["f", "a"]); spec("intv", [O], "int", ["o"]); spec("pair", [O], T, ["o"]); spec("isnum", [O], "bool", ["o"]); spec("none", [O], "bool", ["o"])
    spec("b0", ["int"], "bool", ["x"], "x == 1 or x == 3"); spec("b1", ["int"], "bool", ["x"], "x >= 2")
    EVT = ['forall("seq[obj:v]", lambda s: len(evt(s)) == len(s), pat=evt(s))', 'forall("seq[obj:v];int", lambda s, i: implies(0 <= i and i < len(s), evt(s)[i] is ev(s[i])), pat=evt(s)[i])',
           'forall("seq[obj:v];int", lambda s, i: implies(0 <= i and i < len(s), evt(s)[i] is ev(s[i])), pat=(evt(s), s[i]))']
    ID = ['forall("obj:v", lambda o: ev(ev(o)) is ev(o), pat=ev(ev(o)))']
    AX = EVT + ID
    P = ["0 <= result[1] and result[1] <= 3", "ev(result[0]) is ev({0})", "implies(b0(result[1]), result[0] is ev({0}))", "implies(b1(result[1]), result[0] is {0})"]
    PT = ["0 <= result[1] and result[1] <= 3", "evt(result[0]) == evt({0})", "implies(b0(result[1]), result[0] == evt({0}))", "implies(b1(result[1]), result[0] == {0})"]
    f = lambda l, x: [e.format(x) for e in l]
    # any item, by the contracts of its class; any object, by induction on how lists and tuples nest
    every = "the contract that the method of every class is proved to obey; objects are finite"
    reg.add(Contract("spec:item.pre", params={"self": O, "ns": N}, returns=RES, ensures=f(P, "self"), trusted=every))
    reg.add(Contract("spec:item.ev", params={"self": O, "ns": N}, returns=O, raises=ERR, ensures=["result is ev(self)"], trusted=every))
    reg.add(Contract(K + "pre_evaluate", name="any object", params={"obj": O, "ns": N}, returns=RES, ensures=f(P, "obj"), trusted=every, by_kind=True))
    reg.add(Contract(K + "evaluate", name="any object, at once", params={"obj": O, "ns": N}, returns=O, raises=ERR, ensures=["result is ev(obj)"], trusted=every, by_kind=True))
    APP = "calling an evaluated object with evaluated arguments: any function of these"
    reg.add(Contract("spec:app", params={"self": O, "*args": T}, returns=O, ensures=["result is app(self, args)"], trusted=APP))
    base = {"fields": {"_predicate": O, "_arguments": T, "_index": O, "_items": T, "_value": O, "_lexicons": T, "its": T, "_actions": T, "_lexicon": O}, "classes": {}, "plain": ("v",), "always_true": ("v", "call", "select", "target", "post"),
            "by_kind": {K + "pre_evaluate": "obj", K + "evaluate": "obj"}, "as_int": {"v": "intv"}, "unpack": {"v": "pair"}, "maybe_none": ("v",),
            "isinstance": {"v:Item": "isitem(self)", "v:int": "isnum(self)"}}
    spec("isitem", [O], "bool", ["o"])
    M = {"v.pre_evaluate": "spec:item.pre", "v.evaluate": "spec:item.ev", "v.__call__": "spec:app"}
    sch = lambda **kw: dict(base, methods=dict(M, **kw))
    # objects that are no items stay as they are; lists and tuples are evaluated item by item
    ATOM = ["implies(not isitem(obj), ev(obj) is obj)"]
    reg.add(Contract(K + "pre_evaluate", name=K + "pre_evaluate (object)", params={"obj": O, "ns": N}, returns=RES, requires=AX + ATOM, ensures=f(P, "obj"), schema=sch()))
    LOOP = ["0 <= success and success <= 3", "len(objs) == n", 'forall("int", lambda k: implies(0 <= k and k < n, ev(objs[k]) is ev(obj[k])), pat=objs[k])', 'implies(b0(success), forall("int", lambda k: implies(0 <= k and k < n, objs[k] is ev(obj[k])), pat=objs[k]))',
            'implies(b1(success), forall("int", lambda k: implies(0 <= k and k < n, objs[k] is obj[k]), pat=objs[k]))']
    reg.add(Contract(K + "pre_evaluate", name=K + "pre_evaluate (list or tuple)", params={"obj": T, "ns": N}, returns=REST, requires=AX, ensures=f(PT, "obj"), schema=sch(), kinds={"objs[]": O}, loops=[Loop(index="n", inv=LOOP)], by_kind=True))
    reg.add(Contract(K + "evaluate", name=K + "evaluate (object)", params={"obj": O, "ns": N}, returns=O, requires=AX + ATOM, raises=ERR, ensures=["result is ev(obj)"], schema=sch()))
    reg.add(Contract(K + "evaluate", name=K + "evaluate (list or tuple)", params={"obj": T, "ns": N}, returns=T, requires=AX, raises=ERR, ensures=["result == evt(obj)"], schema=sch(), by_kind=True,
        loops={"comp0": Loop(index="n", kinds={"comp": O}, inv=["len(comp) == n", 'forall("int", lambda k: implies(0 <= k and k < n, comp[k] is ev(obj[k])), pat=comp[k])'])}))
    # an item that can only be evaluated as a whole
    reg.add(Contract(K + "Item.pre_evaluate", params={"self": O, "ns": N}, returns=RES, requires=AX, ensures=f(P, "self"), schema=sch()))
    # a call
    CALL = "ev({0}) is app(ev({1}), evt({2}))"
    reg.add(Contract("spec:new_call", params={"self": O, "predicate": O, "*arguments": T}, returns=O, ensures=[CALL.format("result", "predicate", "arguments")], trusted="the constructor of call, and what a call means"))
    reg.add(Contract(K + "call.pre_evaluate", params={"self": O, "ns": N}, returns=RES, requires=AX + [CALL.format("self", "self._predicate", "self._arguments")], ensures=f(P, "self"), schema=dict(sch(**{"v.__new__": "spec:new_call"}), plain=())))
    reg.add(Contract(K + "call.evaluate", params={"self": O, "ns": N}, returns=O, requires=AX + [CALL.format("self", "self._predicate", "self._arguments")], raises=ERR, ensures=["result is ev(self)"], schema=sch()))
    # a selection: the index is that of one of the items
    spec("item", [T, "int"], O, ["s", "i"], "ite(i < 0, s[len(s) + i], s[i])")
    SEL = "ev({0}) is ev(item({2}, intv(ev({1}))))"
    RANGE = "-len({2}) <= intv(ev({1})) and intv(ev({1})) < len({2})"
    s_ = ("self", "self._index", "self._items")
    reg.add(Contract("spec:new_select", params={"self": O, "index": O, "*items": T}, returns=O, ensures=[SEL.format("result", "index", "items")], trusted="the constructor of select, and what a selection means"))
    reg.add(Contract(K + "select.pre_evaluate", params={"self": O, "ns": N}, returns=RES, requires=AX + [SEL.format(*s_), RANGE.format(*s_)], ensures=f(P, "self"), schema=dict(sch(**{"v.__new__": "spec:new_select"}), plain=())))
    reg.add(Contract(K + "select.evaluate", params={"self": O, "ns": N}, returns=O, requires=AX + [SEL.format(*s_), RANGE.format(*s_)], raises=ERR, ensures=["result is ev(self)"], schema=sch()))
    # a target: a number, or a lexicon with an argument
    LEX = "ev(item({2}, intv(pair(ev({1}))[0])))"
    TGT = "ev({0}) is ite(isnum(ev({1})), ev({1}), ite(pair(ev({1}))[1] is None, %s, app(%s, seq(pair(ev({1}))[1]))))" % (LEX, LEX)
    TR = "isnum(ev({1})) or (len(pair(ev({1}))) == 2 and -len({2}) <= intv(pair(ev({1}))[0]) and intv(pair(ev({1}))[0]) < len({2}))"
    t_ = ("self", "self._value", "self._lexicons")
    reg.add(Contract("spec:new_target", params={"self": O, "value": O, "*lexicons": T}, returns=O, ensures=[TGT.format("result", "value", "lexicons")], trusted="the constructor of target, and what a target means"))
    reg.add(Contract("spec:new_target0", params={"self": O, "value": "tuple[int,obj:v]", "*lexicons": T}, returns=O, ensures=["implies(value[0] == 0 and len(lexicons) > 0, ev(result) is ite(value[1] is None, ev(lexicons[0]), app(ev(lexicons[0]), seq(value[1]))))"], trusted="the constructor of target, and what a target means (an evaluated argument evaluates to itself)"))
    reg.add(Contract(K + "target.pre_evaluate", params={"self": O, "ns": N}, returns=RES, requires=AX + [TGT.format(*t_), TR.format(*t_)], ensures=f(P, "self"), schema=dict(sch(**{"v.__new__": "spec:new_target", "v.__new__:tuple": "spec:new_target0"}), plain=())))
    reg.add(Contract(K + "target.evaluate", params={"self": O, "ns": N}, returns=O, requires=AX + [TGT.format(*t_), TR.format(*t_)], raises=ERR, ensures=["result is ev(self)"], schema=sch()))
    # items that stay alive: their contents are evaluated
    spec("post", [T], O, ["s"])
    reg.add(Contract("spec:its", params={"self": O}, returns=T, ensures=["result == self.its"], trusted="evaluate_items: all arguments of the constructor, or nothing"))
    reg.add(Contract("spec:new_post", params={"self": O, "*items": T}, returns=O, ensures=["result is post(items)", "ev(result) is post(evt(items))"], trusted="the constructor, and what a postponed item means"))
    POST = ["self is post(self.its)", "ev(self) is post(evt(self.its))"]
    ps = dict(sch(**{"v.__new__": "spec:new_post", "v.evaluate_items": "spec:its"}), plain=())
    reg.add(Contract(K + "PostponedItem.pre_evaluate", params={"self": O, "ns": N}, returns=RES, requires=AX + POST, ensures=f(P, "self"), schema=ps))
    reg.add(Contract(K + "PostponedItem.evaluate", params={"self": O, "ns": N}, returns=O, requires=AX + POST, ensures=["ev(result) is ev(self)"], schema=ps))
    reg.add(Contract(K + "SubgroupAction.pre_evaluate", params={"self": O, "ns": N}, returns=RES, requires=AX + [x.replace("self.its", "self._actions") for x in POST], ensures=f(P, "self"), schema=ps))
    # what the constructors store
    for cls, first, rest in (("call", "predicate", "arguments"), ("select", "index", "items"), ("target", "value", "lexicons")):
        reg.add(Contract(K + cls + ".__init__", params={"self": O, first: O, rest: T}, modifies=["heap._" + first, "heap._" + rest], ensures=["self._%s is %s" % (first, first), "self._%s == %s" % (rest, rest)], schema=sch()))
    for cls, fld, kind in (("pattern", "value", O), ("DelegateAction", "lexicon", O), ("SubgroupAction", "actions", T)):
        reg.add(Contract(K + cls + ".__init__", params={"self": O, fld: kind}, modifies=["heap._" + fld], ensures=["self._%s == %s" % (fld, fld)], schema=sch()))
        if kind is O:
            reg.add(Contract(K + cls + ".evaluate_items", params={"self": O}, returns=T, ensures=["result == seq(self._%s)" % fld], schema=sch()))
    # a variable: its value, or an evaluation error
    spec("nshas", [N, "str"], "bool", ["ns", "k"]); spec("nsval", [N, "str"], O, ["ns", "k"])
    reg.add(Contract("spec:ns", params={"self": N, "key": "str"}, returns=O, raises={"KeyError": "not nshas(self, key)"}, ensures=["result is nsval(self, key)"], trusted="dict access"))
    reg.add(Contract(K + "VariableItem.evaluate", params={"self": O, "ns": N}, returns=O, raises={"_EvaluationError": "not nshas(ns, self._name)"}, ensures=["result is nsval(ns, self._name)"],
        schema=dict(base, fields={"_name": "str"}, methods={"ns.__getitem__": "spec:ns"})))
    # variations
    reg.add(Contract(K + "select.variations", params={"self": O}, out_kind=O, ensures=["result == self._items"], schema=sch()))
    spec("anumber", [], O, [])
    reg.add(Contract(K + "SubgroupAction.variations", params={"self": O}, out_kind=O, ensures=["result == self._actions"], schema=sch()))
    reg.add(Contract(K + "DelegateAction.variations", params={"self": O}, out_kind=O, ensures=["result == seq(self._lexicon)"], schema=sch()))
    # a rule: its items are replaced by their values, unrolled (rules without nested lists)
    spec("unr", [O], T, ["o"]); spec("isrule", [O], "bool", ["o"])
    spec("done", [T, "int"], T, ["s", "n"], "ite(n <= 0, seq(), cat(done(s, n - 1), ite(isrule(s[n - 1]), unr(ev(s[n - 1])), seq(s[n - 1]))))")
    reg.add(Contract("parce.util:unroll", params={"obj": O}, returns=T, ensures=["result == unr(obj)"], trusted="util.unroll: the members of lists and tuples (bounded)"))
    reg.add(Contract("spec:group", params={"self": "obj:match"}, returns=O, ensures=["True"], trusted="match.group"))
    rs = dict(sch(**{"match.group": "spec:group"}), isinstance={"v:RuleItem": "isrule(self)"})
    reg.add(Contract(K + "evaluate_rule", params={"rule": T, "match": "obj:match"}, out_kind=O, raises=ERR, ensures=["result == done(rule, len(rule))"], schema=rs,
        loops={"eval_rule_items#0": Loop(index="n", inv=["out == done(rule, n)"])}))
    # derived lexicons
    LX = "obj:lexicon"
    spec("van", ["obj:desc", "obj:lang"], LX, ["d", "l"]); spec("derived", [LX, O], LX, ["l", "a"])
    reg.add(Contract("spec:van", params={"self": "obj:desc", "instance": "obj:any", "owner": "obj:lang"}, returns=LX, ensures=["result is van(self, owner)", "result.arg is None", "result.descriptor is self and result.language is owner"], trusted="LexiconDescriptor.__get__: one vanilla lexicon per language (cached)"))
    reg.add(Contract("spec:derive", params={"self": LX, "arg": O}, returns=LX, ensures=["result is derived(self, arg)", "result.descriptor is self.descriptor and result.language is self.language"], trusted="Lexicon._derive is cached: one lexicon for an argument (bounded)"))
    ONE = "implies(self.arg is None, self is van(self.descriptor, self.language))"
    reg.add(Contract("parce.lexicon:Lexicon.__call__", params={"self": LX, "arg": O}, returns=LX, requires=[ONE],
        ensures=["result is ite(arg is None, self, derived(van(self.descriptor, self.language), arg))"],
        schema={"fields": {"arg": O, "descriptor": "obj:desc", "language": "obj:lang"}, "classes": {}, "maybe_none": ("v",), "methods": {"desc.__get__": "spec:van", "lexicon._derive": "spec:derive", "lexicon.__call__": "parce.lexicon:Lexicon.__call__"}}))
    return base
