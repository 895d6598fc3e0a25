"""Contracts on the slots of an Observable (property C21).

_callbacks is a map from events to list objects; func stands for what a slot is compared by.
"""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef
import parce.util as pu

K = "parce.util:Observable."
CB = "self._callbacks"
OBS = {"cls": pu.Observable, "fields": {"_callbacks": "map[obj:event,obj:slots]"}}
# no event without slots; the slots of an event are ordered by priority, and each function is there once; no list belongs to two events
OK = ['forall("obj:event", lambda e: implies(e in {c}, {c}[e].live and len(items({c}[e])) > 0), pat={c}[e])'.format(c=CB),
      'forall("obj:event;obj:event", lambda e, g: implies(e in {c} and g in {c} and e is not g, {c}[e] is not {c}[g]), pat=({c}[e], {c}[g]))'.format(c=CB),
      'forall("obj:event;int;int", lambda e, i, j: implies(e in {c} and 0 <= i and i < j and j < len(items({c}[e])), '
      'items({c}[e])[i].priority <= items({c}[e])[j].priority and items({c}[e])[i].func is not items({c}[e])[j].func), pat=(items({c}[e])[i], items({c}[e])[j]))'.format(c=CB)]
OLD = "ite(old(event in {c}), old(items({c}[event])), seq())".format(c=CB)
NEW = "ite(event in {c}, items({c}[event]), seq())".format(c=CB)
OTHERS = ['forall("obj:event", lambda e: implies(e is not event, (e in {c}) == old(e in {c}) and implies(e in {c}, {c}[e] is old({c}[e]) and items({c}[e]) == old(items({c}[e])))), pat={c}[e])'.format(c=CB)]
HAS = "any(x.func is {f} for x in %s)" % OLD

def load(reg):
    sch = {"fields": {"$items": "seq[obj:observer]", "func": "obj:func", "once": "bool", "priority": "int", "live": "bool", "iscm": "bool"}, "methods": {"observer.call": "spec:call", "stack.enter_context": "spec:enter_context"},
           "eq_field": {"observer": "func"}, "order_field": {"observer": "priority"}, "classes": {"observer": pu._Observer}, "truth": {"slots": "len(items(self)) > 0"}}
    reg.add(Contract("parce.util:_Observer", params={"func": "obj:func", "once": "bool", "prepend_self": "bool", "priority": "int"}, returns="obj:observer",
        ensures=["result.func is func", "result.priority == (0 if priority is None else priority)", "result.once == (False if once is None else once)"], modifies=[], trusted="a new observer stores its arguments (bounded)"))
    P = {"self": OBS, "event": "obj:event"}
    reg.add(Contract(K + "has_connections", params=P, returns="bool", ensures=["result == (event in %s)" % CB]))
    reg.add(Contract(K + "is_connected", params=dict(P, func="obj:func"), returns="bool", requires=OK, ensures=["result == (event in {c} and any(items({c}[event])[i].func is func for i in range(len(items({c}[event])))))".format(c=CB)]))
    mod = [CB + "[]", "heap.$items", "heap.live"]
    reg.add(Contract(K + "connect", params=dict(P, func="obj:func", once="bool", prepend_self="bool", priority="int"), requires=OK,
        ensures=["event in " + CB,
                 # connected already: nothing changes
                 "implies({0}, {1} == {2})".format(HAS.format(f="func"), NEW, OLD),
                 # otherwise it comes after those of the same or a lower priority, before the others
                 "implies(not {0}, len({1}) == len({2}) + 1 and any({1}[p].func is func and {1}[p].priority == priority and {1}[p].once == once and "
                 "take({1}, p) == take({2}, p) and {1}[p + 1:len({1})] == {2}[p:len({2})] and all({1}[q].priority > priority for q in range(p + 1, len({1}))) for p in range(len({1}))))".format(HAS.format(f="func"), NEW, OLD)] + OK + OTHERS,
        modifies=mod))
    GONE = "implies({0}, any({2}[k].func is func and {1} == cat(take({2}, k), {2}[k + 1:len({2})]) for k in range(len({2}))))".format(HAS.format(f="func"), NEW, OLD)
    reg.add(Contract(K + "disconnect", params=dict(P, func="obj:func"), requires=OK,
        ensures=["implies(not {0}, {1} == {2})".format(HAS.format(f="func"), NEW, OLD), GONE] + OK + OTHERS, modifies=mod))
    reg.add(Contract(K + "disconnect_all", params=P, requires=OK, ensures=["event not in " + CB] + OK + OTHERS, modifies=mod))
    reg.add(Contract(K + "disconnect_all", name=K + "disconnect_all (every event)", params=dict(P, event="=None"), requires=OK, ensures=['forall("obj:event", lambda e: e not in %s, pat=%s[e])' % (CB, CB)], modifies=mod))
    # this very observer is taken out, if it is there
    AT = ['forall("int", lambda k: implies(0 <= k and k < len({2}) and {2}[k] is observer, {1} == cat(take({2}, k), {2}[k + 1:len({2})])), pat={2}[k])'.format(0, NEW, OLD),
          "implies(all({2}[k] is not observer for k in range(len({2}))), {1} == {2})".format(0, NEW, OLD)]
    reg.add(Contract(K + "_remove_observer", params=dict(P, observer="obj:observer"), requires=OK, ensures=AT + OK + OTHERS, modifies=mod,
        loops=[Loop(index="n", inv=["n <= len({0}) and all({0}[k] is not observer for k in range(n))".format(NEW)])]))
    # a slot is called: the ghost sequence called records it (slots that connect or disconnect slots: bounded)
    reg.specfuns["kept"] = SpecDef("kept", ["seq[obj:observer]", "int"], "seq[obj:observer]", ["s", "i"], "ite(i <= 0, seq(), cat(kept(s, i - 1), ite(s[i - 1].once, seq(), seq(s[i - 1]))))", reg)
    EM = {"cls": pu.Observable, "fields": {"_callbacks": "map[obj:event,obj:slots]", "called": "seq[obj:observer]"}}
    reg.add(Contract("spec:call", params={"self": "obj:observer", "o": EM, "args": None}, returns="obj:result",
        ensures=["o.called == cat(old(o.called), seq(self))"], modifies=["o.called"], trusted="a slot is any function that leaves the connections alone"))
    reg.add(Contract("contextlib:ExitStack", params={}, returns="obj:stack", trusted="standard library"))
    reg.add(Contract("spec:enter_context", params={"self": "obj:stack", "cm": "obj:result"}, returns="obj:result", raises={"TypeError": "not cm.iscm"}, trusted="standard library: raises when the argument is no context manager"))
    reg.add(Contract(K + "emit", params=dict(P, self=EM, args="seq[obj:arg]"), requires=OK + ["len(self.called) == 0"], 
        ensures=["self.called == " + OLD, "{1} == kept({2}, len({2}))".format(0, NEW, OLD)] + OK, modifies=mod,
        loops=[Loop(index="i", inv=["self.called == take(%s, i)" % OLD, "{1} == cat(kept({2}, i), {2}[i:len({2})])".format(0, NEW, OLD),
                                     "implies(i < len({2}), 0 <= len(kept({2}, i)) and len(kept({2}, i)) < len({1}) and {1}[len(kept({2}, i))] is {2}[i])".format(0, NEW, OLD)] + OK)]))
    O = "parce.util:_Observer."
    for f, op in (("__eq__", "self.func == other.func"), ("__ne__", "self.func != other.func"), ("__lt__", "self.priority < other.priority"), ("__gt__", "self.priority > other.priority")):
        reg.add(Contract(O + f, params={"self": "obj:observer", "other": "obj:observer"}, returns="bool", ensures=["result == (%s)" % op]))
    return sch
