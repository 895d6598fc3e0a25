"""Contracts on the helpers that order, merge and clip format ranges, and on format_text (property C14)."""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef, Conc
import parce.util as pu, parce.formatter as pf

R = "tuple[int,int,obj:fmt]"
STREAM = "seq[%s]" % R
# a stream of ranges: not empty, in order, not overlapping
ORDERED = ['forall("int", lambda k: implies(0 <= k and k < len(stream), stream[k][0] < stream[k][1]), pat=stream[k])',
           'forall("int", lambda i, j: implies(0 <= i and i < j and j < len(stream), stream[i][1] <= stream[j][0]), pat=(stream[i], stream[j]))']

def on(parts, a, b="stream"):
    return [x.replace(b, a) for x in parts]

def load(reg):
    # each range yielded stands for the items a..b-1 of the stream: adjacent, with the same format, and as many as possible
    S = "src"
    b = "ite(passed(local('stream')) == len(src) and item[1] == src[len(src) - 1][1], len(src), passed(local('stream')) - 1)"
    JOIN = 'forall("int", lambda k: implies({a} < k and k < {b}, src[k][2] == src[{a}][2] and src[k][0] == src[k - 1][1]), pat=src[k])'
    for name, fac in (("", "=tuple"), (" (named tuples)", lambda run: Conc(pf.FormatRange))):
        reg.add(Contract("parce.util:merge_adjacent", name="parce.util:merge_adjacent" + name, params={"stream": STREAM, "factory": fac}, free={"src": STREAM},
            requires=["stream == src"] + on(ORDERED, "src"),
            gen={"item": R, "ghost": {"a": ("int", "0")}, "update": {"a": b},
                 "each": ["a < %s <= len(src)" % b, "item[0] == src[a][0] and item[1] == src[%s - 1][1] and item[2] == src[a][2]" % b,
                          JOIN.format(a="a", b=b),
                          "%s == len(src) or src[%s][2] != src[a][2] or src[%s][0] > item[1]" % (b, b, b)],
                 "final": ["a == len(src)"]},
            loops=[Loop(inv=["owner(stream) == src", "passed(stream) == 0 or passed(stream) == len(src)", "a == passed(stream)"]),
                   Loop(kinds={"rest": "fixed[obj:fmt]", "nrest": "fixed[obj:fmt]"}, inv=["owner(stream) == src", "0 <= a < passed(stream) <= len(src)", "pos == src[a][0] and end == src[passed(stream) - 1][1] and len(rest) == 1 and rest[0] == src[a][2]",
                             JOIN.format(a="a", b="passed(stream)")])]))
    # only the borders of the first and the last item are clipped
    CLIP = ["item[0] == ite(a == 0, max(start, src[0][0]), src[a][0])", "item[1] == ite(a == len(src) - 1 and end is not None and src[a][1] > end, end, src[a][1])", "item[2] == src[a][2]"]
    reg.add(Contract("parce.util:fix_boundaries", params={"stream": STREAM, "start": "int", "end": "opt[int]"}, free={"src": STREAM},
        requires=["stream == src", "implies(len(src) > 0, src[0][0] >= 0)", "start >= 0"],
        gen={"item": R, "ghost": {"a": ("int", "0")}, "update": {"a": "a + 1"}, "each": ["a < len(src)"] + CLIP, "final": ["a == len(src)"]},
        loops={"yf0": Loop(index="m", inv=["a == m"]),
               0: Loop(inv=["owner(stream) == src", "passed(stream) == 0 or passed(stream) == len(src)", "a == passed(stream)"]),
               1: Loop(kinds={"i": R}, inv=["owner(stream) == src", "0 <= a == passed(stream) - 1 and passed(stream) <= len(src)", "i[0] == ite(a == 0, max(start, src[0][0]), src[a][0]) and i[1] == src[a][1] and i[2] == src[a][2]"])}))
    # the ranges made of the tokens: in order, each a token or the gap between two
    from pyvc.interp import ContractFn
    fn = lambda name: (lambda run: ContractFn(name))
    F = "parce.formatter:AbstractFormatter."
    reg.add(Contract("spec:textformat", params={"action": "obj:action"}, returns="opt[obj:fmt]", trusted="the format of an action may be any object, or None"))
    reg.add(Contract("spec:tokens", params={}, returns="seq[obj:token]", ensures=["result == toks"], free={"toks": "seq[obj:token]"}, trusted="the tokens in the region, in order (C07)"))
    FC = {"cls": None, "fields": {"unparsed": "opt[obj:fmt]", "base": "opt[obj:fmt]", "textformat": fn("spec:textformat")}}
    TOKS = ['forall("int", lambda k: implies(0 <= k and k < len(toks), 0 <= toks[k].pos and toks[k].pos < toks[k].end and toks[k].end > start and implies(end is not None, toks[k].pos < end)), pat=toks[k])',
            'forall("int", lambda i, j: implies(0 <= i and i < j and j < len(toks), toks[i].end <= toks[j].pos), pat=(toks[i], toks[j]))']
    CLEAN = 'forall("int", lambda k: implies(0 <= k and k < len(toks), toks[k].end <= item[0] or toks[k].pos >= item[1] or (toks[k].pos == item[0] and toks[k].end == item[1])), pat=toks[k])'
    for i, uns in ((0, ["fc.unparsed is not None"]), (1, ["fc.unparsed is None"])):
        reg.add(Contract(F + "format_ranges/stream#%d" % i, params={}, free={"toks": "seq[obj:token]", "start": "int", "end": "opt[int]", "tokens": fn("spec:tokens"), "fc": FC},
            requires=TOKS + uns + ["start >= 0", "end is None or end >= start"],
            gen={"item": "tuple[int,int,obj:fmt]", "ghost": {"last": ("int", "-1"), "cov": ("int", "start")}, "update": {"last": "item[1]", "cov": "ite(item[0] <= cov, item[1], cov)"},
                 "each": ["last <= item[0]", "item[0] < item[1]", CLEAN, "implies(end is not None and len(toks) == 0, item[1] <= end)"],
                 "final": ["implies(%s, cov == ite(end is None or (len(toks) > 0 and toks[len(toks) - 1].end > end), ite(len(toks) > 0, toks[len(toks) - 1].end, start), end))" % ("fc.base is not None" if i == 0 else "False")]},
            loops=[Loop(index="m", inv=["last <= prev_end and -1 <= last", "implies(m == 0, prev_end == start and last == -1)", "implies(m > 0, prev_end == toks[m - 1].end)",
                        "implies(fc.base is not None, cov == prev_end)" if i == 0 else "cov <= prev_end"])],
            schema={"fields": {"pos": "int", "end": "int", "action": "obj:action"}}))
    # all text, in order, in pieces
    FR = ("tuple[int,int,obj:fmt]")
    FMT = {"cls": pf.AbstractFormatter, "fields": {}}
    from pyvc.smt import parse_kind
    reg.add(Contract(F + "format_ranges", params={"self": FMT, "tree": "obj:tree", "start": "int", "end": "opt[int]", "format_context": "opt[obj:fc]"}, free={"limit": "int"},
        gen={"item": "nt:FormatRange[pos=int,end=int,textformat=obj:fmt]", "ghost": {"last": ("int", "start")}, "update": {"last": "item[1]"},
             "each": ["last <= item[0] and item[0] < item[1] and item[1] <= ite(end is None, limit, end) and item[1] <= limit"]},
        trusted="composition of the contracts above; bounded"))
    STOP = "ite(end is None, len(text), end)"
    reg.add(Contract(F + "format_text", params={"self": FMT, "text": "str", "tree": "obj:tree", "start": "int", "end": "opt[int]", "format_context": "opt[obj:fc]"}, free={"limit": "int"},
        requires=["limit == len(text)", "0 <= start <= %s <= len(text)" % STOP],
        gen={"item": "tuple[str,opt[obj:fmt]]", "ghost": {"done": ("int", "start")}, "update": {"done": "done + len(item[0])"},
             "each": ["len(item[0]) > 0", "done + len(item[0]) <= len(text)", "item[0] == text[done:done + len(item[0])]"],
             "final": ["done == old(%s)" % STOP]},
        loops=[Loop(ghost="g_", inv=["prev_end == done and done == g_last and start <= done <= %s" % STOP])]))
    return {}
