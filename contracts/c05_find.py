"""Contracts on the position searches of tree.Context (property C05)."""
from pyvc.contract import Contract, Loop
from pyvc.interp import SpecDef
from .tree_common import *

K = "parce.tree:Context."
CTX = ["self.intree", "self.is_context"]

def BEFORE_LOOPS(start):
    return [Loop(inv=["node.intree", "node.is_context", "self.tlo <= node.tlo and node.thi <= self.thi".replace("self", start),
                      "node is %s or node.tlo < node.thi and toks[node.tlo].end <= pos" % start,
                      "node.thi == %s.thi or toks[node.thi].end > pos" % start], decreases="node.rank"),
            Loop(inv=["0 <= i <= hi <= len(node)", "i == 0 or toks[node[i - 1].tlo].end <= pos", "hi == len(node) or toks[node[hi].tlo].end > pos",
                      "all(toks[node[k].tlo].end <= pos for k in range(i))", "all(toks[node[k].tlo].end > pos for k in range(hi, len(node)))"],
                 decreases="hi - i")]

def load(reg):
    free = {"toks": TOKS}
    # binary searches over the children; used below
    reg.add(Contract(K + "find", params={"self": NODE, "pos": "int"}, returns="int", free=free,
        requires=WF_DOWN + CTX,
        ensures=["-1 <= result < len(self)",
                 "implies(result == -1, all(self[k].end <= pos for k in range(len(self))))",
                 "implies(result > 0, self[result - 1].end <= pos)",
                 "implies(result >= 0, self[result].end > pos and all(self[k].end <= pos for k in range(result)))"],
        loops=[Loop(inv=["0 <= i <= hi <= len(self)", "l == len(self)",
                         "all(self[k].end <= pos for k in range(i))", "all(self[k].end > pos for k in range(hi, len(self)))"],
                    decreases="hi - i")]))
    reg.add(Contract(K + "find_left", params={"self": NODE, "pos": "int"}, returns="int", free=free,
        requires=WF_DOWN + CTX,
        ensures=["-1 <= result < len(self)",
                 "implies(result >= 0, self[result].pos < pos)", "implies(result + 1 < len(self), self[result + 1].pos >= pos)",
                 "all(self[k].pos < pos for k in range(result + 1))",
                 "all(self[k].pos >= pos for k in range(result + 1, len(self)))"],
        loops=[Loop(inv=["0 <= i <= hi <= len(self)",
                         "all(self[k].pos < pos for k in range(i))", "all(self[k].pos >= pos for k in range(hi, len(self)))"],
                    decreases="hi - i")]))
    # the token that a linear scan finds
    AT = ["implies(result is None, all(toks[k].end <= pos for k in range(self.tlo, self.thi)))",
          "implies(result is not None, result.is_token and self.tlo <= result.tlo < self.thi and toks[result.tlo] is result and result.end > pos and "
          "all(toks[k].end <= pos for k in range(self.tlo, result.tlo)))"]
    down = ["n.intree", "self.tlo <= n.tlo < n.thi <= self.thi", "n.end > pos", "n.tlo == self.tlo or toks[n.tlo - 1].end <= pos"]
    reg.add(Contract(K + "find_token", params={"self": NODE, "pos": "int"}, returns="opt[obj:node]", free=free,
        requires=WF_DOWN + CTX, ensures=AT,
        loops=[Loop(inv=down, decreases="n.rank")]))
    reg.add(Contract(K + "find_token_with_trail", params={"self": NODE, "pos": "int"}, returns="tuple[opt[obj:node],opt[list[int]]]", free=free,
        requires=WF_DOWN + CTX, ensures=[x.replace("result", "result[0]") for x in AT] + ["(result[0] is None) == (result[1] is None)",
            "implies(result[0] is not None, len(result[1]) > 0 and walk(self, result[1]) is result[0])"] + valid_prefix("self", "result[1]", "result[0] is not None"),
        loops=[Loop(inv=down + ["len(trail) > 0", "walk(self, trail) is n"] + valid_prefix("self", "trail"), decreases="n.rank")], kinds={"trail": "int"}))
    LEFT = ["implies(result is None, all(toks[k].pos >= pos for k in range(self.tlo, self.thi)))",
          "implies(result is not None, result.is_token and self.tlo <= result.tlo < self.thi and toks[result.tlo] is result and result.pos < pos and "
          "all(toks[k].pos >= pos for k in range(result.tlo + 1, self.thi)))"]
    ldown = ["n.intree", "self.tlo <= n.tlo < n.thi <= self.thi", "n.pos < pos", "n.thi == self.thi or toks[n.thi].pos >= pos"]
    reg.add(Contract(K + "find_token_left", params={"self": NODE, "pos": "int"}, returns="opt[obj:node]", free=free,
        requires=WF_DOWN + CTX, ensures=LEFT,
        loops=[Loop(inv=ldown, decreases="n.rank")]))
    reg.add(Contract(K + "find_token_left_with_trail", params={"self": NODE, "pos": "int"}, returns="tuple[opt[obj:node],opt[list[int]]]", free=free,
        requires=WF_DOWN + CTX, ensures=[x.replace("result", "result[0]") for x in LEFT] + ["(result[0] is None) == (result[1] is None)",
            "implies(result[0] is not None, len(result[1]) > 0 and walk(self, result[1]) is result[0])"] + valid_prefix("self", "result[1]", "result[0] is not None"),
        loops=[Loop(inv=ldown + ["len(trail) > 0", "walk(self, trail) is n"] + valid_prefix("self", "trail"), decreases="n.rank")], kinds={"trail": "int"}))
    first = lambda f: reg.add(Contract(K + f, params={"self": NODE}, returns="opt[obj:node]", free=free,
        requires=WF_DOWN + CTX,
        ensures=["(result is None) == (self.tlo == self.thi)", "implies(result is not None, result is toks[%s])" % ("self.tlo" if f == "first_token" else "self.thi - 1")],
        loops=[Loop(inv=["node.intree", "node.tlo < node.thi", "node.tlo == self.tlo" if f == "first_token" else "node.thi == self.thi"], decreases="node.rank")]))
    first("first_token"); first("last_token")
    prop = lambda f: reg.add(Contract(K + f, params={"self": NODE}, returns="int", free=free,
        requires=WF_DOWN + CTX,
        ensures=["implies(self.tlo == self.thi, result == 0)", "implies(self.tlo < self.thi, result == %s)" % ("toks[self.tlo].pos" if f == "pos" else "toks[self.thi - 1].end")],
        loops=[Loop(inv=["node.intree", "node.tlo < node.thi", "node.tlo == self.tlo" if f == "pos" else "node.thi == self.thi"], decreases="node.rank")]))
    prop("pos"); prop("end")
    reg.add(Contract(K + "find_token_after", params={"self": NODE, "pos": "int"}, returns="opt[obj:node]", free=free,
        requires=WF_DOWN + CTX,
        ensures=["implies(result is None, all(toks[k].pos < pos for k in range(self.tlo, self.thi)))",
          "implies(result is not None, result.is_token and self.tlo <= result.tlo < self.thi and toks[result.tlo] is result and result.pos >= pos and "
          "all(toks[k].pos < pos for k in range(self.tlo, result.tlo)))"],
        loops=[Loop(inv=["node.intree", "node.is_context", "self.tlo <= node.tlo and node.thi <= self.thi",
                         "node is self or node.tlo < node.thi and toks[node.thi - 1].pos >= pos",
                         "node.tlo == self.tlo or toks[node.tlo - 1].pos < pos"], decreases="node.rank"),
               Loop(inv=["0 <= i <= hi <= len(node)", "l == len(node)", "i == 0 or toks[node[i - 1].thi - 1].pos < pos", "hi == len(node) or toks[node[hi].thi - 1].pos >= pos",
                         "all(toks[node[k].thi - 1].pos < pos for k in range(i))", "all(toks[node[k].thi - 1].pos >= pos for k in range(hi, len(node)))"],
                    decreases="hi - i")]))
    reg.add(Contract(K + "find_token_before", params={"self": NODE, "pos": "int"}, returns="opt[obj:node]", free=free,
        requires=WF_DOWN + CTX,
        ensures=["implies(result is None, all(toks[k].end > pos for k in range(self.tlo, self.thi)))",
          "implies(result is not None, result.is_token and self.tlo <= result.tlo < self.thi and toks[result.tlo] is result and result.end <= pos and "
          "all(toks[k].end > pos for k in range(result.tlo + 1, self.thi)))"],
        loops=BEFORE_LOOPS("self")))
    # the youngest context at pos: the result contains pos (or is self), and no child context of it does
    reg.add(Contract(K + "find_context", params={"self": NODE, "pos": "int"}, returns="obj:node", free=free,
        requires=WF + CTX,
        ensures=["result.intree and result.is_context and self.tlo <= result.tlo and result.thi <= self.thi",
                 "result is self or result.pos <= pos < result.end",
                 "all(not (result[k].is_context and result[k].pos <= pos and pos < result[k].end) for k in range(len(result)))"],
        loops=[Loop(inv=["node.intree", "node.is_context", "self.tlo <= node.tlo and node.thi <= self.thi",
                         "node is self or node.pos <= pos < node.end",
                         "n.intree and n.parent is node and n.end > pos", "n.idx == 0 or node[n.idx - 1].end <= pos"], decreases="n.rank")]))
    reg.specfuns["walk"] = SpecDef("walk", ["obj:node", "seq[int]"], "obj:node", ["a", "trail"],
        "ite(len(trail) == 0, a, walk(a, take(trail, len(trail) - 1))[trail[len(trail) - 1]])", reg)
    return dict(SCHEMA, methods={"node.find": K + "find", "node.find_left": K + "find_left", "node.first_token": K + "first_token", "node.last_token": K + "last_token",
        "node.find_token_with_trail": K + "find_token_with_trail", "node.find_token_left_with_trail": K + "find_token_left_with_trail"})
