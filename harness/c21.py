"""C21: events call connected slots exactly as often and in the order requested."""
import contextlib, gc
from base import expect, expect_eq
from parce.util import Observable

RULE = ("2-14 random operations on an Observable: connect (function or weakly referenced method, once, prepend_self, priority), disconnect, "
        "disconnect_all, emit with arguments, dropping a method's object; slots perform scripted operations themselves while being called "
        "(connect, disconnect, nested emit); the calls are compared with a list model; non-trivial: two slots connected at an emit")
SHRINK = ("ops",)
N = 5       # slots 0-2 are functions, 3-4 methods

def op(rng, depth):
    k = rng.randint(0, 11)
    ev = rng.choice("ab") if rng.random() < .3 else "a"
    s = rng.randrange(N)
    if k <= 4: return ["connect", ev, s, rng.random() < .25, rng.random() < .3, rng.choice((0, 0, 0, 1, -1, 2))]
    if k <= 6: return ["disconnect", ev, s]
    if k == 7: return ["all", ev if rng.random() < .8 else None]
    if k == 8 and rng.random() < .4: return ["drop", rng.choice((3, 4))]
    return ["emit", ev, rng.randint(0, 3)]

def gen(rng):
    ops = [["connect", "a", rng.randrange(N), rng.random() < .2, rng.random() < .2, rng.choice((0, 0, 1, -1))] for _ in range(rng.randint(0, 4))]
    ops += [op(rng, 0) for _ in range(rng.randint(2, 10))] + [["emit", "a", 1]]
    bodies = [[op(rng, 1) for _ in range(rng.choice((0, 0, 0, 1, 2)))] for _ in range(N)]
    return {"ops": ops, "bodies": bodies, "cm": rng.random() < .3}

def check(case):
    bodies = case["bodies"]
    real, model = [], []
    live = {3: True, 4: True}
    # --- the real thing
    o = Observable()
    budget = [60]
    class Obj:
        def __init__(self, n): self.n = n
        def slot(self, *args, **kw): return called(self.n, args, kw)
    def make(n):
        def f(*args, **kw): return called(n, args, kw)
        return f
    funcs = {n: make(n) for n in range(3)}
    objs = {3: Obj(3), 4: Obj(4)}
    def func(n): return funcs[n] if n < 3 else objs[n].slot if n in objs else None
    depth = [0]
    def called(n, args, kw):
        real.append(("call", n, tuple("SELF" if a is o else a for a in args), tuple(kw.items())))
        depth[0] += 1
        if depth[0] <= 3:
            for x in bodies[n]:
                if x[0] != "drop": do(x)
        depth[0] -= 1
        if case["cm"] and n % 2:
            @contextlib.contextmanager
            def cm():
                real.append(("enter", n))
                yield
                real.append(("exit", n))
            return cm()
        return n
    def do(x):
        k = x[0]
        if budget[0] <= 0: return
        budget[0] -= 1
        if k == "connect":
            if func(x[2]): o.connect(x[1], func(x[2]), x[3], x[4], x[5])
        elif k == "disconnect":
            if func(x[2]): o.disconnect(x[1], func(x[2]))
        elif k == "all": o.disconnect_all(x[1])
        elif k == "drop":
            objs.pop(x[1], None); gc.collect() if False else None
        elif k == "emit":
            real.append(("emit", x[1], x[2]))
            with o.emit(x[1], *range(x[2]), key=x[2]):
                real.append(("in", x[1]))
            real.append(("out", x[1]))
        check_state()
    # --- the model: a list of connections per event: [slot, once, prepend, priority]
    conns = {}
    dead = set()
    mbudget, mdepth = [60], [0]
    def mcalled(n, args, kw):
        model.append(("call", n, args, kw))
        mdepth[0] += 1
        if mdepth[0] <= 3:
            for x in bodies[n]:
                if x[0] != "drop": mdo(x)
        mdepth[0] -= 1
        return n if case["cm"] and n % 2 else None
    states, mstates = [], []
    def check_state():
        states.append([[o.is_connected(ev, func(n)) if func(n) else None for n in range(N)] for ev in "ab"])
    def mdo(x):
        k = x[0]
        if mbudget[0] <= 0: return
        mbudget[0] -= 1
        if k == "connect":
            l = conns.setdefault(x[1], [])
            if x[2] not in dead and not any(c[0] == x[2] for c in l):
                i = len([c for c in l if c[3] <= x[5]])
                l.insert(i, [x[2], x[3], x[4], x[5]])
        elif k == "disconnect":
            if x[2] not in dead:
                l = conns.get(x[1], [])
                l[:] = [c for c in l if c[0] != x[2]]
        elif k == "all":
            for ev in ([x[1]] if x[1] else list(conns)): conns[ev] = []
        elif k == "drop":
            dead.add(x[1])
        elif k == "emit":
            model.append(("emit", x[1], x[2]))
            cms = []
            for c in list(conns.get(x[1], [])):
                if not any(d is c for d in conns.get(x[1], [])): continue
                if c[1]: conns[x[1]] = [d for d in conns[x[1]] if d is not c]
                if c[0] in dead:
                    conns[x[1]] = [d for d in conns[x[1]] if d is not c]
                    continue
                r = mcalled(c[0], (("SELF",) if c[2] else ()) + tuple(range(x[2])), (("key", x[2]),))
                if r is not None:
                    model.append(("enter", r)); cms.append(r)
            model.append(("in", x[1]))
            for r in reversed(cms): model.append(("exit", r))
            model.append(("out", x[1]))
        mstates.append([[any(c[0] == n for c in conns.get(ev, [])) if n not in dead else None for n in range(N)] for ev in "ab"])
    multi = 0
    for x in case["ops"]:
        if x[0] == "emit" and len(conns.get(x[1], [])) > 1: multi += 1
        mdo(x)
        do(x)
        expect_eq(real, model, "calls after %r" % (x,))
        expect_eq(states, mstates, "connections after %r" % (x,))
        for ev in "ab":
            alive = [c for c in conns.get(ev, []) if c[0] not in dead]
            if alive: expect(o.has_connections(ev), "has_connections(%r) is false", ev)
            if not conns.get(ev): expect(not o.has_connections(ev), "has_connections(%r) is true", ev)
    return [multi] if multi else None
