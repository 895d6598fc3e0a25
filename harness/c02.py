"""C02: targets replay the lexicon stack; the root is never popped; combining targets."""
from base import *
import langgen, samples_util

RULE = ("random languages and texts: targets of the events folded over the stack and compared with Lexer.lexicons and with a reference "
        "lexer; random sequences of targets folded through TargetFactory; non-trivial: at least two events or targets")
SHRINK = ("text", "ops")

def gen(rng):
    r = rng.random()
    if r < .15:
        return samples_util.gen_sample(rng)
    if r < .4:
        ops = []
        for _ in range(rng.randint(1, 8)):
            k = rng.random()
            if k < .5: ops.append(["add", -rng.randint(0, 3), [rng.choice("pqrs") for _ in range(rng.randint(0, 3))]])
            elif k < .65: ops.append(["push", [rng.choice("pqrs") for _ in range(rng.randint(0, 3))]])
            elif k < .8: ops.append(["pop", -rng.randint(0, 4)])
            elif k < .9: ops.append(["none"])
            else: ops.append(["get"])
        return {"mode": "factory", "ops": ops}
    if r < .5:
        return {"mode": "make", "ops": [rng.choice((-1, -2, -3, 0, 1, 2, "p", "q")) for _ in range(rng.randint(0, 6))]}
    n = rng.choice((1, 1, 2, 3))
    spec, text = langgen.gen_rich(rng)
    names = [l[0] for l in spec["lexicons"]]
    return {"mode": "any", "spec": spec, "text": text, "start": rng.choice((0, 0, 2)),
            "stack": [rng.choice(names) for _ in range(n)] if n > 1 else ["root"]}

def apply(stack, target):
    """Follow a target as documented: first leave -pop lexicons, then enter push."""
    if target is None:
        return stack
    expect(isinstance(target.pop, int) and target.pop <= 0, "pop %r", target.pop)
    expect(isinstance(target.push, tuple), "push %r", target.push)
    expect(target.pop or target.push, "a target without effect")
    expect(-target.pop < len(stack), "target %r leaves the root (stack %r)", target, stack)
    stack = stack[:len(stack) + target.pop] if target.pop else stack
    return stack + list(target.push)

def check(case):
    from parce.lexer import Lexer
    from parce.target import TargetFactory, Target
    if case["mode"] == "factory":
        base = ["b%d" % i for i in range(60)]
        f = TargetFactory()
        stack = list(base)     # what following one after another gives
        done = list(base)      # what following the combined targets gives
        for op in case["ops"]:
            if op[0] == "add":
                f.add(Target(op[1], tuple(op[2])))
                stack = stack[:len(stack) + op[1]] + op[2]
            elif op[0] == "push":
                f.push(*op[1]); stack = stack + op[1]
            elif op[0] == "pop":
                f.pop(op[1]); stack = stack[:len(stack) + op[1]]
            elif op[0] == "none":
                f.add(None)
            else:
                done = apply(done, f.get())
                expect_eq(done, stack, "stack after combined target")
        done = apply(done, f.get())
        expect_eq(done, stack, "stack after combined target")
        expect(f.get() is None, "get() did not reset the factory")
        return len(case["ops"]) if len(case["ops"]) > 1 else None
    if case["mode"] == "make":
        stack = ["b%d" % i for i in range(40)]
        done = apply(list(stack), TargetFactory.make("self", tuple(case["ops"])))
        for t in case["ops"]:
            if isinstance(t, str): stack.append(t)
            elif t < 0: del stack[t:]
            else: stack.extend(["self"] * t)
        expect_eq(done, stack, "stack after make()")
        return len(case["ops"]) if len(case["ops"]) > 1 else None
    text = case["text"]
    if case["mode"] == "sample":
        init = [samples_util.root_lexicon(case["lang"])]
        start, want = 0, None
    else:
        start = min(case["start"], len(text))
        ref = langgen.Ref(case["spec"])
        want, complete = ref.run(text, start, [(n, None) for n in case["stack"]])
        lang = langgen.build(case["spec"])
        init = [getattr(lang, n) for n in case["stack"]]
    lexer = Lexer(init)
    stack = list(init)
    n = 0
    for e in lexer.events(text, start):
        stack = apply(stack, e.target)
        cur = lexer.lexicons
        expect(len(cur) == len(stack) and all(a is b for a, b in zip(cur, stack)),
               "replayed stack %r, active lexicons %r at %r", stack, cur, e)
        expect(cur[0] is init[0], "root lexicon was left")
        if want is not None and n < len(want):
            expect_eq([(l.name, l.arg) for l in stack], list(want[n][0]), "active lexicons at event %d" % n)
        n += 1
    expect(lexer.lexicons and lexer.lexicons[0] is init[0], "root lexicon was left")
    if want is not None and complete:
        expect_eq(n, len(want), "number of events")
    return n if n > 1 else None
