"""C03: lexing terminates."""
from base import *
import langgen, samples_util

RULE = ("random languages rich in zero-width rules and default targets (that do not push without bound), all texts up to 30 "
        "characters; the lexer and the tree builder must finish within a CPU limit; non-trivial: a zero-width rule or default target is present")
SHRINK = ("text",)
CPU_LIMIT = 8

def gen(rng):
    if rng.random() < .05:
        return samples_util.gen_sample(rng)
    spec = langgen.gen_language(rng, dynamic=rng.random() < .4)
    names = [l[0] for l in spec["lexicons"]]
    for i, (name, d) in enumerate(spec["lexicons"]):
        if rng.random() < .5:
            r = [rng.choice(langgen.ZERO)[0], "Text"] + (langgen.gen_zero_target(rng, i, names) if rng.random() < .8 else [])
            d["rules"].insert(rng.randint(0, len(d["rules"])), r)
        if rng.random() < .3 and not any(str(r[0]).startswith("default") for r in d["rules"]):
            d["rules"].append(["default_target"] + langgen.gen_zero_target(rng, i, names))
    return {"mode": "any", "spec": spec, "text": langgen.gen_text(rng, 30)}

def check(case):
    from parce.lexer import Lexer
    from parce.treebuilder import build_tree
    text = case["text"]
    if case["mode"] == "sample":
        root = samples_util.root_lexicon(case["lang"])
    else:
        root = langgen.build(case["spec"]).root
    n = 0
    end = 0
    for e in Lexer([root]).events(text):
        n += 1
        expect(n <= 4 * len(text) + 10, "more events than characters")
    build_tree(root, text)
    if case["mode"] == "sample":
        return n or None
    import json
    s = json.dumps(case["spec"])
    return n if text and ("default_target" in s or any(json.dumps(p[0]) in s for p in langgen.ZERO if p[0])) else None
