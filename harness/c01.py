"""C01: lexemes are exact, ordered, non-overlapping slices; default actions cover the text."""
import os, random
from base import *
import langgen, samples_util

RULE = ("random language specs (1-4 lexicons, static/dynamic/sub-group/delegating/skipping actions, zero-width rules, default actions "
        "and targets) and texts, plus mutated sample texts for the bundled languages; non-trivial: at least two lexemes")
SHRINK = ("text",)

def gen(rng):
    r = rng.random()
    if r < .12:
        return samples_util.gen_sample(rng)
    if r < .4:
        return langgen.gen_case(rng, mode="cover", zero=False, default_all=True)
    return dict(langgen.gen_case(rng), start=rng.choice((0, 0, 0, 1, 3)))

def has_skip(spec):
    import json
    s = json.dumps(spec)
    return '"skip"' in s or "bygroup" in s

def check_lexemes(events, text, pos=0):
    n = 0
    for e in events:
        expect(len(e.lexemes) > 0, "event without lexemes")
        for lx in e.lexemes:
            p, t, a = lx
            expect(isinstance(t, str) and len(t) > 0, "empty lexeme %r", lx)
            expect(p >= pos, "lexeme %r overlaps or goes back (previous end %d)", lx, pos)
            expect_eq(text[p:p+len(t)], t, "text at lexeme position %d" % p)
            pos = p + len(t)
            n += 1
    return n

def check(case):
    from parce.lexer import Lexer
    text = case["text"]
    if case["mode"] == "sample":
        lex = samples_util.root_lexicon(case["lang"])
        n = check_lexemes(Lexer([lex]).events(text), text)
        return n if n > 1 else None
    start = min(case.get("start", 0), len(text))
    ref = langgen.Ref(case["spec"])
    want, complete = ref.run(text, start)
    lang = langgen.build(case["spec"])
    events = list(Lexer([lang.root]).events(text, start))
    n = check_lexemes(events, text, start)
    got = [tuple((p, t, repr(a)) for p, t, a in e.lexemes) for e in events]
    want = [tuple((p, t, repr(langgen.resolve_action(a))) for p, t, a in lx) for st, lx in want]
    expect_eq(got if complete else got[:len(want)], want, "lexemes")
    if case["mode"] == "cover" and not has_skip(case["spec"]):
        expect_eq("".join(t for e in events for p, t, a in e.lexemes), text[start:], "covered text")
    return n if n > 1 else None
