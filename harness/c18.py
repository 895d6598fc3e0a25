"""C18: generated regular expressions match exactly the given words or characters."""
import itertools, re
from base import expect, expect_eq
from parce import regex, rule

RULE = ("random word lists (0-20 words, random and derived by adding, removing, doubling letters, or by products, repetitions and unions of small sets, also with characters that are special "
        "in regular expressions); the expression must match all words, no other text of a generated set (all short strings over the "
        "letters used, edited words) and the longest word at each place; random character sets; random patterns that to_string may "
        "take for plain text, compared with re over random texts; non-trivial: at least two words")
SHRINK = ("words", "chars", "pat", "texts")
ALPHA = ["ab", "abc", "ab", "a", "a.b", "ab-]", "a\\n", "^-]", "a ", "a\n#", "aé", "a*+?", "(|)", "{}1", "a\U0001d11e"]
PIECES = ["a", "b", "\\.", ".", "\\\\", "\\n", "\n", "\\x41", "\\x4", "\\101", "\\0", "\\07", "\\1", "\\18", "\\u0041", "\\U0001d11e", "\\U00110000", "\\N{DIGIT ONE}", "\\N{NOPE}",
          "\\d", "\\w", "\\b", "\\A", "\\Z", "\\s", "-", "#", " ", "\\ ", "\\-", "/", "\\/", "\"", "'", "\\t", "\\f", "\\v", "\\a", "\\r", "&", "~", "\\*", "\\+", "\\[", "\\]",
          "\\{", "\\}", "{", "}", "]", "[", "+", "*", "?", "|", "$", "^", "(", ")", "\\(", "\\)", "é", "A", "1", "\\^", "\\$", "\\|", "\\?", "{2}", "\\x0a", "\\012"]

def gen(rng):
    kind = rng.choice(("words", "words", "words", "chars", "string", "string"))
    if kind == "words" and rng.random() < .4:
        # products, repetitions and unions of small sets: what the trie can merge
        al = rng.choice(ALPHA)
        def expr(depth):
            k = rng.randint(0, 5) if depth else 0
            if k <= 1:
                l = ["".join(rng.choice(al) for _ in range(rng.choice((1, 1, 1, 2, 3)))) for _ in range(rng.choice((1, 1, 2, 2, 3)))]
            elif k == 2:
                e = expr(depth - 1)
                l = ["".join(x) for x in itertools.product(e, repeat=rng.choice((2, 2, 3)))] if len(e) <= 3 else e
            elif k == 3:
                l = [x + y for x in expr(depth - 1)[:6] for y in expr(depth - 1)[:6]]
            elif k == 4:
                l = expr(depth - 1) + expr(depth - 1)
            else:
                l = [""] + expr(depth - 1)
            return list(dict.fromkeys(l))[:30]
        words = expr(rng.randint(1, 3))
        rng.shuffle(words)
        return {"kind": kind, "words": words, "form": rng.randint(0, 3)}
    if kind == "words":
        al = rng.choice(ALPHA)
        words = []
        for _ in range(rng.choice((0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 20))):
            if words and rng.random() < .7:
                w = rng.choice(words)
                k = rng.randint(0, 5)
                i = rng.randint(0, len(w))
                if k == 0: w = w + rng.choice(al)
                elif k == 1: w = w[:i]
                elif k == 2: w = w[:i] + rng.choice(al) + w[i:]
                elif k == 3: w = w + w[-1:]
                elif k == 4: w = w[:i] + rng.choice(al) + w[i + 1:]
                else: w = rng.choice(words) + w if len(w) < 8 else w
            else:
                w = "".join(rng.choice(al) for _ in range(rng.randint(1 if rng.random() < .9 else 0, 5)))
            words.append(w)
        return {"kind": kind, "words": words, "form": rng.randint(0, 3)}
    if kind == "chars":
        base = rng.choice((range(32, 127), range(0, 256), [ord(c) for c in "\\]^-[a&~|"], range(0x3040, 0x3060), [9, 10, 11, 12, 13, 32, 35]))
        base = list(base)
        cs = set()
        for _ in range(rng.randint(1, 6)):
            i = rng.randrange(len(base))
            cs.update(base[i:i + rng.choice((1, 1, 2, 3, 8))])
        cs = [chr(c) for c in cs]
        rng.shuffle(cs)
        return {"kind": kind, "chars": cs}
    pat = "".join(rng.choice(PIECES) for _ in range(rng.randint(1, 5)))
    return {"kind": kind, "pat": pat}

def samples(words):
    al = sorted(set("".join(words)))[:6] + ["z"]
    s = {""}
    n = 5 if len(al) <= 3 else 4 if len(al) <= 4 else 3
    for k in range(1, n + 1):
        s.update(map("".join, itertools.product(al, repeat=k)))
    for w in words:
        s.add(w)
        for i in range(len(w) + 1):
            s.add(w[:i]); s.add(w[i:])
            for c in al:
                s.add(w[:i] + c + w[i:]); s.add(w[:i] + c + w[i + 1:])
            s.add(w[:i] + w[i + 1:])
            s.add(w[:i] + w[i:i+1] + w[i:])
        for v in words:
            s.add(w + v)
            s.add(w[:len(w) // 2] + v[len(v) // 2:])
    return s

def check(case):
    kind = case["kind"]
    if kind == "words":
        words = case["words"]
        form = case["form"]
        arg = list(words) if form == 0 else tuple(words) if form == 1 else (w for w in words) if form == 2 else {w: 1 for w in words}.keys()
        if not words:
            return None
        expr = regex.words2regexp(arg)
        rx = re.compile(expr)
        expect_eq(rx.groups, 0, "groups in %r" % expr)
        ws = set(words)
        bylen = sorted(ws, key=len, reverse=True)
        for s in sorted(samples(words), key=lambda x: (len(x), x)):
            expect_eq(bool(rx.fullmatch(s)), s in ws, "fullmatch of %r with %r, made from %r" % (s, expr, sorted(ws)))
            m = rx.match(s)
            want = next((w for w in bylen if s.startswith(w)), None)
            expect_eq(m.group() if m else None, want, "match at the start of %r with %r, made from %r" % (s, expr, sorted(ws)))
        e2 = rule.words(list(words), r"(?<!z)", r"(?!z)")
        rx2 = re.compile(e2)
        for w in ws:
            expect(rx2.fullmatch(w), "words() with prefix and suffix does not match %r", w)
        if "" not in ws:
            for w in ws:
                expect(not rx2.fullmatch("z" + w, 1), "the prefix of words() does not apply to %r", w)
                m = rx2.match(w + "z")
                expect(not m or m.end() < len(w) or m.group() != w, "the suffix of words() does not apply to %r", w)
        return [len(ws)] if len(ws) > 1 else None
    if kind == "chars":
        cs = case["chars"]
        if not cs: return None
        for arg in (cs, "".join(cs), set(cs), (c for c in cs)):
            cl = regex.make_charclass(arg)
            pos, neg = re.compile("[" + cl + "]"), re.compile("[^" + cl + "]")
        pos2, neg2 = re.compile(rule.chars(cs)), re.compile(rule.chars(cs, False))
        near = {chr(c + d) for c in map(ord, cs) for d in (-2, -1, 0, 1, 2) if 0 <= c + d < 0x110000}
        for c in sorted(near | {chr(i) for i in range(256)}):
            for rx, want in ((pos, c in cs), (neg, c not in cs), (pos2, c in cs), (neg2, c not in cs)):
                expect_eq(bool(rx.fullmatch(c)), want, "class %r made of %r and character %r" % (rx.pattern, "".join(cs), c))
        return [len(cs)] if len(cs) > 1 else None
    pat = case["pat"]
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rx = re.compile(pat)
    except (re.error, OverflowError, ValueError):
        return None
    s = regex.to_string(pat)
    if s is None:
        return None
    expect(isinstance(s, str), "to_string(%r) is %r", pat, s)
    expect(rx.fullmatch(s), "%r does not match its string %r", pat, s)
    texts = {"", s, s + s, "x" + s + "y", pat, s.upper(), s.swapcase(), s[1:], s[:-1]}
    for i in range(len(s)):
        for c in "ab.\n\t 1A-\\":
            texts.add(s[:i] + c + s[i + 1:]); texts.add(s[:i] + c + s[i:])
    for t in texts:
        expect_eq(bool(rx.fullmatch(t)), t == s, "%r matches %r, but is taken for the string %r" % (pat, t, s))
        m = rx.search(t)
        expect_eq(m.start() if m else -1, t.find(s), "search of %r and find of %r in %r" % (pat, s, t))
    return [1]
