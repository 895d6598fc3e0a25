"""Random languages as JSON-able specs, and a reference lexer for them.

A spec is {"lexicons": [[name, {"flags", "consume", "rules": [...]}], ...]}; the
first lexicon is the root.  A rule is [pattern, action, target...]; patterns,
actions and targets are JSON values, see build() and Ref.

Zero-width rules and default targets only pop, or push lexicons later in the
list, so no language pushes lexicons without bound at one position.
"""
import re
from base import Skip

ACTIONS = ["Text", "Name", "Keyword", "Delimiter", "Literal.String", "Comment", "Literal.Number.Int"]

# (pattern, number of groups, can be zero-width)
PATTERNS = [
    ("a", 0, 0), ("b", 0, 0), ("c", 0, 0), ("ab", 0, 0), ("ba", 0, 0), ("abc", 0, 0), ("aa", 0, 0), ("\\(", 0, 0), ("\\)", 0, 0),
    ("\\n", 0, 0), (" ", 0, 0), ("[ab]+", 0, 0), ("[a-c]", 0, 0), ("\\w+", 0, 0), ("\\s+", 0, 0), ("b+", 0, 0),
    ("(?:ab)+", 0, 0), ("a{2}", 0, 0), (".", 0, 0), ("[^a\\n]+", 0, 0), ("a|b", 0, 0), ("a\\.b", 0, 0), ("\\.", 0, 0),
    ("(a)(b)", 2, 0), ("(a)(b)?", 2, 0), ("(a+)(b*)(c?)", 3, 0), ("(a)|(b)", 2, 0), ("(\\w)(\\s)?(\\w)", 3, 0),
    ("(a)(\\s*)(b)", 3, 0), ("(b)(.)", 2, 0),
    ("a(?=b)", 0, 0), ("(?<=a)b", 0, 0), ("\\bb", 0, 0), ("c$", 0, 0), ("^a", 0, 0), ("b(?!b)", 0, 0),
    ("(?=a)", 0, 1), ("(?=b)", 0, 1), ("(?!a)", 0, 1), ("\\b", 0, 1), ("^", 0, 1), ("$", 0, 1), ("", 0, 1), ("a*", 0, 1),
    ("(?=\\n)", 0, 1), ("b?", 0, 1),
]
# a group in a (bounded) look-ahead: for a derived lexicon only
AHEAD = ["a(?=.?([bc]))", "\\((?=.{0,3}?([ab]))", "b(?=(.))", "c(?=\\s{0,2}(\\w))"]
ZERO = [p for p in PATTERNS if p[2]]
SOLID = [p for p in PATTERNS if not p[2]]
FLAGS = [0, 0, 0, 0, int(re.IGNORECASE), int(re.MULTILINE), int(re.DOTALL)]

ALPHABET = "aaabbbcc  \n(.A)"

def gen_text(rng, maxlen=24, alphabet=ALPHABET):
    n = rng.randint(0, rng.choice((5, 12, maxlen, maxlen)))
    return "".join(rng.choice(alphabet) for _ in range(n))

def gen_language(rng, dynamic=True, zero=True, default_all=False, args=True, using=True, nmax=4, defaults=True, lookaround=True):
    n = rng.randint(1, nmax)
    names = ["root"] + ["l%d" % i for i in range(1, n)]
    lexs = []
    for i, name in enumerate(names):
        rules = []
        for _ in range(rng.choice((0, 1, 1, 2, 3, 3, 4, 5))):
            rules.append(gen_rule(rng, i, names, dynamic, zero, args, using, lookaround))
        d = rng.random()
        if default_all:
            rules.append(["default_action", gen_action(rng, i, names, 0, dynamic, using)])
        elif defaults and d < .35:
            rules.append(["default_action", gen_action(rng, i, names, 0, dynamic, using)])
        elif defaults and d < .6 and zero:
            rules.append(["default_target"] + gen_zero_target(rng, i, names))
        lexs.append([name, {"flags": rng.choice(FLAGS), "consume": rng.random() < .25, "rules": rules}])
    return {"lexicons": lexs}

def gen_rule(rng, i, names, dynamic, zero, args, using, lookaround=True):
    if zero and rng.random() < .18:
        pat, groups, _ = rng.choice(ZERO)
        return [pat, rng.choice(ACTIONS)] + gen_zero_target(rng, i, names)
    if dynamic and args and lookaround and rng.random() < .08:
        t = [["derive1", rng.choice(names)]] + ([rng.choice(names)] if rng.random() < .5 else [])
        return [rng.choice(AHEAD), rng.choice(ACTIONS)] + ([-1] if rng.random() < .2 else []) + t
    while True:
        pat, groups, _ = rng.choice(SOLID)
        if lookaround or not re.search(r"\(\?|\\b|\$|\^", pat) or pat == "(?:ab)+" or pat == "[^a\\n]+":
            break
    r = rng.random()
    if dynamic and r < .12:
        ws = [w for w in ("a", "ab", "abc", "b", "ba", "c", "bb", "aab") if rng.random() < .5] or ["a"]
        pat, groups = ["words", ws], 0
    elif dynamic and r < .2:
        pat, groups = ["chars", rng.choice(("ab", "a", "c(", "^-]", " \n")), rng.random() < .7], 0
    elif dynamic and args and r < .3:
        pat, groups = ["arg", rng.choice(("a", None))], 0
    elif dynamic and args and r < .34:
        pat, groups = ["ifarg", "b", rng.choice(("a", None))], 0
    act = gen_action(rng, i, names, groups, dynamic, using)
    return [pat, act] + gen_target(rng, i, names, dynamic, args, groups)

def gen_action(rng, i, names, groups, dynamic, using, depth=0):
    r = rng.random()
    if groups and r < .6 and depth == 0:
        return ["bygroup"] + [gen_action(rng, i, names, 0, dynamic, using, 1) for _ in range(groups)]
    if r < .68 and using and i + 1 < len(names):
        return ["using", rng.choice(names[i+1:])]
    if r < .74:
        return ["skip"]
    if dynamic and r < .9:
        A = lambda: rng.choice(ACTIONS)
        k = rng.choice(("ifeq", "ifmember", "dselect", "ifarg") + (("ifgroup", "gselect") if groups else ()))
        if k == "ifarg" and depth:
            k = "ifeq"
        if k == "ifeq": return ["ifeq", rng.choice(("a", "b", "ab", " ")), A(), A()]
        if k == "ifmember": return ["ifmember", ["a", "b", "c"][:rng.randint(0, 3)], A(), A()]
        if k == "dselect": return ["dselect", {"a": A(), "b": A(), "ab": A()}, A()]
        if k == "ifarg": return ["ifarg", A(), A()]
        if k == "ifgroup": return ["ifgroup", rng.randint(1, groups), A(), A()]
        return ["gselect", [rng.choice((A(), None)) if q else A() for q in range(groups)], A()]
    return rng.choice(ACTIONS)

def gen_zero_target(rng, i, names):
    t = []
    if rng.random() < .5:
        t.append(-rng.randint(1, 2))
    if i + 1 < len(names) and (not t or rng.random() < .3):
        for _ in range(rng.choice((1, 1, 2))):
            prev = i if not t or isinstance(t[-1], int) else names.index(t[-1])
            if prev + 1 < len(names):
                t.append(rng.choice(names[prev+1:]))
    return t or [-1]

def gen_target(rng, i, names, dynamic, args, groups):
    r = rng.random()
    if r < .4:
        return []
    t = []
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        r = rng.random()
        if r < .35: t.append(rng.choice((-1, -1, -1, -2, -3)))
        elif r < .45: t.append(rng.choice((1, 1, 2, 0)))
        elif r < .6 and dynamic and args: t.append(["derive", rng.choice(names), "TEXT"])
        elif r < .7 and dynamic:
            t.append(["ifeq", rng.choice(("a", "b", "ab")), [rng.choice(names)], rng.choice(([-1], [], [rng.choice(names)]))])
        else: t.append(rng.choice(names))
    return t

# ----------------------------------------------------------------- building

_count = [0]

def build(spec, **attrs):
    """Build the real Language class.

    If the spec has a "split", the lexicons from that number on belong to a second language, available as lang.other.
    """
    import parce, parce.action, parce.rule as R
    from parce import lexicon, Language, default_action, default_target, skip
    def action(name):
        return resolve_action(name)
    def mk(cls, rule):
        pat = rule[0]
        if pat == "default_action":
            return (default_action, act(cls, rule[1]))
        if pat == "default_target":
            return (default_target, *[tgt(cls, t) for t in rule[1:]])
        if isinstance(pat, list):
            if pat[0] == "words": pat = R.words(pat[1])
            elif pat[0] == "chars": pat = R.chars(pat[1], pat[2])
            elif pat[0] == "arg": pat = R.arg(default=pat[1])
            elif pat[0] == "ifarg": pat = R.ifarg(pat[1], pat[2])
        return (pat, act(cls, rule[1]), *[tgt(cls, t) for t in rule[2:]])
    def act(cls, a):
        if a is None: return None
        if isinstance(a, str): return action(a)
        op = a[0]
        if op == "bygroup": return R.bygroup(*[act(cls, x) for x in a[1:]])
        if op == "using": return R.using(lex(cls, a[1]))
        if op == "skip": return skip
        if op == "ifeq": return R.ifeq(R.TEXT, a[1], action(a[2]), action(a[3]))
        if op == "ifmember": return R.ifmember(R.TEXT, a[1], action(a[2]), action(a[3]))
        if op == "dselect": return R.dselect(R.TEXT, {k: action(v) for k, v in a[1].items()}, action(a[2]))
        if op == "ifarg": return R.select(R.call(bool, R.ARG), action(a[2]), action(a[1]))
        if op == "ifgroup": return R.ifgroup(a[1], action(a[2]), action(a[3]))
        if op == "gselect": return R.gselect(*[act(cls, x) for x in a[1]], default=action(a[2]))
        raise ValueError(a)
    def tgt(cls, t):
        if isinstance(t, int): return t
        if isinstance(t, str): return lex(cls, t)
        if t[0] == "derive1": return R.derive(lex(cls, t[1]), R.MATCH[1])
        if t[0] == "derive": return R.derive(lex(cls, t[1]), R.TEXT)
        if t[0] == "ifeq": return R.ifeq(R.TEXT, t[1], tuple(tgt(cls, x) for x in t[2]), tuple(tgt(cls, x) for x in t[3]))
        raise ValueError(t)
    split = spec.get("split")
    names = [n for n, d in spec["lexicons"]]
    langs = []
    def lex(cls, name):
        if split:
            cls = langs[names.index(name) >= split]
        return getattr(cls, name)
    ns = dict(attrs)
    ns2 = {}
    for k, (name, d) in enumerate(spec["lexicons"]):
        def func(cls, rules=d["rules"]):
            for r in rules:
                yield mk(cls, r)
        func.__name__ = func.__qualname__ = name
        (ns2 if split and k >= split else ns)[name] = lexicon(re_flags=d["flags"], consume=d["consume"])(func)
    _count[0] += 1
    lang = type(Language)(attrs.pop("name", "Lang"), (Language,), ns)
    if split:
        lang.other = type(Language)("Other", (Language,), ns2)
        langs += [lang, lang.other]
    return lang

_acts = {}
def resolve_action(name):
    a = _acts.get(name)
    if a is None:
        import parce.action
        first, *rest = name.split(".")
        a = getattr(parce.action, first)
        for r in rest:
            a = getattr(a, r)
        _acts[name] = a
    return a

def action_name(a):
    return repr(a)

# ----------------------------------------------------------------- reference

class Bail(Exception):
    """A circular zero-width jump: what follows is not prescribed."""

class Ref:
    """Reference lexer: interprets the spec directly."""
    def __init__(self, spec):
        self.spec = spec
        self.lex = dict((n, d) for n, d in spec["lexicons"])
        self.compiled = {}
        self.leading_gap = False

    def compile(self, state):
        c = self.compiled.get(state)
        if c is None:
            c = self.compiled[state] = self._compile(*state)
        return c

    def _compile(self, name, arg):
        d = self.lex[name]
        pats, rules, default = [], [], None
        daction = dtarget = None
        for r in d["rules"]:
            p = r[0]
            if p == "default_action": daction = ("action", r[1]); continue
            if p == "default_target": dtarget = ("target", r[1:]); continue
            if isinstance(p, list):
                if p[0] == "words": p = "|".join(re.escape(w) for w in sorted(set(p[1]), key=lambda w: (-len(w), w)))
                elif p[0] == "chars": p = "[" + ("" if p[2] else "^") + "".join("\\u%04x" % ord(c) for c in p[1]) + "]"
                elif p[0] == "arg": p = re.escape(arg) if isinstance(arg, str) else p[1]
                elif p[0] == "ifarg": p = p[1] if arg else p[2]
            if p is None: continue
            pats.append(p); rules.append(r)
        default = daction or dtarget   # a default action takes precedence
        rx = re.compile("|".join("(?P<r%d>%s)" % (i, p) for i, p in enumerate(pats)), d["flags"]) if pats else None
        return rx, rules, default

    def parse(self, state, text, pos):
        """Yield (pos, text, match, first group, rule) in the given lexicon."""
        rx, rules, default = self.compile(state)
        def hit(m):
            for i, r in enumerate(rules):
                if m.group("r%d" % i) is not None:
                    return m.start(), m.group(), m, rx.groupindex["r%d" % i], r
        if default and default[0] == "target":
            while rx:
                m = rx.match(text, pos)
                if not m: break
                yield hit(m)
                if m.end() == pos: break
                pos = m.end()
            if pos < len(text):
                yield pos, "", None, 0, ["", None] + default[1]
            return
        if rx:
            for m in rx.finditer(text, pos):
                if default and m.start() > pos:
                    yield pos, text[pos:m.start()], None, 0, ["", default[1]]
                yield hit(m)
                pos = m.end()
        if default and pos < len(text):
            yield pos, text[pos:], None, 0, ["", default[1]]

    def lexemes(self, act, state, pos, text, m, base, depth):
        if text is None: return
        if isinstance(act, list):
            op = act[0]
            if op == "bygroup":
                for k, a in enumerate(act[1:], 1):
                    yield from self.lexemes(a, state, m.start(base + k), m.group(base + k), m, base, depth)
                return
            if op == "using":
                if depth > 8: raise Skip()
                for st, lx in self.events(text, 0, [(act[1], None)], depth + 1):
                    for p, t, a in lx:
                        yield pos + p, t, a
                return
            if op == "skip": return
            if op == "ifeq": act = act[2] if text == act[1] else act[3]
            elif op == "ifmember": act = act[2] if text in act[1] else act[3]
            elif op == "dselect": act = act[1].get(text, act[2])
            elif op == "ifarg": act = act[1] if state[1] else act[2]
            elif op == "ifgroup": act = act[2] if m.group(base + act[1]) is not None else act[3]
            elif op == "gselect":
                for k, a in enumerate(act[1], 1):
                    if a is not None and m.group(base + k) is not None:
                        act = a; break
                else: act = act[2]
        if text:
            yield pos, text, act

    def targets(self, ts, text, state, m=None, base=0):
        for t in ts:
            if isinstance(t, int):
                if t < 0: yield t
                else:
                    for _ in range(t): yield state
            elif isinstance(t, str): yield (t, None)
            elif t[0] == "derive": yield (t[1], text)
            elif t[0] == "derive1": yield (t[1], m.group(base + 1))
            elif t[0] == "ifeq":
                yield from self.targets(t[2] if text == t[1] else t[3], text, state, m, base)

    def events(self, text, pos=0, stack=None, depth=0):
        """Yield (stack, lexemes); raises Bail at a circular jump."""
        stack = list(stack or [("root", None)])
        seen = {tuple(stack)}
        steps = 0
        while True:
            steps += 1
            if steps > 2000 or len(stack) > 300: raise Skip()
            state = stack[-1]
            for p, txt, m, base, rule in self.parse(state, text, pos):
                ts = list(self.targets(rule[2:], txt, state, m, base))
                lx = (lambda: tuple(self.lexemes(rule[1], state, p, txt, m, base, depth))) if txt else (lambda: ())
                if not ts:
                    l = lx()
                    if l and l[0][0] != p and not depth: self.leading_gap = True
                    if l: yield tuple(stack), l
                    continue
                new = list(stack); marks = [False] * len(new)
                for t in ts:
                    if isinstance(t, int):
                        for _ in range(min(-t, len(new) - 1)):
                            new.pop(); marks.pop()
                    else:
                        new.append(t); marks.append(True)
                if txt:
                    first = marks[-1] and self.lex[new[-1][0]]["consume"]
                    if not any(marks) and len(new) == len(stack) and False: pass
                    l = lx()
                    if l and l[0][0] != p and not depth: self.leading_gap = True
                    if l: yield (tuple(new) if first else tuple(stack)), l
                    stack = new
                    pos = p + len(txt)
                    seen = {tuple(stack)}
                else:
                    if p != pos: seen = {tuple(stack)}
                    pos = p
                    stack = new
                    if tuple(stack) in seen:
                        raise Bail()
                    seen.add(tuple(stack))
                break
            else:
                return

    def run(self, text, pos=0, stack=None):
        """Return (events, complete)."""
        ev = []
        try:
            for e in self.events(text, pos, stack):
                ev.append(e)
        except Bail:
            return ev, False
        return ev, True

def gen_rich(rng, maxlen=40, want=3, fix=lambda spec: None, **kw):
    """A (spec, text) pair that mostly gives several lexemes and nested lexicons."""
    best = None
    for _ in range(6):
        spec, text = gen_language(rng, **kw), gen_text(rng, maxlen)
        fix(spec)
        try:
            ev, _c = Ref(spec).run(text)
        except (Skip, RecursionError):
            continue
        score = sum(len(lx) for st, lx in ev) + 2 * max((len(st) for st, lx in ev), default=0) 
        if best is None or score > best[0]:
            best = (score, spec, text)
        if score >= want + 5 or rng.random() < .08:
            break
    if best is None:
        spec = gen_language(rng, **kw)
        fix(spec)
        return spec, gen_text(rng, maxlen)
    return best[1], best[2]

def gen_case(rng, maxlen=40, mode="any", **kw):
    spec, text = gen_rich(rng, maxlen, **kw)
    return {"mode": mode, "spec": spec, "text": text}
