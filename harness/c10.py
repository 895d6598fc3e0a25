"""C10: edits of a document are splices of a string, reported by one notification."""
import re
from base import expect, expect_eq, Skip, rnd_text
from docgen import merged, splice, gen_edits, noops_overlap
from parce.mutablestring import MutableString
from parce.document import Document, Cursor

RULE = ("documents with a random text and 1-4 successive operations: an edit context with 1-5 edits given as slices, indexes "
        "or cursors, nested or cancelled, sometimes overlapping; append/insert/set_text/+=; replace, re_sub, trim, translate on a region; "
        "non-trivial: some operation changed the text or was refused")
SHRINK = ("ops", "text")

PATTERNS = ["a", "a+", "a*", "b|", "|a", r"\b", r"(a)(b?)", "^", "$", r"[ \t]+$", "(?m)^ *", "x?", "[^b]", "$(?m:.)?"]

def gen(rng):
    text = rnd_text(rng, "aab \n\tx", 24)
    ops = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        k = rng.random()
        a, b = rng.randint(0, len(text) + 2), rng.choice((None, rng.randint(0, len(text) + 2), rng.randint(-3, 5)))
        count = rng.choice((0, 0, 0, 1, 2, 3))
        if k < 0.5:
            ops.append(["ctx", gen_edits(rng, len(text), 0.2, "xa \n"), rng.choice((0, 0, 0, 0, 1, 2, 3, 4))])
        elif k < 0.6:
            ops.append(["replace", rng.choice(("a", "aa", "ab", " ", "\n", "ba")), rng.choice(("", "a", "xx", "aa")), a, b, count])
        elif k < 0.7:
            ops.append(["sub", rng.choice(PATTERNS), rng.choice(("", "-", r"<\g<0>>", "a")), a, b, count])
        elif k < 0.77:
            ops.append(["trim", a, b])
        elif k < 0.87:
            keys = {rng.choice(("a", "aa", "aab", "ab", "b", "ba", "x", "xa", "\n", " ")): rnd_text(rng, "ab-", 3) for _ in range(rng.randint(1, 4))}
            ops.append(["translate", keys, a, b, count, rng.random() < 0.4])
        elif k < 0.9:
            ops.append(["set", rnd_text(rng, "ab\n", 10)])
        elif k < 0.94:
            ops.append(["append", rnd_text(rng, "ab\n", 4), rng.random() < 0.5])
        elif k < 0.97:
            ops.append(["insert", rng.randint(0, len(text) + 1), rnd_text(rng, "ab\n", 4)])
        else:
            ops.append(["item", rng.randint(-len(text) - 2, len(text) + 1), rnd_text(rng, "ab", 3)])
    return {"text": text, "ops": ops, "cls": rng.choice(("D", "D", "M"))}

class Stop(Exception):
    pass

def translated(text, mapping, count, whole):
    out, pos, n = [], 0, 0
    keys = sorted(mapping, key=len, reverse=True)
    isw = lambda i: 0 <= i < len(text) and (text[i].isalnum() or text[i] == "_")
    while pos < len(text):
        for k in keys:
            if text.startswith(k, pos) and (not whole or (isw(pos - 1) != isw(pos) and isw(pos + len(k) - 1) != isw(pos + len(k)))):
                if count == 0 or n < count:
                    n += 1
                    out.append(mapping[k]); pos += len(k)
                    break
        else:
            out.append(text[pos]); pos += 1
    return "".join(out)

def check(case):
    text = case["text"]
    notes = []
    if case["cls"] == "M":
        class D(MutableString):
            def text_changed(self, p, r, a):
                notes.append((p, r, a, self.text()))
        d = D(text)
        ops = [o for o in case["ops"] if o[0] in ("ctx", "set", "append", "insert", "item")]
    else:
        d = Document(text)
        d.connect("text_change", lambda p, r, a: notes.append((p, r, a, d.text())))
        ops = case["ops"]
    did = 0
    def same(want, what):
        expect_eq(d.text(), want, what)
        expect_eq(str(d), want, what)
        expect_eq(len(d), len(want), what + ": len")
        n = len(want)
        for s in (0, n // 3, n):
            for e in (0, n // 2, n, n + 2):
                expect_eq(d[s:e], want[s:e], what + ": slice")
        if n:
            expect_eq(d[-1], want[-1], what)
            expect_eq(d[0], want[0], what)
        expect_eq(d + "z", want + "z", what)
        expect_eq("z" + d, "z" + want, what)
    def changed(old, new, changes=None, what=""):
        same(new, what)
        if changes is None:
            if old == new:
                # an edit may still have replaced text by the same text, then a notification is right if it fits
                pass
            else:
                expect(len(notes) == 1, "%s: %d notifications", what, len(notes))
        elif not changes:
            expect(not notes, "%s: notification without a change", what)
        else:
            expect(len(notes) == 1, "%s: %d notifications", what, len(notes))
            s, e = changes[0][0], changes[-1][1]
            expect_eq(notes[0][:3], (s, e - s, len(new) - len(old) + e - s), what + ": notification")
        for p, r, a, t in notes:
            expect(t == new, "%s: notified before the text was changed", what)
            expect(0 <= p and p + r <= len(old) and p + a <= len(new) and
                   old[:p] + new[p:p + a] + old[p + r:] == new, "%s: notification %r does not describe %r -> %r", what, (p, r, a), old, new)
    for op in ops:
        notes.clear()
        k = op[0]
        if k == "ctx":
            edits, mode = op[1], op[2]
            edits = [(min(s, len(text)), max(min(s, len(text)), min(e, len(text))), t) for s, e, t in edits]
            ch = merged(text, edits)
            if noops_overlap(text, edits):
                raise Skip()
            def put(i):
                s, e, t = edits[i]
                form = (i + len(text)) % 5
                if form == 0 and case["cls"] == "D":
                    c = Cursor(d, s, e)
                    if t: d[c] = t
                    else: del d[c]
                elif form == 1 and e == s + 1:
                    d[s] = t
                elif form == 2 and s == e:
                    d.insert(s, t)
                elif form == 3 and not t:
                    del d[s:e]
                elif form == 4 and e == len(text):
                    d[s:] = t
                else:
                    d[s:e] = t
            if mode in (3, 4):
                try:
                    with d:
                        for i in range(len(edits)):
                            if mode == 4:
                                with d:
                                    put(i)
                                    if i == len(edits) - 1:
                                        raise Stop()
                            else:
                                put(i)
                        raise Stop()
                except Stop:
                    pass
                else:
                    expect(False, "the exception was swallowed")
                changed(text, text, [], "cancelled edits")
                did += 1
            elif ch is None:
                try:
                    with d:
                        for i in range(len(edits)):
                            put(i)
                            same(text, "text inside the edit context")
                except RuntimeError:
                    pass
                else:
                    expect(False, "overlapping edits %r were accepted" % (edits,))
                changed(text, text, [], "overlapping edits")
                did += 1
            else:
                new = splice(text, ch)
                with d:
                    for i in range(len(edits)):
                        if mode == 1:
                            with d:
                                put(i)
                        elif mode == 2:
                            with d:
                                with d: pass
                                put(i)
                        else:
                            put(i)
                        same(text, "text inside the edit context")
                        expect(not notes, "notified inside the edit context")
                changed(text, new, ch, "edits %r of %r" % (edits, text))
                did += bool(ch)
                text = new
        elif k == "item":
            i, t = op[1:]
            if -len(text) <= i < len(text):
                j = i % len(text)
                ch = merged(text, [(j, j + 1, t)])
                d[i] = t
                new = splice(text, ch)
                changed(text, new, ch, "item assignment")
                did += bool(ch); text = new
            else:
                for f in (lambda: d[i], lambda: d.__setitem__(i, t), lambda: d.__delitem__(i)):
                    try:
                        f()
                    except IndexError:
                        pass
                    else:
                        expect(False, "index %d of %d accepted" % (i, len(text)))
                changed(text, text, [], "item assignment out of range")
        elif k == "set":
            ch = merged(text, [(0, len(text), op[1])])
            with d:
                try:
                    d.set_text(op[1])
                except RuntimeError:
                    pass
                else:
                    expect(False, "set_text in an edit context")
            same(text, "set_text in context")
            d.set_text(op[1])
            changed(text, op[1], ch, "set_text")
            text = op[1]
        elif k == "append":
            new = text + op[1]
            if op[2]:
                d.append(op[1])
            else:
                d0 = d
                d += op[1]
                expect(d is d0, "+= made a new object")
            changed(text, new, merged(text, [(len(text), len(text), op[1])]), "append")
            text = new
        elif k == "insert":
            p = min(op[1], len(text))
            new = text[:p] + op[2] + text[p:]
            d.insert(op[1], op[2])
            changed(text, new, merged(text, [(p, p, op[2])]), "insert")
            text = new
        else:
            a, b = op[3:5] if k in ("replace", "sub") else op[1:3] if k == "trim" else op[2:4]
            s, e, _ = slice(a, b).indices(len(text))
            e = max(s, e)
            part = text[s:e]
            if k == "replace":
                old, sub, count = op[1], op[2], op[5]
                if not old: raise Skip()
                new = part.replace(old, sub, count or -1)
                d.replace(old, sub, a, b, count)
            elif k == "sub":
                count = op[5]
                new = re.sub(op[1], op[2], part, count=count)
                if len(op[1]) % 2:
                    d.re_sub(op[1], op[2], a, b, count)
                else:
                    d.re_sub(re.compile(op[1]), lambda m: m.expand(op[2]), a, b, count)
            elif k == "trim":
                lines = part.split("\n")
                new = "\n".join(l.rstrip(" \t") for l in lines)
                d.trim(a, b)
            else:
                mapping, count, whole = op[1], op[4], op[5]
                if "" in mapping or not mapping: raise Skip()
                if whole and any(not (k.isalnum()) for k in mapping): raise Skip()
                new = translated(part, mapping, count, whole)
                d.translate(mapping, a, b, count, whole)
            new = text[:s] + new + text[e:]
            changed(text, new, None, "%s %r on %r" % (k, op[1:], text))
            did += new != text
            text = new
    # still usable
    notes.clear()
    d.append("end")
    expect_eq(d.text(), text + "end", "afterwards")
    expect(len(notes) == 1, "afterwards: %d notifications", len(notes))
    return [did] if did else None
