"""C12: cursors keep pointing at the same text."""
from base import expect, expect_eq, Skip
from docgen import merged, splice, gen_edits
from parce.document import Document, Cursor

RULE = ("a text of distinct characters, 1-8 cursors (also reversed, empty, and with end None) and 1-3 edit contexts with 1-5 edits each; "
        "every cursor is compared with a direct reading of the rule for each position; also undo; non-trivial: some cursor moved")
SHRINK = ("ctxs", "cursors")

def gen(rng):
    n = rng.choice((0, 3, 8, 20))
    cur = [[rng.randint(0, n), rng.choice((None, rng.randint(0, n), rng.randint(0, n), rng.randint(0, n)))] for _ in range(rng.choice((1, 2, 4, 8)))]
    for c in cur:
        if rng.random() < 0.3: c[1] = c[0]
    return {"n": n, "cursors": cur, "ctxs": [gen_edits(rng, rng.choice((n, n, max(0, n - 3), n + 4)), 0) for _ in range(rng.choice((1, 1, 2, 3)))], "undo": rng.random() < 0.3}

def new_pos(p, changes):
    """The start of a cursor."""
    off = 0
    for s, e, t in changes:
        if p <= s: break
        if p <= e: return s + off
        off += len(t) - (e - s)
    return p + off

def new_end(p, changes):
    """The end of a cursor: moves after text that is inserted at it."""
    off, res = 0, None
    for s, e, t in changes:
        if p < s: break
        if p <= e:
            # adjacent changes: the last one at this position
            res = s + off + len(t)
        else:
            res = None
        off += len(t) - (e - s)
    return p + off if res is None else res

def check(case):
    text = "".join(chr(0x4e00 + i) for i in range(case["n"]))
    d = Document(text)
    cs = [Cursor(d, p) if e == p else Cursor(d, p, e) for p, e in case["cursors"]]
    lost = Cursor(d, 0, 0); del lost
    pos = [tuple(c) for c in case["cursors"]]
    moved = 0
    for edits in case["ctxs"]:
        edits = [(min(s, len(text)), max(min(s, len(text)), min(e, len(text))), t) for s, e, t in edits]
        ch = merged(text, edits)
        if ch is None: raise Skip()
        if len(edits) == 1:
            s, e, t = edits[0]
            d[s:e] = t
        else:
            with d:
                for s, e, t in edits: d[s:e] = t
        new = splice(text, ch)
        want = [(new_pos(p, ch), None if e is None else new_end(e, ch)) for p, e in pos]
        expect_eq(d.text(), new, "text")
        expect_eq([(c.pos, c.end) for c in cs], want, "cursors %r after %r" % (pos, ch))
        for (p, e), c in zip(pos, cs):
            sel = c.selection()
            expect(sel[1] == (len(new) if c.end is None else c.end), "selection()")
        moved += want != pos
        text, pos = new, want
    if case["undo"] and d.can_undo():
        d.undo()
        expect(all(0 <= c.pos <= len(d) and (c.end is None or 0 <= c.end <= len(d)) for c in cs), "cursor outside the text after undo")
    return [moved] if moved else None
