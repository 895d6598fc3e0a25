"""C09: merged changes account for all successive edits (treebuilderutil.Changes)."""
from base import expect, expect_eq
from parce.treebuilderutil import Changes

RULE = ("an old text with all-distinct characters and 1-8 random successive edits (random order, position, overlap, "
        "also open-ended ones with removed/added left out); non-trivial: at least two edits that change something")
SHRINK = ("edits",)

def gen(rng):
    n = rng.choice((0, 1, 3, 8, 20))
    edits, length = [], n
    for _ in range(rng.choice((1, 2, 2, 3, 3, 4, 6, 8))):
        s = rng.randint(0, length)
        if rng.random() < 0.4 and edits:
            # near a previous edit
            p = rng.choice(edits)
            s = min(length, max(0, p[0] + rng.randint(-2, 2 + p[2])))
        r = rng.choice((0, 0, 1, 2, rng.randint(0, length - s))) if length > s else 0
        r = min(r, length - s)
        a = rng.choice((0, 0, 1, 2, 5))
        form = rng.choice((0, 0, 0, 0, 0, 1))
        if form == 1:
            r = length - s
        edits.append([s, r, a, form])
        length += a - r
    return {"n": n, "edits": edits}

def valid(case):
    length = case["n"]
    for e in case["edits"]:
        if len(e) != 4: return False
        s, r, a, form = e
        if s + r > length or (form == 1 and s + r != length): return False
        length += a - r
    return True

def check(case):
    fresh = iter(range(0x4e00, 0x9fff))
    old = "".join(chr(next(fresh)) for _ in range(case["n"]))
    text = old
    c = Changes()
    expect(not c.has_changes(), "a new Changes has changes")
    c.text = old     # as the tree builder does for the open-ended form
    eff = 0
    for s, r, a, form in case["edits"]:
        text = text[:s] + "".join(chr(next(fresh)) for _ in range(a)) + text[s + r:]
        if form == 1:
            c.add(text, start=s)
        else:
            c.add(text, start=s, removed=r, added=a)
        eff += bool(r or a)
        expect(c.has_changes(), "has_changes is false after add")
        expect(c.text == text, "the text is not the newest")
        S, R, A = c.start, c.removed, c.added
        expect(S >= 0 and R >= 0 and A >= 0 and S + R <= len(old) and S + A <= len(text), "region (%d, %d, %d) outside the text", S, R, A)
        expect_eq(old[:S] + text[S:S + A] + old[S + R:], text, "replacing the merged region (%d, %d, %d) in the oldest text" % (S, R, A))
        for p in range(len(old) + 1):
            q = c.new_position(p)
            expect(0 <= q <= len(text), "new_position(%d) = %d outside the text", p, q)
            if p < S:
                expect_eq(q, p, "new_position(%d) before region %r" % (p, (S, R, A)))
            elif p < S + R:
                expect(S <= q <= S + A, "new_position(%d) = %d outside region %r", p, q, (S, R, A))
            else:
                expect_eq(len(text) - q, len(old) - p, "distance to the end of new_position(%d), region %r" % (p, (S, R, A)))
    return [eff] if eff > 1 else None
