"""C13: blocks are the lines of the text."""
from base import expect, expect_eq, rnd_text
from parce.document import Document, Cursor, Block

RULE = ("random texts with newlines (empty lines, trailing newline), sometimes another (also two-character) separator; "
        "all positions, numbers and regions are compared with text.split(separator); non-trivial: more than one block")
SHRINK = ("text",)

def gen(rng):
    sep = rng.choice(("\n", "\n", "\n", "\n", "\r\n", ";"))
    t = rnd_text(rng, ["a", "b", " ", sep, sep], 16)
    return {"text": t, "sep": sep}

def check(case):
    text, sep = case["text"], case["sep"]
    class D(Document):
        block_separator = sep
    d = D(text) if sep != "\n" else Document(text)
    lines = text.split(sep)
    starts, p = [], 0
    for l in lines:
        starts.append(p); p += len(l) + len(sep)
    n = len(lines)
    def same(b, i, what):
        expect(b is not None, "%s: no block %d", what, i)
        expect_eq((b.pos, b.end, b.text(), len(b)), (starts[i], starts[i] + len(lines[i]), lines[i], len(lines[i])), "%s: block %d" % (what, i))
        expect_eq(b.is_first(), i == 0, what + ": is_first")
        expect_eq(b.is_last(), i == n - 1, what + ": is_last")
    def deep(b, i, what):
        same(b, i, what)
        nb, pb = b.next_block(), b.previous_block()
        if i == n - 1: expect(nb is None, "%s: block after the last", what)
        else:
            same(nb, i + 1, what + ": next")
        if i == 0: expect(pb is None, "%s: block before the first", what)
        else:
            same(pb, i - 1, what + ": previous")
        expect_eq(b.block_number, i, what + ": number")
        if nb: expect_eq(nb.block_number, i + 1, what + ": number of next")
        if pb: expect_eq(pb.block_number, i - 1, what + ": number of previous")
        if nb: expect_eq(nb.next_block() and nb.next_block().block_number, i + 2 if i + 2 < n else None, what + ": number of next next")
        expect(not (nb and not (b < nb and nb > b and b != nb and b <= nb and nb >= b)), "comparison")
    expect_eq(d.block_count(), n, "block_count")
    blocks = list(d.blocks())
    expect_eq(len(blocks), n, "blocks()")
    for i, b in enumerate(blocks): deep(b, i, "blocks()")
    expect_eq(sep.join(b.text() for b in blocks), text, "joined")
    for i in range(-n - 2, n + 2):
        b = d.find_block_by_number(i)
        if -n <= i < n:
            deep(b, i % n, "by number %d" % i)
        else:
            expect(b is None, "block number %d exists", i)
    def at(pos):
        # the block a position belongs to: the last one that starts at or before it
        return max(i for i in range(n) if starts[i] <= pos) if pos >= 0 else 0
    def inside(pos):
        return len(sep) == 1 or not any(starts[i] < pos + len(sep) and starts[i] - len(sep) < pos < starts[i] for i in range(1, n))
    for pos in range(len(text) + 3):
        if not inside(pos): continue
        i = at(pos)
        b = d.find_block(pos)
        deep(b, i, "at %d" % pos)
        expect_eq(b, blocks[i], "equality")
        expect_eq(d.find_start_of_block(pos), starts[i], "start of block at %d" % pos)
        if pos <= len(text):
            expect_eq(d.find_end_of_block(pos), starts[i] + len(lines[i]), "end of block at %d" % pos)
            c = Cursor(d, pos)
            same(c.block(), i, "cursor")
            expect_eq((c.move_start_of_block().pos, c.end), (starts[i], starts[i]), "move_start_of_block")
            c = Cursor(d, pos)
            expect_eq((c.move_end_of_block().pos, c.end), (starts[i] + len(lines[i]),) * 2, "move_end_of_block")
    for s in range(len(text) + 1):
        if not inside(s): continue
        for e in [None, *range(s, len(text) + 2)]:
            got = list(d.blocks(s, e))
            i = at(s)
            want = [j for j in range(i, n) if j == i or e is None or starts[j] < e]
            expect_eq([b.pos for b in got], [starts[j] for j in want], "blocks(%r, %r)" % (s, e))
            for j, b in zip(want, got):
                same(b, j, "blocks(%r, %r)" % (s, e))
                expect_eq(b.block_number, j, "blocks(%r, %r) number" % (s, e))
            if e is not None and e <= len(text):
                expect_eq([b.pos for b in Cursor(d, s, e).blocks()], [starts[j] for j in want], "Cursor.blocks")
                c = Cursor(d, s, e).select_start_of_block().select_end_of_block()
                if inside(e):
                    expect_eq((c.pos, c.end), (starts[i], starts[at(e)] + len(lines[at(e)])), "select_*_of_block")
                c = Cursor(d, s, e)
                t = text[s:e]
                c.strip()
                if t.strip():
                    expect_eq(c.text(), t.strip(), "strip")
                    expect_eq((c.pos, c.end), (s + len(t) - len(t.lstrip()), e - len(t) + len(t.rstrip())), "strip")
                else:
                    expect(s <= c.pos <= e and c.text() == "", "strip")
    return [n] if n > 1 else None
