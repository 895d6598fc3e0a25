"""C11: undo and redo restore text and modified state exactly."""
from base import expect, expect_eq, Skip, rnd_text
from docgen import merged, splice, gen_edits
from parce.document import Document
import parce

RULE = ("random histories of 3-25 operations (edit contexts with several edits, undo, redo, marking unmodified, clearing the history, "
        "refused undo inside an edit context) against a list of states with a pointer; non-trivial: at least one undo or redo that changed the text")
SHRINK = ("ops", "text")

def gen(rng):
    text = rnd_text(rng, "abc\n", 12)
    ops = []
    n = rng.choice((3, 6, 10, 25))
    for _ in range(n):
        k = rng.random()
        if k < 0.42:
            ops.append(["edit", gen_edits(rng, rng.choice((0, 3, 8, 14)), 0.05)])
        elif k < 0.68:
            ops.append(["undo"])
        elif k < 0.84:
            ops.append(["redo"])
        elif k < 0.92:
            ops.append(["save"])
        elif k < 0.94:
            ops.append(["clear"])
        elif k < 0.97:
            ops.append(["inctx"])
        else:
            ops.append(["set", rnd_text(rng, "pq\n", 6)])
    return {"text": text, "ops": ops, "cls": rng.choice(("D", "D", "P"))}

def check(case):
    text = case["text"]
    d = Document(text) if case["cls"] == "D" else parce.Document(None, text)
    seen = {"undo_available": False, "redo_available": False, "modification_changed": False}
    calls = []
    for e in seen:
        def slot(value, e=e):
            expect(value != seen[e], "%s emitted without a change: %r", e, value)
            seen[e] = value
        d.connect(e, slot)
    states, at, saved = [text], 0, 0
    moved = 0
    rev = d.revision()
    for op in case["ops"]:
        cur = states[at]
        if op[0] in ("edit", "set"):
            edits = [(0, len(cur), op[1])] if op[0] == "set" else \
                    [(min(s, len(cur)), max(min(s, len(cur)), min(e, len(cur))), t) for s, e, t in op[1]]
            ch = merged(cur, edits)
            if ch is None:
                try:
                    with d:
                        for s, e, t in edits: d[s:e] = t
                except RuntimeError:
                    pass
                else:
                    raise Skip()
            else:
                new = splice(cur, ch)
                if ch and new == cur:
                    raise Skip()     # an edit without effect
                if op[0] == "set":
                    d.set_text(op[1])
                else:
                    with d:
                        for s, e, t in edits: d[s:e] = t
                if ch:
                    del states[at + 1:]
                    states.append(new); at += 1
                    if saved is not None and saved >= at:
                        saved = None
        elif op[0] == "undo":
            d.undo()
            if at: at -= 1; moved += 1
        elif op[0] == "redo":
            d.redo()
            if at < len(states) - 1: at += 1; moved += 1
        elif op[0] == "save":
            d.modified = False
            saved = at
        elif op[0] == "clear":
            d.clear_undo_redo()
            saved = 0 if saved == at else None
            states, at = [states[at]], 0
        elif op[0] == "inctx":
            for f in (d.undo, d.redo):
                try:
                    with d:
                        f()
                except RuntimeError:
                    pass
                else:
                    expect(False, "undo or redo in an edit context accepted")
        what = "after %r" % (op,)
        expect_eq(d.text(), states[at], what + ": text")
        expect_eq(d.can_undo(), at > 0, what + ": can_undo")
        expect_eq(d.can_redo(), at < len(states) - 1, what + ": can_redo")
        expect_eq(seen["undo_available"], at > 0, what + ": undo_available notification")
        expect_eq(seen["redo_available"], at < len(states) - 1, what + ": redo_available notification")
        expect_eq(bool(d.modified), at != saved, what + ": modified")
        expect_eq(seen["modification_changed"], at != saved, what + ": modification_changed notification")
    # walk all the way
    while d.can_undo():
        d.undo(); at -= 1
        expect_eq(d.text(), states[at], "undo all: text")
        expect_eq(bool(d.modified), at != saved, "undo all: modified")
    expect_eq(at, 0, "undo all")
    while d.can_redo():
        d.redo(); at += 1
        expect_eq(d.text(), states[at], "redo all: text")
        expect_eq(bool(d.modified), at != saved, "redo all: modified")
    expect_eq(at, len(states) - 1, "redo all")
    return [len(states), moved] if moved else None
