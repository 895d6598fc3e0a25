"""Shared generation of edits for the document properties."""

def merged(text, edits):
    """Direct reading of an edit context: no-op edits are ignored, edits with the same start are
    joined in the order they were made.  Returns (changes or None when they overlap, doubtful)."""
    n = len(text)
    d = {}
    doubt = False
    for s, e, t in edits:
        if text[s:e] == t:
            continue
        d.setdefault(s, []).append((e, t))
    res, last = [], 0
    for s in sorted(d):
        if s < last:
            return None
        last = max(e for e, t in d[s])
        res.append((s, last, "".join(t for e, t in d[s])))
    return res

def splice(text, changes):
    out, tail = [], 0
    for s, e, t in changes:
        out.append(text[tail:s]); out.append(t); tail = e
    out.append(text[tail:])
    return "".join(out)

def noops_overlap(text, edits):
    """Would an edit that changes nothing overlap another one?"""
    full = sorted((s, e) for s, e, t in edits)
    eff = merged(text, edits)
    if eff is None:
        return False
    last = 0
    starts = {}
    for s, e in full:
        starts[s] = max(starts.get(s, s), e)
    for s in sorted(starts):
        if s < last:
            return True
        last = starts[s]
    return False

def gen_edits(rng, n, overlap=0.1, alphabet="xyz\n "):
    """Edits on a text of length n, as [start, end, text], usually not overlapping, in random order."""
    k = rng.choice((1, 1, 1, 2, 2, 3, 4))
    cuts = sorted(rng.randint(0, n) for _ in range(2 * k))
    edits = []
    for i in range(k):
        s, e = cuts[2 * i], cuts[2 * i + 1]
        if rng.random() < 0.35:
            e = s
        if rng.random() < 0.2 and edits:
            s = min(edits[-1][1], e)      # adjacent to the previous one
        t = "".join(rng.choice(alphabet) for _ in range(rng.choice((0, 0, 1, 1, 2, 4))))
        edits.append([s, e, t])
    if rng.random() < overlap and edits:
        s = rng.randint(0, n); e = rng.randint(s, n)
        edits.append([s, e, "o"])
    rng.shuffle(edits)
    return edits
