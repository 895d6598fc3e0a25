"""Ghost code: lemmas, as functions whose contracts are proved like those of the real code."""

def splice_split(t, ch, k):
    """the new text is what the first k changes made, followed by the rest"""
    i = len(ch)
    while i > k:
        i -= 1

def splice_undo(t, ch, rev, off):
    """applying the reversed changes to the new text gives the old one"""
    for k in range(len(ch)):
        splice_split(t, ch, k)

def top_covers(n, upto):
    """the node where a walk upwards stops covers the node where it began"""
    m = n
    while m.parent is not None:
        m = m.parent
        if upto is not None and m is upto:
            break

def walk_split(a, t, n):
    """a trail can be walked in two parts"""
    k = 0
    while k < len(t) - n:
        k += 1

def walk_splits(a, t):
    """a trail can be walked in two parts, wherever it is divided"""
    for n in range(len(t) + 1):
        walk_split(a, t, n)

def walk_covers(a, t, n):
    """what is found at the end of a trail is inside the nodes on the way"""
    k = len(t)
    while k > n:
        k -= 1

def trail_order(a, s, e):
    """trails are ordered like the tokens they lead to"""
    k = 0
    while k < len(s) and k < len(e) and s[k] == e[k]:
        k += 1
    if k < len(s) and k < len(e):
        walk_covers(a, s, k + 1)
        walk_covers(a, e, k + 1)

def trail_inner(a, t):
    """there are contexts on the way"""
    pass

def inside(lo, hi, start, end):
    """between the first and the last token that overlap a region all tokens do"""
    pass

def trail_rest(a, t):
    """the rest of a valid trail is valid where it begins"""
    walk_splits(a, t)
