"""Shared vocabulary of the document contracts (C10, C11, C12).

changes is a list of (start, end, text) tuples that refer to the text before: sorted, not overlapping, and no two start
at the same position.  off[k] is (ghost) the growth of the text by the first k changes.
"""
CHANGES = "seq[tuple[int,int,str]]"

SORTED = ['forall("int", lambda k: implies(0 <= k and k < len(changes), 0 <= changes[k][0] and changes[k][0] <= changes[k][1]), pat=changes[k])',
          'forall("int", lambda i, j: implies(0 <= i and i < j and j < len(changes), changes[i][1] <= changes[j][0] and changes[i][0] < changes[j][0]), pat=(changes[i], changes[j]))']
OFF = ["len(off) == len(changes) + 1 and off[0] == 0",
       'forall("int", lambda k: implies(0 <= k and k < len(changes), off[k + 1] == off[k] + len(changes[k][2]) - (changes[k][1] - changes[k][0])), pat=changes[k])']

def splice_specs(reg):
    """Replacing the ranges of changes in a text: the reference that the code is compared with."""
    from pyvc.interp import SpecDef
    reg.specfuns["join"] = SpecDef("join", ["seq[str]"], "str", ["s"], 'ite(len(s) == 0, "", join(take(s, len(s) - 1)) + s[len(s) - 1])', reg)
    reg.specfuns["tailof"] = SpecDef("tailof", [CHANGES, "int"], "int", ["c", "k"], "ite(k == 0, 0, c[k - 1][1])", reg)
    reg.specfuns["built"] = SpecDef("built", ["str", CHANGES, "int"], "str", ["t", "c", "k"],
        'ite(k == 0, "", built(t, c, k - 1) + t[tailof(c, k - 1):c[k - 1][0]] + c[k - 1][2])', reg)
    reg.specfuns["spliced"] = SpecDef("spliced", ["str", CHANGES], "str", ["t", "c"], "built(t, c, len(c)) + t[tailof(c, len(c)):len(t)]", reg)

def on(parts, a, b="changes"):
    return [x.replace(b, a) for x in parts]

# rev undoes ch, applied to the text t
def REVERSED(rev, ch, t):
    return ["len(%s) == len(%s)" % (rev, ch),
            'forall("int", lambda k: implies(0 <= k and k < len({c}), {r}[k][0] == {c}[k][0] + off[k] and {r}[k][1] == {r}[k][0] + len({c}[k][2]) and {r}[k][2] == {t}[{c}[k][0]:{c}[k][1]]), pat={c}[k])'.format(r=rev, c=ch, t=t)]

def undo_lemmas(reg):
    from pyvc.interp import SpecDef
    from pyvc.contract import Contract, Loop
    reg.specfuns["rest"] = SpecDef("rest", ["str", CHANGES, "int"], "str", ["t", "c", "k"],
        'ite(k >= len(c), t[tailof(c, len(c)):len(t)], t[tailof(c, k):c[k][0]] + c[k][2] + rest(t, c, k + 1))', reg)
    FITS = ['forall("int", lambda k: implies(0 <= k and k < len(ch), ch[k][1] <= len(t)), pat=ch[k])']
    reg.add(Contract("contracts.lemmas:splice_split", params={"t": "str", "ch": CHANGES, "k": "int"}, requires=["0 <= k <= len(ch)"] ,
        ensures=["spliced(t, ch) == built(t, ch, k) + rest(t, ch, k)"],
        loops=[Loop(inv=["k <= i <= len(ch)", "spliced(t, ch) == built(t, ch, i) + rest(t, ch, i)"])]))
    reg.add(Contract("contracts.lemmas:splice_undo", params={"t": "str", "ch": CHANGES, "rev": CHANGES, "off": "seq[int]"}, fuel=2,
        requires=on(SORTED + OFF, "ch") + FITS + REVERSED("rev", "ch", "t"),
        ensures=["spliced(spliced(t, ch), rev) == t"],
        loops=[Loop(index="j", inv=["len(built(t, ch, j)) == tailof(ch, j) + off[j]", "tailof(rev, j) == tailof(ch, j) + off[j]", "0 <= tailof(ch, j) <= len(t)",
                    "implies(j < len(ch), tailof(ch, j) <= ch[j][0])",
                    "built(spliced(t, ch), rev, j) == t[0:tailof(ch, j)]"],
                    cuts=["spliced(t, ch)[tailof(rev, j - 1):rev[j - 1][0]] == t[tailof(ch, j - 1):ch[j - 1][0]]"])]))
