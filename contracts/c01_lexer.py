"""C01: the lexemes of the events are ordered, disjoint, non-empty slices of the text."""
from . import lexer_common as lc, c02_target as ct

def load(reg):
    ct.contracts(reg)
    for c in reg.contracts.values(): c.trusted = "proved in c02_target"
    lc.parse_spec(reg)
    lc.replace_spec(reg)
    lc.events(reg, "slices")
    return lc.SCHEMA
