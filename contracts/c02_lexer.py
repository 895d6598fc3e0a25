"""C02: the events of the lexer replay its stack of lexicons."""
from . import lexer_common as lc, c02_target as ct

def load(reg):
    ct.contracts(reg)
    for c in reg.contracts.values(): c.trusted = c.trusted or "proved in c02_target"
    lc.parse_spec(reg)
    lc.replace_spec(reg)
    lc.events(reg, "stack")
    return lc.SCHEMA
