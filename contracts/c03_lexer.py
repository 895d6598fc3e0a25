"""C03: Lexer.events terminates, given a bound on the number of zero-width state changes at a position."""
from . import lexer_common as lc, c02_target as ct

def load(reg):
    ct.contracts(reg)
    for c in reg.contracts.values(): c.trusted = "proved in c02_target"
    lc.parse_spec(reg)
    lc.replace_spec(reg)
    lc.events(reg, "termination")
    return lc.SCHEMA
