"""Shared helpers of the bounded run-time checks."""
import random

class Violation(AssertionError):
    """The code under test breaks the property on this case."""

class Skip(Exception):
    """The case is outside the property's domain."""

def expect(cond, msg="", *args):
    if not cond:
        raise Violation(msg % args if args else msg)

def expect_eq(got, want, what=""):
    if not (got == want):
        raise Violation("%s: got %r, expected %r" % (what, clip(got), clip(want)))

def clip(x, n=600):
    s = repr(x)
    return x if len(s) <= n else s[:n] + "..."

def rnd_text(rng, alphabet="abc \n", maxlen=20):
    n = rng.choice((0, 1, 2, 3, 5, 8, 12, maxlen))
    n = rng.randint(0, n)
    return "".join(rng.choice(alphabet) for _ in range(n))
