"""Symbolic values."""
import z3
from .smt import *
from . import smt

class Unsupported(Exception):
    """The source uses something outside the engine's subset."""

class BindError(Unsupported):
    """A sidecar annotation does not fit the source any more."""

class SInt:
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return "SInt(%s)" % self.t

class SBool:
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return "SBool(%s)" % self.t

class SSeq:
    """An immutable sequence (str when isstr, otherwise tuple-like)."""
    __slots__ = ("t", "ek", "isstr")
    def __init__(self, t, ek, isstr=False): self.t, self.ek, self.isstr = t, ek, isstr
    @property
    def th(self): return SeqTheory.of(self.ek)
    def __repr__(self): return "SSeq(%s)" % self.t

class SObj:
    __slots__ = ("t", "cls")
    def __init__(self, t, cls=None): self.t, self.cls = t, cls
    def __repr__(self): return "SObj(%s:%s)" % (self.t, self.cls)

class SOpt:
    __slots__ = ("isnone", "val")
    def __init__(self, isnone, val): self.isnone, self.val = isnone, val
    def __repr__(self): return "SOpt(%s,%s)" % (self.isnone, self.val)

class SUnion:
    """An int (tag) or an object."""
    __slots__ = ("tag", "i", "o", "cls")
    def __init__(self, tag, i, o, cls=None): self.tag, self.i, self.o, self.cls = tag, i, o, cls
    def as_int(self): return SInt(self.i)
    def as_obj(self): return SObj(self.o, self.cls)

class SIter:
    """An iterator over the items of an object: forward (dir 1) or backward (dir -1); at is the index of the next item.

    Iterators are used linearly: reading the variable moves the value out of it."""
    __slots__ = ("owner", "at", "dir", "ident")
    def __init__(self, owner, at, dir, ident=None):
        self.owner, self.at, self.dir = owner, at, dir
        self.ident = ident or object()      # the same when it has only been advanced
    def __repr__(self): return "SIter(%r, %r, %d)" % (self.owner, self.at, self.dir)

class SMaybe:
    """An attribute that may not have been set: reading it raises AttributeError then (in a specification: None)."""
    __slots__ = ("isset", "val")
    def __init__(self, isset, val): self.isset, self.val = isset, val

class Moved:
    """What is left in a variable whose iterator was stored elsewhere."""

class PTup(tuple):
    """A tuple of known length; nt is (classname, fieldnames) for a namedtuple."""
    nt = None
    @classmethod
    def make(cls, items, nt=None):
        r = cls(items)
        r.nt = nt
        return r

class Conc:
    """A concrete Python object (function, class, module, ...)."""
    __slots__ = ("o",)
    def __init__(self, o): self.o = o
    def __repr__(self): return "Conc(%r)" % (self.o,)

class Cell:
    """A mutable object with concrete identity."""
    __slots__ = ("label", "what", "cls", "content", "fields", "ek", "born", "slot", "frozen")
    def __init__(self, label, what, born, cls=None, content=None, fields=None, ek=None):
        self.label, self.what, self.born = label, what, born
        self.cls, self.content, self.fields, self.ek = cls, content, fields, ek
        self.slot = None
        self.frozen = False
    def __repr__(self): return "Cell(%s)" % self.label

class Closure:
    def __init__(self, node, frame, qualname): self.node, self.frame, self.qualname = node, frame, qualname

class Bound:
    """A bound method: function name looked up on a receiver."""
    def __init__(self, recv, name): self.recv, self.name = recv, name
    def __repr__(self): return "Bound(%r.%s)" % (self.recv, self.name)

class GenCall:
    """A generator object: a call that was not yet run."""
    def __init__(self, fn, bound, key=None, contract=None):
        self.fn, self.bound, self.key, self.contract = fn, bound, key, contract

class Slice:
    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step

class PyRange:
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi

class Iter:
    """enumerate/zip/reversed/map wrappers around an iterable value."""
    def __init__(self, op, args): self.op, self.args = op, args

def is_int(v): return isinstance(v, SInt) or (isinstance(v, int) and not isinstance(v, bool))
def is_bool(v): return isinstance(v, (SBool, bool))

def const_str(s):
    """Term and facts for a string literal."""
    th = SeqTheory.of(INT)
    if not s:
        return th.empty, []
    t = z3.Const("lit_" + "".join("%x." % ord(c) for c in s), th.S)
    facts = [th.len(t) == len(s)] + [th.at(t, i) == ord(c) for i, c in enumerate(s)]
    return t, facts
