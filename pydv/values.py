"""Values of the interpreted program."""
import numpy as np
from fractions import Fraction
from .core import *
from .core import z3
from .dims import DimVal

class PyExc(Exception):
    """an exception raised by the interpreted program; exc is an SExc"""
    def __init__(self, exc): self.exc = exc

class SExc:
    def __init__(self, cls, args=()): self.cls, self.args = cls, args
    def __repr__(self): return '%s%r' % (self.cls.__name__, self.args)

def throw(cls, *args):
    raise PyExc(SExc(cls, args))

class SStr:
    """a string about which nothing is known except how it was made"""
    def __init__(self, what='str'): self.what = what
    def __repr__(self): return 'SStr(%s)' % (self.what,)

class SNum:
    """a scalar number. kind: 'float' | 'int'; np: a numpy scalar rather than a Python number"""
    def __init__(self, t, kind='float', np_=False, ok=TRUE):
        if not z3.is_expr(t):
            if kind == 'int' and not isinstance(t, int): raise Unsupported('int')
            t = z3.IntVal(t) if kind == 'int' else rv(t)
        self.t, self.kind, self.np, self.ok = t, kind, np_, ok
    @property
    def real(self): return rv(self.t)
    def __repr__(self): return 'SNum(%s)' % self.t

class SBool:
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SBool(%s)' % self.t

def mkbool(t):
    if isinstance(t, bool): return t
    t = z3.simplify(t)
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SBool(t)

class SOpaque:
    """a value about which only its identity term is known (congruence by key)"""
    def __init__(self, key, pytype=object): self.key, self.pytype = key, pytype
    def __repr__(self): return 'SOpaque(%r)' % (self.key,)

# ---------------------------------------------------------------- dtypes
class SDtype:
    """a numpy dtype. toks: set of names it was computed from; inexact: Bool (floating point)"""
    def __init__(self, toks, inexact):
        self.toks, self.inexact = frozenset(toks), inexact
    def __repr__(self): return 'SDtype(%s)' % ','.join(sorted(self.toks))
    def join(self, o):
        if self.toks == o.toks: return self
        if o.toks <= INT_WEAK: return self
        if self.toks <= INT_WEAK: return o
        return SDtype(self.toks | o.toks, Or(self.inexact, o.inexact))
    def same(self, o):
        a, b = self.toks - {'pyint'}, o.toks - {'pyint'}
        return a == b
INT_WEAK = frozenset(['pyint', 'bool'])
F8 = SDtype(['d'], TRUE)
I8 = SDtype(['l'], FALSE)
B1 = SDtype(['bool'], FALSE)
OBJ = SDtype(['O'], FALSE)
def pyint_dtype(): return SDtype(['pyint'], FALSE)
def pyfloat_dtype(): return SDtype(['pyfloat'], TRUE)

trunc = z3.Function('trunc', R, R)
def cast(x, frm, to):
    """numeric cast: exact into floating point (rounding is not modelled), truncation into integers"""
    if z3.is_true(to.inexact) or frm.same(to): return x
    if z3.is_bool(x): x = If(x, rv(1), rv(0))
    c = const_frac(x)
    if c is not None: t = rv(Fraction(int(c)))
    else:
        t = trunc(x)
        # integer-valued data are unchanged by a cast to an integer type
        E().fact(z3.Implies(Not(frm.inexact), t == x))
    return If(to.inexact, x, t)

# ---------------------------------------------------------------- shapes
class Shape:
    """() or a broadcast of unknown shapes (associative, commutative, idempotent)"""
    def __init__(self, toks=()): self.toks = frozenset(toks)
    def bc(self, o): return Shape(self.toks | o.toks)
    def __eq__(self, o): return isinstance(o, Shape) and self.toks == o.toks
    def __hash__(self): return hash(self.toks)
    @property
    def scalar(self): return not self.toks
    def __repr__(self): return 'Shape(%s)' % ','.join(map(str, sorted(self.toks)))
SCALAR = Shape()

def is0(shape):
    """Bool: the shape is ()"""
    e = E()
    return And(*[z3.Bool('is0_%s' % t) for t in shape.toks])
def single_element(shape):
    """Bool: exactly one element"""
    r = []
    for t in shape.toks:
        b, z = z3.Bool('is1_%s' % t), z3.Bool('is0_%s' % t)
        E().fact(z3.Implies(z, b))
        r.append(b)
    return And(*r)

class Buffer:
    """the element storage: generic element value (Real or Bool) and whether it is a defined number"""
    def __init__(self, elem, ok=TRUE, tag=None):
        self.elem, self.ok, self.tag = elem, ok, tag
        self.version = 0
        E().track(self)
    def save(self): return (self.elem, self.ok, self.version)
    def load(self, s): self.elem, self.ok, self.version = s
    def write(self, elem, ok=TRUE):
        self.elem, self.ok = elem, ok
        self.version += 1

class SObj:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}
        E().track(self)
    def save(self): return (self.cls, dict(self.attrs))
    def load(self, s): self.cls, self.attrs = s[0], dict(s[1])
    def __repr__(self): return '<%s %s>' % (self.cls.__name__, ','.join(self.attrs))

class SArr(SObj):
    """an ndarray (or subclass) instance"""
    def __init__(self, cls, buf, shape, dtype, base=None, writeable=TRUE, npscalar=False):
        super().__init__(cls)
        self.buf, self.shape, self.dtype, self.base, self.writeable = buf, shape, dtype, base, writeable
        self.unit = None          # Unit term, for units
        self.np = npscalar
    def save(self): return (self.cls, dict(self.attrs), self.buf, self.writeable, self.shape, self.dtype)
    def load(self, s):
        self.cls, self.attrs, self.buf, self.writeable, self.shape, self.dtype = s[0], dict(s[1]), s[2], s[3], s[4], s[5]
    @property
    def elem(self): return self.buf.elem
    @property
    def ok(self): return self.buf.ok
    def __repr__(self): return 'SArr[%s](%s;%s)' % (self.cls.__name__, self.buf.elem, self.shape)

class SDim(SObj):
    """an instance of Dimensionality (a dict from units to exponents)"""
    def __init__(self, cls, st):
        super().__init__(cls)
        self.st = st
    def save(self): return (self.cls, dict(self.attrs), self.st)
    def load(self, s): self.cls, self.attrs, self.st = s[0], dict(s[1]), s[2]
    def __repr__(self): return 'SDim(%r)' % (self.st,)

class SHash:
    """a hash value: base constant xor-ed with one contribution per entry of a map"""
    def __init__(self, base, entries=()):
        self.base, self.entries = base, tuple(entries)   # entries: (DimVal map, contribution fn(u, val) -> (u, term))
    def __repr__(self): return 'SHash(%s,%d)' % (self.base, len(self.entries))

class SUnitRef:
    """placeholder used as dict key"""

class SMapIter:
    """items/keys/values of an SDim (a symbolic finite map)"""
    def __init__(self, dim, mode): self.dim, self.st, self.mode = dim, dim.st, mode
    def __repr__(self): return 'SMapIter(%s)' % self.mode

class SSeq:
    """a sequence of unknown length; gen(key) gives the element for one key of the map src"""
    def __init__(self, src, fn, cond=None): self.src, self.fn, self.cond = src, fn, cond

class SFunc:
    """an interpreted function or lambda (with its live function object, if it has one)"""
    def __init__(self, node, frame, globs, name, defaults=(), kwdefaults=None, cells=None, filename=''):
        self.node, self.frame, self.globs, self.name = node, frame, globs, name
        self.defaults, self.kwdefaults, self.cells, self.filename = defaults, kwdefaults or {}, cells or {}, filename
        self.attrs = {}

class BoundM:
    def __init__(self, obj, fn): self.obj, self.fn = obj, fn
    def __repr__(self): return 'BoundM(%r)' % (self.fn,)

class SSuper:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj

class NativeM:
    """a method implemented by the engine's model of numpy or of a builtin type"""
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return 'NativeM(%s)' % self.name

class SCtx:
    pass
