"""Specification-level values: finite maps unit -> exponent (DimVal), the size of a unit expression in
irreducible units (RM) and its irreducible dimensions (RD), and real powers."""
from fractions import Fraction
from .core import *
from .core import z3

_rpow = z3.Function('rpow', R, R, R)      # real power
RMu_f = z3.Function('RMu', Unit, R)       # size of a unit in irreducible units
SMu_f = z3.Function('SMu', Unit, R)       # size of a unit in the current default units
RDu_f = z3.Function('RDu', Unit, Unit, R) # irreducible dimensions of a unit
SDu_f = z3.Function('SDu', Unit, Unit, R) # default-unit dimensions of a unit

def rpow(x, p):
    """x**p over the reals, normalised for the exponents that occur in the code"""
    x, p = rv(x), rv(p)
    c = const_frac(p)
    if c is not None:
        if c == 0: return rv(1)
        if c == 1: return x
        if c.denominator == 1 and 2 <= c <= 6:
            r = x
            for _ in range(int(c) - 1): r = r * x
            return r
        if c.denominator == 1 and -6 <= c <= -1:
            return rv(1) / rpow(x, -c)
        if c == Fraction(1, 2): return msqrt(x)
    b = const_frac(x)
    if b == 1: return rv(1)
    x, p = z3.simplify(x), z3.simplify(p)
    t = _rpow(x, p)
    e = E()
    key = ('rpow', t.get_id())
    if key not in e.memo:
        e.memo[key] = t
        e.fact(z3.Implies(x > 0, t > 0))
        if c is None:
            e.fact(z3.Implies(p == 0, t == 1))
            e.fact(z3.Implies(p == 1, t == x))
            e.fact(z3.Implies(p == -1, t == rv(1) / x))
            e.fact(z3.Implies(p == 2, t == x * x))
            e.fact(z3.Implies(And(p == rv(Fraction(1, 2)), x >= 0), t == msqrt(x)))
        if z3.is_app(x) and x.decl().eq(_rpow):
            # (y**a)**b == y**(a*b) for y > 0
            y, a = x.arg(0), x.arg(1)
            e.fact(z3.Implies(y > 0, t == rpow(y, z3.simplify(a * p))))
    return t

def msqrt(x):
    e = E()
    x = z3.simplify(rv(x))
    key = ('sqrt', x.get_id())
    if key not in e.memo:
        s = z3.Function('sqrt', R, R)(x)
        e.memo[key] = (x, s)
        e.fact(z3.Implies(x >= 0, And(s >= 0, s * s == x)))
    return e.memo[key][1]

class Atom:
    """an indivisible map: val(u); rm = its size, rd = its irreducible dimensions"""
    n = 0
    def __init__(self, key, val, kind='dim'):
        self.key, self.val, self.kind = key, val, kind
        self._rm = self._sm = self._rd = self._sd = None
    def rm(self):
        if self._rm is None:
            e = E()
            if self.key[0] == 'u': self._rm = RMu_f(self.key[2])
            elif self.kind in ('rd',): self._rm = rv(1)
            else: self._rm = e.fresh('RM_%s' % self.key[1])
            if not is_const(self._rm): e.fact(self._rm > 0)
        return self._rm
    def sm(self):
        if self._sm is None:
            e = E()
            if self.kind == 'sd': self._sm = rv(1)
            elif self.kind == 'rd':
                self._sm = e.fresh('SM_%s' % self.key[1])
                e.fact(self._sm > 0)
                # the physical value is kept: RM(D) == SM(D) * RM(SD(D))
                e.fact(self.rm() == self._sm * RM(self.sd()))
            else: self._sm = z3.simplify(self.rm() * SM(self.rd()))   # the simplified form is that of the irreducible form
        return self._sm
    def rd(self):
        if self._rd is None:
            if self.kind == 'rd': self._rd = DimVal.of_atom(self)
            elif self.kind == 'sd': self._rd = self.owner.rd()
            elif self.key[0] == 'u':
                t = self.key[2]
                a = Atom(('rdu', 'rd_%s' % self.key[1], t), lambda x: RDu_f(t, x), 'rd')
                a.owner = self
                self._rd = DimVal.of_atom(memo_atom(a))
            else:
                f = z3.Function(E().fresh_name('RD_%s' % self.key[1]), Unit, R)
                a = Atom(('rd', 'rd_%s' % self.key[1]), lambda x: f(x), 'rd')
                a.owner = self
                self._rd = DimVal.of_atom(a)
        return self._rd
    def sd(self):
        if self._sd is None:
            if self.kind == 'sd': self._sd = DimVal.of_atom(self)
            elif self.kind == 'rd':
                f = z3.Function(E().fresh_name('SD_%s' % self.key[1]), Unit, R)
                a = Atom(('sd', 'sd_%s' % self.key[1]), lambda x: f(x), 'sd')
                a.owner = self
                self._sd = DimVal.of_atom(a)
            else: self._sd = SD(self.rd())
        return self._sd

def memo_atom(a):
    k = ('atom', a.key[0], a.key[2].get_id())
    return E().memo.setdefault(k, a)

def cadd(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction): return a + b
    t = rv(a) + rv(b)
    c = const_frac(t)
    return c if c is not None else z3.simplify(t)
def cmul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction): return a * b
    t = rv(a) * rv(b)
    c = const_frac(t)
    return c if c is not None else z3.simplify(t)
def ceq(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction): return a == b
    if isinstance(a, Fraction) or isinstance(b, Fraction):
        return False
    return a.eq(b)

class DimVal:
    """an immutable finite map. lin: {atom: coefficient} when it is a linear combination of atoms."""
    def __init__(self, val, lin=None, dom=None):
        self._val, self.lin, self._dom = val, lin, dom
    @staticmethod
    def of_atom(a, c=Fraction(1)):
        return DimVal.of_lin({a: c})
    @staticmethod
    def of_lin(lin):
        lin = {a: c for a, c in lin.items() if not (isinstance(c, Fraction) and c == 0)}
        def val(u):
            t = None
            for a, c in lin.items():
                x = a.val(u) if (isinstance(c, Fraction) and c == 1) else rv(c) * a.val(u)
                t = x if t is None else t + x
            return rv(0) if t is None else t
        r = DimVal(val, lin)
        e = E()
        if e is not None:
            l = e.memo.setdefault('lincands', [])
            if len(l) < 40 and not any(r.same_form(x) for x in l): l.append(r)
        return r
    @staticmethod
    def empty():
        return DimVal.of_lin({})
    @staticmethod
    def single(u, c=Fraction(1)):
        a = memo_atom(Atom(('u', str(u), u), lambda x: If(x == u, rv(1), rv(0)) if not x.eq(u) else rv(1)))
        E().unit(u)
        return DimVal.of_lin({a: c})
    @staticmethod
    def symbolic(name):
        f = z3.Function(E().fresh_name(name), Unit, R)
        a = Atom(('d', name), lambda x: f(x))
        a.fn = f
        return DimVal.of_atom(a)
    def val(self, u):
        return self._val(u)
    def dom(self, u):
        if self._dom is not None: return self._dom(u)
        return self._val(u) != 0
    @property
    def wf(self): return self._dom is None
    def __add__(self, o):
        lin = None
        if self.lin is not None and o.lin is not None:
            lin = dict(self.lin)
            for a, c in o.lin.items(): lin[a] = cadd(lin[a], c) if a in lin else c
            return DimVal.of_lin(lin)
        return DimVal(lambda u: self.val(u) + o.val(u))
    def __mul__(self, k):
        if isinstance(k, (int, float)): k = Fraction(k)
        if not isinstance(k, Fraction):
            c = const_frac(rv(k))
            k = c if c is not None else rv(k)
        if self.lin is not None:
            return DimVal.of_lin({a: cmul(c, k) for a, c in self.lin.items()})
        kk = rv(k)
        return DimVal(lambda u: self.val(u) * kk)
    def __sub__(self, o): return self + o * -1
    def __neg__(self): return self * -1
    def same_form(self, o):
        return (self.lin is not None and o.lin is not None and set(self.lin) == set(o.lin)
                and all(ceq(self.lin[a], o.lin[a]) for a in self.lin))
    def eq(self, o):
        """a Bool term that is true exactly when the maps are equal"""
        if self is o or self.same_form(o): return TRUE
        e = E()
        key = ('dimeq', id(self), id(o))
        if key in e.memo: return e.memo[key][0]
        p = e.fresh('dimeq', z3.BoolSort())
        sk = e.new_unit('du')
        e.memo[key] = (p, self, o, sk)
        e.memo[('dimeq', id(o), id(self))] = (p, self, o, sk)
        wf = self.wf and o.wf
        def same(u):
            if wf: return self.val(u) == o.val(u)
            d = self.dom(u)
            return And(d == o.dom(u), Implies(d, self.val(u) == o.val(u)))
        e.forall(lambda u: z3.Implies(p, same(u)))
        e.fact(z3.Or(p, z3.Not(same(sk))))
        # congruence of the reference functions
        if self.lin is not None and o.lin is not None:
            def cong():
                e.fact(z3.Implies(p, RM(self) == RM(o)))
                a, b = RD(self), RD(o)
                if not a.same_form(b):
                    e.forall(lambda u: z3.Implies(p, a.val(u) == b.val(u)))
                sa, sb = SD(self), SD(o)
                if not sa.same_form(sb):
                    e.forall(lambda u: z3.Implies(p, sa.val(u) == sb.val(u)))
                    e.fact(z3.Implies(p, SM(self) == SM(o)))
            if not e.memo.get('nocong'):
                e.memo['nocong'] = True
                try: cong()
                finally: e.memo['nocong'] = False
        return p
    def norm(self):
        """the same map in its well-formed representation (entries are exactly the non-zero exponents)"""
        if self.wf: return self
        e = E()
        k = ('norm', id(self))
        if k not in e.memo:
            u = e.new_unit('nu')
            if not e.entails(And(self.dom(u) == (self.val(u) != 0))):
                raise Unsupported('a dimensionality with an explicit zero exponent')
            r = find_lin(DimVal(self._val))
            e.memo[k] = (self, r)
        return e.memo[k][1]
    def rd1(self): return RD(self)
    def sd1(self): return SD(self)
    def is_empty(self):
        return self.eq(DimVal.empty())
    def __repr__(self):
        if self.lin is None: return 'DimVal(?)'
        return 'DimVal(%s)' % ' + '.join('%s*%s' % (c, a.key[1]) for a, c in self.lin.items())

def find_lin(d):
    """a linear-combination form of d, looked up by provable pointwise equality"""
    if d.lin is not None: return d
    e = E()
    k = ('lin', id(d))
    if k in e.memo: return e.memo[k][1]
    for c in e.memo.get('lincands', []):
        sk = e.new_unit('lu')
        if e.entails(d.val(sk) == c.val(sk)):
            e.memo[k] = (d, c)
            return c
    a = Atom(('p', e.fresh_name('pw')), d.val)
    r = DimVal.of_atom(a)
    e.memo[k] = (d, r)
    return r

def _pow_term(b, c):
    return rpow(b, rv(c))

def RM(d):
    d = find_lin(d)
    t = rv(1)
    for a, c in d.lin.items():
        x = _pow_term(a.rm(), c)
        t = x if const_frac(t) == 1 else t * x
    return t
def SM(d):
    d = find_lin(d)
    t = rv(1)
    for a, c in d.lin.items():
        x = _pow_term(a.sm(), c)
        t = x if const_frac(t) == 1 else t * x
    return t
def RD(d):
    d = find_lin(d)
    t = DimVal.empty()
    for a, c in d.lin.items(): t = t + a.rd() * c
    return t
def SD(d):
    d = find_lin(d)
    t = DimVal.empty()
    for a, c in d.lin.items(): t = t + a.sd() * c
    return t
