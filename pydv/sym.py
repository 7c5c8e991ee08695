"""Symbolic backend of the contracts: every case becomes proof obligations over the real code."""
import time, types, contextlib
import numpy as np
from .core import *
from .core import z3
from .dims import *
from .values import *
from . import models, interp, specs
from .interp import Interp, TList

class Outcome:
    def __init__(self, value=None, exc=None): self.value, self.exc = value, exc
    def __repr__(self): return 'raises %s' % self.exc.__name__ if self.exc else 'returns %r' % (self.value,)

class Mag:
    """a snapshot of magnitudes: the generic element, whether it is a defined number, shape and dtype"""
    def __init__(self, elem, ok, shape, dtype): self.elem, self.ok, self.shape, self.dtype = elem, ok, shape, dtype
    def arr(self): return SArr(np.ndarray, Buffer(self.elem, self.ok), self.shape, self.dtype)
    def _bin(self, uf, o, swap=False):
        a, b = self, Mag.of(o)
        x = [v.arr() if isinstance(v, Mag) else v for v in (a, b)]
        if swap: x.reverse()
        el, ok, dt = models.uf_apply(uf, x)
        return Mag(el, ok, a.shape.bc(b.shape) if isinstance(b, Mag) else a.shape, dt)
    @staticmethod
    def of(o):
        if isinstance(o, (Mag, SNum)) or models.is_pynum(o): return o
        if z3.is_expr(o):
            n = SNum(rv(0)); n.t = o
            return n
        raise TypeError(o)
    def __add__(self, o): return self._bin(np.add, o)
    def __sub__(self, o): return self._bin(np.subtract, o)
    def __mul__(self, o): return self._bin(np.multiply, o)
    __rmul__ = __mul__
    __radd__ = __add__
    def __rsub__(self, o): return self._bin(np.subtract, o, True)
    def __truediv__(self, o): return self._bin(np.true_divide, o)
    def __rtruediv__(self, o): return self._bin(np.true_divide, o, True)
    def __pow__(self, o): return self._bin(np.power, o)
    def __neg__(self): return self._un(np.negative)
    def __abs__(self): return self._un(np.absolute)
    def sqrt(self): return self._un(np.sqrt)
    def _un(self, uf):
        el, ok, dt = models.uf_apply(uf, [self.arr()])
        return Mag(el, ok, self.shape, dt)

class Skip(Exception): pass

class SymH:
    symbolic = True
    def __init__(self, engine, contracts, skip=()):
        self.e, self.I = engine, Interp(contracts)
        self.I.skip = list(skip)
        self.q = self.I.q
        self.q.markup.config.use_unicode = False
        self.prefix = ''
    # ------------------------------------------------------------ inputs
    def dims(self, name):
        return SDim(self.I.Dim, DimVal.symbolic(name))
    def near_dims(self, name, other): return self.dims(name)
    def named_dims(self, name): return self.dims(name)
    text_dims = named_dims
    # ------------------------------------------------------------ texts
    def use_unicode(self, b): self.q.markup.config.use_unicode = b
    def any_text(self, name): return self.I.t.AnyText(name)
    def unit_texts(self, m, which):
        """the lists of the texts of the factors of the numerator and of the denominator"""
        T, out = self.I.t, []
        for s in (1, -1):
            k = z3.Const(self.e.fresh_name('factor'), Unit)
            v = m.val(k) * s
            sym = T.SymP(k, which)
            out.append(T.Fold(m, k, [(v == 1, T.txt(sym)), (And(v > 0, v != 1), T.txt(sym, '**', T.NumP(z3.simplify(v), 'exp')))]))
        return out
    def is_unit_text(self, r, m, which):
        T = self.I.t
        num, den = self.unit_texts(m, which)
        d = self.e.decide
        if d(den.some()):
            n = T.txt(T.JoinP('*', [num])) if d(num.some()) else '1'
            t = T.txt(n, '/(', T.JoinP('*', [den]), ')') if d(den.several()) else T.txt(n, '/', T.JoinP('*', [den]))
        else: t = T.txt(T.JoinP('*', [num])) if d(num.some()) else 'dimensionless'
        return T.same(r, t) if isinstance(r, (str, SStr)) else FALSE
    def only_arithmetic(self, s, o):
        """(that nothing else is evaluated is an obligation at the evaluation)"""
        if o.exc is not None: return TRUE
        return z3.BoolVal(hasattr(o.value, 'evaluated') or isinstance(o.value, SArr) and o.value.unit is not None)
    def _shape(self, name, scalar):
        return SCALAR if scalar else Shape(['sh_' + name])
    def _dtype(self, name, dtype):
        if isinstance(dtype, SDtype): return dtype
        if dtype == 'any': return SDtype(['dt_' + name], z3.Bool('inexact_' + name))
        return {'float': F8, 'int': I8, 'bool': B1}[dtype]
    def _elem(self, name, dt):
        t = self.e.fresh(name)
        if not z3.is_true(dt.inexact):
            self.e.fact(z3.Implies(Not(dt.inexact), trunc(t) == t))
        return t
    def quantity(self, name, dims=None, near=None, scalar=False, dtype='any', cls=None, positive=False, view=False, shape=None, nonzero=False, ndim=None, frozen=False, same=None):
        dt = self._dtype(name, dtype) if not isinstance(dtype, SDtype) else dtype
        a = SArr(cls or self.I.Quantity, Buffer(self._elem(name, dt)), shape if shape is not None else self._shape(name, scalar), dt)
        d = dims if dims is not None else DimVal.symbolic('dim_' + name)
        a.attrs['_dimensionality'] = SDim(self.I.Dim, d)
        if positive: self.e.fact(a.elem > 0)
        if nonzero: self.e.fact(a.elem != 0)
        if view:
            b = SArr(self.I.Quantity, a.buf, Shape(['base_' + name]), dt)
            b.attrs['_dimensionality'] = SDim(self.I.Dim, d)
            a.base = b
        if frozen: a.writeable = FALSE
        return a
    def uncertain(self, name, dims=None, near=None, scalar=False, **k):
        dt = self._dtype(name, k.get('dtype', F8))
        a = SArr(self.I.UQ, Buffer(self._elem(name, dt)), self._shape(name, scalar), dt)
        d = dims if dims is not None else DimVal.symbolic('dim_' + name)
        a.attrs['_dimensionality'] = SDim(self.I.Dim, d)
        if k.get('nan'): a.buf.ok = self.e.fresh('isnumber_' + name, z3.BoolSort())
        u = SArr(self.I.Quantity, Buffer(self.e.fresh('sigma_' + name)), a.shape, dt if dt is F8 else SDtype(['dtu_' + name], TRUE))
        u.attrs['_dimensionality'] = SDim(self.I.Dim, d)
        self.e.fact(u.elem >= 0)
        if k.get('nonzero'): self.e.fact(a.elem != 0)
        if k.get('positive'): self.e.fact(a.elem > 0)
        a.attrs['_uncertainty'] = u
        return a
    def unit(self, name, kind='derived', near=None, cls=None):
        """an arbitrary unit. kind: derived (with a definition), base, compound, dimensionless, constant"""
        e = self.e
        if kind == 'dimensionless': return self.I.lift(self.q.dimensionless)
        uq = self.q.unitquantity
        cls = cls or {'derived': uq.UnitQuantity, 'base': uq.UnitLength, 'compound': uq.CompoundUnit, 'constant': uq.UnitConstant}[kind]
        t = e.unit(e.fresh(name, Unit))
        a = SArr(cls, Buffer(rv(1)), SCALAR, F8, writeable=FALSE)
        a.base = SArr(np.ndarray, a.buf, SCALAR, F8)
        a.unit = t
        e.memo[('unitobj', t.get_id())] = (a, t)
        for k in ('_name', '_symbol', '_u_symbol', 'alias'):
            s = a.attrs[k] = SStr(k + '_' + name)
            s.registered = a if kind not in ('constant', 'compound') else None        # a name once registered keeps denoting its unit (C08)
        a.attrs['_aliases'] = (a.attrs.pop('alias'),)
        if kind == 'compound': a.attrs.update(_symbol=None, _u_symbol=None, _aliases=[])
        a.attrs.update({
                        '_format_order': (cls._primary_order, 0)})
        e.fact(RMu_f(t) > 0)
        if kind == 'base':
            e.fact(RMu_f(t) == 1)
            e.forall(lambda x: RDu_f(t, x) == (If(x == t, rv(1), rv(0)) if not x.eq(t) else rv(1)))
            a.attrs['_definition'] = a.attrs['_conv_ref'] = None
        else:
            ref = SArr(self.I.Quantity, Buffer(RMu_f(t)), SCALAR, F8)
            ref.attrs['_dimensionality'] = SDim(self.I.Dim, RD(DimVal.single(t)))
            a.attrs['_conv_ref'] = ref
            df = SArr(self.I.Quantity, Buffer(e.fresh('def_' + name)), SCALAR, F8, writeable=FALSE)
            D = DimVal.symbolic('defdim_' + name)
            df.attrs['_dimensionality'] = SDim(self.I.Dim, D)
            a.attrs['_definition'] = df
            if kind == 'compound': a.attrs['_name'].denotes, a.attrs['_name'].value = df, True
            # class invariant: the cached reference is the reference of the definition (proved for __new__)
            e.fact(RMu_f(t) == df.elem * RM(D))
            e.assume(RD(DimVal.single(t)).eq(RD(D)))
        return a
    def number(self, name, kind='float', nonzero=False, positive=False):
        if kind == 'int':
            n = models.SNumInt(self.e.fresh(name, z3.IntSort()))
        else:
            n = SNum(rv(0)); n.t = self.e.fresh(name)
            if kind == 'npfloat': n.np = True
        if nonzero: self.e.fact(n.real != 0)
        if positive: self.e.fact(n.real > 0)
        return n
    def array(self, name, dtype='any', scalar=False, nonzero=False, positive=False, shape=None, ndim=None, uniform=False):
        dt = self._dtype(name, dtype)
        a = SArr(np.ndarray, Buffer(self._elem(name, dt)), shape if shape is not None else self._shape(name, scalar), dt)
        if nonzero: self.e.fact(a.elem != 0)
        if positive: self.e.fact(a.elem > 0)
        return a
    def list(self, name, nonzero=False):
        t = self.e.fresh(name)
        if nonzero: self.e.fact(t != 0)
        return models.SListData(t, Shape(['sh_' + name]), F8)
    def operand(self, name, kind, **k):
        if kind == 'quantity': return self.quantity(name, **k)
        if kind == 'scalarq': return self.quantity(name, scalar=True, **k)
        if kind == 'view': return self.quantity(name, view=True, **k)
        if kind == 'uncertain': return self.uncertain(name, **k)
        if kind in ('derived', 'base', 'compound', 'dimensionless', 'constant'): return self.unit(name, kind, near=k.get('near'))
        k.pop('near', None); k.pop('dims', None); k.pop('same', None)
        if kind in ('float', 'int', 'npfloat'): return self.number(name, kind, **k)
        if kind == 'ndarray': return self.array(name, **k)
        if kind == 'list': return self.list(name, nonzero=k.get('nonzero', False))
        raise ValueError(kind)
    def unit_quantity(self, name, near=None):
        """a quantity of magnitude one"""
        a = SArr(self.I.Quantity, Buffer(rv(1)), SCALAR, F8)
        a.attrs['_dimensionality'] = SDim(self.I.Dim, DimVal.symbolic('dim_' + name))
        return a
    def unitq_scaled(self, name, k):
        a = self.unit_quantity(name)
        a.buf = Buffer(rv(k))
        return a
    def representable(self, x, ratio, dtype='d'): pass
    def dims_of(self, x): return SDim(self.I.Dim, self.map(x))
    def unit_string(self, x):
        s = SStr('units')
        s.denotes = x
        return s
    def single(self, x): return single_element(x.shape)
    def all_one(self, m): return m.elem == 1
    def new_name(self, name): return 'pydv_new_' + name
    @contextlib.contextmanager
    def preferred(self, ps):
        k = (id(vars(self.q.quantity)), 'PREFERRED')
        self.I.goverlay[k] = interp.TList(ps)
        yield
        del self.I.goverlay[k]
    def _dcls(self): return list(self.q.unitquantity.IrreducibleUnit.__subclasses__())
    @contextlib.contextmanager
    def any_defaults(self):
        """an arbitrary state of the default units: each class has some default that reduces to the base units of its first one"""
        for c in self._dcls():
            live = c.__dict__.get('_default_unit')
            if live is None: continue
            d = self.unit('default_' + c.__name__, 'derived', cls=c)
            self.e.assume(RD(self.map(d)).eq(RD(self.map(self.I.lift(live)))))
            self.I.overlay[(c, '_default_unit')] = d
        yield
    def defaults(self): return {c: self.I.overlay[(c, '_default_unit')] for c in self._dcls() if (c, '_default_unit') in self.I.overlay}
    def default_candidate(self, name, C): return self.unit(name, 'derived', cls=C)
    def irreducible(self, name, C):
        u = self.unit(name, 'derived', cls=C)
        D = self.unit('default', 'derived', cls=C)
        U, V = self.map(u), self.map(D)
        self.I.overlay[(C, '_default_unit')] = D
        # the units of a class reduce to the same base units (precondition of simplified; set_default_unit keeps it for the default),
        # and the default-unit form of u is, by definition, in the default unit of its class
        self.e.assume(RD(U).eq(RD(V)))
        self.e.assume(SD(U).eq(V))
        return u, D
    def name_of(self, u): return self.unit_string(u)
    def index(self, name='i'): return SOpaque(('index', name), tuple)
    def opaque(self, name): return SOpaque((name,), int)
    def axis(self, x): return SOpaque(('axis',), int)
    def count(self, x, axis=None):
        """the number of elements that a product along the axis multiplies"""
        n = models.nd_getattr(self.I, x, 'size') if axis is None else models.shape_item(self.I, x.shape, axis)
        return rv(models.num_term(n)[0])
    def out_like(self, name, m, dims=None): return self.quantity(name, dims=dims, shape=m.shape, dtype=m.dtype)
    def plain_like(self, name, m): return self.array(name, shape=m.shape, dtype=m.dtype)
    def attempt(self, f):
        """the result of the numpy operation on plain numbers, None where numpy refuses it"""
        try: return f()
        except PyExc: return None
    def index_array(self, x, kind):
        i = self.e.fresh('mask', z3.BoolSort()) if kind == 'mask' else self.e.fresh('index')
        return SArr(np.ndarray, Buffer(i), Shape(['sh_index']) if kind != 'mask' else x.shape, B1 if kind == 'mask' else I8)
    def indices(self, x, mode): return self.index_array(x, 'intarray')
    def put(self, m, k, v, mode):
        a = m.arr()
        models.nd_method(self.I, a, 'put', (k, v.arr() if isinstance(v, Mag) else v, mode), {})
        return self.mag(a)
    def sorted_quantity(self, name): return self.quantity(name)
    def dimension(self, x, n): self.e.memo[('ndim', x.shape)] = n
    def scalar_shape(self, x): return is0(x.shape)
    def shape_of(self, x): return x.shape
    def samples(self): return Shape(['samples'])
    def gradients(self, m, ds, ndim):
        r = models.np_gradient(self.I, m.arr(), *[d.arr() for d in ds])
        return [self.mag(x) for x in ([r] if ndim == 1 else r)]
    def trapezoid(self, y, x, dx):
        return self.mag(specs.trapz_rule(self.I, [y.arr(), None if x is None else x.arr(), dx.arr() if isinstance(dx, Mag) else dx, -1], {}))
    def vector(self, name, kind): return self.operand(name, kind)
    def with_unit_axis(self): return None
    def unit_axis(self): return SOpaque(('axis',), int)
    def boolean(self, name):
        return self.e.decide(z3.Bool(name))
    # ------------------------------------------------------------ observation
    def is_quantity(self, x): return isinstance(x, SArr) and issubclass(x.cls, self.I.Quantity)
    def is_unit(self, x): return isinstance(x, SArr) and issubclass(x.cls, self.I.UnitQuantity)
    def cls(self, x): return self.I.pytype(x)
    def isinstance(self, x, c): return self.I.isinstance(x, c)
    def map(self, x):
        """the unit -> exponent map of a quantity, unit, dimensionality or plain number"""
        if isinstance(x, np.ndarray): x = self.I.lift(x)
        if isinstance(x, DimVal): return x
        if isinstance(x, SDim): return x.st
        if isinstance(x, SArr) and x.unit is not None:
            if x.cls is self.q.unitquantity.Dimensionless: return DimVal.empty()
            return DimVal.single(x.unit)
        if isinstance(x, SArr) and issubclass(x.cls, self.I.Quantity): return x.attrs['_dimensionality'].st
        return DimVal.empty()
    def empty(self): return DimVal.empty()
    def one(self, u): return self.map(u)
    def map_get(self, m, u): return m.val(u.unit)
    def map_has(self, m, u): return m.dom(u.unit)
    def mag(self, x):
        if isinstance(x, Mag): return x
        if isinstance(x, np.ndarray): x = self.I.lift(x)
        if isinstance(x, SArr): return Mag(x.elem, x.ok, x.shape, x.dtype)
        if isinstance(x, models.SListData): return Mag(x.elem, TRUE, x.shape, x.dtype)
        if isinstance(x, SBool): return Mag(x.t, TRUE, SCALAR, B1)
        t, k, ok = models.num_term(x)
        return Mag(t, ok, SCALAR, getattr(x, 'dt', None) or models.arr_dtype(x))
    def has_magnitude(self, x): return not isinstance(x, (SDim, str, SStr, tuple, type(None)))
    def unc(self, x):
        return self.mag(x.attrs['_uncertainty'])
    def unc_obj(self, x): return x.attrs.get('_uncertainty') if isinstance(x, SArr) else None
    def scalar(self, x):
        """a number as a term"""
        return x.elem if isinstance(x, Mag) else models.num_term(x)[0]
    def size(self, m): return RM(m)
    def base(self, m): return RD(m)
    def dsize(self, m): return SM(m)
    def dbase(self, m): return SD(m)
    def compatible(self, a, b): return RD(a).eq(RD(b))
    def phys(self, x):
        """physical values: magnitudes in irreducible units"""
        return self.mag(x) * RM(self.map(x))
    def fn(self, name, *ms, **kw):
        uf = getattr(np, name) if isinstance(name, str) else name
        x = [m.arr() if isinstance(m, Mag) else m for m in (Mag.of(m) for m in ms)]
        el, ok, dt = models.uf_apply(uf, x)
        shp = SCALAR
        for m in ms:
            if isinstance(m, Mag): shp = shp.bc(m.shape)
        return Mag(el, ok, shp, dt)
    def red(self, name, m, *args, **kw):
        """numpy's own method/function `name` on the bare numbers"""
        args = [a.arr() if isinstance(a, Mag) else a for a in args]
        kw = {k: a.arr() if isinstance(a, Mag) else a for k, a in kw.items()}
        r = models.array_op(self.I, name, m.arr(), args, kw)
        if isinstance(r, tuple): r = r[0]
        return self.mag(r)
    def getitem(self, m, k):
        r = models.nd_getitem(self.I, m.arr(), k)
        return self.mag(r)
    def setitem(self, m, k, v):
        a = m.arr()
        models.nd_setitem(self.I, a, k, v.arr() if isinstance(v, Mag) else v)
        return self.mag(a)
    def cast(self, m, like):
        """m converted to the dtype of `like`"""
        return Mag(cast(m.elem, m.dtype, like.dtype), m.ok, like.shape, like.dtype)
    def boolean_values(self, r): return isinstance(r, (bool, SBool)) or z3.is_bool(self.mag(r).elem)
    def everywhere(self, m, b, where=None):
        f = m.elem == z3.BoolVal(bool(b)) if z3.is_bool(m.elem) else m.elem == rv(b)
        f = And(m.ok, f)
        return f if where is None else Implies(where.ok, f)
    def equal(self, a, b): return self.same(a, b)
    def exact(self, m): return m
    def value(self, m): return rv(m.elem)
    def holds(self, like, m):
        """the dtype of `like` can hold results of the dtype of m (same-kind cast)"""
        return Or(like.dtype.inexact, Not(m.dtype.inexact))
    # ------------------------------------------------------------ formulas
    def And(self, *a): return And(*[self._b(x) for x in a])
    def Or(self, *a): return Or(*[self._b(x) for x in a])
    def Not(self, a): return Not(self._b(a))
    def Implies(self, a, b): return Implies(self._b(a), self._b(b))
    def _b(self, x):
        if isinstance(x, bool): return z3.BoolVal(x)
        if isinstance(x, SBool): return x.t
        return x
    def eqmap(self, a, b):
        return a.eq(b)
    def iff(self, a, b): return self._b(a) == self._b(b)
    def eqnum(self, a, b): return rv(a) == rv(b)
    def lt(self, a, b): return rv(a) < rv(b)
    def same(self, got, want, dtype=False):
        """the magnitudes got are the numbers want (wherever want is a defined number)"""
        if not isinstance(got, Mag): got = self.mag(got)
        if not isinstance(want, Mag): want = self.mag(want)
        shp = self.same_shape(got, want)
        g, w = got.elem, want.elem
        if z3.is_bool(g) != z3.is_bool(w):
            g = If(g, rv(1), rv(0)) if z3.is_bool(g) else g
            w = If(w, rv(1), rv(0)) if z3.is_bool(w) else w
        r = And(shp, Implies(want.ok, And(got.ok, g == w)))
        if dtype and not got.dtype.same(want.dtype): return FALSE
        return r
    def same_shape(self, a, b):
        a, b = self.mag(a).shape, self.mag(b).shape
        if a == b: return TRUE
        # broadcast-compatible operands whose extra tokens are scalars
        if a.toks <= b.toks or b.toks <= a.toks:
            t = self.I.m.shape_cmp(self.I, 'eq', a, b)
            return t if z3.is_expr(t) else t.t if isinstance(t, SBool) else z3.BoolVal(t)
        t = self.I.m.shape_cmp(self.I, 'eq', a, b)
        return t.t if isinstance(t, SBool) else z3.BoolVal(t)
    def broadcasts(self, *ms):
        """the shapes broadcast together to the shape of the first"""
        a = self.mag(ms[0]).shape
        r = a
        for m in ms[1:]: r = r.bc(self.mag(m).shape)
        return Not(models.no_broadcast(r, a))
    def conform(self, *ms): pass
    def defined(self, m): return self.mag(m).ok
    def nonnegative(self, m, where=None): return m.elem >= 0 if where is None else Implies(where.ok, m.elem >= 0)
    def zero_where_nan(self, m, v):
        """v where m is a number, 0 elsewhere"""
        return Mag(If(m.ok, v.elem, rv(0)), v.ok, v.shape, v.dtype)
    def numbers(self, m):
        """which elements are numbers"""
        return Mag(m.ok, TRUE, m.shape, B1)
    def at(self, m, i, axis):
        """the elements of m at the indices i along the axis"""
        n = SNum(rv(0), 'float', True); n.t = i.elem
        if axis is None: return self.mag(models.nd_getitem(self.I, m.arr(), models.np_unravel_index(self.I, n, m.shape)))
        return self.mag(models.array_op(self.I, 'squeeze', models.np_take_along_axis(self.I, m.arr(), models.np_expand_dims(self.I, i.arr(), axis), axis), [axis], {}))
    def extreme(self, got, want): pass
    def asarray(self, m):
        a = models.to_array(self.I, m.arr())
        for weak, strong in ((pyfloat_dtype(), F8), (pyint_dtype(), I8)):
            if a.dtype.toks == weak.toks: a = models.new_array(self.I, a.elem, a.shape, strong, a.ok)
        return self.mag(a)
    def astype(self, m, dtype): return self.mag(models.nd_method(self.I, m.arr(), 'astype', (dtype,), {}))
    def holds_type(self, m, dtype):
        dt = models.to_dtype(self.I, dtype)
        return z3.BoolVal(m.dtype.join(dt).same(m.dtype))
    def all_zero(self, m):
        m = self.mag(m)
        a = models.array_op(self.I, 'any', models.to_array(self.I, m.arr()), [], {})
        t = a.elem if isinstance(a, SArr) else a.t if isinstance(a, SBool) else a
        return Not(t if z3.is_expr(t) and z3.is_bool(t) else t != 0 if z3.is_expr(t) else z3.BoolVal(bool(t)))
    def identical(self, a, b): return a is b
    def shares(self, a, b):
        """a and b use the same data"""
        return isinstance(a, SArr) and isinstance(b, SArr) and a.buf is b.buf
    def is_view(self, v, x):
        """v is another array that uses the data of x"""
        def chain(a):
            l = []
            while a is not None:
                l.append(a); a = a.base
            return l
        return isinstance(v, SArr) and isinstance(x, SArr) and v is not x and (v.buf is x.buf or any(a is b for a in chain(v) for b in chain(x)))
    def shares_dims(self, a, b):
        g = lambda x: x if isinstance(x, SDim) else x.attrs.get('_dimensionality') if isinstance(x, SArr) else None
        return g(a) is not None and g(a) is g(b)
    # ------------------------------------------------------------ control
    def assume(self, f):
        if f is False: raise PathEnd()
        self.e.assume(self._b(f))
    def branch(self, f):
        f = self._b(f)
        return self.e.decide(f)
    def run(self, fn, *args):
        I = self.I
        I.depth = 0
        sf = I.sfunc(fn)
        try:
            return Outcome(I.call_sfunc(sf, args, {}))
        except PyExc as ex:
            if issubclass(ex.exc.cls, AssertionError): pass
            o = Outcome(None, ex.exc.cls)
            o.excobj = ex.exc
            return o
    def run_raw(self, fn): return self.run(fn)
    def post(self, name, goal):
        g = self._b(goal)
        self.e.prove(g, name)
        if z3.is_false(z3.simplify(g)): raise PathEnd()
    def ground(self, name, ok):
        """an obligation without variables, decided by exact rational arithmetic"""
        self.e.obligations.append(Obligation(name, 'proved' if ok else 'refuted', 0.0, 'exact rational arithmetic'))
    def returns(self, o, name='returns'):
        if o.exc is not None:
            self.e.prove(FALSE, '%s (raises %s)' % (name, o.exc.__name__))
            raise PathEnd()
        return o.value
    def raises(self, o, excs, name='raises'):
        excs = excs if isinstance(excs, tuple) else (excs,)
        ok = o.exc is not None and issubclass(o.exc, excs)
        self.e.prove(z3.BoolVal(ok), '%s %s%s' % (name, '/'.join(x.__name__ for x in excs), '' if ok else ' (%s)' % ('returns' if o.exc is None else o.exc.__name__)))
        if not ok: raise PathEnd()
    def done(self): raise PathEnd()
    # ------------------------------------------------------------ units and the registry
    def protocol(self): return 2
    def element(self, x):
        k = self.index('e')
        o = self.run(lambda: x[k])
        if o.exc is not None: raise PathEnd()
        return o.value
    def writeable(self, x): return x.writeable
    def all_true(self, m): return m.elem if z3.is_bool(m.elem) else m.elem != 0
    def text(self, u, which):
        v = u.attrs.get('_' + which)
        return v if v is not None or which == 'name' else self.text(u, 'name')
    def unit_state(self, u):
        d = u.attrs.get('_definition')
        if d is getattr(u, 'live', u): d = u
        st = {k: u.attrs.get('_' + k) for k in ('name', 'symbol', 'u_symbol', 'aliases', 'format_order')}
        st.update(elem=u.elem, ok=u.ok, writeable=u.writeable, shape=u.shape, dtype=u.dtype, unit=u.unit, definition=None if d is None or d is u else (self.map(d), self.mag(d)), rm=RMu_f(u.unit))
        return st
    def same_unit_state(self, a, b, order=False):
        for k in ('name', 'symbol', 'u_symbol', 'aliases') + (('format_order',) if order else ()):
            if not (a[k] is b[k] or not interp.is_sym(a[k]) and not interp.is_sym(b[k]) and a[k] == b[k] or isinstance(a[k], tuple) and isinstance(b[k], tuple) and len(a[k]) == len(b[k]) and all(x is y for x, y in zip(a[k], b[k]))): return FALSE
        da, db = a['definition'], b['definition']
        if (da is None) != (db is None): return FALSE
        f = [a['elem'] == b['elem'], a['ok'] == b['ok'], a['writeable'] == b['writeable'], a['unit'] == b['unit'], a['rm'] == b['rm'], z3.BoolVal(a['dtype'].same(b['dtype']) and a['shape'].scalar == b['shape'].scalar)]
        if da is not None: f += [self.eqmap(da[0], db[0]), self._b(self.same(da[1], db[1]))]
        return And(*f)
    def denotes(self, s, u):
        """the registered name s denotes u"""
        if isinstance(s, str): return TRUE
        for k, v in self.e.memo.items():
            if isinstance(k, tuple) and k[0] == 'livedict' and k[2] == id(s): return z3.BoolVal(v.v is u)
        return z3.BoolVal(s.registered is u)
    def new_text(self, n):
        s = SStr('text_' + n)
        s.registered = None
        return s
    def some_name(self, u): return self.text(u, 'name')
    def equal_units(self, u, v): return And(self.compatible(self.map(u), self.map(v)), self.eqsize(RMu_f(u.unit), RMu_f(v.unit)))
    def eqsize(self, a, b): return rv(a) == rv(b)
    def is_text(self, s, *alts):
        """s is the first non-empty one of these"""
        f = FALSE
        for a in reversed(alts):
            c = z3.BoolVal(s is a)
            f = c if a is alts[-1] else If(a.nonempty if hasattr(a, 'nonempty') else TRUE, c, f)
        return f
    def no_text(self, s): return Not(s.nonempty) if hasattr(s, 'nonempty') else FALSE
    def unregistered(self, s):
        for k, v in self.e.memo.items():
            if isinstance(k, tuple) and k[0] == 'livedict' and k[2] == id(s): return z3.BoolVal(v.v is None)
        return z3.BoolVal(s.registered is None)
    def like_unit(self, u):
        """another object of the same class and name"""
        v = SArr(u.cls, Buffer(rv(1)), SCALAR, F8, writeable=FALSE)
        v.unit = u.unit
        v.attrs.update({k: (SStr('other') if k != '_name' and isinstance(x, SStr) else x) for k, x in u.attrs.items()})
        return v
    def different(self, u, v): return And(u.unit != v.unit, z3.BoolVal(u.attrs['_name'] is not v.attrs['_name']))
