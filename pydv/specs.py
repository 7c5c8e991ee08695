"""Contracts of the functions of the package, as used at call sites (the callee's body is not looked at there).
Each of them is proved against the body by a case in cases/core.py, run with every check that uses it."""
import numpy as np
from .core import *
from .core import z3
from .dims import *
from .values import *
from . import models

def _st(I, d):
    st = d.st.norm()
    d.st = st
    return st

def _need_dim(I, o):
    if not isinstance(o, SDim) or not issubclass(o.cls, I.Dim): throw(TypeError, 'arg must be a Dimensionality')

def _scalar(I, v):
    return models.np_isscalar(I, v) and not isinstance(v, (str, SStr, bool))

def dim_mul(sign, inplace):
    def c(I, args, kw):
        a, b = args
        if kw or not isinstance(a, SDim): raise Unsupported('contract arguments')
        _need_dim(I, b)
        r = _st(I, a) + _st(I, b) * sign
        if inplace:
            if a is b: raise Unsupported('aliased in-place dimensionality operation')
            a.st = r
            return a
        return SDim(I.Dim, r)
    return c

def dim_pow(inplace):
    def c(I, args, kw):
        a, b = args
        if kw or not isinstance(a, SDim): raise Unsupported('contract arguments')
        if not models.np_isscalar(I, b): throw(TypeError, 'exponent must be a scalar')
        if isinstance(b, (str, SStr)): raise Unsupported('string exponent')
        t, k, ok = models.num_term(b)
        r = _st(I, a) * t
        if inplace:
            a.st = r
            return a
        return SDim(I.Dim, r)
    return c

def dim_eq(neg):
    def c(I, args, kw):
        a, b = args
        if not isinstance(a, SDim) or not isinstance(b, SDim) or not issubclass(b.cls, I.Dim): raise Unsupported('comparison of a dimensionality with something else')
        t = _st(I, a).eq(_st(I, b))
        return mkbool(Not(t) if neg else t)
    return c

def dim_addsub(inplace):
    def c(I, args, kw):
        a, b = args
        _need_dim(I, b)
        if E().decide(_st(I, a).eq(_st(I, b))):
            return a if inplace else SDim(I.Dim, a.st)
        throw(ValueError, 'can not add units')
    return c

def dim_copy(I, args, kw):
    return SDim(I.Dim, args[0].st)

def unit_reference(I, args, kw):
    """a unit's reference: its size in irreducible units, with its irreducible dimensions"""
    u = args[0]
    if not isinstance(u, SArr) or u.unit is None: raise Unsupported('reference of something else')
    e = E()
    e.unit(u.unit)
    if u.cls is I.q.unitquantity.Dimensionless: return I.getattr_raw(u, '_reference')
    q = SArr(I.Quantity, Buffer(RMu_f(u.unit)), SCALAR, F8)
    e.fact(RMu_f(u.unit) > 0)
    q.attrs['_dimensionality'] = SDim(I.Dim, DimVal.single(u.unit).rd1())
    return q

def unit_simplified(I, args, kw):
    u = args[0]
    if not isinstance(u, SArr) or u.unit is None: raise Unsupported('simplified of something else')
    e = E()
    e.unit(u.unit)
    if u.cls is I.q.unitquantity.Dimensionless: return I.getattr_raw(u, 'simplified')
    q = SArr(I.Quantity, Buffer(SM(DimVal.single(u.unit))), SCALAR, F8)
    q.attrs['_dimensionality'] = SDim(I.Dim, DimVal.single(u.unit).sd1())
    return q

def q_reference(I, args, kw):
    q = args[0]
    st = _st(I, q.attrs['_dimensionality'])
    r = SArr(I.Quantity, Buffer(RM(st) * q.elem, q.ok), q.shape, F8.join(q.dtype))
    r.attrs['_dimensionality'] = SDim(I.Dim, RD(st))
    return r

def q_simplified(I, args, kw):
    q = args[0]
    st = _st(I, q.attrs['_dimensionality'])
    r = SArr(I.Quantity, Buffer(SM(st) * q.elem, q.ok), q.shape, F8.join(q.dtype))
    r.attrs['_dimensionality'] = SDim(I.Dim, SD(st))
    return r

def dim_simplified(I, args, kw):
    d = args[0]
    return SDim(I.Dim, SD(_st(I, d)))

def unit_hash(I, args, kw):
    """units hash by class and name: equal for the same dictionary key, different for different ones"""
    u = args[0]
    if not isinstance(u, SArr) or u.unit is None: raise Unsupported('hash of something else')
    return SHash((('unit', u.unit),))

def trapz_rule(I, args, kw):
    """the trapezoid rule on plain arrays (the same function of the same samples)"""
    names = ('y', 'x', 'dx', 'axis')
    p = {'x': None, 'dx': 1.0, 'axis': -1}
    p.update(zip(names, args)); p.update(kw)
    y, x, dx = p['y'], p['x'], p['dx']
    for v in (y, x, dx):
        if isinstance(v, SArr) and v.cls is not np.ndarray: raise Unsupported('trapezoid rule of quantities')
    arrs = [models.to_array(I, y)] + ([models.to_array(I, x)] if x is not None else [models.to_array(I, dx)])
    el, ok = models.opaque(I, 'trapz', arrs, ['x' if x is not None else 'dx', p['axis']])
    if models.shape_of(arrs[0]).scalar: throw(IndexError, 'trapezoid rule of a number')
    return models.new_array(I, el, Shape(['trapz(%s)' % '+'.join(sorted(map(str, models.shape_of(arrs[0]).toks)))]), F8, ok)

def exponent_text(I, args, kw):
    """the decimal text of the number, without insignificant zeros"""
    if kw or len(args) != 1: raise Unsupported('contract arguments')
    if not isinstance(args[0], SNum): return I.native(I.q.markup.format_exponent, args, kw)
    return I.t.number_text(I, args[0], 'exp')

TABLE = {
    'format_exponent': exponent_text,
    'Dimensionality.__mul__': dim_mul(1, False), 'Dimensionality.__imul__': dim_mul(1, True),
    'Dimensionality.__truediv__': dim_mul(-1, False), 'Dimensionality.__itruediv__': dim_mul(-1, True),
    'Dimensionality.__pow__': dim_pow(False), 'Dimensionality.__ipow__': dim_pow(True),
    'Dimensionality.__eq__': dim_eq(False), 'Dimensionality.__ne__': dim_eq(True),
    'Dimensionality.__add__': dim_addsub(False), 'Dimensionality.__sub__': dim_addsub(False),
    'Dimensionality.__iadd__': dim_addsub(True), 'Dimensionality.__isub__': dim_addsub(True),
    'Dimensionality.copy': dim_copy, 'Dimensionality.simplified': dim_simplified,
    '_trapz': trapz_rule, 'UnitQuantity.__hash__': unit_hash,
    'UnitQuantity._reference': unit_reference, 'UnitQuantity.simplified': unit_simplified, 'IrreducibleUnit.simplified': unit_simplified,
    'Quantity._reference': q_reference, 'Quantity.simplified': q_simplified,
}
