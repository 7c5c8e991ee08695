"""rescaling (C03) and conversion factors (C04); the references they are computed from"""
import operator
import numpy as np
from ..registry import case
from .util import *

TARGETS = ['derived', 'base', 'compound', 'dimensionless', 'constant', 'unitq', 'dims', 'string']
def target(h, name, kind, near):
    """(the units argument, its unit map)"""
    if kind in UNITS:
        t = h.unit(name, kind, near=near)
        return t, h.map(t)
    if kind == 'unitq':
        t = h.unit_quantity(name, near=near)
        return t, h.map(t)
    if kind == 'dims':
        t = h.dims_of(h.unit_quantity(name, near=near))
        return t, h.map(t)
    t = h.unit_quantity(name, near=near)
    return h.unit_string(t), h.map(t)

@case('C03', funcs=['Quantity.rescale', 'validate_dimensionality', 'validate_unit_quantity', 'get_conversion_factor', 'Quantity.astype', 'Quantity.units'],
      kind=QUANT + UNITS, to=TARGETS, dtype=['any'])
def rescale(h, kind, to, dtype):
    x = h.operand('x', kind, dtype=dtype) if kind in QUANT else h.operand('x', kind)
    t, T = target(h, 't', to, x)
    X, mx = h.map(x), h.mag(x)
    h.representable(x, h.size(X) / h.size(T))
    sx, st = Snap(h, x), Snap(h, t)
    o = h.run(lambda: x.rescale(t))
    if h.branch(h.compatible(X, T)):
        r = h.returns(o)
        h.post('exactly the requested units', h.eqmap(h.map(r), T))
        h.post('magnitudes', h.same(h.mag(r), mx * (h.size(X) / h.size(T))))
        h.post('a quantity', h.isinstance(r, h.q.Quantity))
        h.post('an object of its own', r is not x and r is not t)
    else:
        h.raises(o, ValueError)
    unchanged(h, sx, st)

@case('C03', funcs=['Quantity.rescale', 'Quantity.astype'], kind=['quantity', 'scalarq', 'derived'], to=['derived', 'compound', 'dims', 'same'], dtype=['d', 'f'], given=['keyword', 'second'])
def rescale_dtype(h, kind, to, dtype, given):
    """the requested type, or one that can hold its numbers"""
    x = h.operand('x', kind, dtype='any') if kind in QUANT else h.operand('x', kind)
    X, mx = h.map(x), h.mag(x)
    t, T = (h.returns(h.run(lambda: x.units)), X) if to == 'same' else target(h, 't', to, x)
    h.assume(h.compatible(X, T))
    h.representable(x, h.size(X) / h.size(T), dtype)
    sx, st = Snap(h, x), Snap(h, t)
    r = h.returns(h.run(lambda: x.rescale(t, dtype=dtype) if given == 'keyword' else x.rescale(t, dtype)))
    h.post('exactly the requested units', h.eqmap(h.map(r), T))
    if h.branch(h.eqmap(X, T)): h.post('the numbers in that type', h.same(h.mag(r), h.astype(mx, dtype), dtype=True))
    else:
        h.post('magnitudes', h.same(h.mag(r), h.astype(mx * (h.size(X) / h.size(T)), dtype)))
        h.post('a type that holds the requested one', h.holds_type(h.mag(r), dtype))
    unchanged(h, sx, st)

@case('C03', funcs=['Quantity.rescale'], kind=QUANT, dtype=['float', 'int'])
def rescale_present_units(h, kind, dtype):
    x = h.operand('x', kind, dtype=dtype)
    X, mx = h.map(x), h.mag(x)
    sx = Snap(h, x)
    o = h.run(lambda: x.rescale(x.units))
    r = h.returns(o)
    h.post('units', h.eqmap(h.map(r), X))
    h.post('magnitudes unchanged', h.same(h.mag(r), mx, dtype=True))
    h.post('a copy', r is not x and not h.shares(r, x))
    unchanged(h, sx)

@case('C03', funcs=['Quantity.units', 'get_conversion_factor'], kind=['quantity', 'scalarq'], to=TARGETS, dtype=['float', 'int'])
def assign_units(h, kind, to, dtype):
    x = h.operand('x', kind, dtype=dtype)
    t, T = target(h, 't', to, x)
    X, mx = h.map(x), h.mag(x)
    sx, st = Snap(h, x), Snap(h, t)
    def f():
        x.units = t
    o = h.run(f)
    if h.branch(h.compatible(X, T)):
        if o.exc is not None and dtype == 'int':
            # integers cannot be converted in place: refused rather than truncated
            h.raises(o, TypeError)
            h.post('only when there is something to convert', h.Not(h.eqmap(X, T)))
            unchanged(h, sx, st)
        else:
            h.returns(o)
            h.post('exactly the requested units', h.eqmap(h.map(x), T))
            h.post('magnitudes', h.same(h.mag(x), mx * (h.size(X) / h.size(T))))
            unchanged(h, st)
    else:
        h.raises(o, ValueError)
        unchanged(h, sx, st)

NOTUNITS = ['float', 'int', 'ndarray', 'list', 'arrayq', 'scaledq', 'zeroq', 'badstring', 'scaledstring', 'tuple']
def not_units(h, kind):
    """something that is not a unit"""
    if kind in ('float', 'int', 'ndarray', 'list'): return h.operand('t', kind)
    if kind == 'tuple': return (1, 2)
    if kind == 'arrayq':
        # the docstring's exception: one-element arrays of magnitude one are accepted
        t = h.quantity('t', ndim=1)
        h.assume(h.Not(h.single(t)))
        return t
    if kind == 'scaledq':
        t = h.quantity('t', scalar=True, dtype='float')
        h.assume(h.Not(h.all_one(h.mag(t))))
        return t
    if kind == 'zeroq':
        return h.quantity('t', scalar=True, dtype='float') * 0 if not h.symbolic else h.unitq_scaled('t', 0)
    if kind == 'badstring': return 'pydv_no_such_unit'
    if kind == 'scaledstring': return '3*m'

@case('C03', funcs=['validate_dimensionality', 'validate_unit_quantity', 'Quantity.rescale'], how=['rescale', 'assign'], kind=QUANT, bad=NOTUNITS, only=lambda how, kind, bad: bad != 'zeroq' and (how, kind) != ('assign', 'view'))
def rescale_to_nonunit(h, how, kind, bad):
    x = h.operand('x', kind, dtype='float')
    t = not_units(h, bad)
    sx = Snap(h, x)
    def assign(): x.units = t
    o = h.run((lambda: x.rescale(t)) if how == 'rescale' else assign)
    h.raises(o, Exception)
    unchanged(h, sx)

@case('C03', funcs=['Quantity.dimensionless_magnitude'], kind=QUANT + UNITS)
def dimensionless_magnitude(h, kind):
    x = h.operand('x', kind)
    X, mx = h.map(x), h.mag(x)
    sx = Snap(h, x)
    o = h.run(lambda: x.dimensionless_magnitude)
    if h.branch(h.compatible(X, h.empty())):
        r = h.returns(o)
        h.post('plain numbers', not h.is_quantity(r))
        h.post('magnitudes', h.same(h.mag(r), mx * h.size(X)))
    else:
        h.raises(o, ValueError)
    unchanged(h, sx)

@case('C03', funcs=['Quantity.rescale_preferred'], kind=['quantity', 'scalarq'], how=['preferred', 'none'], n=[0, 1, 2])
def rescale_preferred(h, kind, how, n):
    x = h.operand('x', kind)
    ps = [h.unit_quantity('p%d' % i, near=x) for i in range(n)]
    X, mx = h.map(x), h.mag(x)
    sx = Snap(h, x)
    P = [h.map(p) for p in ps]
    for m in P: h.representable(x, h.size(X) / h.size(m))
    with h.preferred(ps):
        o = h.run((lambda: x.rescale_preferred()) if how == 'preferred' else (lambda: x.rescale()))
    match = None
    for i in range(n):
        if h.branch(h.compatible(X, P[i])):
            match = P[i]
            break
    if match is not None:
        r = h.returns(o)
        h.post('the first preferred units of the same dimension', h.eqmap(h.map(r), match))
        h.post('magnitudes', h.same(h.mag(r), mx * (h.size(X) / h.size(match))))
    else:
        h.raises(o, Exception)
    unchanged(h, sx)

# ------------------------------------------------------------------ conversion factors
def cf(h, a, b):
    return h.run(lambda: h.q.quantity.get_conversion_factor(a, b))

UK = UNITS + ['unitq']
def anyunit(h, name, kind, near=None):
    return h.unit_quantity(name, near=near) if kind == 'unitq' else h.unit(name, kind, near=near)

@case('C04', funcs=['get_conversion_factor', 'validate_unit_quantity'], a=UK, b=UK)
def conversion_factor(h, a, b):
    x = anyunit(h, 'a', a); y = anyunit(h, 'b', b, near=x)
    X, Y = h.map(x), h.map(y)
    sx, sy = Snap(h, x), Snap(h, y)
    o = cf(h, x, y)
    if h.branch(h.compatible(X, Y)):
        r = h.returns(o)
        h.post('the ratio of the sizes', h.same(h.mag(r), h.mag(1.0) * (h.size(X) / h.size(Y))))
    else:
        h.raises(o, (AssertionError, ValueError), 'refused')
    unchanged(h, sx, sy)

@case('C04', funcs=['get_conversion_factor'], a=UK)
def factor_to_itself(h, a):
    x = anyunit(h, 'a', a)
    r = h.returns(cf(h, x, x))
    h.post('one', h.same(h.mag(r), h.mag(1.0)))

@case('C04', funcs=['get_conversion_factor'], a=UK, b=['derived', 'compound', 'unitq'], c=['derived', 'base', 'unitq'], only=lambda a, b, c: (c != 'base' or a in ('derived', 'base', 'unitq') and b != 'compound') and not (a == 'constant' and 'compound' in (b, c)))
def factors_compose(h, a, b, c):
    x = anyunit(h, 'a', a); y = anyunit(h, 'b', b, near=x); z = anyunit(h, 'c', c, near=x)
    X, Y, Z = h.map(x), h.map(y), h.map(z)
    h.assume(h.compatible(X, Y)); h.assume(h.compatible(Y, Z))
    ab = h.returns(cf(h, x, y)); bc = h.returns(cf(h, y, z)); ac = h.returns(cf(h, x, z)); ba = h.returns(cf(h, y, x))
    h.post('factor(a, b) factor(b, c) = factor(a, c)', h.same(h.mag(ab) * h.mag(bc), h.mag(ac)))
    h.post('factor(b, a) = 1 / factor(a, b)', h.same(h.mag(ba), 1 / h.mag(ab)))

@case('C04', funcs=['get_conversion_factor'], op=['mul', 'truediv'], a=UK, b=UK, only=lambda op, a, b: a in ('derived', 'unitq', 'base') or b in ('derived',))
def factor_of_product(h, op, a, b):
    x, y = anyunit(h, 'a', a), anyunit(h, 'b', b)
    x2, y2 = h.unit_quantity('c', near=x), h.unit_quantity('d', near=y)
    h.assume(h.compatible(h.map(x), h.map(x2))); h.assume(h.compatible(h.map(y), h.map(y2)))
    f = getattr(operator, op)
    p1, p2 = h.returns(h.run(lambda: f(x, y))), h.returns(h.run(lambda: f(x2, y2)))
    r, rx, ry = h.returns(cf(h, p1, p2)), h.returns(cf(h, x, x2)), h.returns(cf(h, y, y2))
    want = h.mag(rx) * h.mag(ry) if op == 'mul' else h.mag(rx) / h.mag(ry)
    h.post('the %s of the factors' % ('product' if op == 'mul' else 'quotient'), h.same(h.mag(r), want))

@case('C04', funcs=['get_conversion_factor'], a=UK, p=[2, -1, 3, -2, 0.5])
def factor_of_power(h, a, p):
    x = anyunit(h, 'a', a)
    y = h.unit_quantity('b', near=x)
    h.assume(h.compatible(h.map(x), h.map(y)))
    p1, p2 = h.returns(h.run(lambda: x ** p)), h.returns(h.run(lambda: y ** p))
    r, rx = h.returns(cf(h, p1, p2)), h.returns(cf(h, x, y))
    h.post('the power of the factor', h.same(h.mag(r), h.mag(rx) ** p))

@case(['C04'], funcs=['UnitQuantity.__new__', 'UnitQuantity._reference', 'UnitQuantity.definition'], cls=['UnitQuantity', 'UnitLength', 'UnitConstant'], how=['quantity', 'unit', 'number'])
def factor_of_new_unit(h, cls, how):
    """a unit defined by the user: its factor is the number in its definition times the factor of the defining units"""
    d = h.quantity('d', scalar=True, dtype='float', positive=True) if how == 'quantity' else h.unit('d', 'derived') if how == 'unit' else h.number('d', 'float', positive=True)
    D, md = h.map(d), h.mag(d)
    sd = Snap(h, d)
    C = getattr(h.q.unitquantity, cls)
    name = h.new_name('u')
    u = h.returns(h.run(lambda: C(name, d, symbol=name + 's')))
    h.post('a unit of the class asked for', h.cls(u) is C)
    t = h.unit_quantity('t', near=d)
    T = h.map(t)
    o = cf(h, u, t)
    if h.branch(h.compatible(D, T)):
        h.post('factor', h.same(h.mag(h.returns(o)), md * (h.size(D) / h.size(T))))
    else:
        h.raises(o, (AssertionError, ValueError), 'refused')
    unchanged(h, sd)

def new_reference(h, cls, how):
    """whatever the default units are when a unit is defined: its reference is its physical size in irreducible units"""
    with h.any_defaults():
        d = h.quantity('d', scalar=True, dtype='float', positive=True) if how == 'quantity' else h.unit('d', 'derived') if how == 'unit' else h.number('d', 'float', positive=True)
        D, md = h.map(d), h.mag(d)
        C = getattr(h.q.unitquantity, cls)
        name = h.new_name('u')
        u = h.returns(h.run(lambda: C(name, d, symbol=name + 's')))
        t = h.unit_quantity('t', near=d)
        T = h.map(t)
        if h.symbolic:
            r = h.returns(h.run(lambda: u._reference))
            h.post('magnitude is the size of the unit', h.same(h.mag(r), md * h.size(D)))
            h.post('irreducible dimensions', h.eqmap(h.map(r), h.base(D)))
    if not h.symbolic and h.compatible(D, T):
        h.post('factor', h.same(h.mag(h.returns(cf(h, u, t))), md * (h.size(D) / h.size(T))))

@case('C04', funcs=['UnitQuantity.__new__', 'UnitQuantity._reference'], skip=['UnitQuantity._reference'], cls=['UnitQuantity', 'UnitLength', 'UnitConstant'], how=['quantity', 'number'])
def new_unit_reference(h, cls, how): new_reference(h, cls, how)
@case('C04', funcs=['UnitQuantity.__new__', 'UnitQuantity._reference'], skip=['UnitQuantity._reference'] * 2, cls=['UnitQuantity', 'UnitLength', 'UnitConstant'])
def new_unit_reference_of_unit(h, cls): new_reference(h, cls, 'unit')

@case('C04', funcs=['UnitQuantity.definition'], kind=['derived', 'compound', 'constant'])
def factor_of_definition(h, kind):
    u = h.unit('u', kind)
    d = h.returns(h.run(lambda: u.definition))
    du = h.returns(h.run(lambda: d.units))
    r = h.returns(cf(h, u, du))
    h.post('the number in the definition', h.same(h.mag(r), h.mag(d)))

# ------------------------------------------------------------------ proofs of the callee contracts
@case(['C04', 'C03'], funcs='UnitQuantity._reference', skip='UnitQuantity._reference', core=True, kind=['derived', 'base', 'compound', 'constant', 'dimensionless'])
def unit_reference(h, kind):
    u = h.unit('u', kind)
    U = h.map(u)
    r = h.returns(h.run(lambda: u._reference))
    h.post('magnitude is the size of the unit', h.same(h.mag(r), h.mag(1.0) * h.size(U)))
    h.post('irreducible dimensions', h.eqmap(h.map(r), h.base(U)))

@case(['C04', 'C03'], funcs='Quantity._reference', skip='Quantity._reference', core=True, kind=QUANT)
def quantity_reference(h, kind):
    x = h.operand('x', kind)
    X, mx = h.map(x), h.mag(x)
    sx = Snap(h, x)
    r = h.returns(h.run(lambda: x._reference))
    h.post('physical value in irreducible units', h.same(h.mag(r), mx * h.size(X)))
    h.post('irreducible dimensions', h.eqmap(h.map(r), h.base(X)))
    unchanged(h, sx)
