"""constructing quantities (C21)"""
import numpy as np
from ..registry import case
from .util import *
from .convert import target, TARGETS, not_units, NOTUNITS

DTYPES = ['none', 'd', 'f']
def made(h, new, args, dtype):
    return h.run((lambda: new(*args)) if dtype == 'none' else (lambda: new(*args, dtype=dtype)))

@case('C21', funcs=['Quantity.__new__', 'Quantity.__array_finalize__', 'validate_dimensionality', 'validate_unit_quantity'],
      data=PLAIN, units=['none'] + TARGETS, dtype=DTYPES, only=lambda data, units, dtype: dtype == 'none' or units in ('none', 'derived', 'dims'))
def from_numbers(h, data, units, dtype):
    d = h.operand('d', data)
    t, T = (None, h.empty()) if units == 'none' else target(h, 't', units, None)
    md = h.mag(d)
    snaps = [Snap(h, x) for x in (d, t) if x is not None and not (x is d and data == 'list')]
    new = h.q.Quantity
    r = h.returns(made(h, new, (d,) if t is None else (d, t), dtype))
    h.post('a quantity', h.cls(r) is h.q.Quantity)
    h.post('exactly the requested units', h.eqmap(h.map(r), T))
    h.post('those numbers', h.same(h.mag(r), md if dtype == 'none' else h.astype(md, dtype)))
    h.post('dtype', h.same(h.mag(r), h.asarray(md) if dtype == 'none' else h.astype(md, dtype), dtype=True))
    if t is not None: h.post('units not shared', h.Not(h.shares_dims(r, t)))
    unchanged(h, *snaps)

@case('C21', funcs=['Quantity.__new__', 'Quantity.rescale'], data=QUANT + UNITS, units=['none', 'empty', 'None'] + TARGETS, dtype=DTYPES, only=lambda data, units, dtype: dtype == 'none' or units in ('none', 'derived', 'None'))
def from_quantity(h, data, units, dtype):
    d = h.operand('d', data)
    D, md = h.map(d), h.mag(d)
    t, T = ('' if units == 'empty' else None, D) if units in ('none', 'empty', 'None') else target(h, 't', units, d)
    h.representable(d, h.size(D) / h.size(T))
    snaps = [Snap(h, x) for x in (d, t) if x is not None and not isinstance(x, str)]
    new = h.q.Quantity
    o = made(h, new, (d,) if units == 'none' else (d, t), dtype)
    if not h.branch(h.compatible(D, T)): h.raises(o, ValueError)
    else:
        r = h.returns(o)
        want = md if units in ('none', 'empty', 'None') else md * (h.size(D) / h.size(T))
        h.post('a quantity', h.cls(r) is h.q.Quantity)
        h.post('exactly the requested units', h.eqmap(h.map(r), T))
        if dtype == 'none': h.post('converted numbers', h.same(h.mag(r), want))
        else: h.post('converted numbers of that dtype', h.same(h.mag(r), h.astype(want, dtype), dtype=True))
        h.post('units not shared', h.And(h.Not(h.shares_dims(r, d)), True if t is None or isinstance(t, str) else h.Not(h.shares_dims(r, t))))
    unchanged(h, *snaps)

@case('C21', funcs=['Quantity.__new__', 'validate_dimensionality', 'validate_unit_quantity'], data=['float', 'ndarray', 'quantity', 'scalarq', 'derived'], bad=NOTUNITS + ['zero', 'none', 'false', 'emptylist', 'bytes'],
      only=lambda data, bad: bad != 'none' or data in PLAIN)
def from_nonunit(h, data, bad):
    d = h.operand('d', data)
    t = {'zero': 0, 'none': None, 'false': False, 'emptylist': [], 'bytes': b'm'}[bad] if bad in ('zero', 'none', 'false', 'emptylist', 'bytes') else not_units(h, bad)
    s = Snap(h, d)
    h.raises(h.run(lambda: h.q.Quantity(d, t)), Exception)
    unchanged(h, s)

@case('C21', funcs=['Quantity.__array_finalize__'], kind=['quantity', 'view', 'scalarq', 'uncertain'])
def views_keep_units(h, kind):
    """a view as a quantity has its own copy of the units"""
    x = h.operand('x', kind)
    X, s = h.map(x), Snap(h, x)
    r = h.returns(h.run(lambda: x.view(h.q.Quantity)))
    h.post('units', h.eqmap(h.map(r), X))
    h.post('units not shared', h.Not(h.shares_dims(r, x)))
    a = h.array('a')
    v = h.returns(h.run(lambda: a.view(h.q.Quantity)))
    h.post('an array has no units', h.eqmap(h.map(v), h.empty()))
    unchanged(h, s)

@case('C21', funcs=['Quantity.dimensionality', 'Quantity.units', 'Quantity.magnitude'], kind=QUANT + UNITS)
def attributes(h, kind):
    x = h.operand('x', kind)
    X, mx, s = h.map(x), h.mag(x), Snap(h, x)
    d = h.returns(h.run(lambda: x.dimensionality))
    h.post('dimensionality', h.eqmap(h.map(d), X))
    h.post('dimensionality not shared', h.Not(h.shares_dims(d, x)))
    u = h.returns(h.run(lambda: x.units))
    h.post('units: the units', h.eqmap(h.map(u), X))
    h.post('units: magnitude one', h.all_one(h.mag(u)))
    m = h.returns(h.run(lambda: x.magnitude))
    h.post('magnitude', h.And(not h.is_quantity(m), h.same(h.mag(m), mx, dtype=True)))
    unchanged(h, s)
