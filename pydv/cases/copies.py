"""pickling, copying and deep-copying (C15)"""
import copy, pickle
import numpy as np
from ..registry import case
from .util import *

HOW = ['pickle', 'copy', 'deepcopy', 'method']
def again(h, x, how):
    if how == 'pickle':
        p = h.protocol()
        return h.run(lambda: pickle.loads(pickle.dumps(x, p)))
    if how == 'copy': return h.run(lambda: copy.copy(x))
    if how == 'deepcopy': return h.run(lambda: copy.deepcopy(x))
    return h.run(lambda: x.copy())

@case('C15', funcs=['Quantity.__reduce__', 'Quantity.__setstate__', 'Quantity.__deepcopy__', '_reconstruct_quantity', 'UncertainQuantity.__reduce__', 'UncertainQuantity.__setstate__',
    'UncertainQuantity.__deepcopy__', 'UncertainQuantity.copy', 'UncertainQuantity.__copy__'], kind=['quantity', 'scalarq', 'view', 'uncertain', 'uncertainview'], how=HOW)
def copy_of_quantity(h, kind, how):
    x = h.operand('x', 'uncertain', dtype='any') if kind.startswith('uncertain') else h.operand('x', kind)
    if kind == 'uncertainview': x = h.element(x)
    X, mx, s = h.map(x), h.mag(x), Snap(h, x)
    r = h.returns(again(h, x, how))
    h.post('same class', h.cls(r) is h.cls(x))
    h.post('same units', h.eqmap(h.map(r), X))
    h.post('same magnitudes and dtype', h.same(h.mag(r), mx, dtype=True))
    h.post('another object', h.Not(h.identical(r, x)))
    h.post('data not shared', h.Not(h.shares(r, x)))
    h.post('units not shared', h.Not(h.shares_dims(r, x)))
    if h.unc_obj(x) is not None:
        u, v = h.unc_obj(r), h.unc_obj(x)
        h.post('same uncertainty', h.And(h.eqmap(h.map(u), h.map(v)), h.same(h.unc(r), h.unc(x), dtype=True)))
        h.post('uncertainty not shared', h.And(h.Not(h.identical(u, v)), h.Not(h.shares(u, v)), h.Not(h.shares_dims(u, v))))
    h.post('writeable', h.writeable(r))
    unchanged(h, s)

@case('C15', funcs=['Quantity.__setstate__', 'UncertainQuantity.__setstate__', 'Dimensionality.copy'], kind=['quantity', 'uncertain', 'dims'], how=HOW, change=['copy', 'original'])
def independent_copy(h, kind, how, change):
    """changing one of the two leaves the other as it was"""
    x = h.dims('x') if kind == 'dims' else h.operand('x', kind)
    r = h.returns(again(h, x, how))
    y, z = (r, x) if change == 'copy' else (x, r)
    d = h.dims('d')
    s = Snap(h, z)
    def f():
        w = y
        if kind == 'dims': w *= d
        else: w *= 2.0
        if kind != 'dims': w.units = w.units
        if kind == 'uncertain': w.uncertainty = w.uncertainty * 3.0
    h.run(f)
    unchanged(h, s, name='the other one is unchanged')

@case('C15', funcs=['UnitQuantity.__reduce__', 'UnitQuantity.__setstate__', 'UnitQuantity.__getstate__', 'UnitQuantity.__new__', 'UnitQuantity.__init__', 'CompoundUnit.__reduce__', 'CompoundUnit.__new__',
    'Dimensionless.__reduce__', 'UnitQuantity.__hash__'], kind=UNITS)
def pickled_unit(h, kind):
    u = h.unit('u', kind)
    before = h.unit_state(u)
    r = h.returns(again(h, u, 'pickle'))
    h.post('same class', h.cls(r) is h.cls(u))
    h.post('same unit', h.same_unit_state(h.unit_state(r), before))
    h.post('the same key of a dimensionality', h.eqmap(h.map(r), h.map(u)))
    h.post('same place in displayed products', h.iff(h.returns(h.run(lambda: r.format_order == u.format_order)), True))
    h.post('same hash', h.iff(h.returns(h.run(lambda: hash(r) == hash(u))), True))
    e = h.returns(h.run(lambda: r == u))
    h.post('equal', h.all_true(h.mag(e)))
    x = h.returns(h.run(lambda: r / u))
    h.post('they cancel', h.eqmap(h.map(x), h.empty()))
    h.post('ratio one', h.all_one(h.mag(x)))
    c = h.returns(h.run(lambda: (r * 1.0).rescale(u)))
    h.post('conversion factor one', h.And(h.all_one(h.mag(c)), h.eqmap(h.map(c), h.map(u))))
    o = h.run(lambda: r.__imul__(2))
    h.raises(o, Exception, 'immutable')
    h.post('the original is unchanged', h.same_unit_state(h.unit_state(u), before))
    if kind in ('derived', 'base', 'dimensionless'):
        for w in ('name', 'symbol'): h.post('registered %s denotes the original' % w, h.denotes(h.text(u, w), u))

@case('C15', funcs=['UnitQuantity.__copy__', 'UnitQuantity.__deepcopy__', 'UnitQuantity.copy'], kind=UNITS, how=['copy', 'deepcopy', 'method'])
def copied_unit(h, kind, how):
    u = h.unit('u', kind)
    before = h.unit_state(u)
    r = h.returns(again(h, u, how))
    h.post('the same unit', h.And(h.cls(r) is h.cls(u), h.same_unit_state(h.unit_state(r), before), h.eqmap(h.map(r), h.map(u))))
    h.post('the original is unchanged', h.same_unit_state(h.unit_state(u), before))

@case('C15', funcs=['Dimensionality.copy'], how=HOW)
def copy_of_dimensionality(h, how):
    x = h.dims('x')
    X, s = h.map(x), Snap(h, x)
    r = h.returns(again(h, x, how))
    h.post('same class', h.cls(r) is h.cls(x))
    h.post('same units', h.eqmap(h.map(r), X))
    h.post('equal', h.iff(h.returns(h.run(lambda: r == x)), True))
    h.post('another object', h.Not(h.identical(r, x)))
    unchanged(h, s)

@case('C15', funcs=['Quantity.__reduce__', 'UnitQuantity.__reduce__', 'Dimensionality'], symbolic=False, runs=12)
def other_process(h):
    """a pickle is read by a process in which the user's units do not exist yet"""
    xs = [h.operand('a', 'quantity'), h.operand('b', 'uncertain'), h.unit('c', 'derived'), h.unit('d', 'base'), h.unit('e', 'compound'), h.unit('f', 'constant'), h.dims('g'), h.operand('i', 'view')]
    q = h.q
    n = h.new_name('p')
    w = q.UnitQuantity(n, h.unit_quantity('k') * 2.5, symbol=n + 's', aliases=[n + 'a'])
    xs += [w, 3.0 * w ** 2, q.CompoundUnit('%s*m' % n) * 2.0]
    h.post('in another process', h.elsewhere(xs))
