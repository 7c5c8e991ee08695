"""comparisons (C06)"""
import operator
import numpy as np
from ..registry import case
from .util import *

OPS = ['lt', 'le', 'eq', 'ne', 'gt', 'ge']
UF = {'lt': 'less', 'le': 'less_equal', 'eq': 'equal', 'ne': 'not_equal', 'gt': 'greater', 'ge': 'greater_equal'}
CK = QUANT + UNITS + ['uncertain']

def plain_bool(h, r):
    return (not h.is_quantity(r)) and h.boolean_values(r)

def compare(h, op, x, y):
    X, Y, mx, my = h.map(x), h.map(y), h.mag(x), h.mag(y)
    f = getattr(operator, op)
    h.representable(y, h.size(Y) / h.size(X)); h.representable(x, h.size(X) / h.size(Y))
    sx, sy = Snap(h, x), Snap(h, y)
    o = h.run(lambda: f(x, y))
    if h.branch(h.compatible(X, Y)):
        h.conform(mx, my)
        r = h.returns(o)
        h.post('plain booleans', plain_bool(h, r))
        h.post('comparison of the physical values', h.same(h.mag(r), h.fn(UF[op], mx * h.size(X), my * h.size(Y))))
    elif op in ('eq', 'ne'):
        r = h.returns(o)
        h.post('plain booleans', plain_bool(h, r))
        h.post('everywhere %s' % (op == 'ne'), h.everywhere(h.mag(r), op == 'ne'))
    else:
        h.raises(o, ValueError)
    unchanged(h, sx, sy)

@case('C06', funcs=['Quantity.__lt__', 'Quantity.__le__', 'Quantity.__eq__', 'Quantity.__ne__', 'Quantity.__gt__', 'Quantity.__ge__', 'wrap_comparison'],
      op=OPS, a=CK, b=CK, only=lambda op, a, b: (a in ('quantity', 'scalarq', 'derived') or b in ('quantity', 'derived')) and (a != 'uncertain' or b == 'quantity') and (b != 'uncertain' or a == 'quantity'))
def comparison(h, op, a, b):
    x = h.operand('x', a)
    y = h.operand('y', b, near=x)
    compare(h, op, x, y)

@case('C06', funcs=['Quantity.__lt__', 'Quantity.__eq__'], op=OPS, a=['quantity', 'scalarq'])
def comparison_same_units(h, op, a):
    """the same units: the magnitudes themselves are compared, exactly"""
    x = h.operand('x', a)
    y = h.operand('y', 'quantity', dims=h.map(x))
    mx, my = h.mag(x), h.mag(y)
    h.conform(mx, my)
    f = getattr(operator, op)
    r = h.returns(h.run(lambda: f(x, y)))
    h.post('comparison of the magnitudes', h.same(h.mag(r), h.fn(UF[op], h.exact(mx), h.exact(my))))

@case('C06', funcs=['Quantity.__eq__'], op=OPS, a=['quantity', 'view'], dtype=['float', 'int'])
def comparison_with_itself(h, op, a, dtype):
    x = h.operand('x', a, dtype=dtype)
    mx = h.mag(x)
    f = getattr(operator, op)
    r = h.returns(h.run(lambda: f(x, x)))
    h.post('reflexive', h.everywhere(h.mag(r), op in ('le', 'eq', 'ge'), where=mx))

@case('C06', funcs=['Quantity.__lt__', 'Quantity.__le__', 'Quantity.__eq__', 'Quantity.__ne__', 'Quantity.__gt__', 'Quantity.__ge__'], symbolic=False, runs=60, op=OPS, a=['quantity', 'scalarq', 'view'], b=['quantity', 'scalarq', 'derived'])
def comparison_nan(h, op, a, b):
    """what is not a number compares as in numpy: unequal to everything, and neither less nor greater"""
    x = h.with_nan('x', h.operand('x', a, dtype='float'))
    y = h.operand('y', b, near=x)
    if b != 'derived': y = h.with_nan('y', y)
    X, Y = h.map(x), h.map(y)
    h.assume(h.compatible(X, Y)); h.conform(h.mag(x), h.mag(y))
    f = getattr(operator, op)
    r = np.asarray(h.returns(h.run(lambda: f(x, y))))
    nan = np.isnan(np.asarray(x)) | np.isnan(np.asarray(y))
    h.post('not a number', bool(np.all(r[nan] == (op == 'ne'))) if r.shape == nan.shape else False)
