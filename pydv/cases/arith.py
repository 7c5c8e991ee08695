"""products, quotients, powers (C01); sums, differences, remainders (C02)"""
import operator
import numpy as np
from ..registry import case
from .util import *

MD = {'mul': operator.mul, 'truediv': operator.truediv}
def md_pairs():
    return [(a, b) for a in QUANT + UNITS for b in QUANT + UNITS] + [(a, b) for a in QUANT + UNITS for b in PLAIN] + [(a, b) for a in PLAIN for b in QUANT + UNITS]

@case('C01', funcs=['Quantity.__array_prepare__', 'Quantity.__array_wrap__', '_d_multiply', '_d_divide', 'UnitQuantity.__%(op)s__', 'Quantity.__r%(op)s__', 'UnitQuantity.__r%(op)s__'],
      op=['mul', 'truediv'], kinds=md_pairs())
def product(h, op, kinds):
    a, b = h.operand('a', kinds[0]), h.operand('b', kinds[1], near='a')
    A, B, ma, mb = h.map(a), h.map(b), h.mag(a), h.mag(b)
    sa, sb = Snap(h, a), Snap(h, b)
    want = ma * mb if op == 'mul' else ma / mb
    f = MD[op]
    o = h.run(lambda: f(a, b))
    r = h.returns(o)
    h.post('the result is a quantity', h.cls(r) is h.q.Quantity)
    h.post('units', h.eqmap(h.map(r), A + B if op == 'mul' else A - B))
    h.post('magnitudes', h.same(h.mag(r), want))
    unchanged(h, sa, sb)

@case('C01', funcs=['Quantity.__i%(op)s__', 'Quantity.__array_prepare__'], op=['mul', 'truediv'], left=['quantity', 'scalarq'], right=['quantity', 'scalarq'] + UNITS + PLAIN, dtype=['float', 'int'])
def inplace_product(h, op, left, right, dtype):
    a = h.operand('a', left, dtype=dtype)
    b = h.operand('b', right, near='a')
    A, B, ma, mb = h.map(a), h.map(b), h.mag(a), h.mag(b)
    sa, sb = Snap(h, a), Snap(h, b)
    want = ma * mb if op == 'mul' else ma / mb
    f = {'mul': operator.imul, 'truediv': operator.itruediv}[op]
    o = h.run(lambda: f(a, b))
    if o.exc is not None:
        h.raises(o, (TypeError, ValueError))
        # the only reasons: the shapes do not broadcast into the left operand, or its dtype cannot hold the result
        h.post('refused without reason', h.Not(h.And(h.broadcasts(ma, mb), h.holds(ma, want))))
        unchanged(h, sa, sb)
    else:
        r = o.value
        h.post('the left operand is returned', r is a)
        h.post('units', h.eqmap(h.map(a), A + B if op == 'mul' else A - B))
        h.post('magnitudes', h.same(h.mag(a), h.cast(want, ma), dtype=True))
        unchanged(h, sb, name='right operand unchanged')

@case('C01', funcs=['Quantity.__pow__', 'UnitQuantity.__pow__', 'Quantity.__array_prepare__', '_d_power', '_d_square', '_d_sqrt', '_d_reciprocal', '_d_copy', 'check_uniform'],
      left=QUANT + UNITS, right=['float', 'int', 'npfloat'])
def power(h, left, right):
    a, p = h.operand('a', left, dtype='float') if left in QUANT else h.operand('a', left), h.number('p', right)
    A, ma, t = h.map(a), h.mag(a), h.scalar(p)
    sa = Snap(h, a)
    want = h.fn('power', ma, p)
    o = h.run(lambda: a ** p)
    r = h.returns(o)
    h.post('the result is a quantity', h.cls(r) is h.q.Quantity)
    h.post('units', h.eqmap(h.map(r), A * t))
    h.post('magnitudes', h.same(h.mag(r), want))
    unchanged(h, sa)

@case('C01', funcs=['Quantity.__pow__', 'check_uniform', '_d_power'], left=QUANT + UNITS, right=['ndarray', 'list', 'dimq', 'dimensionless'], inplace=[False, True],
      only=lambda left, right, inplace: not inplace or left in ('quantity', 'scalarq'))
def power_array(h, left, right, inplace):
    a = h.operand('a', left, dtype='float') if left in QUANT else h.operand('a', left)
    if right == 'dimq': p = h.quantity('p', dims=h.empty(), dtype='float')
    elif right == 'dimensionless': p = h.unit('p', 'dimensionless')
    else: p = h.operand('p', right) if right == 'list' else h.array('p', dtype='float', uniform=True)
    A, ma, mp = h.map(a), h.mag(a), h.mag(p)
    sa = Snap(h, a)
    lo, hi = h.red('min', mp), h.red('max', mp)
    want = h.fn('power', ma, mp)
    f = operator.ipow if inplace else operator.pow
    o = h.run(lambda: f(a, p))
    uniform = h.equal(lo, hi)
    if o.exc is not None:
        h.raises(o, ValueError)
        h.post('refused without reason', h.Or(h.Not(uniform), h.Not(h.broadcasts(ma, mp)) if inplace else False))
        unchanged(h, sa, name='unchanged when refused')
    else:
        r = o.value
        h.post('only uniform exponents', uniform)
        h.post('units', h.eqmap(h.map(r), A * h.value(lo)))
        h.post('magnitudes', h.same(h.mag(r), h.cast(want, ma) if inplace else want))
        if inplace: h.post('left operand returned', r is a)
        else: unchanged(h, sa)

@case('C01', funcs=['Quantity.__pow__', 'Quantity.__ipow__', 'check_uniform'], left=QUANT + UNITS + ['float', 'ndarray'], right=['quantity', 'scalarq', 'derived', 'base', 'compound'], inplace=[False, True],
      only=lambda left, right, inplace: not inplace or left in QUANT)
def power_dimensional(h, left, right, inplace):
    a, p = h.operand('a', left), h.operand('p', right)
    h.assume(h.Not(h.eqmap(h.map(p), h.empty())))
    sa, sp = Snap(h, a), Snap(h, p)
    f = operator.ipow if inplace else operator.pow
    o = h.run(lambda: f(a, p))
    h.raises(o, ValueError, 'an exponent with units is refused:')
    unchanged(h, sa, sp)

@case('C01', funcs=['Quantity.__ipow__', 'protected_power'], left=['quantity', 'scalarq'], right=NUMBERS)
def inplace_power(h, left, right):
    a, p = h.operand('a', left, dtype='float'), h.number('p', right)
    A, ma, t = h.map(a), h.mag(a), h.scalar(p)
    want = h.fn('power', ma, p)
    o = h.run(lambda: operator.ipow(a, p))
    r = h.returns(o)
    h.post('left operand returned', r is a)
    h.post('units', h.eqmap(h.map(a), A * t))
    h.post('magnitudes', h.same(h.mag(a), h.cast(want, ma), dtype=True))

@case('C01', funcs=['Quantity.__neg__', 'Quantity.__pos__', 'Quantity.__abs__', '_d_copy'], op=['neg', 'pos', 'abs'], kind=QUANT + UNITS)
def unary(h, op, kind):
    a = h.operand('a', kind)
    A, ma, s = h.map(a), h.mag(a), Snap(h, a)
    want = {'neg': lambda: -ma, 'pos': lambda: ma, 'abs': lambda: abs(ma)}[op]()
    o = h.run({'neg': lambda: -a, 'pos': lambda: +a, 'abs': lambda: abs(a)}[op])
    r = h.returns(o)
    h.post('units', h.eqmap(h.map(r), A))
    h.post('magnitudes', h.same(h.mag(r), want))
    unchanged(h, s)

# ------------------------------------------------------------------ sums
AS = {'add': operator.add, 'sub': operator.sub, 'mod': operator.mod}
IAS = {'add': operator.iadd, 'sub': operator.isub, 'mod': operator.imod}
NP = {'add': 'add', 'sub': 'subtract', 'mod': 'remainder'}

def lsum_spec(h, op, ma, mb, A, B):
    """(magnitudes in the units A of the left operand)"""
    return h.fn(NP[op], ma, mb * (h.size(B) / h.size(A)))

@case('C02', funcs=['Quantity.__%(op)s__', 'Quantity.__r%(op)s__', 'UnitQuantity.__%(op)s__', 'UnitQuantity.__r%(op)s__', '_d_check_uniform', 'scale_other_units', 'Quantity.rescale'],
      op=['add', 'sub', 'mod'], kinds=[(a, b) for a in QUANT + UNITS for b in QUANT + UNITS])
def sum_quantities(h, op, kinds):
    a, b = h.operand('a', kinds[0]), h.operand('b', kinds[1], near='a')
    A, B, ma, mb = h.map(a), h.map(b), h.mag(a), h.mag(b)
    h.conform(ma, mb)
    sa, sb = Snap(h, a), Snap(h, b)
    f = AS[op]
    o = h.run(lambda: f(a, b))
    if h.branch(h.compatible(A, B)):
        r = h.returns(o)
        h.post('in the units of the left operand', h.eqmap(h.map(r), A))
        h.post('physical value', h.same(h.mag(r), lsum_spec(h, op, ma, mb, A, B)))
        h.post('a quantity', h.cls(r) is h.q.Quantity)
    else:
        h.raises(o, ValueError)
    unchanged(h, sa, sb)

@case('C02', funcs=['Quantity.__%(op)s__', 'Quantity.__r%(op)s__', 'UnitQuantity.__%(op)s__', 'UnitQuantity.__r%(op)s__', 'scale_other_units'],
      op=['add', 'sub', 'mod'], kinds=[(a, b) for a in QUANT + UNITS for b in PLAIN] + [(a, b) for a in PLAIN if a != 'npfloat' for b in QUANT + UNITS])
def sum_plain(h, op, kinds):
    a, b = h.operand('a', kinds[0]), h.operand('b', kinds[1])
    A, B, ma, mb = h.map(a), h.map(b), h.mag(a), h.mag(b)
    h.conform(ma, mb)
    sa, sb = Snap(h, a), Snap(h, b)
    f = AS[op]
    o = h.run(lambda: f(a, b))
    zero = h.all_zero(ma if kinds[0] in PLAIN else mb)
    if o.exc is None and h.branch(h.And(h.Not(h.compatible(A, B)), zero)):
        # zero is the same in every unit: it may be taken to be in the units of the other operand
        r = o.value
        h.post('units of the quantity', h.eqmap(h.map(r), A if kinds[1] in PLAIN else B))
        h.post('numpy result', h.same(h.mag(r), h.fn(NP[op], ma, mb)))
    elif h.branch(h.compatible(A, B)):
        r = h.returns(o)
        C = h.map(r)
        # the plain number stands for a dimensionless quantity; the sum may be expressed in either's units
        h.post('units of an operand', h.Or(h.eqmap(C, A), h.eqmap(C, B)))
        want = h.fn(NP[op], ma * (h.size(A) / h.size(C)), mb * (h.size(B) / h.size(C)))
        h.post('physical value', h.same(h.mag(r), want))
        h.post('a quantity', h.cls(r) is h.q.Quantity)
    else:
        h.raises(o, ValueError)
    unchanged(h, sa, sb)

@case('C02', funcs=['Quantity.__i%(op)s__', 'scale_other_units'], op=['add', 'sub', 'mod'], left=QUANT, right=QUANT + UNITS + PLAIN, dtype=['float', 'int'])
def inplace_sum(h, op, left, right, dtype):
    a = h.operand('a', left, dtype=dtype)
    b = h.operand('b', right, near='a')
    A, B, ma, mb = h.map(a), h.map(b), h.mag(a), h.mag(b)
    sa, sb = Snap(h, a), Snap(h, b)
    f = IAS[op]
    o = h.run(lambda: f(a, b))
    # equal units need no conversion (integers stay integers)
    want = h.fn(NP[op], ma, mb) if dtype == 'int' and h.branch(h.eqmap(A, B)) else lsum_spec(h, op, ma, mb, A, B)
    if o.exc is not None:
        h.raises(o, (TypeError, ValueError))
        h.post('refused without reason', h.Not(h.And(h.compatible(A, B), h.broadcasts(ma, mb), h.holds(ma, want))))
        unchanged(h, sa, sb)
    else:
        h.post('only compatible units', h.compatible(A, B))
        h.post('left operand returned', o.value is a)
        h.post('units unchanged', h.eqmap(h.map(a), A))
        h.post('physical value', h.same(h.mag(a), h.cast(want, ma), dtype=True))
        unchanged(h, sb, name='right operand unchanged')

@case('C02', funcs=['UnitQuantity.__i%(op)s__'], op=['add', 'sub', 'mul', 'truediv', 'pow'], left=UNITS, right=QUANT + UNITS + ['float', 'ndarray'])
def inplace_unit(h, op, left, right):
    a, b = h.operand('a', left), h.operand('b', right, near='a')
    sa, sb = Snap(h, a), Snap(h, b)
    f = getattr(operator, 'i' + op)
    o = h.run(lambda: f(a, b))
    h.raises(o, TypeError)
    unchanged(h, sa, sb)
