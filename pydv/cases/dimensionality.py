"""Dimensionality: the algebra of unit -> exponent maps (C07), used by every other property"""
import operator
from ..registry import case

OPS = {'__mul__': operator.mul, '__truediv__': operator.truediv}
@case(['C07', 'C01'], funcs='Dimensionality.%(op)s', skip='Dimensionality.%(op)s', core=True, op=['__mul__', '__truediv__'])
def dim_product(h, op):
    a, b = h.dims('A'), h.dims('B')
    A, B = h.map(a), h.map(b)
    f = OPS[op]
    o = h.run(lambda: f(a, b))
    r = h.returns(o)
    h.post('the exponents add up' if op == '__mul__' else 'the exponents are subtracted', h.eqmap(h.map(r), A + B if op == '__mul__' else A - B))
    h.post('left operand unchanged', h.eqmap(h.map(a), A))
    h.post('right operand unchanged', h.eqmap(h.map(b), B))
    h.post('result is a new Dimensionality', h.cls(r) is h.q.dimensionality.Dimensionality and r is not a and r is not b)

IOPS = {'__imul__': operator.imul, '__itruediv__': operator.itruediv}
@case(['C07', 'C01'], funcs='Dimensionality.%(op)s', skip='Dimensionality.%(op)s', core=True, op=['__imul__', '__itruediv__'])
def dim_inplace_product(h, op):
    a, b = h.dims('A'), h.dims('B')
    A, B = h.map(a), h.map(b)
    f = IOPS[op]
    o = h.run(lambda: f(a, b))
    r = h.returns(o)
    h.post('the exponents of the left operand', h.eqmap(h.map(r), A + B if op == '__imul__' else A - B))
    h.post('right operand unchanged', h.eqmap(h.map(b), B))
    h.post('returns the left operand', r is a)

@case(['C07', 'C01'], funcs='Dimensionality.%(op)s', skip='Dimensionality.%(op)s', core=True, op=['__pow__', '__ipow__'], kind=['int', 'float', 'npfloat'])
def dim_power(h, op, kind):
    a, p = h.dims('A'), h.number('p', kind)
    A = h.map(a)
    f = {'__pow__': operator.pow, '__ipow__': operator.ipow}[op]
    o = h.run(lambda: f(a, p))
    r = h.returns(o)
    h.post('every exponent is multiplied', h.eqmap(h.map(r), A * h.scalar(p)))
    if op == '__pow__':
        h.post('operand unchanged', h.eqmap(h.map(a), A))
        h.post('result is a new Dimensionality', h.cls(r) is h.q.dimensionality.Dimensionality and r is not a)
    else:
        h.post('returns the operand', r is a)

@case(['C07'], funcs='Dimensionality.%(op)s', skip='Dimensionality.%(op)s', op=['__pow__', '__ipow__'], kind=['list', 'ndarray'])
def dim_power_type(h, op, kind):
    a, p = h.dims('A'), h.operand('p', kind)
    A = h.map(a)
    f = {'__pow__': operator.pow, '__ipow__': operator.ipow}[op]
    o = h.run(lambda: f(a, p))
    h.raises(o, TypeError)
    h.post('operand unchanged', h.eqmap(h.map(a), A))

@case(['C07'], funcs='Dimensionality.%(op)s', skip=['Dimensionality.%(op)s'], core=True, op=['__eq__', '__ne__'])
def dim_equality(h, op):
    a, b = h.dims('A'), h.near_dims('B', 'A')
    A, B = h.map(a), h.map(b)
    f = operator.eq if op == '__eq__' else operator.ne
    o = h.run(lambda: f(a, b))
    r = h.returns(o)
    want = h.eqmap(A, B)
    h.post('equal exactly when the maps are the same', h.iff(r, want if op == '__eq__' else h.Not(want)))
    h.post('operands unchanged', h.And(h.eqmap(h.map(a), A), h.eqmap(h.map(b), B)))

@case(['C07'], funcs='Dimensionality.__hash__')
def dim_hash(h):
    a, b = h.dims('A'), h.near_dims('B', 'A')
    A, B = h.map(a), h.map(b)
    o = h.run(lambda: hash(a) == hash(b))
    r = h.returns(o)
    h.post('hashes agree exactly when the maps are the same', h.iff(r, h.eqmap(A, B)))
    o = h.run(lambda: hash(a) == hash(a))
    h.post('the hash is stable', h.iff(h.returns(o), True))

AOPS = {'__add__': operator.add, '__sub__': operator.sub, '__iadd__': operator.iadd, '__isub__': operator.isub}
@case(['C07'], funcs='Dimensionality.%(op)s', skip='Dimensionality.%(op)s', core=True, op=['__add__', '__sub__', '__iadd__', '__isub__'])
def dim_sum(h, op):
    a, b = h.dims('A'), h.near_dims('B', 'A')
    A, B = h.map(a), h.map(b)
    f = AOPS[op]
    o = h.run(lambda: f(a, b))
    if h.branch(h.eqmap(A, B)):
        r = h.returns(o)
        h.post('the common dimensionality', h.eqmap(h.map(r), A))
        h.post('object', (r is a) if op.startswith('__i') else (r is not a and r is not b))
    else:
        h.raises(o, ValueError)
    h.post('operands unchanged', h.And(h.eqmap(h.map(a), A), h.eqmap(h.map(b), B)))

TOPS = dict(AOPS, __mul__=operator.mul, __truediv__=operator.truediv, __imul__=operator.imul, __itruediv__=operator.itruediv)
@case(['C07'], funcs='Dimensionality.%(op)s', skip='Dimensionality.%(op)s', op=sorted(TOPS), kind=['float', 'int', 'str', 'none', 'list', 'dict'])
def dim_wrong_type(h, op, kind):
    a = h.dims('A')
    A = h.map(a)
    b = {'str': 'm', 'none': None, 'dict': {}}[kind] if kind in ('str', 'none', 'dict') else h.operand('b', kind)
    f = TOPS[op]
    o = h.run(lambda: f(a, b))
    h.raises(o, TypeError)
    h.post('operand unchanged', h.eqmap(h.map(a), A))

@case(['C07', 'C14'], funcs='Dimensionality.copy', skip='Dimensionality.copy', core=True)
def dim_copy(h):
    a, b = h.dims('A'), h.dims('B')
    A, B = h.map(a), h.map(b)
    o = h.run(lambda: a.copy())
    r = h.returns(o)
    h.post('same map', h.eqmap(h.map(r), A))
    h.post('a new Dimensionality', r is not a and h.cls(r) is h.q.dimensionality.Dimensionality)
    def change(x, y): x *= y
    h.run(lambda: change(r, b))
    h.post('changing the copy leaves the original alone', h.eqmap(h.map(a), A))
