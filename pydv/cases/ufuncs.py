"""calling numpy universal functions on quantities (C10)"""
import numpy as np
from ..registry import case
from .util import *

KINDS = ['quantity', 'scalarq', 'view'] + UNITS
KEEP = ['fabs', 'absolute', 'conjugate', 'negative', 'positive', 'rint', 'floor', 'ceil']
POWERS = {'square': 2, 'sqrt': 0.5, 'reciprocal': -1}
EXPLOG = ['log', 'log10', 'log2', 'log1p', 'exp', 'exp2', 'expm1']
ARC = ['arcsin', 'arcsinh', 'arccos', 'arccosh', 'arctan', 'arctanh']
TRIG = ['sin', 'sinh', 'cos', 'cosh', 'tan', 'tanh']
ANGLE = ['radians', 'degrees']
UNARY = KEEP + list(POWERS) + EXPLOG + ARC + TRIG + ANGLE
COMPARE = ['equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal']
UNIFORM = ['add', 'subtract', 'remainder', 'fmod', 'hypot', 'maximum', 'minimum'] + COMPARE
PRODUCT = ['multiply', 'divide', 'floor_divide']
LOGADD = ['logaddexp', 'logaddexp2']
BINARY = UNIFORM + PRODUCT + LOGADD + ['arctan2']
# ufuncs that have an obvious rule but none in the package: refusing them is right, so would the rule be
OPEN = {'cbrt', 'float_power', 'fmax', 'fmin', 'trunc', 'deg2rad', 'rad2deg', 'sign', 'signbit', 'copysign', 'heaviside', 'divmod', 'modf', 'nextafter', 'spacing',
        'logical_and', 'logical_or', 'logical_not', 'logical_xor', 'matmul', 'vecdot', 'ldexp', 'frexp'}
ALL = sorted({f.__name__ for f in vars(np).values() if isinstance(f, np.ufunc)})
REST = [n for n in ALL if n not in UNARY + BINARY + ['power'] and not n.startswith('is') and n not in OPEN and getattr(np, n).__name__ == n]
IS = ['isfinite', 'isinf', 'isnan']

def rad(h): return h.map(h.q.radian)
def deg(h): return h.map(h.q.degree)

def unary_rule(h, f, A):
    """(units of the result, True when required; the operand must be refused unless `may`; must be accepted when `must`)"""
    t = True
    if f in KEEP: return A, t, t
    if f in POWERS: return A * POWERS[f], t, t
    none = h.eqmap(A, h.empty())
    if f in EXPLOG: return h.empty(), none, none
    if f in ARC: return rad(h), none, none
    D = rad(h) if f != 'radians' else deg(h)
    # the units are those of the angle (or others of the same value, such as m/m for a radian)
    may = h.And(h.compatible(A, D), h.eqnum(h.size(A), h.size(D)))
    must = h.eqmap(A, D)
    return {'radians': rad, 'degrees': deg}.get(f, lambda h: h.empty())(h), may, must

@case('C10', funcs=['Quantity.__array_wrap__', 'Quantity.__array_prepare__', '_d_copy', '_d_square', '_d_reciprocal', '_d_sqrt', '_d_dimensionless', '_d_arctrig', '_d_trig', '_d_radians', '_d_degrees'],
      f=UNARY, kind=KINDS + ['angle'])
def unary_ufunc(h, f, kind):
    if kind == 'angle':
        a = h.quantity('a', dims={'radians': deg}.get(f, rad)(h), dtype='float')
    else: a = h.operand('a', kind)
    A, ma = h.map(a), h.mag(a)
    s = Snap(h, a)
    uf = getattr(np, f)
    want = h.fn(f, ma)
    D, may, must = unary_rule(h, f, A)
    o = h.run(lambda: uf(a))
    if o.exc is not None:
        h.raises(o, ValueError)
        h.post('refused without reason', h.Not(must))
    else:
        r = o.value
        h.post('units accepted', may)
        h.post('a quantity', h.cls(r) is h.q.Quantity)
        h.post('units', h.eqmap(h.map(r), D))
        h.post('magnitudes', h.same(h.mag(r), want))
    unchanged(h, s)

@case('C10', funcs=['Quantity.__array_wrap__', 'Quantity.__array_prepare__'], f=UNARY, kind=['quantity', 'derived', 'dimensionless', 'angle', 'inplace'])
def unary_out(h, f, kind):
    if kind == 'angle': a = h.quantity('a', dims={'radians': deg}.get(f, rad)(h), dtype='float')
    elif kind == 'inplace': a = h.quantity('a', dtype='float')
    else: a = h.operand('a', kind, dtype='float') if kind == 'quantity' else h.operand('a', kind)
    A, ma = h.map(a), h.mag(a)
    want = h.fn(f, ma)
    out = a if kind == 'inplace' else h.out_like('out', want)
    s = None if kind == 'inplace' else Snap(h, a)
    uf = getattr(np, f)
    D, may, must = unary_rule(h, f, A)
    o = h.run(lambda: uf(a, out=out))
    if o.exc is not None:
        h.raises(o, ValueError)
        h.post('refused without reason', h.Not(must))
    else:
        h.post('units accepted', may)
        h.post('the output is returned', o.value is out)
        h.post('units', h.eqmap(h.map(out), D))
        h.post('magnitudes', h.same(h.mag(out), h.cast(want, h.mag(out))))
    if s is not None: unchanged(h, s)

def binary_rule(h, f, A, B, ma, mb, plain):
    """plain: which operand is a plain number (0, 1 or None)"""
    if f in PRODUCT: return (A + B if f == 'multiply' else A - B), True, True
    if f in LOGADD:
        none = h.And(h.eqmap(A, h.empty()), h.eqmap(B, h.empty()))
        return h.empty(), none, none
    eq = h.eqmap(A, B)
    if f == 'arctan2': return h.empty(), eq, eq
    if plain is None: return A, eq, eq
    # a plain zero is the same number in every unit
    zero = h.all_zero(ma if plain == 0 else mb)
    return (B if plain == 0 else A), h.Or(eq, zero), h.Or(eq, zero)

BK = [(a, b) for a in ['quantity', 'scalarq', 'derived', 'dimensionless'] for b in ['quantity', 'scalarq', 'derived', 'dimensionless']] + \
     [('quantity', 'base'), ('compound', 'quantity'), ('constant', 'view'), ('compound', 'constant')] + \
     [(a, b) for a in ['quantity', 'scalarq', 'derived', 'dimensionless'] for b in PLAIN] + [(b, a) for a in ['quantity', 'scalarq', 'derived', 'dimensionless'] for b in PLAIN]

def two(h, kinds):
    def one(n, k, near=None):
        if k == 'zero': return h.array(n, dtype='float') * 0
        return h.operand(n, k, near=near) if near is not None and k not in PLAIN else h.operand(n, k)
    a = one('a', kinds[0])
    b = one('b', kinds[1], a if kinds[0] not in PLAIN else None)
    return a, b

@case('C10', funcs=['Quantity.__array_wrap__', 'Quantity.__array_prepare__', '_d_multiply', '_d_divide', '_d_check_uniform', '_d_arctan2', '_d_logaddexp'], f=BINARY, kinds=BK)
def binary_ufunc(h, f, kinds):
    a, b = two(h, kinds)
    if kinds[1] == 'quantity' and h.boolean('same units'):
        b = h.quantity('b2', dims=h.map(a) if kinds[0] not in PLAIN else h.map(b))
    A, B, ma, mb = h.map(a), h.map(b), h.mag(a), h.mag(b)
    h.conform(ma, mb)
    sa, sb = Snap(h, a), Snap(h, b)
    want = h.fn(f, ma, mb)
    pl = 0 if kinds[0] in PLAIN else 1 if kinds[1] in PLAIN else None
    D, may, must = binary_rule(h, f, A, B, ma, mb, pl)
    uf = getattr(np, f)
    o = h.run(lambda: uf(a, b))
    if o.exc is not None:
        h.raises(o, ValueError)
        h.post('refused without reason', h.Not(must))
    else:
        r = o.value
        h.post('units accepted', may)
        h.post('a quantity', h.cls(r) is h.q.Quantity)
        h.post('units', h.eqmap(h.map(r), D))
        h.post('magnitudes', h.same(h.mag(r), want))
    unchanged(h, sa, sb)

@case('C10', funcs=['Quantity.__array_wrap__', 'Quantity.__array_prepare__'], f=BINARY, kinds=[('quantity', 'quantity'), ('quantity', 'derived'), ('dimensionless', 'quantity'), ('quantity', 'float'), ('ndarray', 'quantity'), ('inplace', 'quantity'), ('inplace', 'ndarray')])
def binary_out(h, f, kinds):
    inplace = kinds[0] == 'inplace'
    a, b = two(h, ('quantity' if inplace else kinds[0], kinds[1]))
    if kinds[1] == 'quantity' and h.boolean('same units') and kinds[0] not in PLAIN: b = h.quantity('b2', dims=h.map(a))
    A, B, ma, mb = h.map(a), h.map(b), h.mag(a), h.mag(b)
    h.conform(ma, mb)
    want = h.fn(f, ma, mb)
    if inplace:
        out = a
        h.assume(h.And(h.broadcasts(ma, mb), h.holds(ma, want)))
        snaps = [Snap(h, b)]
    else:
        out = h.out_like('out', want)
        snaps = [Snap(h, a), Snap(h, b)]
    pl = 0 if kinds[0] in PLAIN else 1 if kinds[1] in PLAIN else None
    D, may, must = binary_rule(h, f, A, B, ma, mb, pl)
    uf = getattr(np, f)
    o = h.run(lambda: uf(a, b, out=out))
    if o.exc is not None:
        h.raises(o, ValueError)
        h.post('refused without reason', h.Not(must))
    else:
        h.post('units accepted', may)
        h.post('the output is returned', o.value is out)
        h.post('units', h.eqmap(h.map(out), D))
        h.post('magnitudes', h.same(h.mag(out), h.cast(want, h.mag(out))))
    unchanged(h, *snaps)

@case('C10', funcs=['_d_power'], left=['quantity', 'scalarq', 'derived', 'base', 'dimensionless', 'float', 'ndarray'], right=['float', 'int', 'npfloat', 'ndarray', 'list', 'dimq', 'dimensionless', 'quantity', 'derived'], out=[False, True],
      only=lambda left, right, out: left not in PLAIN or right not in PLAIN)
def power_ufunc(h, left, right, out):
    a = h.operand('a', left, dtype='float') if left in ('quantity', 'scalarq', 'ndarray') else h.operand('a', left)
    if right == 'dimq': p = h.quantity('p', dims=h.empty(), dtype='float')
    elif right == 'ndarray': p = h.array('p', dtype='float', uniform=True)
    else: p = h.operand('p', right)
    A, B, ma, mp = h.map(a), h.map(p), h.mag(a), h.mag(p)
    h.conform(ma, mp)
    want = h.fn('power', ma, mp)
    q = h.out_like('out', want) if out else None
    sa, sp = Snap(h, a), Snap(h, p)
    lo, hi = h.red('min', mp), h.red('max', mp)
    o = h.run((lambda: np.power(a, p, out=q)) if out else (lambda: np.power(a, p)))
    dimless, uniform = h.eqmap(B, h.empty()), h.equal(lo, hi)
    if o.exc is not None:
        h.raises(o, ValueError)
        h.post('refused without reason', h.Not(h.And(dimless, uniform)))
    else:
        r = o.value
        h.post('the exponent is a dimensionless uniform number', h.And(dimless, uniform))
        h.post('a quantity', h.cls(r) is h.q.Quantity)
        if out: h.post('the output is returned', r is q)
        h.post('units', h.eqmap(h.map(r), A * h.value(lo) if left not in PLAIN else h.empty()))
        h.post('magnitudes', h.same(h.mag(r), h.cast(want, h.mag(r)) if out else want))
    unchanged(h, sa, sp)

@case('C10', funcs=['Quantity.__array_prepare__', 'Quantity.__array_wrap__'], f=IS, kind=['quantity', 'scalarq', 'derived', 'dimensionless'])
def predicate_ufunc(h, f, kind):
    a = h.operand('a', kind)
    ma, s = h.mag(a), Snap(h, a)
    want = h.fn(f, ma)
    uf = getattr(np, f)
    o = h.run(lambda: uf(a))
    r = h.returns(o)
    h.post('plain truth values', h.And(not h.is_quantity(r), h.boolean_values(r)))
    h.post('numpy result', h.same(h.mag(r), want))
    unchanged(h, s)

@case('C10', funcs=['Quantity.__array_prepare__', 'Quantity.__array_wrap__'], f=[n for n in UNARY + BINARY if n not in COMPARE])
def plain_operands(h, f):
    """an output quantity never keeps units that do not describe the numbers written to it"""
    uf = getattr(np, f)
    args = [h.array('a%d' % i, dtype='float') for i in range(uf.nin)]
    ms = [h.mag(a) for a in args]
    h.conform(*ms)
    want = h.fn(f, *ms)
    out = h.out_like('out', want)
    z = h.empty()
    if uf.nin == 1: D, may, must = unary_rule(h, f, z)
    else: D, may, must = binary_rule(h, f, z, z, ms[0], ms[1], None)
    o = h.run((lambda: uf(args[0], out=out)) if uf.nin == 1 else (lambda: uf(args[0], args[1], out=out)))
    if o.exc is not None:
        h.raises(o, ValueError)
        h.post('refused without reason', h.Not(must))
    else:
        h.post('units accepted', may)
        h.post('the output is returned', o.value is out)
        h.post('units', h.eqmap(h.map(out), D))
        h.post('magnitudes', h.same(h.mag(out), h.cast(want, h.mag(out))))

@case('C10', funcs=['Quantity.__array_prepare__', 'Quantity.__array_wrap__'], f=REST, kind=['quantity', 'scalarq', 'derived', 'dimensionless'])
def unsupported_ufunc(h, f, kind):
    uf = getattr(np, f)
    a = h.operand('a', kind, dtype='int') if kind in QUANT else h.operand('a', kind)
    args = [a] + [h.quantity('b%d' % i, scalar=True, dtype='int') for i in range(uf.nin - 1)]
    ss = [Snap(h, x) for x in args]
    if uf.nin == 1: o = h.run(lambda: uf(a))
    elif uf.nin == 2:
        b = args[1]
        o = h.run(lambda: uf(a, b))
    else: h.done()
    # numpy itself refuses some of them for the type of the numbers
    h.raises(o, (ValueError, TypeError))
    unchanged(h, *ss)

@case('C10', funcs=['Quantity.__array_prepare__', 'Quantity.__array_wrap__'], f=sorted(OPEN & set(ALL)), symbolic=False)
def open_ufunc(h, f):
    """ufuncs that the package has no rule for: refused, or with the units of dimensional analysis"""
    uf = getattr(np, f)
    intonly = f in ('ldexp',)
    a = h.quantity('a', dtype='float', positive=True)
    if uf.nin == 1: args = [a]
    else:
        b = h.quantity('b', dims=h.empty() if f in ('float_power', 'ldexp') or h.boolean('dimensionless') else h.map(a), scalar=f not in ('matmul', 'vecdot'), dtype='int' if intonly else 'float', positive=True)
        args = [a, b]
    A, B = h.map(a), h.map(args[-1])
    ss = [Snap(h, x) for x in args]
    o = h.run(lambda: uf(*args))
    if o.exc is None:
        rs = o.value if isinstance(o.value, tuple) else (o.value,)
        none = h.empty()
        if f in ('cbrt',): D = [A * (1 / 3)]
        elif f == 'float_power': D = [A * h.value(h.mag(args[1]))]
        elif f in ('fmax', 'fmin', 'copysign', 'nextafter', 'spacing', 'trunc', 'modf'): D = [A] * len(rs)
        elif f in ('matmul', 'vecdot'): D = [A + B]
        elif f == 'divmod': D = [A - B, A]
        elif f in ('frexp',): D = [A, none]
        elif f == 'ldexp': D = [A]
        elif f == 'deg2rad': D = [rad(h)]
        elif f == 'rad2deg': D = [deg(h)]
        else: D = [none] * len(rs)
        for r, d in zip(rs, D): h.post('units', h.eqmap(h.map(r), d))
    else: h.raises(o, (ValueError, TypeError))
    unchanged(h, *ss)
