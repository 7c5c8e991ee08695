"""functions of the umath module (C11)"""
import numpy as np
from ..registry import case
from .util import *
from .reduce import result_units

TRIG = ['sin', 'cos', 'tan']
ARC = ['arcsin', 'arccos', 'arctan']
HYP = ['sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh']
KINDS = QUANT + UNITS
def rad(h): return h.map(h.q.radian)

def operand(h, name, kind, near):
    k = {'dtype': 'float'} if kind in QUANT else {}
    return h.operand(name, kind, near=near, **k) if kind not in PLAIN else h.operand(name, kind)

@case('C11', funcs=['umath.' + n for n in TRIG + ARC + HYP], f=TRIG + ARC + HYP, kind=KINDS)
def angle_function(h, f, kind):
    x = operand(h, 'x', kind, h.q.radian)
    X, mx, s = h.map(x), h.mag(x), Snap(h, x)
    into, res = (rad(h), h.empty()) if f in TRIG else (h.empty(), rad(h) if f in ARC else h.empty())
    want = h.fn(f, mx * (h.size(X) / h.size(into)))
    g = getattr(h.q.umath, f)
    o = h.run(lambda: g(x))
    if h.branch(h.compatible(X, into)):
        r = h.returns(o)
        h.post('a quantity', h.cls(r) is h.q.Quantity)
        h.post('units', h.eqmap(h.map(r), res))
        h.post('magnitudes', h.same(h.mag(r), want))
    else: h.raises(o, ValueError)
    unchanged(h, s)

@case('C11', funcs=['umath.' + n for n in TRIG + ARC + HYP], f=TRIG + ARC + HYP, kind=['quantity'])
def angle_function_out(h, f, kind):
    x = h.quantity('x', near=h.q.radian, dtype='float')
    X, mx, s = h.map(x), h.mag(x), Snap(h, x)
    into, res = (rad(h), h.empty()) if f in TRIG else (h.empty(), rad(h) if f in ARC else h.empty())
    want = h.fn(f, mx * (h.size(X) / h.size(into)))
    out = h.plain_like('out', want)
    so = Snap(h, out)
    g = getattr(h.q.umath, f)
    o = h.run(lambda: g(x, out))
    if h.branch(h.compatible(X, into)):
        r = h.returns(o)
        h.post('units', h.eqmap(h.map(r), res))
        h.post('magnitudes', h.same(h.mag(r), want))
        h.post('the output holds the numbers', h.same(h.mag(out), want))
    else:
        h.raises(o, ValueError)
        unchanged(h, so, name='output unchanged')
    unchanged(h, s)

@case('C11', funcs=['umath.' + n for n in TRIG + ARC + HYP], f=TRIG + ARC + HYP, kind=['float', 'ndarray', 'list'])
def plain_function(h, f, kind):
    x = h.operand('x', kind)
    want = h.fn(f, h.mag(x))
    g = getattr(h.q.umath, f)
    r = h.returns(h.run(lambda: g(x)))
    h.post('plain numbers', not h.is_quantity(r))
    h.post('numpy result', h.same(h.mag(r), want))

@case('C11', funcs=['umath.' + n for n in TRIG + ARC + HYP], f=TRIG + ARC + HYP)
def plain_function_out(h, f):
    x = h.operand('x', 'ndarray')
    want = h.fn(f, h.mag(x))
    out = h.plain_like('out', want)
    g = getattr(h.q.umath, f)
    s = Snap(h, x)
    r = h.returns(h.run(lambda: g(x, out)))
    h.post('the output is returned', r is out)
    h.post('the output holds the numbers', h.same(h.mag(out), want))
    unchanged(h, s)

@case('C11', funcs=['umath.hypot'])
def plain_hypot(h):
    a, b = h.operand('a', 'ndarray'), h.operand('b', 'ndarray')
    h.conform(h.mag(a), h.mag(b))
    want = h.fn('hypot', h.mag(a), h.mag(b))
    given = h.boolean('output given')
    out = h.plain_like('out', want) if given else None
    s = [Snap(h, a), Snap(h, b)]
    r = h.returns(h.run((lambda: h.q.umath.hypot(a, b, out)) if given else (lambda: h.q.umath.hypot(a, b))))
    h.post('plain numbers', not h.is_quantity(r))
    h.post('numpy result', h.same(h.mag(r), want))
    if given: h.post('the output holds the numbers', h.And(r is out, h.same(h.mag(out), want)))
    unchanged(h, *s)

PAIRS = [(a, b) for a in ['quantity', 'scalarq', 'derived'] for b in ['quantity', 'derived', 'compound']] + [('dimensionless', 'quantity'), ('quantity', 'dimensionless')] + \
        [(a, b) for a in ['quantity', 'dimensionless'] for b in PLAIN] + [(b, a) for a in ['quantity', 'dimensionless'] for b in PLAIN]
@case('C11', funcs=['umath.arctan2'], kinds=PAIRS)
def arctan2(h, kinds):
    a = operand(h, 'a', kinds[0], h.q.dimensionless if kinds[1] in PLAIN else None)
    b = operand(h, 'b', kinds[1], h.q.dimensionless if kinds[0] in PLAIN else a)
    A, B, ma, mb = h.map(a), h.map(b), h.mag(a), h.mag(b)
    h.conform(ma, mb)
    s = [Snap(h, a), Snap(h, b)]
    want = h.fn('arctan2', ma, mb * (h.size(B) / h.size(A)))
    o = h.run(lambda: h.q.umath.arctan2(a, b))
    if h.branch(h.compatible(A, B)):
        r = h.returns(o)
        h.post('an angle', h.eqmap(h.map(r), rad(h)))
        h.post('magnitudes', h.same(h.mag(r), want))
        h.post('a quantity', h.cls(r) is h.q.Quantity)
    else: h.raises(o, ValueError)
    unchanged(h, *s)

@case('C11', funcs=['umath.hypot'], kinds=PAIRS, out=[None, 'plain', 'quantity'], only=lambda kinds, out: out is None or kinds == ('quantity', 'quantity'))
def hypot(h, kinds, out):
    a = operand(h, 'a', kinds[0], h.q.dimensionless if kinds[1] in PLAIN else None)
    b = operand(h, 'b', kinds[1], h.q.dimensionless if kinds[0] in PLAIN else a)
    if kinds == ('quantity', 'quantity') and h.boolean('same units'): b = h.quantity('b2', dims=h.map(a))
    A, B, ma, mb = h.map(a), h.map(b), h.mag(a), h.mag(b)
    h.conform(ma, mb)
    s = [Snap(h, a), Snap(h, b)]
    want = h.fn('hypot', ma, mb)
    w = h.plain_like('out', want) if out == 'plain' else h.out_like('out', want) if out else None
    o = h.run((lambda: h.q.umath.hypot(a, b, w)) if out else (lambda: h.q.umath.hypot(a, b)))
    eq = h.eqmap(A, B)
    zero = h.all_zero(ma if kinds[0] in PLAIN else mb) if kinds[0] in PLAIN or kinds[1] in PLAIN else False
    if o.exc is None:
        r = o.value
        h.post('equal units', h.Or(eq, zero))
        h.post('units', h.eqmap(h.map(r), B if kinds[0] in PLAIN else A))
        h.post('magnitudes', h.same(h.mag(r), want))
        if out: h.post('the output holds the numbers', h.same(h.mag(w), want))
        if out == 'quantity': h.post('with their units', h.eqmap(h.map(w), A))
    else:
        h.raises(o, ValueError)
        h.post('refused without reason', h.Not(eq))
    unchanged(h, *s)

SUMS = ['sum', 'nansum', 'cumsum', 'prod', 'cumprod']
@case('C11', funcs=['umath.' + n for n in SUMS], f=SUMS, kind=['quantity', 'view', 'ndarray'], axis=[False, True])
def sums(h, f, kind, axis):
    x = h.operand('x', kind, dtype='float') if f == 'nansum' else h.operand('x', kind)
    kw = {'axis': h.axis(x)} if axis else {}
    X, mx, s = h.map(x), h.mag(x), Snap(h, x)
    g = getattr(h.q.umath, f)
    want = h.red(f, mx, **kw)
    D = X * h.count(x, kw.get('axis')) if f == 'prod' else X
    o = h.run((lambda: g(x, kw['axis'])) if axis else (lambda: g(x)))
    if f == 'cumprod' and not h.branch(h.eqmap(X, h.empty())):
        h.raises(o, ValueError)
    else:
        r = h.returns(o)
        h.post('a quantity exactly when the operand is', h.is_quantity(r) == (kind != 'ndarray'))
        h.post('units', h.eqmap(h.map(r), D))
        h.post('numpy result', h.same(h.mag(r), want))
    unchanged(h, s)

@case('C11', funcs=['umath.nansum'], kind=['quantity'], symbolic=False)
def nansum_nan(h, kind):
    x = h.quantity('x', dtype='float', ndim=2)
    def poke():
        x.magnitude[0, 0] = np.nan
        x.magnitude[1, 1] = np.nan
    h.run_raw(poke)
    X = h.map(x)
    r = h.returns(h.run(lambda: h.q.umath.nansum(x, 0)))
    h.post('units', h.eqmap(h.map(r), X))
    h.post('numpy result', bool(np.allclose(np.asarray(r), np.nansum(np.asarray(x), 0))))

@case('C11', funcs=['umath.diff'], kind=['quantity', 'view', 'ndarray'], given=['none', 'n', 'n axis'], symbolic=False)
def diff(h, kind, given):
    x = h.operand('x', kind, ndim=2)
    X, mx, s = h.map(x), h.mag(x), Snap(h, x)
    args = {'none': (), 'n': (h.r.choice([0, 1, 2]),), 'n axis': (h.r.choice([1, 2]), h.r.choice([0, 1, -1]))}[given]
    want = h.red('diff', mx, *args)
    r = h.returns(h.run(lambda: h.q.umath.diff(x, *args)))
    h.post('units', h.eqmap(h.map(r), X))
    h.post('a quantity exactly when the operand is', h.is_quantity(r) == (kind != 'ndarray'))
    h.post('numpy result', h.same(h.mag(r), want))
    unchanged(h, s)

@case('C11', funcs=['umath.diff'], kind=['quantity', 'ndarray'], ends=['prepend', 'append', 'both'], end=['scalarq', 'dimensionless', 'float'])
def diff_ends(h, kind, ends, end):
    x = h.operand('x', kind, **({} if kind == 'ndarray' else {}))
    h.assume(h.Not(h.scalar_shape(x)))
    es = [operand(h, 'e%d' % i, end, x if kind != 'ndarray' else h.q.dimensionless) for i in range(2 if ends == 'both' else 1)]
    X, mx, s = h.map(x), h.mag(x), [Snap(h, y) for y in [x] + es]
    E_ = [h.map(e) for e in es]
    names = ['prepend', 'append'] if ends == 'both' else [ends]
    val = [h.mag(e) * (h.size(F) / h.size(X)) for e, F in zip(es, E_)] if kind != 'ndarray' or end != 'float' else [h.mag(e) for e in es]
    kw = dict(zip(names, es))
    want = h.red('diff', mx, **dict(zip(names, val)))
    o = h.run(lambda: h.q.umath.diff(x, **kw))
    if h.branch(h.And(*[h.compatible(F, X) for F in E_])):
        r = h.returns(o)
        h.post('units', h.eqmap(h.map(r), X))
        h.post('numpy result', h.same(h.mag(r), want))
    else: h.raises(o, ValueError)
    unchanged(h, *s)

@case('C11', funcs=['umath.ediff1d'], kind=['quantity', 'view', 'ndarray'], end=[None, 'scalarq', 'derived', 'float'], begin=[None, 'scalarq', 'float'])
def ediff1d(h, kind, end, begin):
    x = h.operand('x', kind, dtype='float')
    es = [None if e is None else operand(h, n, e, x if kind != 'ndarray' else h.q.dimensionless) for n, e in (('end', end), ('begin', begin))]
    X, mx, s = h.map(x), h.mag(x), [Snap(h, y) for y in [x] + es if y is not None]
    E_ = [X if e is None or k == 'float' else h.map(e) for e, k in zip(es, (end, begin))]
    # a plain number at an end is in the units of the array
    val = [None if e is None else h.mag(e) * (h.size(F) / h.size(X)) for e, F in zip(es, E_)]
    want = h.red('ediff1d', mx, *val)
    o = h.run(lambda: h.q.umath.ediff1d(x, es[0], es[1]))
    if h.branch(h.And(*[h.compatible(F, X) for F in E_])):
        r = h.returns(o)
        h.post('units', h.eqmap(h.map(r), X))
        h.post('numpy result', h.same(h.mag(r), want))
    else: h.raises(o, ValueError)
    unchanged(h, *s)

@case('C11', funcs=['umath.gradient'], kind=['quantity', 'view', 'ndarray'], spacing=[(), ('scalarq',), ('derived',), ('float',), ('scalarq', 'float'), ('float', 'scalarq'), ('derived', 'scalarq')], ndim=[1, 2],
      only=lambda kind, spacing, ndim: not (len(spacing) == 2 and ndim == 1))
def gradient(h, kind, spacing, ndim):
    f = h.operand('f', kind, dtype='float', ndim=ndim)
    h.dimension(f, ndim)
    sp = [h.operand('d%d' % i, k) if k == 'derived' else h.operand('d%d' % i, k, nonzero=True) for i, k in enumerate(spacing)]
    F, mf, s = h.map(f), h.mag(f), [Snap(h, y) for y in [f] + sp]
    D = [h.map(d) for d in sp]
    md = [h.mag(d) for d in sp]
    want = h.gradients(mf, md, ndim)
    r = h.returns(h.run(lambda: h.q.umath.gradient(f, *sp)))
    rs = [r] if ndim == 1 else list(r)
    h.post('one result per axis', len(rs) == ndim)
    for i, x in enumerate(rs):
        U = F if not D else F - (D[0] if len(D) == 1 else D[i])
        h.post('units', h.eqmap(h.map(x), U))
        h.post('numpy result', h.same(h.mag(x), want[i]))
        h.post('a quantity when an operand is', h.is_quantity(x) == (kind != 'ndarray' or any(k != 'float' for k in spacing)))
    unchanged(h, *s)

@case('C11', funcs=['umath.cross'], kinds=[('quantity', 'quantity'), ('quantity', 'ndarray'), ('ndarray', 'quantity'), ('ndarray', 'ndarray')])
def cross(h, kinds):
    a, b = h.vector('a', kinds[0]), h.vector('b', kinds[1])
    A, B, s = h.map(a), h.map(b), [Snap(h, a), Snap(h, b)]
    want = h.red('cross', h.mag(a), h.mag(b))
    r = h.returns(h.run(lambda: h.q.umath.cross(a, b)))
    h.post('units', h.eqmap(h.map(r), A + B))
    h.post('numpy result', h.same(h.mag(r), want))
    h.post('a quantity when an operand is', h.is_quantity(r) == ('quantity' in kinds))
    unchanged(h, *s)

@case('C11', funcs=['umath.unwrap'], kind=['quantity', 'derived_angle', 'ndarray'], discont=[None, 'scalarq', 'float'])
def unwrap(h, kind, discont):
    p = h.array('p', dtype='float', ndim=1) if kind == 'ndarray' else h.quantity('p', near=h.q.radian, dtype='float', ndim=1) if kind == 'quantity' else h.quantity('p', dims=h.map(h.q.degree), dtype='float', ndim=2)
    d = None if discont is None else operand(h, 'd', discont, h.q.radian)
    P, mp, s = h.map(p), h.mag(p), [Snap(h, x) for x in (p, d) if x is not None]
    D = h.empty() if discont is None else h.map(d)
    half = 3.141592653589793
    plain = kind == 'ndarray' and discont != 'scalarq'
    if plain: want = h.red('unwrap', mp, half if d is None else h.mag(d), -1)
    else: want = h.red('unwrap', mp, (h.mag(half) if d is None else h.mag(d)) * (h.size(D) / h.size(P)), -1, period=h.mag(2 * half) * (h.size(rad(h)) / h.size(P)))
    o = h.run((lambda: h.q.umath.unwrap(p)) if d is None else (lambda: h.q.umath.unwrap(p, d)))
    if plain:
        h.post('numpy result', h.same(h.mag(h.returns(o)), want))
    elif h.branch(h.And(h.compatible(P, rad(h)), h.compatible(D, rad(h)))):
        r = h.returns(o)
        h.post('units', h.eqmap(h.map(r), P))
        h.post('numpy result', h.same(h.mag(r), want))
    else: h.raises(o, ValueError)
    unchanged(h, *s)

@case('C11', funcs=['umath.trapz'], y=['quantity', 'ndarray', 'list'], x=[None, 'quantity', 'ndarray'], dx=[None, 'scalarq', 'derived', 'float'],
      only=lambda y, x, dx: x is None or dx is None)
def trapz(h, y, x, dx):
    n = h.samples()
    Y = h.operand('y', y, **({'shape': n, 'dtype': 'float'} if y != 'list' else {}))
    X_ = None if x is None else h.operand('x', x, shape=h.shape_of(Y), dtype='float')
    d = None if dx is None else h.operand('dx', dx)
    s = [Snap(h, v) for v in (Y, X_, d) if v is not None]
    args = {'x': X_} if x is not None else {'dx': d} if d is not None else {}
    want = h.trapezoid(h.mag(Y), None if x is None else h.mag(X_), 1.0 if d is None else h.mag(d))
    D = h.map(Y) + (h.map(X_) if x is not None else h.empty() if d is None else h.map(d))
    r = h.returns(h.run(lambda: h.q.umath.trapz(Y, **args)))
    h.post('units', h.eqmap(h.map(r), D))
    h.post('trapezoid rule', h.same(h.mag(r), want))
    h.post('a quantity when an operand is', h.is_quantity(r) == ('quantity' in (y, x) or dx in ('scalarq', 'derived')))
    unchanged(h, *s)

# ------------------------------------------------------------------ the optional arguments
def _close(r, want): return np.shape(r) == np.shape(want) and bool(np.allclose(np.asarray(r), want, rtol=1e-9, atol=1e-12))

@case('C11', funcs=['umath.trapz', '_trapz'], symbolic=False, runs=120, y=['quantity', 'ndarray'], x=[None, 'vector', 'array'], q=[True, False])
def trapz_axis(h, y, x, q):
    """along any axis, with sample points for that axis only or for every element"""
    n = h.r.choice([1, 2, 3])
    Y = h.operand('y', y, ndim=n, dtype='float')
    axis = h.note('axis', h.r.choice(range(-n, n)))
    sh = np.shape(Y)
    X = None if x is None else (h.quantity if q else h.array)('x', shape=sh if x == 'array' else (sh[axis],), dtype='float')
    D = None if x is not None else h.operand('dx', 'scalarq' if q else 'float')
    s = [Snap(h, v) for v in (Y, X, D) if v is not None]
    want = np.trapezoid(np.asarray(Y), None if X is None else np.asarray(X), 1.0 if D is None else float(np.asarray(D)), axis)
    units = h.map(Y) + (h.map(X) if X is not None else h.map(D))
    r = h.returns(h.run(lambda: h.q.umath.trapz(Y, X, axis=axis) if X is not None else h.q.umath.trapz(Y, None, D, axis)))
    h.post('units', h.eqmap(h.map(r), units))
    h.post('trapezoid rule', np.shape(r) == np.shape(want) and bool(np.allclose(np.asarray(r), want, rtol=1e-6, atol=1e-6 * (1 + np.abs(np.asarray(Y)).max()) * (1 + (0 if X is None else np.abs(np.asarray(X)).max())))))
    h.post('a quantity when an operand is', h.is_quantity(r) == (y == 'quantity' or q))
    unchanged(h, *s)

@case('C11', funcs=['umath.cross'], symbolic=False, runs=80, kinds=[('quantity', 'quantity'), ('quantity', 'ndarray'), ('ndarray', 'quantity'), ('ndarray', 'ndarray')])
def cross_axes(h, kinds):
    k = h.r.choice([2, 3, 4])
    axa, axb, axc = [h.r.choice([0, -1]) for _ in range(3)]
    one = h.r.random() < 0.4
    if one: axb = axa
    mk = lambda n, kind, ax: (h.quantity if kind == 'quantity' else h.array)(n, shape=(3, k) if ax == 0 else (k, 3), dtype='float')
    a, b = mk('a', kinds[0], axa), mk('b', kinds[1], axb)
    h.note('axes', (axa, axb, axc, one))
    s = [Snap(h, a), Snap(h, b)]
    A, B = h.map(a), h.map(b)
    if one: want, f = np.cross(np.asarray(a), np.asarray(b), axis=axa), lambda: h.q.umath.cross(a, b, axis=axa)
    else: want, f = np.cross(np.asarray(a), np.asarray(b), axa, axb, axc), lambda: h.q.umath.cross(a, b, axa, axb, axc)
    r = h.returns(h.run(f))
    h.post('units', h.eqmap(h.map(r), A + B) if 'quantity' in kinds else not h.is_quantity(r))
    h.post('numpy result', _close(r, want))
    unchanged(h, *s)

@case('C11', funcs=['umath.unwrap'], symbolic=False, runs=80, discont=[False, True])
def unwrap_axis(h, discont):
    p = h.quantity('p', dims=h.map(h.r.choice([h.q.radian, h.q.degree])), dtype='float', ndim=2)
    axis = h.note('axis', h.r.choice([0, 1, -1, -2]))
    one = 180 / np.pi if h.map(p) == h.map(h.q.degree) else 1.0
    d = h.r.choice([np.pi, 2.0, 4.0, 5.5])
    s = Snap(h, p)
    want = np.unwrap(np.asarray(p) / one, d, axis=axis) * one if discont else np.unwrap(np.asarray(p) / one, axis=axis) * one
    # at the jump itself rounding decides
    a = np.abs(np.diff(np.asarray(p) / one, axis=axis)) % (2 * np.pi)
    b = np.abs(np.diff(np.asarray(p) / one, axis=axis))
    h.assume(not (np.any(np.abs(a - np.pi) < 1e-9) or np.any(np.abs(b - max(d if discont else np.pi, np.pi)) < 1e-9)))
    h.assume(bool(np.all(np.abs(np.asarray(p)) < 1e5)))
    r = h.returns(h.run(lambda: h.q.umath.unwrap(p, h.q.Quantity(d, 'rad'), axis) if discont else h.q.umath.unwrap(p, axis=axis)))
    h.post('units', h.eqmap(h.map(r), h.map(p)))
    h.post('numpy result', np.shape(r) == np.shape(want) and bool(np.allclose(np.asarray(r), want, rtol=1e-9, atol=1e-7)))
    unchanged(h, s)

@case('C11', funcs=['umath.' + n for n in SUMS if n != 'nansum'], symbolic=False, runs=80, f=[n for n in SUMS if n != 'nansum'], given=['dtype', 'out', 'axis out'])
def sums_arguments(h, f, given):
    """the arguments have the meaning and the place they have in numpy"""
    x = h.quantity('x', ndim=2, dtype='float', **({'dims': h.empty()} if f == 'cumprod' else {}))
    h.assume(bool(np.all(np.abs(np.asarray(x)) < 1e6)))
    axis = h.r.choice([0, 1, -1]) if given == 'axis out' or f.startswith('cum') else None
    h.note('axis', axis)
    m = np.asarray(x)
    X = h.map(x) * h.count(x, axis) if f == 'prod' else h.map(x)
    s = Snap(h, x)
    g, n = getattr(h.q.umath, f), getattr(np, f)
    if given == 'dtype':
        dt = np.dtype(h.r.choice(['f4', 'c16']))
        want = n(m, axis, dt)
        r = h.returns(h.run(lambda: g(x, axis, dt)))
        h.post('the dtype', r.dtype == dt)
        h.post('numpy result', np.shape(r) == np.shape(want) and bool(np.allclose(np.asarray(r), want, rtol=1e-5, equal_nan=True)))
    else:
        want = n(m, axis)
        o = h.q.Quantity(np.zeros(np.shape(want)), 'kg')
        r = h.returns(h.run(lambda: g(x, axis, None, o)))
        h.post('the output is returned', r is o)
        h.post('numpy result', _close(r, want))
    h.post('units', h.eqmap(h.map(r), X))
    unchanged(h, s)
