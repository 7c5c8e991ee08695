"""shared data and shared units (C14)"""
import operator
import numpy as np
from ..registry import case
from .util import *

def taken(h, o):
    if o.exc is IndexError: h.done()     # no such element
    return h.returns(o)

def take_view(h, x, how):
    if how == 'slice':
        k = h.index()
        return lambda: x[k]
    return {'view': lambda: x.view(), 'T': lambda: x.T, 'ravel': lambda: x.ravel(), 'squeeze': lambda: x.squeeze(), 'real': lambda: x.real,
            'constructor': lambda: type(x)(x), 'transpose': lambda: x.transpose(), 'asarray': lambda: x.astype(x.dtype, copy=False)}[how]
HOW = ['slice', 'view', 'T', 'ravel', 'squeeze', 'real', 'constructor', 'transpose']
CHANGE = ['imul', 'itruediv', 'ifloordiv', 'ipow', 'units']

def change(h, v, op, y):
    if op == 'units':
        def f(): v.units = y
    else:
        g = getattr(operator, op)
        def f(): g(v, y)
    return f

@case('C14', funcs=['protected_multiplication', 'protected_power', 'Quantity.units', 'Quantity.__ifloordiv__', 'Quantity.__imul__', 'Quantity.__itruediv__', 'Quantity.__ipow__'],
      how=HOW, op=CHANGE, by=['quantity', 'scalarq', 'derived', 'compound'], a=['quantity', 'view', 'uncertain'],
      only=lambda how, op, by, a: (op != 'ipow' or by == 'scalarq') and (a == 'quantity' or by in ('scalarq', 'derived')) and (a != 'uncertain' or how == 'slice'))
def view_protected(h, how, op, by, a):
    """in-place operations that would change the units of a view of another quantity"""
    x = h.operand('x', a, **({} if a == 'uncertain' else {'dtype': 'float'}))
    v = taken(h, h.run(take_view(h, x, how)))
    h.assume(h.is_view(v, x))
    if op == 'ipow': y = h.number('n', 'float')
    else: y = h.operand('y', by, near=v) if op == 'units' and by in UNITS else h.operand('y', by)
    sv, sx, sy = Snap(h, v), Snap(h, x), Snap(h, y)
    if op == 'ipow': h.assume(h.Not(h.eqnum(h.scalar(y), 1)))
    elif op != 'units': h.assume(h.Not(h.eqmap(h.map(y), h.empty())))
    h.raises(h.run(change(h, v, op, y)), ValueError)
    unchanged(h, sv, sx, sy, name='view and viewed quantity unchanged')

@case('C14', funcs=['Quantity.units'], by=['unit_quantity', 'derived', 'same'])
def readonly_units(h, by):
    x = h.operand('x', 'quantity', frozen=True)
    y = h.dims_of(x) if by == 'same' else h.unit_quantity('y', near=x) if by == 'unit_quantity' else h.operand('y', by, near=x)
    s = Snap(h, x)
    def f(): x.units = y
    h.raises(h.run(f), ValueError)
    unchanged(h, s, name='array unchanged')

@case('C14', funcs=['protected_multiplication', 'protected_power'], how=['slice', 'view', 'ravel', 'constructor'], op=['imul', 'itruediv'], by=['float', 'int'])
def view_scaled(h, how, op, by):
    """a change that keeps the units is allowed, and visible in the viewed quantity's data only"""
    x = h.operand('x', 'quantity', dtype='float')
    v = taken(h, h.run(take_view(h, x, how)))
    y = h.number('n', by, nonzero=True)
    V, X, want = h.map(v), h.map(x), h.fn({'imul': 'multiply', 'itruediv': 'true_divide'}[op], h.mag(v), y)
    r = h.returns(h.run(lambda: getattr(operator, op)(v, y)))
    h.post('the view itself', h.identical(r, v))
    h.post('scaled', h.same(h.mag(v), want))
    h.post('units', h.And(h.eqmap(h.map(v), V), h.eqmap(h.map(x), X)))

DERIVED = {'copy': lambda x: x.copy(), 'rescaled': lambda x: x.rescale(x.units), 'units': lambda x: x.units, 'neg': lambda x: -x, 'pos': lambda x: +x, 'abs': lambda x: abs(x), 'times': lambda x: x * 2,
           'over': lambda x: x / 2, 'sum': lambda x: x.sum(), 'plus': lambda x: x + x, 'minus': lambda x: x - x, 'constructor': lambda x: type(x)(x), 'view': lambda x: x.view(), 'from units': lambda x: type(x)(1.0, x),
           'astype': lambda x: x.astype('f'), 'max': lambda x: x.max(), 'round': lambda x: x.round(), 'simplified': lambda x: x.simplified, 'squeeze': lambda x: x.squeeze(), 'T': lambda x: x.T, 'first': lambda x: x[..., 0],
           'times one': lambda x: 1 * x, 'power one': lambda x: x ** 1, 'mean': lambda x: x.mean(), 'std': lambda x: x.std(), 'min': lambda x: x.min(), 'prod': lambda x: x.prod(), 'clip': lambda x: x.clip(x.min(), x.max())}
SYMD = ['copy', 'rescaled', 'units', 'neg', 'pos', 'abs', 'times', 'over', 'sum', 'plus', 'minus', 'constructor', 'view', 'from units', 'astype', 'max', 'round', 'simplified', 'squeeze', 'T', 'times one', 'mean', 'std', 'min', 'prod', 'clip']

def derived(h, what, change):
    if what == 'from units':
        x = h.unit_quantity('x')
    else: x = h.operand('x', 'quantity', dtype='float')
    s = Snap(h, x)
    y = taken(h, h.run(lambda: DERIVED[what](x)))
    h.post('operand unchanged', s.same())
    h.post('units not shared', h.Not(h.shares_dims(x, y)))
    t = Snap(h, y)
    if change == 'mul':
        z = h.operand('z', 'derived')
        def f():
            y2 = y
            y2 *= z
    elif change == 'assign':
        z = h.operand('z', 'derived', near=y)
        def f(): y.units = z
    else:
        def f():
            d = y.dimensionality
            d.clear()
    h.run(f)
    h.post('units of the first quantity unchanged', h.eqmap(h.map(x), s.map))
    if change == 'dimensionality': h.post('units of the second quantity unchanged', h.eqmap(h.map(y), t.map))

@case('C14', funcs=['Quantity.dimensionality', 'Quantity.__array_finalize__', 'Dimensionality.copy'], what=SYMD, change=['mul', 'assign', 'dimensionality'])
def derived_units_independent(h, what, change): derived(h, what, change)
@case('C14', what=[w for w in DERIVED if w not in SYMD], change=['mul', 'assign', 'dimensionality'], symbolic=False)
def derived_units_independent_bounded(h, what, change): derived(h, what, change)

MUT = {'set': lambda h, d, u: d.__setitem__(u, 7), 'clear': lambda h, d, u: d.clear(), 'update': lambda h, d, u: d.update({u: 3}), 'iadd': lambda h, d, u: operator.ipow(d, 2), 'imul': lambda h, d, u: operator.imul(d, d.copy()),
       'itruediv': lambda h, d, u: operator.itruediv(d, d.copy())}
@case('C14', funcs=['Quantity.dimensionality', 'UnitQuantity.dimensionality', 'Dimensionality.copy', 'Dimensionality.__imul__', 'Dimensionality.__itruediv__', 'Dimensionality.__ipow__'], a=['quantity', 'view', 'derived', 'base', 'compound', 'uncertain', 'dimensionless'],
      how=['set', 'clear', 'ipow', 'imul', 'itruediv'])
def dimensionality_is_a_copy(h, a, how):
    x = h.operand('x', a)
    u = h.operand('u', 'derived')
    s = Snap(h, x)
    e = h.dims_of(u)
    def f():
        d = x.dimensionality
        if how == 'set': d[u] = 7
        elif how == 'clear': d.clear()
        elif how == 'ipow': d **= 2
        elif how == 'imul': d *= e
        else: d /= e
        return d
    d = h.returns(h.run(f))
    h.post('the quantity keeps its units', h.eqmap(h.map(x), s.map))
    h.post('and its dimensionality', h.eqmap(h.map(h.returns(h.run(lambda: x.dimensionality))), s.map))
    unchanged(h, s)

@case('C14', funcs=['Quantity.magnitude'], a=['quantity', 'view', 'scalarq'])
def magnitude_is_a_view(h, a):
    x = h.operand('x', a, dtype='float')
    X, c = h.map(x), h.number('c', 'float')
    m = h.returns(h.run(lambda: x.magnitude))
    h.post('plain array', not h.is_quantity(m))
    h.post('shares the data', h.shares(m, x))
    before = h.mag(m)
    def f(): m[...] = c
    h.returns(h.run(f))
    h.post('data written', h.same(h.mag(x), h.setitem(before, Ellipsis, c)))
    h.post('units untouched', h.eqmap(h.map(x), X))

@case('C14', funcs=['Quantity.__new__', 'validate_dimensionality'], data=['float', 'ndarray', 'list'])
def constructor_units_independent(h, data):
    """the dimensionality object given to the constructor is not shared"""
    y = h.unit_quantity('y')
    d = h.dims_of(y)
    D = h.map(d)
    v = h.operand('v', data)
    Q = h.q.Quantity
    x = h.returns(h.run(lambda: Q(v, d)))
    h.post('not shared', h.Not(h.shares_dims(x, d)))
    z = h.operand('z', 'derived')
    def f():
        x2 = x
        x2 *= z
    h.run(f)
    h.post('argument unchanged', h.eqmap(h.map(d), D))

@case('C14', symbolic=False, runs=3)
def histories(h):
    """random histories of taking views and operating in place: numbers follow numpy, units change only where asked"""
    r, q = h.r, h.q
    x = h.operand('x', 'quantity', dtype='float', shape=r.choice([(3,), (2, 3), (4,)]))
    objs = [(x, np.array(x.magnitude), None)]           # quantity, plain mirror, what it is a view of
    units = [h.map(x)]
    log = []
    for step in range(r.randrange(3, 10)):
        i = r.randrange(len(objs))
        v, m, owner = objs[i]
        op = r.choice(['view', 'view', 'copy', 'imul', 'imulq', 'idivq', 'ipow', 'iadd', 'set', 'units', 'dims', 'mag', 'ifloorq'])
        log.append((i, op))
        y = h.operand('y%d' % step, r.choice(['scalarq', 'derived']))
        Y, U = h.map(y), units[i]
        n = r.choice([2.0, 0.5, 3])
        if op in ('view', 'copy'):
            if op == 'copy' or v.ndim == 0: objs.append((v.copy(), m.copy(), None))
            else:
                f = r.choice([lambda z: z[1:], lambda z: z[::-1], lambda z: z[...], lambda z: z.T, lambda z: z.reshape(-1), lambda z: z.squeeze(), lambda z: z.view(), lambda z: z.swapaxes(0, -1)])
                objs.append((f(v), f(m), i))
            units.append(U)
        elif op in ('imulq', 'idivq', 'ifloorq'):
            f = {'imulq': operator.imul, 'idivq': operator.itruediv, 'ifloorq': operator.ifloordiv}[op]
            o = h.run(lambda: f(v, y))
            if owner is not None and len(Y) and np.shares_memory(v, objs[owner][0]): h.raises(o, ValueError, 'step %d: unit change of a view' % step)
            else:
                h.returns(o, 'step %d' % step)
                with np.errstate(all='ignore'): f(m, np.asarray(y.magnitude))
                units[i] = U + Y if op == 'imulq' else U - Y
        elif op == 'ipow':
            k = r.choice([2, -1, 0.5, 3])
            o = h.run(lambda: operator.ipow(v, k))
            if owner is not None and np.shares_memory(v, objs[owner][0]): h.raises(o, ValueError, 'step %d: power of a view' % step)
            else:
                h.returns(o)
                with np.errstate(all='ignore'): operator.ipow(m, k)
                units[i] = U * k
        elif op == 'imul':
            h.returns(h.run(lambda: operator.imul(v, n))); m *= n
        elif op == 'iadd':
            z = q.Quantity(n, v.dimensionality)
            h.returns(h.run(lambda: operator.iadd(v, z))); m += n
        elif op == 'set':
            z = q.Quantity(n, v.dimensionality)
            h.returns(h.run(lambda: v.__setitem__(Ellipsis, z))); m[...] = n
        elif op == 'units':
            w = q.Quantity(1.0, q.dimensionality.Dimensionality(h._near(dict(U))))
            W = h.map(w)
            def f(): v.units = w
            o = h.run(f)
            if owner is not None and np.shares_memory(v, objs[owner][0]): h.raises(o, ValueError, 'step %d: units of a view' % step)
            elif h.compatible(U, W):
                h.returns(o)
                with np.errstate(all='ignore'): m *= h.size(U) / h.size(W)
                units[i] = W
            else: h.raises(o, ValueError)
        elif op == 'dims':
            d = v.dimensionality
            d[q.m] = 5; d *= d.copy(); d.clear()
        elif op == 'mag':
            v.magnitude[...] = n; m[...] = n
        for j, (z, p, _) in enumerate(objs):
            h.post('step %d %s: units of every quantity as expected' % (step, op), h.eqmap(h.map(z), units[j]))
            with np.errstate(all='ignore'):
                ok = np.allclose(np.asarray(z.magnitude), p, rtol=1e-6, equal_nan=True) or np.any(~np.isfinite(p)) or np.any(np.abs(p) > 1e100)
            h.post('step %d %s: numbers as expected' % (step, op), ok)
