"""reductions and array methods (C12)"""
import numpy as np
from ..registry import case
from .util import *

ARGS = {'sum': 'axis dtype', 'nansum': 'axis dtype', 'mean': 'axis dtype', 'nanmean': 'axis dtype', 'std': 'axis dtype ddof', 'nanstd': 'axis dtype ddof',
        'var': 'axis dtype ddof', 'max': 'axis', 'min': 'axis', 'nanmax': 'axis', 'nanmin': 'axis', 'ptp': 'axis', 'cumsum': 'axis dtype', 'prod': 'axis dtype',
        'round': 'decimals', 'trace': 'offset dtype'}
ARGS = {k: v.split() for k, v in ARGS.items()}
NAMES = sorted(ARGS)
ORDER = {'trace': ['offset', 'axis1', 'axis2', 'dtype', 'out']}
SUBSETS = ['none', 'one', 'all']

def arguments(h, name, given, x):
    """some of the arguments of the method, as a dictionary"""
    names = ARGS[name] if given == 'all' else ARGS[name][:1] if given == 'one' else []
    return {n: h.axis(x) if n == 'axis' else 'd' if n == 'dtype' else 1 if n == 'ddof' else h.opaque(n) for n in names}

def result_units(h, name, x, kw):
    X = h.map(x)
    if name == 'var': return X * 2
    if name == 'prod': return X * h.count(x, kw.get('axis'))
    return X

def operand(h, name, a):
    if name == 'trace': return h.operand('x', a, ndim=2) if a in ('quantity', 'view') else h.operand('x', a)
    if a in QUANT: return h.operand('x', a, **({'dtype': 'float'} if name.startswith('nan') else {}))
    return h.operand('x', a)

@case('C12', funcs=['Quantity.%s' % n for n in NAMES], name=NAMES, given=SUBSETS, a=['quantity', 'view', 'scalarq', 'derived'],
      only=lambda name, given, a: a in ('quantity', 'view') or (name != 'trace' and (given == 'none' or name == 'round')))
def reduction(h, name, given, a):
    x = operand(h, name, a)
    kw = arguments(h, name, given, x)
    X, want = result_units(h, name, x, kw), h.red(name, h.mag(x), **kw)
    s = Snap(h, x)
    r = h.returns(h.run(lambda: getattr(x, name)(**kw)))
    h.post('result is a quantity', h.is_quantity(r) and not h.is_unit(r))
    h.post('units', h.eqmap(h.map(r), X))
    h.post('numpy result', h.same(h.mag(r), want, dtype=True))
    unchanged(h, s, name='operand unchanged')

@case('C12', funcs=['Quantity.%s' % n for n in NAMES], name=NAMES, a=['quantity'])
def reduction_positional(h, name, a):
    """the positional order of the arguments is numpy's"""
    x = operand(h, name, a)
    kw = arguments(h, name, 'all', x)
    X, want = result_units(h, name, x, kw), h.red(name, h.mag(x), **kw)
    if name == 'trace': args = [kw['offset'], 0, 1, kw['dtype']]
    elif 'ddof' in kw: args = [kw['axis'], kw['dtype'], None, kw['ddof']]
    else: args = [kw[n] for n in ARGS[name]]
    r = h.returns(h.run(lambda: getattr(x, name)(*args)))
    h.post('units', h.eqmap(h.map(r), X))
    h.post('numpy result', h.same(h.mag(r), want))

@case('C12', funcs=['Quantity.%s' % n for n in NAMES] + ['_out_magnitude'], name=NAMES, given=SUBSETS, units=['same', 'other'], a=['quantity', 'view'])
def reduction_out(h, name, given, units, a):
    """the output quantity receives the numbers and the units, and is what is returned"""
    x = operand(h, name, a)
    kw = arguments(h, name, given, x)
    X, want = result_units(h, name, x, kw), h.red(name, h.mag(x), **kw)
    out = h.out_like('out', want, dims=X if units == 'same' else None)
    s = Snap(h, x)
    r = h.returns(h.run(lambda: getattr(x, name)(out=out, **kw)))
    h.post('returns the output', h.identical(r, out))
    h.post('units', h.eqmap(h.map(out), X))
    h.post('numpy result', h.same(h.mag(out), want))
    unchanged(h, s, name='operand unchanged')
    h.post('units not shared', h.Not(h.shares_dims(out, x)))

@case('C12', funcs=['Quantity.%s' % n for n in NAMES + ['clip']] + ['_out_magnitude'], name=NAMES + ['clip'], a=['quantity'])
def reduction_out_plain(h, name, a):
    """an output that is not a quantity is refused, and not written to"""
    x = operand(h, name, a)
    if name == 'clip':
        lo, hi = h.quantity('lo', dims=h.map(x), scalar=True), h.quantity('hi', dims=h.map(x), scalar=True)
        want = h.red('round', h.mag(x))
        f = lambda out: x.clip(lo, hi, out)
    else:
        want = h.red(name, h.mag(x))
        f = lambda out: getattr(x, name)(out=out)
    out = h.plain_like('out', want)
    s, t = Snap(h, x), Snap(h, out)
    h.raises(h.run(lambda: f(out)), TypeError)
    unchanged(h, s, t, name='operand and output unchanged')

@case('C12', funcs=['Quantity.cumprod'], given=SUBSETS, a=['quantity', 'view', 'dimensionless', 'derived'],
      only=lambda given, a: a in ('quantity', 'view') or given == 'none')
def cumprod(h, given, a):
    x = h.operand('x', a) if a not in QUANT or h.boolean('dimensional') else h.operand('x', a, dims=h.empty())
    kw = {} if given == 'none' else {'axis': h.axis(x)} if given == 'one' else {'axis': h.axis(x), 'dtype': 'd'}
    X = h.map(x)
    s = Snap(h, x)
    o = h.run(lambda: x.cumprod(**kw))
    if h.branch(h.eqmap(X, h.empty())):
        want = h.red('cumprod', s.mag, **kw)
        r = h.returns(o)
        h.post('units', h.eqmap(h.map(r), h.empty()) if h.is_quantity(r) else False)
        h.post('numpy result', h.same(h.mag(r), want))
    else: h.raises(o, ValueError)
    unchanged(h, s, name='operand unchanged')

@case('C12', funcs=['Quantity.squeeze'], given=['none', 'one'], a=['quantity', 'view', 'derived'])
def squeeze(h, given, a):
    x = h.operand('x', a, shape=h.with_unit_axis()) if a in QUANT else h.operand('x', a)
    kw = {'axis': h.unit_axis()} if given == 'one' else {}
    want = h.red('squeeze', h.mag(x), **kw)
    s = Snap(h, x)
    r = h.returns(h.run(lambda: x.squeeze(**kw)))
    h.post('units', h.eqmap(h.map(r), h.map(x)) if h.is_quantity(r) else False)
    h.post('numpy result', h.same(h.mag(r), want, dtype=True))
    h.post('units not shared', h.Not(h.shares_dims(r, x)))
    unchanged(h, s, name='operand unchanged')

LIMIT = ['quantity', 'scalarq', 'derived', 'float', 'none']
@case('C12 C13', funcs=['Quantity.clip'], a=['quantity', 'view'], lo=LIMIT, hi=LIMIT, out=['none', 'quantity'],
      only=lambda a, lo, hi, out: (lo == 'quantity' or hi in ('scalarq', 'none', 'float')) and (a == 'quantity' or out == 'none'))
def clip(h, a, lo, hi, out):
    """the limits are converted to the units of the array"""
    x = h.operand('x', a, dtype='float')
    L, H = [None if k == 'none' else h.operand(n, k, near=x, dtype='float') if k in QUANT else h.operand(n, k, near=x) for n, k in (('lo', lo), ('hi', hi))]
    X, mx = h.map(x), h.mag(x)
    given = [l for l in (L, H) if l is not None]
    for l in given: h.representable(l, h.size(h.map(l)) / h.size(X))
    snaps = [Snap(h, v) for v in [x] + given]
    res = h.out_like('out', mx) if out == 'quantity' else None
    o = h.run(lambda: x.clip(L, H) if res is None else x.clip(L, H, res))
    if not given: return h.raises(o, ValueError)
    h.conform(mx, *[s.mag for s in snaps[1:]])
    h.assume(h.broadcasts(mx, *[s.mag for s in snaps[1:]]))
    plainlimit = 'float' in (lo, hi)
    if plainlimit and not h.branch(h.eqmap(X, h.empty())): h.raises(o, ValueError)
    elif h.branch(h.And(*[h.compatible(h.map(l), X) for l in given])):
        r = h.returns(o)
        if res is not None: h.post('returns the output', h.identical(r, res))
        h.post('units', h.eqmap(h.map(r), X) if h.is_quantity(r) else False)
        want = mx
        if L is not None: want = h.fn('maximum', want, h.mag(L) * (h.size(h.map(L)) / h.size(X)))
        if H is not None: want = h.fn('minimum', want, h.mag(H) * (h.size(h.map(H)) / h.size(X)))
        h.post('clipped to the physical limits', h.same(h.mag(r), want))
    else: h.raises(o, ValueError)
    unchanged(h, *snaps, name='array and limits unchanged')

INDEX = ['argmin', 'argmax', 'nanargmin', 'nanargmax', 'argsort', 'nonzero']
@case('C12', funcs=['Quantity.%s' % n for n in INDEX], name=INDEX, given=['none', 'one'], a=['quantity', 'view'])
def index_result(h, name, given, a):
    x = h.operand('x', a, **({'dtype': 'float'} if name.startswith('nan') else {}))
    kw = {'axis': h.axis(x)} if given == 'one' and name != 'nonzero' else {}
    want = h.red(name, h.mag(x), **kw)
    s = Snap(h, x)
    r = h.returns(h.run(lambda: getattr(x, name)(**kw)))
    if name == 'nonzero':
        h.post('a tuple', isinstance(r, tuple) and len(r) >= 1)
        r = r[0]
    h.post('plain indices', not h.is_quantity(r))
    h.post('numpy result', h.same(h.mag(r), want))
    unchanged(h, s, name='operand unchanged')

@case('C12', funcs=['Quantity.argmin', 'Quantity.nanargmin', 'Quantity.nanargmax'], name=['argmin', 'argmax', 'nanargmin', 'nanargmax'], given=['none', 'one'])
def index_out(h, name, given):
    """indices written to an output array"""
    x = h.operand('x', 'quantity', dtype='float')
    kw = {'axis': h.axis(x)} if given == 'one' else {}
    want = h.red(name, h.mag(x), **kw)
    out = h.plain_like('out', want)
    s = Snap(h, x)
    r = h.returns(h.run(lambda: getattr(x, name)(out=out, **kw)))
    h.post('the output is returned', h.identical(r, out))
    h.post('numpy result', h.same(h.mag(out), want))
    unchanged(h, s, name='operand unchanged')

@case('C12', funcs=['Quantity.argsort'], kind=['stable', 'heapsort', None], symbolic=False)
def argsort_arguments(h, kind):
    x = h.operand('x', 'quantity')
    kw = {'axis': h.axis(x), 'kind': kind, 'order': None}
    want = h.red('argsort', h.mag(x), **kw)
    s = Snap(h, x)
    r = h.returns(h.run(lambda: x.argsort(**kw)))
    h.post('numpy result', h.same(h.mag(r), want))
    unchanged(h, s, name='operand unchanged')

@case('C12', funcs=['Quantity.astype'], a=QUANT + UNITS, dtype=['d', 'f', 'l', 'none'], copy=['default', True, False])
def astype(h, a, dtype, copy):
    x = h.operand('x', a, dtype='any') if a in QUANT else h.operand('x', a)
    kw = {} if copy == 'default' else {'copy': copy}
    if dtype != 'none': kw['dtype'] = dtype
    X = h.map(x)
    want = h.astype(h.mag(x), 'd' if dtype == 'none' else dtype)
    s = Snap(h, x)
    r = h.returns(h.run(lambda: x.astype(**kw)))
    h.post('a quantity', h.isinstance(r, h.q.Quantity))
    h.post('units', h.eqmap(h.map(r), X))
    h.post('the numbers in that type', h.same(h.mag(r), want, dtype=True))
    if copy is not False: h.post('a copy', r is not x and not h.shares(r, x))
    unchanged(h, s, name='operand unchanged')

@case('C12', funcs=['Quantity.astype'], a=['quantity', 'scalarq', 'derived'], symbolic=False)
def astype_options(h, a):
    x = h.operand('x', a, dtype='any') if a in QUANT else h.operand('x', a)
    dt = h.r.choice(['d', 'f', 'l', 'i4'])
    kw = {'casting': h.r.choice(['safe', 'same_kind', 'unsafe', 'no', 'equiv']), 'copy': h.r.choice([True, False]), 'order': h.r.choice('KCFA')}
    m = h.mag(x).a
    h.note('arguments', (dt, kw))
    want = h.attempt(lambda: m.astype(dt, **kw))
    s = Snap(h, x)
    o = h.run(lambda: x.astype(dt, **kw))
    if want is None: h.raises(o, TypeError)
    else:
        r = h.returns(o)
        h.post('units', h.eqmap(h.map(r), h.map(x)))
        h.post('numpy result', h.same(h.mag(r), h.asarray(want), dtype=True))
        h.post('memory order', h.mag(r).a.flags.c_contiguous == want.flags.c_contiguous and h.mag(r).a.flags.f_contiguous == want.flags.f_contiguous)
    unchanged(h, s, name='operand unchanged')

@case('C12', funcs=['Quantity.__round__'], given=['none', 'one'], a=['quantity', 'scalarq', 'derived'])
def builtin_round(h, given, a):
    x = h.operand('x', a)
    n = h.opaque('decimals')
    want = h.red('round', h.mag(x), n) if given == 'one' else h.red('round', h.mag(x))
    s = Snap(h, x)
    r = h.returns(h.run(lambda: round(x, n) if given == 'one' else round(x)))
    h.post('units', h.eqmap(h.map(r), h.map(x)) if h.is_quantity(r) else False)
    h.post('numpy result', h.same(h.mag(r), want))
    unchanged(h, s, name='operand unchanged')
