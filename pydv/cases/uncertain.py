"""uncertainties: propagation (C16), units and shape (C17)"""
import operator
import numpy as np
from ..registry import case
from .util import *

EXACT = ['quantity', 'scalarq', 'view', 'derived', 'compound', 'dimensionless', 'constant', 'float', 'int', 'npfloat', 'ndarray', 'list']
OPERANDS = ['uncertain'] + EXACT
PAIRS = [('uncertain', k) for k in OPERANDS] + [(k, 'uncertain') for k in EXACT]
def quadrature(*t):
    """the root of the sum of squares"""
    r = None
    for x in t:
        if x is not None: r = x * x if r is None else r + x * x
    return r.sqrt()
def sigma(h, x): return h.unc(x) if h.unc_obj(x) is not None else None
def times(a, b): return None if a is None else a * b
def uncertain_result(h, r, units, want, unc, dtype=False):
    h.post('an uncertain quantity', h.is_quantity(r) and h.unc_obj(r) is not None)
    h.post('units', h.eqmap(h.map(r), units))
    h.post('magnitudes', h.same(h.mag(r), want))
    h.post('uncertainty in the units of the result', h.eqmap(h.map(h.unc_obj(r)), units))
    h.post('uncertainty has the shape of the result', h.same_shape(h.unc(r), h.mag(r)))
    h.post('uncertainty', h.same(h.unc(r), unc))
    h.post('uncertainty not negative', h.nonnegative(h.unc(r), unc))
def independent(h, r, *ops):
    for x in ops:
        if h.unc_obj(x) is not None:
            h.post('uncertainty not shared with an operand', h.And(h.unc_obj(r) is not h.unc_obj(x), h.Not(h.shares_dims(h.unc_obj(r), h.unc_obj(x)))))

@case('C16', funcs=['UncertainQuantity.__%(op)s__', 'UncertainQuantity.__r%(op)s__', 'UnitQuantity.__%(op)s__', 'UncertainQuantity.relative_uncertainty'],
      op=['mul', 'truediv'], kinds=PAIRS)
def uncertain_product(h, op, kinds):
    a, b = h.operand('a', kinds[0]), h.operand('b', kinds[1], near='a')
    A, B, ma, mb, sa, sb = h.map(a), h.map(b), h.mag(a), h.mag(b), sigma(h, a), sigma(h, b)
    h.conform(ma, mb)
    s, t = Snap(h, a), Snap(h, b)
    f = getattr(operator, op)
    r = h.returns(h.run(lambda: f(a, b)))
    if op == 'mul': uncertain_result(h, r, A + B, ma * mb, quadrature(times(sa, mb), times(sb, ma)))
    else: uncertain_result(h, r, A - B, ma / mb, quadrature(times(sa, 1.0 / mb), times(sb, ma / (mb * mb))))
    unchanged(h, s, t)

@case('C16', funcs=['UncertainQuantity.__%(op)s__', 'UncertainQuantity.__r%(op)s__', 'UnitQuantity.__%(op)s__', 'scale_other_units', '_get_uncertainty'],
      op=['add', 'sub'], kinds=PAIRS)
def uncertain_sum(h, op, kinds):
    a, b = h.operand('a', kinds[0]), h.operand('b', kinds[1], near='a')
    A, B, ma, mb, sa, sb = h.map(a), h.map(b), h.mag(a), h.mag(b), sigma(h, a), sigma(h, b)
    h.conform(ma, mb)
    s, t = Snap(h, a), Snap(h, b)
    f = getattr(operator, op)
    o = h.run(lambda: f(a, b))
    isplain = kinds[0] in PLAIN or kinds[1] in PLAIN
    # numpy compares the units itself where the left operand is one of its scalars
    if kinds[0] == 'npfloat' and o.exc is not None and h.branch(h.Not(h.eqmap(B, h.empty()))): h.raises(o, ValueError)
    elif h.branch(h.compatible(A, B)):
        r = h.returns(o)
        C = h.map(r)
        if isplain: h.post('in the units of an operand', h.Or(h.eqmap(C, A), h.eqmap(C, B)))
        else: h.post('in the units of the left operand', h.eqmap(C, A))
        ka, kb = h.size(A) / h.size(C), h.size(B) / h.size(C)
        want = h.fn('add' if op == 'add' else 'subtract', ma * ka, mb * kb)
        uncertain_result(h, r, C, want, quadrature(times(sa, ka), times(sb, kb), 0 * ma, 0 * mb))
    else: h.raises(o, ValueError)
    unchanged(h, s, t)

@case('C16', funcs=['UncertainQuantity.__pow__'], inplace=[False, True], p=['float', 'int', 'npfloat', 'dimensionless', 'ndarray'],
      only=lambda inplace, p: not inplace or p in ('float', 'int'))
def uncertain_power(h, inplace, p):
    a = h.operand('a', 'uncertain')
    n = h.operand('n', p) if p in ('dimensionless',) else h.array('n', dtype='float', uniform=True) if p == 'ndarray' else h.number('n', p)
    A, ma, sa = h.map(a), h.mag(a), h.unc(a)
    mn = h.mag(n)
    s = Snap(h, a)
    want = h.fn('power', ma, mn if p == 'ndarray' else n if p != 'dimensionless' else 1.0)
    slope = h.fn('power', ma, mn - 1.0)
    unc = abs(mn * slope * sa)
    f = operator.ipow if inplace else operator.pow
    o = h.run(lambda: f(a, n))
    if p == 'ndarray':
        lo, hi = h.red('min', mn), h.red('max', mn)
        if o.exc is not None:
            h.raises(o, ValueError)
            h.post('refused without reason', h.Not(h.equal(lo, hi)))
            return unchanged(h, s)
        k = h.value(lo)
    else: k = h.scalar(n) if p != 'dimensionless' else 1
    r = h.returns(o)
    uncertain_result(h, r, A * k, want, unc)
    if inplace: h.post('the left operand', r is a)
    else: unchanged(h, s)

@case('C16', funcs=['UncertainQuantity.__i%(op)s__', 'Quantity.__i%(op)s__'], op=['add', 'sub', 'mul', 'truediv'], b=OPERANDS)
def uncertain_inplace(h, op, b):
    """the left operand becomes what the operation gives"""
    a, b = h.operand('a', 'uncertain'), h.operand('b', b, near='a')
    A, B, ma, mb, sa, sb = h.map(a), h.map(b), h.mag(a), h.mag(b), sigma(h, a), sigma(h, b)
    h.conform(ma, mb)
    s, t = Snap(h, a), Snap(h, b)
    f = getattr(operator, 'i' + op)
    o = h.run(lambda: f(a, b))
    fits = h.broadcasts(ma, mb)
    if op in ('add', 'sub'):
        if h.branch(h.And(h.compatible(A, B), fits)):
            k = h.size(B) / h.size(A)
            res = A, h.fn('add' if op == 'add' else 'subtract', ma, mb * k), quadrature(sa, times(sb, k), 0 * mb)
        else: res = None
    elif not h.branch(fits): res = None
    elif op == 'mul': res = A + B, ma * mb, quadrature(times(sa, mb), times(sb, ma))
    else: res = A - B, ma / mb, quadrature(times(sa, 1.0 / mb), times(sb, ma / (mb * mb)))
    if res is None:
        h.raises(o, ValueError)
        unchanged(h, s, name='left operand unchanged when refused')
    else:
        r = h.returns(o)
        h.post('the left operand', r is a)
        uncertain_result(h, r, *res)
        if h.unc_obj(b) is not None: h.post('uncertainty not shared', h.unc_obj(a) is not h.unc_obj(b))
    unchanged(h, t, name='right operand unchanged')

@case('C16', funcs=['UncertainQuantity.__%(op)s__'], op=['neg', 'pos', 'abs'])
def uncertain_unary(h, op):
    a = h.operand('a', 'uncertain')
    ma, sa, s = h.mag(a), h.unc(a), Snap(h, a)
    r = h.returns(h.run({'neg': lambda: -a, 'pos': lambda: +a, 'abs': lambda: abs(a)}[op]))
    uncertain_result(h, r, h.map(a), {'neg': lambda: -ma, 'pos': lambda: ma, 'abs': lambda: abs(ma)}[op](), sa)
    unchanged(h, s)

@case('C16', funcs=['UncertainQuantity.sqrt'])
def uncertain_sqrt(h):
    a = h.uncertain('a', positive=True)
    A, ma, sa, s = h.map(a), h.mag(a), h.unc(a), Snap(h, a)
    r = h.returns(h.run(lambda: a.sqrt()))
    uncertain_result(h, r, A * 0.5, ma.sqrt(), sa * h.fn('power', ma, -0.5) * 0.5)
    unchanged(h, s)

@case('C16', funcs=['UncertainQuantity.%(name)s'], name=['sum', 'mean', 'nansum', 'nanmean'], given=['none', 'axis', 'all', 'positional'])
def uncertain_reduction(h, name, given):
    nan = name.startswith('nan')
    a = h.uncertain('a', nan=nan)
    A, ma, sa, s = h.map(a), h.mag(a), h.unc(a), Snap(h, a)
    kw = {} if given == 'none' else {'axis': h.axis(a)}
    if given in ('all', 'positional'): kw['dtype'] = 'd'
    args = list(kw.values()) if given == 'positional' else []
    axis = kw.get('axis')
    # elements that are not a number do not count
    squares = h.zero_where_nan(ma, sa * sa) if nan else sa * sa
    want, total = h.red(name, ma, **kw), h.red('nansum' if nan else 'sum', squares, axis=axis).sqrt()
    if name == 'mean': total = total / h.count(a, axis)
    if name == 'nanmean': total = total / h.red('sum', h.numbers(ma), axis=axis)
    r = h.returns(h.run(lambda: getattr(a, name)(*args) if args else getattr(a, name)(**kw)))
    uncertain_result(h, r, A, want, total)
    unchanged(h, s)

# ------------------------------------------------------------------ units and shape (C17)
def describes(h, r, units, want, unc, like=None):
    """the result is the uncertain quantity with these values, and owns its units"""
    h.post('an uncertain quantity', h.is_quantity(r) and h.unc_obj(r) is not None)
    h.post('units', h.eqmap(h.map(r), units))
    h.post('magnitudes', h.same(h.mag(r), want))
    u = h.unc_obj(r)
    h.post('the uncertainty is a quantity in the units of the data', h.eqmap(h.map(u), units) if h.is_quantity(u) else False)
    h.post('the uncertainty has the shape of the data', h.same_shape(h.unc(r), h.mag(r)))
    h.post('uncertainty', h.same(h.unc(r), unc))

GIVEN = ['none', 'quantity', 'scalarq', 'ndarray', 'float', 'list', 'derived', 'uncertain']
@case('C17', funcs=['UncertainQuantity.__new__', 'UncertainQuantity.uncertainty', 'Quantity.__new__'],
      data=['ndarray', 'list', 'float', 'quantity', 'scalarq', 'derived', 'uncertain'], units=['none', 'derived', 'dims'], given=GIVEN)
def construct_uncertain(h, data, units, given):
    d = h.operand('d', data)
    u = None if units == 'none' else h.unit('u', near=d) if units == 'derived' else h.dims_of(h.unit_quantity('u', near=d))
    s = None if given == 'none' else h.operand('s', given, near=d)
    D, md, sd = h.map(d), h.mag(d), sigma(h, d)
    U = D if units == 'none' else h.map(u)
    S, ms = (None, None) if s is None else (h.map(s), h.mag(s))
    if data not in PLAIN: h.representable(d, h.size(D) / h.size(U))
    if s is not None and given not in PLAIN: h.representable(s, h.size(S) / h.size(U))
    snaps = [Snap(h, x) for x in (d, u, s) if x is not None]
    new = h.q.UncertainQuantity
    args = (d,) if u is None else (d, u)
    o = h.run(lambda: new(*args) if s is None else new(*args, uncertainty=s))
    plain = data in PLAIN
    if not plain and not h.branch(h.compatible(D, U)): h.raises(o, ValueError)
    else:
        k = 1.0 if plain else h.size(D) / h.size(U)
        want = md * k
        if s is None: unc = 0 * md if sd is None else sd * k
        else:
            sized = given in PLAIN
            ok = h.And(h.same_shape(ms, md), True if sized else h.compatible(S, U))
            if not h.branch(ok): h.raises(o, ValueError)
            unc = ms if sized else ms * (h.size(S) / h.size(U))
            if o.exc is not None: return unchanged(h, *snaps)
        r = h.returns(o)
        describes(h, r, U, want, unc)
        h.post('shares no units with the arguments', h.And(*[h.Not(h.shares_dims(x, y)) for x in (r, h.unc_obj(r)) for y in (d, u, s) if y is not None]))
    unchanged(h, *snaps)

@case('C17', funcs=['UncertainQuantity.uncertainty'], given=GIVEN[1:])
def assign_uncertainty(h, given):
    a = h.operand('a', 'uncertain')
    s = h.operand('s', given, near=a)
    A, ma, sa, S, ms = h.map(a), h.mag(a), h.unc(a), h.map(s), h.mag(s)
    h.representable(s, h.size(S) / h.size(A))
    sn, t = Snap(h, a), Snap(h, s)
    def f(): a.uncertainty = s
    o = h.run(f)
    if h.branch(h.And(h.same_shape(ms, ma), h.compatible(S, A))):
        h.returns(o)
        describes(h, a, A, ma, ms * (h.size(S) / h.size(A)))
        h.post('not the given object', h.unc_obj(a) is not s)
        h.post('shares no units or data with the given object', h.And(h.Not(h.shares_dims(h.unc_obj(a), s)), h.Not(h.shares(h.unc_obj(a), s))))
    else:
        h.raises(o, ValueError)
        unchanged(h, sn, name='unchanged when refused')
    unchanged(h, t, name='given uncertainty unchanged')

@case('C17', funcs=['UncertainQuantity.rescale', 'UncertainQuantity.units', 'Quantity.rescale'], how=['rescale', 'assign'], to=['derived', 'base', 'compound', 'dimensionless', 'unitq', 'dims', 'string'], dtype=['none', 'd'],
      only=lambda how, to, dtype: how == 'rescale' or dtype == 'none')
def convert_uncertain(h, how, to, dtype):
    a = h.operand('a', 'uncertain')
    t = h.unit('t', to, near=a) if to in UNITS else h.unit_quantity('t', near=a)
    T = h.map(t)
    if to == 'dims': t = h.dims_of(t)
    if to == 'string': t = h.unit_string(t)
    A, ma, sa, s = h.map(a), h.mag(a), h.unc(a), Snap(h, a)
    def f():
        if how == 'rescale': return a.rescale(t) if dtype == 'none' else a.rescale(t, dtype)
        a.units = t
    o = h.run(f)
    if h.branch(h.compatible(A, T)):
        r = h.returns(o)
        if how == 'assign': r = a
        k = h.size(A) / h.size(T)
        describes(h, r, T, ma * k, sa * k)
        if how == 'rescale': unchanged(h, s)
    else:
        h.raises(o, ValueError)
        unchanged(h, s)

@case('C17', funcs=['UncertainQuantity.rescale', 'Quantity.rescale_preferred'], n=[0, 2], symbolic=False)
def convert_preferred(h, n):
    a = h.operand('a', 'uncertain')
    ps = [h.unit('p%d' % i, near=a) for i in range(n)]
    A, ma, sa, s = h.map(a), h.mag(a), h.unc(a), Snap(h, a)
    with h.preferred(ps): o = h.run(lambda: a.rescale())
    ps = [p for p in ps if h.compatible(h.map(p), A)]
    if not ps: h.raises(o, Exception)
    else:
        k = h.size(A) / h.size(h.map(ps[0]))
        describes(h, h.returns(o), h.map(ps[0]), ma * k, sa * k)
    unchanged(h, s)

@case('C17', funcs=['UncertainQuantity.simplified', 'UncertainQuantity._reference'], how=['simplified', '_reference'])
def simplify_uncertain(h, how):
    a = h.operand('a', 'uncertain')
    A, ma, sa = h.map(a), h.mag(a), h.unc(a)
    with h.any_defaults():
        s = Snap(h, a)
        r = h.returns(h.run(lambda: getattr(a, how)))
        if how == 'simplified': describes(h, r, h.dbase(A), ma * h.dsize(A), sa * h.dsize(A))
        else: describes(h, r, h.base(A), ma * h.size(A), sa * h.size(A))
        unchanged(h, s)

@case('C17', funcs=['UncertainQuantity.astype'], dtype=['d', 'f', 'l'])
def astype_uncertain(h, dtype):
    a = h.operand('a', 'uncertain')
    A, ma, sa, s = h.map(a), h.mag(a), h.unc(a), Snap(h, a)
    want, unc = h.astype(ma, dtype), h.astype(sa, dtype)
    r = h.returns(h.run(lambda: a.astype(dtype)))
    describes(h, r, A, want, unc)
    h.post('dtype', h.same(h.mag(r), want, dtype=True))
    h.post('dtype of the uncertainty', h.same(h.unc(r), unc, dtype=True))
    unchanged(h, s)

@case('C17', funcs=['UncertainQuantity.copy', 'UncertainQuantity.__copy__'], how=['method', 'copy', 'positional'])
def copy_uncertain(h, how):
    a = h.operand('a', 'uncertain')
    A, ma, sa, s = h.map(a), h.mag(a), h.unc(a), Snap(h, a)
    r = h.returns(h.run({'method': lambda: a.copy(), 'copy': lambda: a.__copy__(), 'positional': lambda: a.copy('K')}[how]))
    describes(h, r, A, ma, sa)
    h.post('no data shared', h.Not(h.Or(h.shares(r, a), h.shares(h.unc_obj(r), h.unc_obj(a)))))
    h.post('no units shared', h.Not(h.Or(h.shares_dims(r, a), h.shares_dims(h.unc_obj(r), h.unc_obj(a)))))
    unchanged(h, s)

@case('C17', funcs=['UncertainQuantity.__getitem__'], i=['basic', 'intarray', 'mask'])
def index_uncertain(h, i):
    a = h.operand('a', 'uncertain')
    k = h.index() if i == 'basic' else h.index_array(a, i)
    A, ma, sa, s = h.map(a), h.mag(a), h.unc(a), Snap(h, a)
    want, unc = h.attempt(lambda: h.getitem(ma, k)), h.attempt(lambda: h.getitem(sa, k))
    o = h.run(lambda: a[k])
    if want is None: h.raises(o, (IndexError, ValueError))
    else: describes(h, h.returns(o), A, want, unc)
    unchanged(h, s)

@case('C17', funcs=['UncertainQuantity.%(name)s', 'UncertainQuantity._take_at'], name=['max', 'min', 'nanmax', 'nanmin'], given=['none', 'axis', 'positional'])
def extreme_uncertain(h, name, given):
    """the extreme element with its own uncertainty"""
    a = h.uncertain('a', distinct=True)
    kw = {} if given == 'none' else {'axis': h.axis(a)}
    A, ma, sa, s = h.map(a), h.mag(a), h.unc(a), Snap(h, a)
    want = h.red(name, ma, **kw)
    unc = h.at(sa, h.red({'max': 'argmax', 'min': 'argmin', 'nanmax': 'nanargmax', 'nanmin': 'nanargmin'}[name], ma, **kw), kw.get('axis'))
    val = h.at(ma, h.red({'max': 'argmax', 'min': 'argmin', 'nanmax': 'nanargmax', 'nanmin': 'nanargmin'}[name], ma, **kw), kw.get('axis'))
    r = h.returns(h.run(lambda: getattr(a, name)(*kw.values()) if given == 'positional' else getattr(a, name)(**kw)))
    describes(h, r, A, val, unc)
    h.extreme(h.mag(r), want)
    unchanged(h, s)

@case('C17', funcs=['UncertainQuantity.%(name)s'], name=['argmax', 'argmin', 'nanargmax', 'nanargmin'], given=['none', 'axis', 'out', 'axis out'])
def index_of_extreme(h, name, given):
    a = h.operand('a', 'uncertain')
    kw = {'axis': h.axis(a)} if 'axis' in given else {}
    ma, s = h.mag(a), Snap(h, a)
    want = h.red(name, ma, **kw)
    out = h.plain_like('out', want) if 'out' in given else None
    r = h.returns(h.run(lambda: getattr(a, name)(**kw) if out is None else getattr(a, name)(out=out, **kw)))
    if out is not None: h.post('the output is returned', r is out)
    h.post('plain indices', not h.is_quantity(r))
    h.post('numpy result', h.same(h.mag(r), want))
    unchanged(h, s)

@case('C17', funcs=['UncertainQuantity.relative_uncertainty'])
def relative(h):
    a = h.operand('a', 'uncertain')
    ma, sa, s = h.mag(a), h.unc(a), Snap(h, a)
    t = h.unit_quantity('t', near=a)
    r = h.returns(h.run(lambda: a.relative_uncertainty))
    h.post('uncertainty over magnitude', h.same(h.mag(r), sa / ma))
    h.post('a plain number', not h.is_quantity(r))
    h.assume(h.compatible(h.map(a), h.map(t)))
    o = h.returns(h.run(lambda: a.rescale(t)))
    v = h.returns(h.run(lambda: o.relative_uncertainty))
    h.post('independent of the units', h.same(h.mag(v), sa / ma))
    unchanged(h, s)
