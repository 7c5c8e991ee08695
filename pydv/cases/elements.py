"""reading and writing elements (C13)"""
import numpy as np
from ..registry import case
from .util import *

INDEX = ['basic', 'intarray', 'mask']
def index(h, kind, x):
    return h.index() if kind == 'basic' else h.index_array(x, kind)

@case('C13 C14', funcs=['Quantity.__getitem__'], a=['quantity', 'view', 'scalarq'], i=INDEX, only=lambda a, i: a != 'scalarq' or i == 'basic')
def getitem(h, a, i):
    x = h.operand('x', a)
    k = index(h, i, x)
    X = h.map(x)
    want = h.attempt(lambda: h.getitem(h.mag(x), k))
    s = Snap(h, x)
    o = h.run(lambda: x[k])
    if want is None: h.raises(o, (IndexError, ValueError))
    else:
        r = h.returns(o)
        h.post('a quantity with the units of the whole', h.eqmap(h.map(r), X) if h.is_quantity(r) and not h.is_unit(r) else False)
        h.post('the elements of the array', h.same(h.mag(r), want, dtype=True))
        h.post('units not shared', h.Not(h.shares_dims(r, x)))
    unchanged(h, s, name='array unchanged')

@case('C13', a=['quantity', 'view', 'uncertain'], symbolic=False)
def iteration(h, a):
    x = h.operand('x', a, **({} if a == 'uncertain' else {'ndim': h.r.choice([1, 2])}))
    if np.ndim(x) == 0: return h.raises(h.run(lambda: list(x)), TypeError)
    s = Snap(h, x)
    l = h.returns(h.run(lambda: list(x)))
    h.post('as many as elements', len(l) == len(x))
    for i, r in enumerate(l):
        h.post('a quantity with the units of the whole', h.is_quantity(r) and h.eqmap(h.map(r), h.map(x)))
        h.post('the element', h.same(h.mag(r), h.getitem(h.mag(x), i), dtype=True))
    for i, r in enumerate(h.returns(h.run(lambda: list(reversed(x))))):
        h.post('reversed', h.same(h.mag(r), h.getitem(h.mag(x), -1 - i)) and h.eqmap(h.map(r), h.map(x)))
    unchanged(h, s, name='array unchanged')

@case('C13', funcs=['Quantity.tolist', 'Quantity._tolist'], a=['quantity', 'view'], symbolic=False)
def tolist(h, a):
    x = h.operand('x', a)
    s = Snap(h, x)
    r = h.returns(h.run(lambda: x.tolist()))
    def walk(r, m):
        if m.ndim == 0:
            h.post('a scalar quantity with those units', h.is_quantity(r) and np.shape(r) == () and h.eqmap(h.map(r), h.map(x)))
            h.post('the element', h.same(h.mag(r), m))
        else:
            h.post('nested like the array', type(r) is list and len(r) == len(m))
            for y, n in zip(r, m): walk(y, n)
    walk(r, np.array(x.magnitude))
    unchanged(h, s, name='array unchanged')

@case('C13', funcs=['Quantity.tolist'], a=['scalarq', 'derived', 'base', 'compound'])
def tolist_scalar(h, a):
    x = h.operand('x', a)
    s = Snap(h, x)
    r = h.returns(h.run(lambda: x.tolist()))
    h.post('a scalar quantity with those units', h.eqmap(h.map(r), h.map(x)) if h.is_quantity(r) else False)
    h.post('the value', h.same(h.mag(r), h.mag(x)))
    unchanged(h, s, name='unit unchanged')

VALUES = ['quantity', 'scalarq', 'derived', 'dimensionless', 'compound', 'float', 'int', 'ndarray', 'list']
def store(h, x, v, f, g, partial=False):
    """f() stores the value v into x; g(m, w) does so on plain numbers"""
    X, V, mx = h.map(x), h.map(v), h.mag(x)
    h.representable(v, h.size(V) / h.size(X))
    sx, sv = Snap(h, x), Snap(h, v)
    if h.branch(h.compatible(X, V)):
        w = h.mag(v)
        if not h.branch(h.eqmap(X, V)): w = w * (h.size(V) / h.size(X))
        want = h.attempt(lambda: g(mx, w))
        o = h.run(f)
        if want is None:
            h.raises(o, (IndexError, ValueError, TypeError))
            if not partial: unchanged(h, sx, name='array unchanged')  # numpy's put writes the elements before the bad index
        else:
            h.returns(o)
            h.post('stores the converted value', h.same(h.mag(x), want, dtype=True))
            h.post('units of the array', h.eqmap(h.map(x), X))
    else:
        h.raises(h.run(f), ValueError)
        unchanged(h, sx, name='array unchanged')
    unchanged(h, sv, name='stored value unchanged')

@case('C13', funcs=['Quantity.__setitem__'], a=['quantity', 'view'], v=VALUES, i=INDEX, only=lambda a, v, i: i == 'basic' or (a == 'quantity' and v in ('quantity', 'scalarq', 'derived', 'float')))
def setitem(h, a, v, i):
    x = h.operand('x', a)
    k = index(h, i, x)
    y = h.operand('y', v, near=x)
    def f(): x[k] = y
    store(h, x, y, f, lambda m, w: h.setitem(m, k, w))

@case('C13', funcs=['Quantity.put'], a=['quantity', 'view'], v=VALUES, mode=['raise', 'wrap', 'clip', 'default'], only=lambda a, v, mode: mode == 'default' or (a == 'quantity' and v == 'quantity'))
def put(h, a, v, mode):
    x = h.operand('x', a)
    k = h.indices(x, mode)
    y = h.operand('y', v, near=x)
    def f():
        if mode == 'default': x.put(k, y)
        else: x.put(k, y, mode)
    store(h, x, y, f, lambda m, w: h.put(m, k, w, 'raise' if mode == 'default' else mode), partial=True)

@case('C13', funcs=['Quantity.__setitem__'], v=['quantity', 'float'])
def setitem_readonly(h, v):
    x = h.operand('x', 'quantity', frozen=True)
    y = h.operand('y', v, **({'dims': h.map(x), 'scalar': True} if v == 'quantity' else {}))
    s = Snap(h, x)
    def f(): x[...] = y
    h.raises(h.run(f), ValueError)
    unchanged(h, s, name='array unchanged')

@case('C13', funcs=['Quantity.searchsorted'], v=['quantity', 'scalarq', 'float', 'derived', 'list'], side=['left', 'right', 'default'])
def searchsorted(h, v, side):
    x = h.sorted_quantity('x')
    y = h.operand('y', v, near=x)
    X, Y = h.map(x), h.map(y)
    want = h.red('searchsorted', h.mag(x), h.mag(y), *([] if side == 'default' else [side]))
    sx, sy = Snap(h, x), Snap(h, y)
    o = h.run(lambda: x.searchsorted(y) if side == 'default' else x.searchsorted(y, side))
    if h.branch(h.eqmap(X, Y)):
        r = h.returns(o)
        h.post('plain indices', not h.is_quantity(r))
        h.post('numpy result', h.same(h.mag(r), want))
    else: h.raises(o, ValueError)
    unchanged(h, sx, sy)

@case('C13', funcs=['Quantity.fill'], a=['quantity'], v=['scalarq', 'derived', 'float', 'int'])
def fill(h, a, v):
    """fill replaces all the values: the array takes over the units of the value"""
    x = h.operand('x', a, dtype='float')
    y = h.operand('y', v)
    X, sy = h.map(x), Snap(h, y)
    h.returns(h.run(lambda: x.fill(y)))
    h.post('all the value', h.same(h.mag(x), h.cast(h.fn('add', h.fn('multiply', h.mag(x), 0), h.mag(y)), h.mag(x))))
    h.post('units', h.eqmap(h.map(x), h.map(y) if h.is_quantity(y) else X))
    if h.is_quantity(y): h.post('units not shared', h.Not(h.shares_dims(x, y)))
    unchanged(h, sy, name='stored value unchanged')

@case('C13', funcs=['Quantity.real', 'Quantity.imag'], part=['real', 'imag'], a=['quantity', 'view'], symbolic=False)
def complex_part(h, part, a):
    """reading the parts of a complex quantity keeps its units; assigning them converts"""
    x = h.complex_quantity('x', a)
    s = Snap(h, x)
    r = h.returns(h.run(lambda: getattr(x, part)))
    h.post('units of the whole', h.is_quantity(r) and h.eqmap(h.map(r), h.map(x)))
    h.post('the part', h.same(h.mag(r), np.array(getattr(np.array(x.magnitude), part))))
    unchanged(h, s, name='array unchanged')
    v = h.operand('v', h.r.choice(['quantity', 'scalarq']), near=x, dtype='float')
    if h.size(h.map(v)) / h.size(h.map(x)) > 1e100: return
    def f(): setattr(x, part, v)
    o = h.run(f)
    other = np.array(getattr(np.array(s.mag.a), 'imag' if part == 'real' else 'real'))
    if h.compatible(h.map(v), h.map(x)):
        h.assume(h.broadcasts(h.mag(x), h.mag(v)))
        h.returns(o)
        w = h.fn('add', h.mag(v) * (h.size(h.map(v)) / h.size(h.map(x))), np.zeros(x.shape))
        h.post('converted', h.same(h.mag(np.array(getattr(np.array(x.magnitude), part))), w))
        h.post('other part kept', h.same(h.mag(np.array(getattr(np.array(x.magnitude), 'imag' if part == 'real' else 'real'))), other))
        h.post('units kept', h.eqmap(h.map(x), s.map))
    else:
        h.raises(o, ValueError)
        unchanged(h, s, name='array unchanged')
