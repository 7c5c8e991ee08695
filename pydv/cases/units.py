"""units are immutable and registered names are never rebound (C08)"""
import operator, copy, math
import numpy as np
from ..registry import case
from .util import *

class UnitSnap:
    def __init__(self, h, u): self.h, self.u, self.st, self.map = h, u, h.unit_state(u), h.map(u)
    def same(self): return self.h.And(self.h.same_unit_state(self.h.unit_state(self.u), self.st, True), self.h.eqmap(self.h.map(self.u), self.map))
def immutable(h, *snaps): h.post('the unit is unchanged', h.And(*[s.same() for s in snaps]))

INPLACE = ['iadd', 'isub', 'imul', 'itruediv', 'ifloordiv', 'imod', 'ipow']
OTHER = ['float', 'int', 'npfloat', 'ndarray', 'quantity', 'scalarq', 'derived', 'dimensionless', 'uncertain']
@case('C08', funcs=['UnitQuantity.__%s__' % o for o in INPLACE] + ['UnitQuantity.__new__'], op=INPLACE, kind=UNITS, other=OTHER)
def in_place_refused(h, op, kind, other):
    u = h.unit('u', kind)
    x = h.operand('x', other, near=u) if other in QUANT + UNITS else h.operand('x', other)
    s, t = UnitSnap(h, u), Snap(h, x) if other in QUANT + UNITS + ['uncertain'] else None
    f = getattr(operator, op)
    h.raises(h.run(lambda: f(u, x)), Exception, 'refused')
    immutable(h, s)
    if t is not None: unchanged(h, t)

WRITES = {
    'setitem': lambda u, x: u.__setitem__((), x),
    'setslice': lambda u, x: u.__setitem__(Ellipsis, x),
    'fill': lambda u, x: u.fill(x),
    'put': lambda u, x: u.put(0, x),
    'itemsetlike': lambda u, x: u.magnitude.__setitem__((), 2.0),
    'magnitude': lambda u, x: u.magnitude.fill(2.0),
    'out': lambda u, x: np.add(u, u, u),
    'outmul': lambda u, x: np.multiply(u, 2.0, out=u),
    'outsqrt': lambda u, x: np.sqrt(x, out=u),
    'sumout': lambda u, x: x.sum(out=u),
    'clipout': lambda u, x: u.clip(2 * u, 3 * u, out=u),
    'units': lambda u, x: setattr(u, 'units', x.units),
    'unitsname': lambda u, x: setattr(u, 'units', 'm'),
    'dimensionality': lambda u, x: setattr(u, 'dimensionality', x.dimensionality),
    'name': lambda u, x: setattr(u, 'name', 'other'),
    'symbol': lambda u, x: setattr(u, 'symbol', 'o'),
    'u_symbol': lambda u, x: setattr(u, 'u_symbol', 'o'),
    'definition': lambda u, x: setattr(u, 'definition', x),
    'sort': lambda u, x: u.sort(),
    'real': lambda u, x: setattr(u, 'real', 2 * u),
    'definition_write': lambda u, x: u.definition.__imul__(2.0),
    'definition_item': lambda u, x: u.definition.__setitem__((), 5 * u),
    'definition_units': lambda u, x: setattr(u.definition, 'units', x.units),
    'definition_add': lambda u, x: u.definition.__iadd__(u),
}
# a write through these may do nothing or succeed on an object of its own
MAYPASS = ('definition_units', 'definition_write', 'sort', 'definition_add')
@case('C08', funcs=['UnitQuantity.units', 'UnitQuantity.__new__', 'Quantity.__setitem__', 'UnitQuantity.definition'], kind=UNITS, how=list(WRITES))
def write_refused(h, kind, how):
    u = h.unit('u', kind)
    x = h.unit_quantity('x', near=u) if 'units' in how else h.quantity('x', near=u, scalar=True)
    s, t = UnitSnap(h, u), Snap(h, x)
    f = WRITES[how]
    o = h.run(lambda: f(u, x))
    if how not in MAYPASS: h.raises(o, Exception, 'refused')
    immutable(h, s)
    if how not in ('outsqrt',): unchanged(h, t)

EXPR = {
    'mul': lambda u, x: u * x, 'rmul': lambda u, x: x * u, 'div': lambda u, x: u / x, 'rdiv': lambda u, x: x / u, 'add': lambda u, x: u + x, 'radd': lambda u, x: x + u,
    'sub': lambda u, x: u - x, 'rsub': lambda u, x: x - u, 'mod': lambda u, x: u % x, 'pow': lambda u, x: u ** 2, 'sqrt': lambda u, x: u ** 0.5, 'neg': lambda u, x: -u, 'pos': lambda u, x: +u, 'abs': lambda u, x: abs(u),
    'numpow': lambda u, x: u ** 0, 'npmul': lambda u, x: np.multiply(u, x), 'npadd': lambda u, x: np.add(u, x), 'npsqrt': lambda u, x: np.sqrt(u), 'npneg': lambda u, x: np.negative(u),
    'rescale': lambda u, x: u.rescale(x.units), 'rescale_self': lambda u, x: u.rescale(u), 'simplified': lambda u, x: u.simplified, 'units': lambda u, x: x.units * u.units, 'definition': lambda u, x: 1.0 * u.definition,
    'magnitude': lambda u, x: u.magnitude, 'dimensionality': lambda u, x: u.dimensionality, 'item': lambda u, x: u[()], 'copy': lambda u, x: u.copy() * 2, 'view': lambda u, x: u.view(type(x)), 'sum': lambda u, x: u.sum(),
    'mean': lambda u, x: u.mean(), 'max': lambda u, x: u.max(), 'round': lambda u, x: u.round(), 'clip': lambda u, x: u.clip(x, x), 'astype': lambda u, x: u.astype('f'), 'reshape': lambda u, x: u.reshape(1), 'flatten': lambda u, x: u.flatten(),
    'T': lambda u, x: u.T, 'real': lambda u, x: u.real, 'eq': lambda u, x: u == x, 'lt': lambda u, x: u < x, 'hash': lambda u, x: {u: 1}, 'refl': lambda u, x: u.dimensionality * x.dimensionality,
    'dless': lambda u, x: u.dimensionless_magnitude if False else u.dimensionality.simplified, 'quantity': lambda u, x: type(x)(u), 'quantityfrom': lambda u, x: type(x)(x, u), 'quantityof': lambda u, x: type(x)(2.0, u),
    'deepcopy': lambda u, x: copy.deepcopy(u), 'str': lambda u, x: str(u), 'repr': lambda u, x: repr(u), 'reference': lambda u, x: u._reference, 'ravel': lambda u, x: u.ravel(),
}
@case('C08', funcs=['UnitQuantity.' + n for n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mod__', '__rmod__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__pow__', 'simplified', 'definition', 'units', 'dimensionality')],
      kind=UNITS, how=list(EXPR), other=['quantity', 'scalarq'])
def use_in_expression(h, kind, how, other):
    """the unit is unchanged by the expression and by whatever is done in place to the result"""
    u = h.unit('u', kind)
    x = h.operand('x', other, near=u)
    s = UnitSnap(h, u)
    f = EXPR[how]
    o = h.run(lambda: f(u, x))
    immutable(h, s)
    r = o.value
    if o.exc is None and how not in ('hash', 'str', 'repr', 'reference'):
        e = h.dims('e')
        def spoil():
            if how in ('dimensionality', 'refl', 'dless'):
                w = r
                w *= e
            else:
                try:
                    w = r
                    w *= 2.0
                except Exception: pass
                try: r[...] = 3.0 * r
                except Exception: pass
                try: r.units = x.units
                except Exception: pass
        h.run(spoil)
        h.post('the unit is unchanged by what happens to the result', s.same())

@case('C08', funcs=['UnitQuantity.__new__', 'UnitQuantity.definition'], kind=['scalarq', 'derived', 'float', 'ndarray0', 'view'])
def definition_is_its_own(h, kind):
    """a unit does not change with the quantity it was defined by"""
    d = h.array('d', dtype='float', scalar=True, positive=True) if kind == 'ndarray0' else h.unit('d', 'derived') if kind == 'derived' else h.number('d', 'float', positive=True) if kind == 'float' else h.quantity('d', scalar=True, dtype='float', positive=True)
    D, md = h.map(d), h.mag(d)
    sd = Snap(h, d)
    name = h.new_name('u')
    # the caller's own handle on the same numbers
    w0 = h.returns(h.run(lambda: d.view())) if kind == 'view' else d
    C = h.q.unitquantity.UnitQuantity
    u = h.returns(h.run(lambda: C(name, d, symbol=name + 's')))
    unchanged(h, sd)
    s = UnitSnap(h, u)
    def spoil():
        w = w0
        w *= 2.0
    o = h.run(spoil)
    if kind in ('scalarq', 'ndarray0', 'view'): h.post('what the unit was defined by can still be changed', o.exc is None)
    immutable(h, s)
    df = h.returns(h.run(lambda: u.definition))
    h.post('its definition', h.And(h.eqmap(h.map(df), D), h.same(h.mag(df), md)))
    c = h.returns(h.run(lambda: (1.0 * u).simplified))
    h.post('its size', h.same(h.mag(c), md * h.dsize(D)))

# ------------------------------------------------------------------ the registry
@case('C08', funcs=['UnitRegistry.__Registry.__setitem__', 'UnitRegistry.__setitem__'], name=['new', 'taken', 'own', 'twice'], kind=['derived', 'base', 'constant'], near=[True, False], only=lambda name, kind, near: (name, kind) != ('own', 'constant'))
def register_name(h, name, kind, near):
    w = h.unit('w', 'derived')
    v = h.unit('v', kind, near=w if near else None)
    n = h.new_text('n') if name in ('new', 'twice') else h.some_name(w) if name == 'taken' else h.some_name(v)
    reg = h.q.unit_registry
    owner = w if name == 'taken' else v
    sw, sv = UnitSnap(h, w), UnitSnap(h, v)
    def put(x):
        def f(): reg[n] = x
        return h.run(f)
    if name in ('new', 'twice'):
        h.returns(put(v))
        h.post('the name denotes the unit', h.denotes(n, v))
        if name == 'twice':
            o = put(w)
            if h.branch(h.equal_units(v, w)): h.returns(o)
            else: h.raises(o, KeyError)
            h.post('the name still denotes the unit', h.denotes(n, v))
    else:
        o = put(v)
        if h.branch(h.equal_units(v, owner)): h.returns(o)
        else: h.raises(o, KeyError)
        h.post('the name still denotes the unit', h.denotes(n, owner))
    immutable(h, sw, sv)

@case('C08', funcs=['UnitQuantity.__init__', 'UnitQuantity.__new__', 'UnitRegistry.__Registry.__setitem__'], which=['name', 'symbol', 'alias'], cls=['UnitQuantity', 'UnitLength'])
def new_unit_with_taken_name(h, which, cls):
    """a unit with a name, symbol or alias that denotes another unit already is refused, and the old meaning stays"""
    w = h.unit('w', 'derived')
    d = h.quantity('d', near=w, scalar=True, dtype='float', positive=True)
    n, m, a = h.new_text('n'), h.new_text('m'), h.new_text('a')
    taken = h.some_name(w)
    s = UnitSnap(h, w)
    C = getattr(h.q.unitquantity, cls)
    if which == 'name': f = lambda: C(taken, d)
    elif which == 'symbol': f = lambda: C(n, d, symbol=taken)
    else: f = lambda: C(n, d, symbol=m, aliases=[a, taken])
    k = h.size(h.map(d)) * h.scalar(h.mag(d))
    eq = h.And(h.compatible(h.map(d), h.map(w)), h.eqsize(k, h.size(h.map(w))))
    o = h.run(f)
    if h.branch(eq): h.returns(o)
    else: h.raises(o, KeyError)
    h.post('the name still denotes the old unit', h.denotes(taken, w))
    immutable(h, s)

@case('C08', funcs=['UnitQuantity.__init__', 'UnitQuantity.__new__', 'UnitRegistry.__Registry.__setitem__'], cls=['UnitQuantity', 'UnitLength', 'UnitConstant'], definition=['none', 'quantity'])
def new_unit_names(h, cls, definition):
    """a new unit is what its name, symbol and aliases denote"""
    d = None if definition == 'none' else h.quantity('d', scalar=True, dtype='float', positive=True)
    n, m, a, b = h.new_text('n'), h.new_text('m'), h.new_text('a'), h.new_text('b')
    C = getattr(h.q.unitquantity, cls)
    u = h.returns(h.run(lambda: C(n, d, symbol=m, u_symbol=b, aliases=[a])))
    h.post('its name', h.And(h.is_text(h.returns(h.run(lambda: u.name)), n), h.is_text(h.returns(h.run(lambda: u.symbol)), m, n), h.is_text(h.returns(h.run(lambda: u.u_symbol)), b, m, n)))
    for x in (n, m, a):
        if cls == 'UnitConstant': h.post('a constant is not registered', h.unregistered(x))
        else: h.post('denotes the unit', h.Or(h.denotes(x, u), h.no_text(x)))
    h.post('u_symbol is not registered', h.unregistered(b))
    h.raises(h.run(lambda: u.__imul__(2)), Exception)

@case('C08', funcs='UnitQuantity.__hash__', skip=["UnitQuantity.__hash__"] * 2, core=True, kind=UNITS)
def unit_hash(h, kind):
    """a unit's hash depends on its class and name only"""
    u = h.unit('u', kind)
    v = h.like_unit(u)
    h.post('equal hashes', h.iff(h.returns(h.run(lambda: hash(u) == hash(v))), True))

@case('C08', funcs='UnitQuantity.__hash__', skip=["UnitQuantity.__hash__"] * 2, core=True, kind=['derived', 'base', 'compound', 'constant'], other=['derived', 'base', 'compound', 'constant'], only=lambda kind, other: (kind, other) != ('constant', 'constant'))
def unit_hash_differs(h, kind, other):
    u, v = h.unit('u', kind), h.unit('v', other)
    h.assume(h.different(u, v))
    h.post('different hashes', h.iff(h.returns(h.run(lambda: hash(u) == hash(v))), False))

@case('C08', funcs=['UnitQuantity.__hash__', 'Dimensionality'], kind=['derived', 'base', 'compound', 'constant'], other=['derived', 'base', 'constant'], only=lambda kind, other: (kind, other) != ('constant', 'constant'))
def different_keys(h, kind, other):
    """units of different name are different keys, also when they are of the same size"""
    u = h.unit('u', kind)
    v = h.unit('v', other, near=u)
    h.assume(h.different(u, v))
    r = h.returns(h.run(lambda: (u * v).dimensionality))
    h.post('two entries', h.eqmap(h.map(r), h.map(u) + h.map(v)))
    q = h.returns(h.run(lambda: (u / v).dimensionality))
    h.post('they do not cancel', h.eqmap(h.map(q), h.map(u) - h.map(v)))
