"""simplification and default units (C05)"""
import operator
import numpy as np
from ..registry import case
from .util import *

CLASSES = ['UnitLength', 'UnitMass', 'UnitTime', 'UnitCurrent', 'UnitTemperature', 'UnitSubstance', 'UnitLuminousIntensity', 'UnitInformation']
SI = {'UnitCurrent': 'A', 'UnitLength': 'm', 'UnitMass': 'kg', 'UnitLuminousIntensity': 'cd', 'UnitSubstance': 'mol', 'UnitTemperature': 'K', 'UnitTime': 's'}
CGS = {'UnitLength': 'cm', 'UnitMass': 'g', 'UnitLuminousIntensity': 'cd', 'UnitSubstance': 'mol', 'UnitTemperature': 'K', 'UnitTime': 's'}

@case('C05', funcs=['Quantity.simplified', 'UnitQuantity.simplified'], kind=QUANT + UNITS + ['uncertain'])
def simplified(h, kind):
    x = h.operand('x', kind)
    X, mx = h.map(x), h.mag(x)
    with h.any_defaults():
        sx = Snap(h, x)
        r = h.returns(h.run(lambda: x.simplified))
        h.post('in the current default units', h.eqmap(h.map(r), h.dbase(X)))
        h.post('magnitudes', h.same(h.mag(r), mx * h.dsize(X)))
        h.post('physical value kept', h.same(h.mag(r) * h.size(h.map(r)), mx * h.size(X)))
        h.post('a quantity', h.isinstance(r, h.q.Quantity) and not h.is_unit(r))
        unchanged(h, sx)
        s = h.returns(h.run(lambda: r.simplified))
        h.post('idempotent: units', h.eqmap(h.map(s), h.map(r)))
        h.post('idempotent: magnitudes', h.same(h.mag(s), h.mag(r)))

@case('C05', funcs=['Dimensionality.simplified', 'Dimensionality.ndims'], concrete=True)
def dimensionality_simplified(h):
    d = h.dims('d')
    D = h.map(d)
    with h.any_defaults():
        r = h.returns(h.run(lambda: d.simplified))
        h.post('default units', h.eqmap(h.map(r), h.dbase(D)))
        h.post('a dimensionality', h.isinstance(r, h.q.dimensionality.Dimensionality))
        h.post('unchanged', h.eqmap(h.map(d), D))

# ------------------------------------------------------------------ selection of the defaults
@case('C05', funcs=['IrreducibleUnit.set_default_unit', 'get_conversion_factor'], cls=CLASSES, how=['unit', 'other', 'string', 'none', 'quantity'])
def set_default_unit(h, cls, how):
    C = getattr(h.q.unitquantity, cls)
    with h.any_defaults():
        old = h.defaults()
        if how == 'none': u = None
        elif how == 'unit': u = h.default_candidate('u', C)
        elif how == 'other': u = h.unit('u', 'derived')
        elif how == 'quantity': u = h.quantity('u', scalar=True, dtype='float')
        else: u = h.default_candidate('u', C)
        arg = h.name_of(u) if how == 'string' else u
        su = Snap(h, u) if u is not None else None
        # h.map of a scaled quantity is not a unit at all: that is refused as well
        ok = h.And(h.compatible(h.map(old[C]), h.map(u)), h.all_one(h.mag(u))) if u is not None else True
        o = h.run(lambda: C.set_default_unit(arg))
        new = h.defaults()
        if u is None:
            h.returns(o)
            h.post('None leaves the default', new[C] is old[C])
        elif h.branch(ok):
            h.returns(o)
            h.post('selected', h.eqmap(h.map(new[C]), h.map(u)))
        else:
            h.raises(o, TypeError)
            h.post('default as before', new[C] is old[C])
        h.post('no other dimension affected', all(new[k] is old[k] for k in old if k is not C))
        if su is not None: unchanged(h, su)

@case('C05', funcs=['set_default_units'], system=['SI', 'si', 'cgs', 'CGS', None, 'mks', 'emu', ''], extra=[None, 'length', 'mass', 'time', 'bad'])
def set_default_units(h, system, extra):
    q = h.q
    with h.any_defaults():
        old = h.defaults()
        kw = {}
        if system is not None: kw['system'] = system
        if extra == 'length': kw['length'] = q.ft
        if extra == 'mass': kw['mass'] = q.lb
        if extra == 'time': kw['time'] = q.hour
        if extra == 'bad': kw['time'] = q.km
        o = h.run(lambda: q.set_default_units(**kw))
        new = h.defaults()
        table = {'si': SI, 'cgs': CGS}.get((system or '').lower(), {})
        want = {getattr(q.unitquantity, k): getattr(q, v) for k, v in table.items()}
        if extra == 'length': want[q.unitquantity.UnitLength] = q.ft
        if extra == 'mass': want[q.unitquantity.UnitMass] = q.lb
        if extra == 'time': want[q.unitquantity.UnitTime] = q.hour
        if system is not None and not table:
            h.raises(o, ValueError)
            h.post('defaults as before', all(new[k] is old[k] for k in old))
            return
        if extra == 'bad':
            h.raises(o, TypeError)
        else: h.returns(o)
        h.post('the units selected', h.And(*[h.eqmap(h.map(new[k]), h.map(want[k])) for k in want]))
        h.post('the others as before', all(new[k] is old[k] for k in old if k not in want))

@case('C05', funcs=['set_default_units', 'IrreducibleUnit.simplified'], symbolic=False, runs=300)
def default_histories(h):
    """a history of selections (some refused); simplifications in between use the defaults of that moment"""
    q = h.q
    x = h.quantity('x', dtype='float')
    X, mx = h.map(x), h.mag(x)
    sx = Snap(h, x)
    with h.any_defaults():
        for _ in range(h.r.choice([1, 2, 3, 4])):
            old = h.defaults()
            c = h.r.random()
            if c < 0.3:
                s = h.r.choice(['SI', 'cgs', 'si', 'CGS', 'xyz'])
                o = h.run(lambda: q.set_default_units(s))
                if s == 'xyz': h.raises(o, ValueError)
                else: h.returns(o)
            elif c < 0.6:
                kw = h.r.choice([dict(length='ft'), dict(length=q.km), dict(mass='lb'), dict(time='minute'), dict(current='mA'), dict(length='mm', mass=q.mg), dict(substance='mmol'), dict(temperature='mK'), dict(information='byte')])
                h.returns(h.run(lambda: q.set_default_units(**kw)))
                for k, v in kw.items():
                    C = {'luminous_intensity': 'UnitLuminousIntensity'}.get(k, 'Unit' + k.capitalize())
                    v = q.unit_registry[v] if isinstance(v, str) else v
                    h.post('selected', getattr(q.unitquantity, C)._default_unit is v)
            else:
                C = getattr(q.unitquantity, h.r.choice(CLASSES[:6]))
                u = h.unit('u', h.r.choice(['base', 'derived', 'compound']))
                ok = h.compatible(h.map(old[C]), h.map(u))
                o = h.run(lambda: C.set_default_unit(u))
                if ok: h.returns(o)
                else:
                    h.raises(o, TypeError)
                    h.post('default as before', h.defaults() == old)
            r = h.returns(h.run(lambda: x.simplified))
            h.post('in the current default units', h.eqmap(h.map(r), h.dbase(X)))
            h.post('magnitudes', h.same(h.mag(r), mx * h.dsize(X)))
            unchanged(h, sx)

# ------------------------------------------------------------------ proofs of the callee contracts
@case('C05', funcs='UnitQuantity.simplified', skip='UnitQuantity.simplified', core=True, kind=['derived', 'compound', 'constant'])
def unit_simplified(h, kind):
    u = h.unit('u', kind)
    U = h.map(u)
    r = h.returns(h.run(lambda: u.simplified))
    h.post('magnitude', h.same(h.mag(r), h.mag(1.0) * h.dsize(U)))
    h.post('default units', h.eqmap(h.map(r), h.dbase(U)))

@case('C05', funcs='IrreducibleUnit.simplified', skip='IrreducibleUnit.simplified', core=True, cls=CLASSES)
def irreducible_simplified(h, cls):
    u, D = h.irreducible('u', getattr(h.q.unitquantity, cls))
    U = h.map(u)
    r = h.returns(h.run(lambda: u.simplified))
    h.post('in the default unit of its class', h.eqmap(h.map(r), h.map(D)))
    h.post('default units', h.eqmap(h.map(r), h.dbase(U)))
    h.post('magnitude', h.same(h.mag(r), h.mag(1.0) * h.dsize(U)))

@case('C05', funcs='Quantity.simplified', skip='Quantity.simplified', core=True, kind=QUANT)
def quantity_simplified(h, kind):
    x = h.operand('x', kind)
    X, mx = h.map(x), h.mag(x)
    sx = Snap(h, x)
    r = h.returns(h.run(lambda: x.simplified))
    h.post('magnitudes', h.same(h.mag(r), mx * h.dsize(X)))
    h.post('default units', h.eqmap(h.map(r), h.dbase(X)))
    unchanged(h, sx)

@case(['C05'], funcs='Dimensionality.simplified', skip='Dimensionality.simplified', core=True)
def dims_simplified(h):
    d = h.dims('d')
    D = h.map(d)
    r = h.returns(h.run(lambda: d.simplified))
    h.post('default units', h.eqmap(h.map(r), h.dbase(D)))
    h.post('unchanged', h.eqmap(h.map(d), D))

@case('C05', funcs='UnitQuantity.simplified', skip='UnitQuantity.simplified', core=True, how=['dimensionless', 'new'])
def undefined_unit_simplified(h, how):
    """a unit that is not defined in terms of others and has no default stays as it is"""
    if how == 'dimensionless': u = h.unit('u', 'dimensionless')
    else:
        name = h.new_name('u')
        u = h.returns(h.run(lambda: h.q.UnitQuantity(name)))
    U = h.map(u)
    r = h.returns(h.run(lambda: u.simplified))
    h.post('units', h.eqmap(h.map(r), U))
    h.post('magnitude', h.same(h.mag(r), h.mag(1.0)))
    h.post('not the unit itself', not h.is_unit(r))
