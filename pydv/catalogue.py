"""reference data of the catalogue checks (pydv/data), as exact numbers"""
import ast, json, os
from . import exact, boot
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data')
BASE = dict(m='meter', s='second', kg='kilogram', A='ampere', cd='candela', K='Kelvin', mol='mole', bit='bit')
NS = {b: exact.Ex(1, dims={n: 1}) for b, n in BASE.items()}
NS.update(one=exact.Ex(1), pi=exact.PI, _N=exact.number)
def ev(e): return exact.Ex.of(eval(compile(exact.lift(ast.parse(e.strip(), mode='eval')), 'ref', 'eval'), NS))
def units_ref():
    out = {}
    for l in open(os.path.join(D, 'units_ref.txt'), encoding='utf-8'):
        if l.startswith('#') or not l.strip(): continue
        n, e = [x.strip() for x in l.split(' = ')]
        tol = 0.0
        if '~' in e: e, tol = e.split('~'); tol = float(tol)
        out[n] = (e, tol)
    return out
UNITS = units_ref()
LABELS = json.load(open(os.path.join(D, 'units_labels.json'), encoding='utf-8'))
_w = []
def world():
    if not _w: _w.append(exact.load(os.path.join(boot.REPO, 'quantities')))
    return _w[0]
def xunit(name):
    w = world()
    return w.registry.get(name) or w.compounds.get(name)
def agrees(size, ref, tol):
    """size == ref exactly, or within the tolerance of a measured value"""
    if tol == 0: return size == ref
    r = size.ratio(ref)
    return r is not None and abs(float(r) - 1) <= tol
def fdims(ref): return {b: float(e) for b, e in ref.dims.items()}
CONST = json.load(open(os.path.join(D, 'codata2006.json'), encoding='utf-8'))
SI = dict(J='kg*m**2/s**2', N='kg*m/s**2', W='kg*m**2/s**3', Hz='1/s', C='A*s', V='kg*m**2/(s**3*A)', F='s**4*A**2/(kg*m**2)', ohm='kg*m**2/(s**3*A**2)', S='s**3*A**2/(kg*m**2)', Wb='kg*m**2/(s**2*A)',
    T='kg/(s**2*A)', Pa='kg/(m*s**2)', sr='one', fm='m/10**15', MHz='10**6/s', c='299792458*m/s',
    # the values of the table itself
    eV='1.602176487e-19*kg*m**2/s**2', MeV='1.602176487e-13*kg*m**2/s**2', GeV='1.602176487e-10*kg*m**2/s**2', u='1.660538782e-27*kg', E_h='4.35974394e-18*kg*m**2/s**2')
SINS = dict(NS, **{k: ev(v) for k, v in SI.items()})
def pyunit(s):
    """the unit column of the table as an expression: 'J mol^-1 K^-1' -> 'J*mol**-1*K**-1'"""
    return '*'.join(s.replace('^', '**').split())
def const_ref(name):
    d = CONST[name]
    u = pyunit(d['unit'])
    v = exact.number(d['value'])
    f = exact.Ex.of(eval(compile(exact.lift(ast.parse(u, mode='eval')), 'ref', 'eval'), dict(SINS, __builtins__={}))) if u else exact.Ex(1)
    # the package takes eV, u and E_h from another edition of the table
    import re
    tol = 2e-7 if re.search(r'\b(eV|MeV|GeV|u|E_h)\b', u) else 0.0
    return v, u, v * f, tol
def xconst(name):
    w = world()
    return w.constants.get(name)
