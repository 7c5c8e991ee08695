"""the unit catalogue and the physical constants (C18, C19): finite domains, checked completely"""
import math
import numpy as np
from ..registry import case
from .. import catalogue as cat, exact
from ..core import Unsupported

def exactly(fn):
    try: return fn()
    except exact.Unsupported as ex: raise Unsupported('exact evaluation: %s' % ex)
    except Unsupported: raise
    except Exception as ex: raise Unsupported('exact evaluation: %r' % ex)

def lookup(q, name):
    """the unit object of this name, by way of the package's attributes or of unit strings"""
    if name in cat.LABELS:
        for a in cat.LABELS[name][1]:
            u = getattr(q, a, None)
            if u is not None and getattr(u, '_name', None) == name: return u
    return q.unit_registry[name]

def near(x, y, rel): return abs(x - y) <= rel * abs(y)

@case('C18', funcs=['definitions of quantities.units'], runs=1, name=list(cat.UNITS))
def unit_size(h, name):
    """every unit is as big as its standard definition says, in SI base units"""
    e, tol = cat.UNITS[name]
    ref = cat.ev(e)
    if h.symbolic:
        u = exactly(lambda: cat.xunit(name))
        if u is None: raise Unsupported('no such unit in the exact evaluation')
        if u.size.vague: raise Unsupported('irrational sum')
        return h.ground('size of %s = %s%s' % (name, e, ' up to %g' % tol if tol else ''), cat.agrees(u.size, ref, tol))
    q = h.q
    u = h.returns(h.run(lambda: lookup(q, name)), 'the unit exists')
    h.note('unit', u)
    for f in (lambda: u.simplified, lambda: (2.5 * u).simplified / 2.5, lambda: q.Quantity(1.0, u).simplified):
        s = h.returns(h.run(f))
        h.post('the size of the standard definition', near(float(s.magnitude), float(ref), max(tol, 1e-12)))
        h.post('the dimensions of the standard definition', {b.name: p for b, p in s.dimensionality.items()} == cat.fdims(ref))

@case('C18', funcs=['definitions of quantities.units'], runs=1, name=[n for n in cat.UNITS if n in cat.LABELS])
def unit_labels(h, name):
    """its name, symbol, aliases and attributes denote the unit"""
    labels, attrs = cat.LABELS[name]
    if h.symbolic:
        w = exactly(cat.world)
        u = cat.xunit(name)
        if u is None: raise Unsupported('no such unit in the exact evaluation')
        for l in labels: h.ground('%r is registered for %s' % (l, name), w.registry.get(l) is u)
        for a in attrs: h.ground('attribute %s is %s' % (a, name), w.units_ns.get(a) is u)
        return
    q = h.q
    u = h.returns(h.run(lambda: lookup(q, name)), 'the unit exists')
    h.note('unit', u)
    for l in labels:
        v = h.returns(h.run(lambda: q.Quantity(3.0, l)), '%r is a unit string' % l)
        want = {} if name == 'dimensionless' else {u: 1}
        h.post('%r denotes %s' % (l, name), dict(v.dimensionality) == want and float(v.magnitude) == 3.0)
        h.post('%r denotes %s' % (l, name), h.returns(h.run(lambda: q.unit_registry[l])) is u)
    for a in attrs: h.post('attribute %s is %s' % (a, name), getattr(q, a, None) is u)

PREFIXES = dict(yotta=24, zetta=21, exa=18, peta=15, tera=12, giga=9, mega=6, kilo=3, hecto=2, deka=1, deci=-1, centi=-2, milli=-3, micro=-6, nano=-9, pico=-12, femto=-15, atto=-18, zepto=-21)
BINARY = dict(kibi=1, mebi=2, gibi=3, tebi=4, pebi=5, exbi=6, zebi=7, yobi=8)
@case('C18', funcs=['quantities.units.prefixes'], runs=1, name=list(PREFIXES) + list(BINARY))
def prefix(h, name):
    if h.symbolic:
        w = exactly(cat.world)
        v = w.units_ns.get(name)
        if v is None: v = getattr(w.mods.get('quantities.units.prefixes'), name, None)
        if v is None: raise Unsupported('no such prefix in the exact evaluation')
        return h.ground('the prefix %s' % name, exact.Ex.of(v) == (exact.Ex(10) ** PREFIXES[name] if name in PREFIXES else exact.Ex(1024) ** BINARY[name]))
    v = getattr(h.q.units.prefixes, name)
    want = 10 ** PREFIXES[name] if name in PREFIXES and PREFIXES[name] >= 0 else float('1e%d' % PREFIXES[name]) if name in PREFIXES else 1024 ** BINARY[name]
    h.post('the prefix %s' % name, float(v) == float(want))
    u = h.unit('u', 'derived')
    m = h.returns(h.run(lambda: v * u))
    h.post('prefix times unit', h.And(h.eqmap(h.map(m), h.map(u)), float(m.magnitude) == float(want)))

PAIRS = {}
for _n, (_e, _t) in cat.UNITS.items():
    _r = cat.ev(_e)
    PAIRS.setdefault(tuple(sorted(_r.dims.items())), []).append(_n)
KINDS = {ns[0]: ns for ns in PAIRS.values() if len(ns) > 1}
@case('C18', funcs=['Quantity.rescale', 'definitions of quantities.units'], symbolic=False, runs=150, kind=list(KINDS))
def conversion(h, kind):
    """conversion between two units of the catalogue is by the ratio of their standard definitions"""
    a, b = h.r.choice(KINDS[kind]), h.r.choice(KINDS[kind])
    q = h.q
    u, v = lookup(q, a), lookup(q, b)
    (ea, ta), (eb, tb) = cat.UNITS[a], cat.UNITS[b]
    k = float(cat.ev(ea).ratio(cat.ev(eb)))
    h.note('from', u); h.note('to', v)
    x = h.r.choice([1.0, 2.5, -7.0, h.r.uniform(-1e3, 1e3)])
    la, lb = (h.r.choice(cat.LABELS.get(n, ([n], 0))[0] or [n]) for n in (a, b))
    y = h.returns(h.run(lambda: q.Quantity(x, u).rescale(v)))
    h.post('the conversion factor', near(float(y.magnitude), x * k, max(ta + tb, 2e-12)))
    y = h.returns(h.run(lambda: q.Quantity(x, la).rescale(lb)))
    h.post('the conversion factor, by strings', near(float(y.magnitude), x * k, max(ta + tb, 2e-12)))

# ------------------------------------------------------------------ constants (C19)
TRUNC = 3e-10     # exact values are printed with ten digits
def tolerance(name, v):
    """half a unit of the last digit of an exact value that the table prints truncated"""
    return TRUNC if cat.CONST[name]['unc'] == 0 else 0.0

def constant(h, name):
    for a in [name] + cat.CONST[name]['attrs']:
        u = getattr(h.q.constants, a, None)
        if u is not None and getattr(u, '_name', None) == name: return u
    h.post('the constant exists', False)

@case('C19', funcs=['definitions of quantities.constants', '_cd', 'physical_constants'], runs=1, name=list(cat.CONST))
def constant_value(h, name):
    """the value and units of the CODATA entry the constant is named after"""
    v, us, ref, tol = cat.const_ref(name)
    tt = tolerance(name, v)
    if h.symbolic:
        u = exactly(lambda: cat.xconst(name))
        if u is None: raise Unsupported('no such constant in the exact evaluation')
        if u.size.vague: raise Unsupported('irrational sum')
        own = exactly(lambda: v * (exact.parse(us) if us else 1))
        h.ground('%s = %s %s' % (name, cat.CONST[name]['value'], us), cat.agrees(u.size, own, tt))
        return h.ground('%s in SI units' % name, cat.agrees(u.size, ref, max(tol, tt)))
    q = h.q
    u = constant(h, name)
    h.note('constant', u)
    for f in (lambda: u.simplified, lambda: (1.0 * u).simplified, lambda: q.Quantity(1.0, u).simplified):
        s = h.returns(h.run(f))
        h.post('the SI value of the table', near(float(s.magnitude), float(ref), max(tol, tt, 1e-12)))
        h.post('the SI units of the table', {b.name: p for b, p in s.dimensionality.items()} == cat.fdims(ref))
    s = h.returns(h.run(lambda: (1.0 * u).rescale(us or 'dimensionless')))
    h.post('the value of the table in its units', near(float(s.magnitude), float(v), max(tt, 1e-12)))
    h.post('its definition is in the units of the table', dict(u.definition.dimensionality) == dict(q.Quantity(1.0, us).dimensionality) and near(float(u.definition.magnitude), float(v), max(tt, 1e-12)))

@case('C19', funcs=['UnitConstant.__init__', 'definitions of quantities.constants'], runs=1, name=list(cat.CONST))
def constant_names(h, name):
    """all names of a constant are that constant, and none of them is a unit string for it"""
    attrs = cat.CONST[name]['attrs']
    if h.symbolic:
        w = exactly(cat.world)
        u = cat.xconst(name)
        if u is None: raise Unsupported('no such constant in the exact evaluation')
        for a in attrs: h.ground('attribute %s is %s' % (a, name), w.constants_ns.get(a) is u)
        for a in attrs + [name]: h.ground('%s is no unit string for it' % a, w.registry.get(a) is not u)
        return
    q = h.q
    u = constant(h, name)
    for a in attrs: h.post('attribute %s is %s' % (a, name), getattr(q.constants, a, None) is u)
    for a in attrs + [u.name, u.symbol, u.u_symbol]:
        try: w = q.unit_registry[a]
        except Exception: continue
        if isinstance(w, q.Quantity): h.post('%r is no unit string for it' % a, w is not u and u not in w.dimensionality)

@case('C19', funcs=['UnitQuantity.__new__'], symbolic=False, runs=3, name=list(cat.CONST))
def constant_use(h, name):
    """using a constant does not change it"""
    u = constant(h, name)
    v, us, ref, tol = cat.const_ref(name)
    s0 = h.unit_state(u)
    x = h.quantity('x')
    for f in (lambda: u * x, lambda: x / u, lambda: u ** 2, lambda: u + u, lambda: 3 * u - u, lambda: x * u * u, lambda: u.simplified, lambda: (2 * u).rescale(us or 'dimensionless'), lambda: -u, lambda: abs(u), lambda: u == u):
        o = h.run(f)
        r = o.value
        if isinstance(r, np.ndarray) and r is not u and r.ndim == 0 and not isinstance(r, h.q.UnitQuantity):
            h.run(lambda: r.__imul__(3))
            h.run(lambda: r.__setitem__((), 7 * r))
    for f in (lambda: u.__imul__(2), lambda: u.__iadd__(u), lambda: u.__setitem__((), 2 * u), lambda: setattr(u, 'units', u), lambda: u.__itruediv__(2), lambda: u.__ipow__(2), lambda: u.__isub__(u)): h.raises(h.run(f), Exception, 'refused')
    h.run(lambda: u.definition.__imul__(2))
    h.post('the constant is unchanged', h.same_unit_state(h.unit_state(u), s0, True))
    h.post('its value is unchanged', near(float((1.0 * u).rescale(us or 'dimensionless').magnitude), float(v), max(tolerance(name, v), 1e-12)))

RELATIONS = {     # both sides in terms of the constants of the package; relative tolerance from the digits of the table
    'hbar': ('hbar', 'h/(2*pi)', 1e-7), 'R_K': ('R_K', 'h/e**2', 1e-7), 'K_J': ('K_J', '2*e/h', 1e-7), 'Phi_0': ('Phi_0', 'h/(2*e)', 1e-7), 'G_0': ('G_0', '2*e**2/h', 1e-7), 'inverse_G_0': ('inverse_of_conductance_quantum', 'h/(2*e**2)', 1e-7),
    'F': ('Faraday_constant', 'N_A*e', 1e-7), 'R': ('R', 'N_A*k', 4e-6), 'k_eV': ('Boltzmann_constant_in_eV_per_K', 'k', 4e-6), 'h_eV': ('Planck_constant_in_eV_s', 'h', 2e-7), 'hbar_eV': ('Planck_constant_over_2_pi_in_eV_s', 'hbar', 2e-7),
    'eV': ('electron_volt', 'e*q.V', 1e-9), 'hartree': ('Hartree_energy', 'alpha**2*m_e*c_**2', 2e-7), 'hartree_eV': ('Hartree_energy_in_eV', 'Hartree_energy', 2e-7), 'a_0': ('a_0', 'hbar/(alpha*m_e*c_)', 2e-7), 'Rydberg': ('R_infinity', 'alpha**2*m_e*c_/(2*h)', 2e-7),
    'alpha': ('alpha', 'e**2/(4*pi*epsilon_0*hbar*c_)', 2e-7), 'inverse_alpha': ('inverse_fine_structure_constant', '1/alpha', 1e-8), 'epsilon_0': ('epsilon_0', '1/(mu_0*c_**2)', 1e-9), 'Z_0': ('Z_0', 'mu_0*c_', 1e-9), 'mu_0': ('mu_0', '4*pi*1e-7*q.N/q.A**2', 1e-9),
    'mu_B': ('mu_B', 'e*hbar/(2*m_e)', 2e-7), 'mu_N': ('mu_N', 'e*hbar/(2*m_p)', 2e-7), 'r_e': ('r_e', 'alpha**2*a_0', 1e-8), 'sigma_e': ('sigma_e', '8*pi/3*r_e**2', 1e-8), 'lambda_C': ('lambda_C', 'h/(m_e*c_)', 2e-7), 'lambdabar_C': ('Compton_wavelength_over_2_pi', 'lambda_C/(2*pi)', 1e-8),
    'c_1': ('c_1', '2*pi*h*c_**2', 2e-7), 'c_1L': ('c_1L', '2*h*c_**2', 2e-7), 'c_2': ('c_2', 'h*c_/k', 4e-6), 'sigma': ('sigma', 'pi**2/60*k**4/(hbar**3*c_**2)', 2e-5), 'wien': ('b', 'c_2/4.965114231', 4e-6), 'wien_f': ('b_prime', '2.821439372*k/h', 4e-6),
    'n_0': ('n_0', '101325*q.Pa/(k*273.15*q.K)', 4e-6), 'Vm': ('molar_volume_of_ideal_gas_STP', 'R*273.15*q.K/(101325*q.Pa)', 4e-6), 'Vm100': ('molar_volume_of_ideal_gas_ST_100kPa', 'R*273.15*q.K/(1e5*q.Pa)', 4e-6),
    'u': ('u', 'm_C12_', 1e-7), 'm_u_J': ('atomic_mass_constant_energy_equivalent', 'u*c_**2', 2e-7), 'M_e': ('electron_molar_mass', 'N_A*m_e', 2e-7), 'm_e_u': ('electron_mass_in_u', 'm_e', 2e-7), 'm_p_u': ('proton_mass_in_u', 'm_p', 2e-7), 'm_n_u': ('neutron_mass_in_u', 'm_n', 2e-7),
    'm_e_J': ('electron_mass_energy_equivalent', 'm_e*c_**2', 2e-7), 'm_p_J': ('proton_mass_energy_equivalent', 'm_p*c_**2', 2e-7), 'm_n_MeV': ('neutron_mass_energy_equivalent_in_MeV', 'm_n*c_**2', 2e-7), 'm_mu_MeV': ('muon_mass_energy_equivalent_in_MeV', 'm_mu*c_**2', 2e-7), 'm_tau_MeV': ('tau_mass_energy_equivalent_in_MeV', 'm_tau*c_**2', 4e-4),
    'm_p_e': ('proton_electron_mass_ratio', 'm_p/m_e', 2e-7), 'm_n_p': ('neutron_proton_mass_ratio', 'm_n/m_p', 2e-7), 'm_mu_e': ('muon_electron_mass_ratio', 'm_mu/m_e', 2e-7), 'm_d_p': ('deuteron_proton_mass_ratio', 'm_d/m_p', 2e-7), 'm_alpha_e': ('alpha_particle_electron_mass_ratio', 'm_alpha/m_e', 2e-7), 'm_t_p': ('triton_proton_mass_ratio', 'm_t/m_p', 2e-7), 'm_h_p': ('helion_proton_mass_ratio', 'm_h/m_p', 2e-7), 'm_tau_e': ('tau_electron_mass_ratio', 'm_tau/m_e', 4e-4),
    'e_over_h': ('elementary_charge_over_h', 'e/h', 1e-7), 'e_m_e': ('electron_charge_to_mass_quotient', '-e/m_e', 1e-7), 'e_m_p': ('proton_charge_to_mass_quotient', 'e/m_p', 1e-7), 'circ': ('quantum_of_circulation', 'h/(2*m_e)', 1e-7), 'circ2': ('quantum_of_circulation_times_2', 'h/m_e', 1e-7),
    'l_P': ('l_P', '(hbar*G/c_**3)**0.5', 2e-4), 'm_P': ('m_P', '(hbar*c_/G)**0.5', 2e-4), 't_P': ('t_P', 'l_P/c_', 2e-4), 'T_P': ('T_P', 'm_P*c_**2/k', 2e-4),
    'g_e': ('g_e', '2*mu_e/mu_B', 1e-7), 'a_e': ('a_e', 'abs_(mu_e)/mu_B - 1', 1e-6), 'mu_e_p': ('electron_proton_magnetic_moment_ratio', 'mu_e/mu_p', 1e-7), 'mu_p_N': ('proton_magnetic_moment_to_nuclear_magneton_ratio', 'mu_p/mu_N', 1e-7), 'g_p': ('g_p', '2*mu_p/mu_N', 1e-7), 'gamma_p': ('gamma_p', '2*mu_p/hbar', 2e-7), 'gamma_e': ('gamma_e', '2*abs_(mu_e)/hbar', 2e-7), 'gamma_n': ('gamma_n', '2*abs_(mu_n)/hbar', 5e-7),
    'au_time': ('atomic_unit_of_time', 'hbar/Hartree_energy', 2e-7), 'au_velocity': ('atomic_unit_of_velocity', 'alpha*c_', 2e-7), 'au_force': ('atomic_unit_of_force', 'Hartree_energy/a_0', 2e-7), 'au_field': ('atomic_unit_of_electric_field', 'Hartree_energy/(e*a_0)', 2e-7), 'au_potential': ('atomic_unit_of_electric_potential', 'Hartree_energy/e', 2e-7), 'au_current': ('atomic_unit_of_current', 'e*Hartree_energy/hbar', 2e-7), 'au_dipole': ('atomic_unit_of_electric_dipole_moment', 'e*a_0', 2e-7),
    'au_momentum': ('atomic_unit_of_momentum', 'hbar/a_0', 2e-7), 'au_B': ('atomic_unit_of_magnetic_flux_density', 'hbar/(e*a_0**2)', 2e-7), 'au_polarizability': ('atomic_unit_of_electric_polarizability', 'e**2*a_0**2/Hartree_energy', 2e-7), 'au_mass': ('atomic_unit_of_mass', 'm_e', 1e-12), 'au_length': ('atomic_unit_of_length', 'Bohr_radius', 1e-12), 'au_action': ('atomic_unit_of_action', 'hbar', 1e-12), 'au_charge': ('atomic_unit_of_charge', 'e', 1e-12), 'au_energy': ('atomic_unit_of_energy', 'Hartree_energy', 1e-12),
    'nu_time': ('natural_unit_of_time', 'hbar/(m_e*c_**2)', 2e-7), 'nu_length': ('natural_unit_of_length', 'Compton_wavelength_over_2_pi', 1e-9), 'nu_momentum': ('natural_unit_of_momentum', 'm_e*c_', 2e-7), 'nu_velocity': ('natural_unit_of_velocity', 'c_', 1e-12), 'nu_energy': ('natural_unit_of_energy', 'm_e*c_**2', 2e-7),
    'eV_J': ('electron_volt_joule_relationship', 'electron_volt', 1e-12), 'eV_Hz': ('electron_volt_hertz_relationship', 'electron_volt/h', 2e-7), 'eV_K': ('electron_volt_kelvin_relationship', 'electron_volt/k', 4e-6), 'kg_J': ('kilogram_joule_relationship', 'q.kg*c_**2', 1e-9), 'J_Hz': ('joule_hertz_relationship', 'q.J/h', 1e-7), 'Hz_J': ('hertz_joule_relationship', 'h*q.Hz', 1e-7), 'K_J_': ('kelvin_joule_relationship', 'k*q.K', 1e-9), 'u_kg': ('atomic_mass_unit_kilogram_relationship', 'u', 1e-12), 'Eh_J': ('hartree_joule_relationship', 'Hartree_energy', 1e-12),
    'NAh': ('molar_Planck_constant', 'N_A*h', 1e-7), 'NAhc': ('molar_Planck_constant_times_c', 'N_A*h*c_', 1e-7), 'M_u': ('M_u', '1e-3*q.kg/q.mol', 1e-12), 'C12': ('molar_mass_of_carbon_12', '12*M_u', 1e-9), 'si': ('d_220', 'a_Si_100/8**0.5', 2e-7),
}
@case('C19', funcs=['definitions of quantities.constants'], runs=1, which=list(RELATIONS))
def related_constants(h, which):
    """related constants agree with each other within the table's precision"""
    left, right, tol = RELATIONS[which]
    right = right.replace('m_C12_', 'atomic_mass_constant')
    if h.symbolic:
        w = exactly(cat.world)
        ns = {n: v for n, v in w.constants_ns.items() if isinstance(v, exact.XUnit)}
        class Q: pass
        qq = Q()
        for n, v in w.units_ns.items(): setattr(qq, n, v)
        ns.update(q=qq, pi=exact.PI, c_=ns['natural_unit_of_velocity'], abs_=lambda v: exact.Ex(abs(v.size.c), v.size.k, v.size.rad, v.size.dims), _N=exact.number, __builtins__={})
        import ast
        f = lambda s: exact.Ex.of(eval(compile(exact.lift(ast.parse(s, mode='eval')), 'relation', 'eval'), ns))
        a, b = exactly(lambda: f(left)), exactly(lambda: f(right))
        if a.vague or b.vague: raise Unsupported('irrational sum')
        return h.ground('%s = %s' % (left, right), cat.agrees(a, b, tol))
    q = h.q
    ns = {n: 1.0 * v for n, v in vars(q.constants).items() if isinstance(v, q.UnitQuantity)}
    ns.update(q=q, pi=math.pi, c_=ns['natural_unit_of_velocity'], abs_=lambda x: abs(x.simplified), __builtins__={})     # (the magnitude in a unit of negative size has the other sign)
    f = lambda s: q.Quantity(eval(s, ns)).simplified
    a, b = h.returns(h.run(lambda: f(left))), h.returns(h.run(lambda: f(right)))
    h.post('same units', dict(a.dimensionality) == dict(b.dimensionality))
    h.post('%s = %s' % (left, right), near(float(a.magnitude), float(b.magnitude), tol))
