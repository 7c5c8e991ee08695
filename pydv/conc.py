"""Concrete backend of the contracts: the same cases run on the real package with real numpy, on inputs drawn from
generators. Used to cross-check the trusted models, to replay counterexamples and to search for failing inputs."""
import ast, re
import os, sys, contextlib, random, math, types, operator, copy as _copy, warnings
import numpy as np
from .values import is0  # noqa (keeps the import order of the engine)

class Skip(Exception): pass
class PostFailed(Exception): pass

class Outcome:
    def __init__(self, value=None, exc=None, excobj=None): self.value, self.exc, self.excobj = value, exc, excobj

def eps_of(dt):
    dt = np.dtype(dt)
    if dt == np.float32 or dt == np.complex64: return 2e-6
    if dt == np.float16: return 4e-3
    return 4e-13

def fin(a):
    a = np.asarray(a)
    if a.dtype.kind in 'fc': return np.isfinite(a)
    return np.ones(a.shape, bool)

class CMag:
    """magnitudes, an error bound of each, and where the value is a defined number"""
    def __init__(self, a, err=None, ok=None):
        self.a = np.array(a, copy=True)
        k = self.a.dtype.kind
        if k == 'O': raise Skip()
        with np.errstate(all='ignore'):
            if err is None: err = np.abs(self.a) * eps_of(self.a.dtype) if k in 'fc' else np.zeros(self.a.shape)
        self.err = err
        self.ok = fin(self.a) if ok is None else ok & fin(self.a)
    @property
    def shape(self): return self.a.shape
    @property
    def dtype(self): return self.a.dtype
    @staticmethod
    def of(o):
        if isinstance(o, CMag): return o
        return CMag(np.asarray(o), np.zeros(np.shape(o))) if isinstance(o, (int, np.integer)) else CMag(np.asarray(o))
    def _ap(self, f, *ms, raw=None):
        ms = [CMag.of(m) for m in ms]
        try: np.broadcast_shapes(*[m.shape for m in ms])
        except ValueError: raise Skip()
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = f(*(raw if raw is not None else [m.a for m in ms]))
            lo = f(*[m.a - m.err if m.a.dtype.kind in 'fc' else m.a for m in ms])
            hi = f(*[m.a + m.err if m.a.dtype.kind in 'fc' else m.a for m in ms])
            mx = f(*[m.a + m.err * (-1) ** i if m.a.dtype.kind in 'fc' else m.a for i, m in enumerate(ms)])
            ok = True
            for m in ms: ok = ok & m.ok
            r = np.asarray(r)
            if r.dtype.kind == 'b':
                ok = ok & (lo == r) & (hi == r) & (mx == r)
                mn = f(*[m.a - m.err * (-1) ** i if m.a.dtype.kind in 'fc' else m.a for i, m in enumerate(ms)])
                ok = ok & (mn == r)
                if len(ms) == 2 and f in (np.equal, np.not_equal, np.less, np.less_equal, np.greater, np.greater_equal):
                    ok = ok & ((np.abs(ms[0].a - ms[1].a) > 4 * (ms[0].err + ms[1].err)) | (ms[0].err + ms[1].err == 0))
                return CMag(r, np.zeros(r.shape), np.broadcast_to(ok, r.shape))
            e = np.maximum(np.maximum(np.abs(hi - r), np.abs(lo - r)), np.abs(mx - r))
            e = np.where(np.isnan(e), 0, e)
            s = 0
            for m in ms: s = s + 0 * m.err
            if r.dtype.kind in 'fc': e = e + np.abs(r) * max([eps_of(r.dtype)] + [eps_of(m.dtype) for m in ms if m.dtype.kind in 'fc'])
            # cancellation
            if f in (np.add, np.subtract): e = e + np.maximum(*[np.abs(m.a) * eps_of(m.dtype if m.dtype.kind in 'fc' else float) for m in ms])
        return CMag(r, e, np.broadcast_to(ok, r.shape))
    def __add__(self, o): return self._ap(np.add, self, o)
    __radd__ = __add__
    def __sub__(self, o): return self._ap(np.subtract, self, o)
    def __rsub__(self, o): return self._ap(np.subtract, o, self)
    def __mul__(self, o): return self._ap(np.multiply, self, o)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._ap(np.true_divide, self, o)
    def __rtruediv__(self, o): return self._ap(np.true_divide, o, self)
    def __pow__(self, o):
        return self._ap(lambda x: np.power(x, o) if not (isinstance(o, (int, np.integer)) and o < 0 and x.dtype.kind in 'iu') else np.power(x.astype(float), o), self)
    def __neg__(self): return self._ap(np.negative, self)
    def __abs__(self): return self._ap(np.absolute, self)
    def sqrt(self): return self._ap(np.sqrt, self)

class CMap(dict):
    """a unit -> exponent map"""
    def __add__(self, o):
        r = CMap(self)
        for u, p in o.items():
            r[u] = r.get(u, 0) + p
        return r.clean()
    def __mul__(self, k): return CMap({u: p * k for u, p in self.items()}).clean()
    def __sub__(self, o): return self + o * -1
    def __neg__(self): return self * -1
    def clean(self):
        return CMap({u: p for u, p in self.items() if abs(p) > 1e-9})
    def eq(self, o):
        return len(self) == len(o) and all(u in o and abs(o[u] - p) < 1e-9 for u, p in self.items())
    __hash__ = None

def unit_size(q, u):
    d = u.__dict__.get('_definition')
    if d is None or d is u or isinstance(u, q.unitquantity.Dimensionless): return 1.0
    return float(np.asarray(d)) * map_size(q, CMap(d.dimensionality))
def unit_base(q, u):
    d = u.__dict__.get('_definition')
    if isinstance(u, q.unitquantity.Dimensionless): return CMap()
    if d is None or d is u: return CMap({u: 1})
    return map_base(q, CMap(d.dimensionality))
def map_size(q, m):
    r = 1.0
    for u, p in m.items(): r *= unit_size(q, u) ** p
    return r
def map_base(q, m):
    r = CMap()
    for u, p in m.items(): r = r + unit_base(q, u) * p
    return r

_made = {}
_pool = None
def pool(q):
    """compatible groups of units"""
    global _pool
    if _pool is None:
        names = ['m mm km ft inch', 's ms h minute', 'kg g mg lb', 'A mA', 'K mK', 'mol mmol', 'N dyne pound_force', 'J eV kWh cal', 'W hp', 'Pa atm psi',
                 'Hz kHz', 'radian degree turn percent count', 'V mV', 'L cc', 'bit byte', 'cd']
        g = [[u for u in (getattr(q, n, None) for n in l.split()) if isinstance(u, q.UnitQuantity)] for l in names]
        def more(*fs):
            l = []
            for f in fs:
                try: l.append(f())
                except Exception: pass
            g.append(l)
        C = q.constants
        more(lambda: q.CompoundUnit('pc/cm**3'), lambda: q.CompoundUnit('km/m**3'))
        more(lambda: q.CompoundUnit('m*s'), lambda: q.CompoundUnit('ft*h'))
        more(lambda: C.c, lambda: q.CompoundUnit('m/s'), lambda: q.CompoundUnit('km/h'))
        more(lambda: C.e, lambda: q.C)
        more(lambda: q.UnitQuantity('pydv_gross', 144 * q.dimensionless), lambda: q.percent)
        more(lambda: q.UnitQuantity('pydv_halfm', q.m ** 0.5), lambda: q.UnitQuantity('pydv_halfmm', q.mm ** 0.5))
        more(lambda: q.UnitQuantity('pydv_span', 0.25 * q.mm * q.s / q.minute, 'pydv_sp'))
        g = [l for l in g if l]
        _pool = g
    return _pool

_cat = None
def catalogue_units(q):
    """the units with a registered name"""
    global _cat
    if _cat is None:
        from . import catalogue as cat
        out = []
        for n, (labels, attrs) in cat.LABELS.items():
            for a in attrs:
                u = getattr(q, a, None)
                if isinstance(u, q.UnitQuantity) and u.name == n and not isinstance(u, q.unitquantity.Dimensionless):
                    out.append(u); break
        _cat = out
    return _cat

_number = re.compile(r'\d+(\.\d+)?(e[+-]?\d+)?')
def match_product(s, i, items):
    """the ends of the products of exactly these factors (in any order) that start at s[i:]"""
    if not items:
        yield s[:i], i
        return
    for j, (sym, p) in enumerate(items):
        if not s.startswith(sym, i): continue
        k = i + len(sym)
        if p != 1:
            if not s.startswith('**', k): continue
            m = _number.match(s, k + 2)
            if not m or float(m.group()) != float(p) or m.group(1) and m.group(1)[-1] in '0.': continue
            k = m.end()
        rest = items[:j] + items[j + 1:]
        if rest:
            if s[k:k + 1] != '*' or s[k:k + 2] == '**': continue
            k += 1
        yield from match_product(s, k, rest)

def permutations_of(l):
    import itertools
    return list(itertools.permutations(l))

class Canary:
    """a registered object that tells when anything but arithmetic is done with it"""
    def __init__(self): self.__dict__['fired'] = None
    def _fire(self, *a, **k):
        self.__dict__['fired'] = True
        return 1
    __call__ = __getitem__ = __setitem__ = __contains__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _fire
    def __getattribute__(self, n):
        if n == '__dict__' or n == '__class__': return object.__getattribute__(self, n)
        self.__dict__['fired'] = True
        return lambda *a, **k: 1
    def __iter__(self):
        self.__dict__['fired'] = True
        return iter(())
    def __bool__(self):
        self.__dict__['fired'] = True
        return True
    def __str__(self):
        self.__dict__['fired'] = True
        return ''
    def __format__(self, s): return str(self)
    __repr__ = __str__
    def __mul__(self, o): return 'canary'
    __rmul__ = __mul__
    __hash__ = object.__hash__
_canary = None
def canary(q):
    global _canary
    if _canary is None:
        _canary = Canary()
        q.unit_registry['pydv_canary'] = _canary
    return _canary

def random_text(q, r):
    """strings of all kinds: units, arithmetic, other Python expressions, malicious ones, garbage"""
    from . import catalogue as cat
    canary(q)
    names = list(cat.LABELS)
    def label():
        n = r.choice(names)
        return r.choice(cat.LABELS[n][0] or [n])
    def unit(d=0):
        x = r.random()
        if d > 2 or x < 0.4: return label()
        if x < 0.6: return '%s%s%s' % (unit(d + 1), r.choice(['*', '/', '·', ' * ', '.', '*', '/']), unit(d + 1))
        if x < 0.8: return '%s%s%s' % (unit(d + 1), r.choice(['**', '^', ' ** ']), r.choice(['2', '3', '-1', '0.5', '(1/2)', '-2', '1e0']))
        if x < 0.9: return '(%s)' % unit(d + 1)
        return '%s%s%s' % (r.choice(['1', '2', '1.0', '-1', '1e3', '3.', '.5', '0x10', '1_000']), r.choice(['*', '/']), unit(d + 1))
    N = ['m', 's', 'pydv_canary', 'kg', 'x', 'open', '__import__', '__builtins__', 'print', 'UnitQuantity', 'os', 'e', 'self']
    def expr(d=0):
        if d > 3: return r.choice(N + ['1', '2.5', '"a"', 'None', 'True', '1j', "b'x'", '...'])
        s = lambda: expr(d + 1)
        return r.choice([
            lambda: r.choice(N), lambda: r.choice(['1', '2', '0.5', '"m"', 'None', "'%s'"]), lambda: '%s*%s' % (s(), s()), lambda: '%s/%s' % (s(), s()), lambda: '%s**2' % s(), lambda: '-%s' % s(), lambda: '(%s+%s)' % (s(), s()),
            lambda: '%s()' % s(), lambda: '%s(%s)' % (s(), s()), lambda: '(%s)._a' % s(), lambda: '%s.__class__' % r.choice(N), lambda: '%s[%s]' % (s(), s()), lambda: '%s[1:2]' % s(), lambda: '[%s]' % s(), lambda: '(%s,%s)' % (s(), s()), lambda: '{%s:%s}' % (s(), s()), lambda: '{%s}' % s(),
            lambda: '[x for x in %s]' % s(), lambda: '{x: 1 for x in %s}' % s(), lambda: '(x for x in %s)' % s(), lambda: 'lambda: %s' % s(), lambda: '(lambda: %s)()' % s(), lambda: '%s if %s else %s' % (s(), s(), s()), lambda: '%s and %s' % (s(), s()), lambda: '%s or %s' % (s(), s()), lambda: '(not %s)' % s(),
            lambda: '%s < %s' % (s(), s()), lambda: '%s == %s' % (s(), s()), lambda: '%s in%s' % (s(), ' %s' % s()), lambda: '(x := %s)' % s(), lambda: "f'{%s}'" % r.choice(N), lambda: "f'{%s!r:>3}'" % r.choice(N), lambda: '*%s' % s(), lambda: '(yield %s)' % s(), lambda: '(await %s)' % s(), lambda: '{**%s}' % s(), lambda: '~%s' % s(), lambda: '%s @ %s' % (s(), s()), lambda: '%s // %s' % (s(), s()), lambda: '(%s | %s)' % (s(), s())])()
    x = r.random()
    if x < 0.35: return unit()
    if x < 0.75: return expr()
    if x < 0.85:
        return r.choice(["__import__('os').getpid()", "().__class__.__bases__[0].__subclasses__()", "m.__class__.__mro__", "[c for c in ().__class__.__bases__]", "open('/dev/null')", "exec('1')", "eval('1')", "print(1)", "import os", "m; s", "m\ns", "x = 1", "lambda: 0", "(lambda: pydv_canary._x)()",
                         "UnitQuantity('pydv_injected')", "pydv_canary()", "pydv_canary._x", "pydv_canary[0]", "[pydv_canary for m in pydv_canary]", "pydv_canary if pydv_canary else m", "pydv_canary < m", "f'{pydv_canary}'", "m.dimensionality", "m. dimensionality", "m._name", "__builtins__", "__builtins__*1", "m if 1 else s", "m and s", "m == s", "not m", "m[0]", "'m'", "\"\"", "None", "True", "()", "[]", "{}", "m,s", "m,", "(m:=s)", "#", "m # s", "", " ", "\t", "m\0", "**", "m**", "*m", "m*", "/m", "(m", "m)", "'a'*3", "'%s' % 1", "not_a_unit", "m*not_a_unit", "not_a_unit**0", "0*not_a_unit", "M", "Meter",
                         "1", "2*3", "1/0", "m/0", "m**m", "m+s", "m+m", "-m", "+m", "~m", "m%2", "m//2", "m<<1", "in", "in**2", "1/in", "IN", "In^2", "as", "as**2", "m*as", "min", "inch", "in_", "N.m.s", "kg.m.s", "m.s", "m·s", "kg·m^2/s^2", "m^2", "m^-1", "%", "%/h", "m*%", "percent", "1/%", "m.2", "2.m", "m..s", "m. s"])
    return ''.join(r.choice('ms*/^.()0123 %_"\'[]·inkgeE+-') for _ in range(r.randint(0, 8)))

def preprocessed(s):
    """what the signs of a unit string stand for"""
    s = s.replace('^', '**').replace('·', '*')
    s = re.sub(r'(?<=[A-Za-z])\.(?=[A-Za-z])', '*', s)
    if s == '': s = 'dimensionless'
    s = s.replace('%', 'percent')
    s = re.sub(r'\bin\b', 'inch', s, flags=re.I)
    return re.sub(r'\bas\b', 'attosecond', s)
_OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.MatMult: operator.matmul,
        ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert, ast.Not: operator.not_}
def arithmetic_value(q, s):
    """('value', v), ('error', None) when the arithmetic fails, or ('refused', None) for what is no arithmetic expression over registered names and numbers"""
    try: t = ast.parse(preprocessed(s), mode='eval')
    except Exception: return 'refused', None
    reg = registered(q)
    def ok(n):
        if isinstance(n, ast.Constant): return type(n.value) in (int, float, complex)
        if isinstance(n, ast.Name): return n.id in reg
        if isinstance(n, ast.BinOp): return ok(n.left) and ok(n.right)
        if isinstance(n, ast.UnaryOp): return ok(n.operand)
        return False
    if not ok(t.body): return 'refused', None
    def ev(n):
        if isinstance(n, ast.Constant): return n.value
        if isinstance(n, ast.Name): return reg[n.id]
        if isinstance(n, ast.BinOp): return _OPS[type(n.op)](ev(n.left), ev(n.right))
        return _OPS[type(n.op)](ev(n.operand))
    try:
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return 'value', ev(t.body)
    except Exception: return 'error', None
_reg = None
def registered(q):
    """the registered names and what they denote"""
    r = q.unit_registry
    for o in (r, r._UnitRegistry__registry):
        for v in vars(o).values():
            if isinstance(v, dict) and 'meter' in v: return v
    raise Skip()
def same_object(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if hasattr(a, 'dimensionality'):
        return dict(a.dimensionality) == dict(b.dimensionality) and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)
    try: return bool(a == b) or a != a and b != b
    except Exception: return False

class ConcH:
    symbolic = False
    def __init__(self, q, seed, hints=()):
        self.q, self.r = q, random.Random(seed)
        q.markup.config.use_unicode = False
        self.np = np.random.default_rng(self.r.getrandbits(32))
        self.hints = list(hints)
        self.shapes = {}
        self.results, self.given, self.aliased = [], [], False
        self.made = {}
        self.failed = []
        self.checked = 0
        self.inputs = []
        self.basis = self.r.random()
        self.base_shape = self.r.choice([(), (3,), (2, 3), (1,), (4,), (2, 2), (), (2, 1, 3)])
        c = self.r.random()
        if c < 0.01: self.base_shape = self.r.choice([(40,), (70,), (3, 40), (130,), (1100,)])
        self.mode = self.r.random()
    def note(self, name, v):
        try: self.inputs.append((name, describe(v)))
        except Exception: self.inputs.append((name, '?'))
        return v
    # ------------------------------------------------------------ inputs
    def _units(self, near=None):
        q, r = self.q, self.r
        P = pool(q)
        m = {}
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
            g = r.choice(P if r.random() < 0.5 else P[:6])
            u = r.choice(g)
            e = r.choice([1, 1, 1, 2, -1, -1, -2, 3, -3, 0.5, -0.5, 1.5, 4, 1.0])
            m[u] = m.get(u, 0) + e
        return {u: p for u, p in m.items() if p}
    def _near(self, m):
        """units of the same dimension as m (often m itself), or almost"""
        q, r = self.q, self.r
        c = r.random()
        if c < 0.3: return dict(m)
        out = {}
        for u, p in m.items():
            g = [x for x in pool(q) if any(y is u for y in x)]
            v = r.choice(r.choice(g)) if g and r.random() < 0.75 else u
            if r.random() < 0.1 and v.__dict__.get('_definition') is not None and not isinstance(v, q.unitquantity.Dimensionless):
                for w, pw in v._definition.dimensionality.items(): out[w] = out.get(w, 0) + pw * p
            else: out[v] = out.get(v, 0) + p
        if c > 0.93:
            u = r.choice(r.choice(pool(q)))
            out[u] = out.get(u, 0) + 1
        if c > 0.9 and out:
            u = r.choice(list(out)); out[u] = -1 if out[u] == -2 else -2 if out[u] == -1 else out[u] * r.choice([-1, 2])
        return {u: p for u, p in out.items() if p}
    def _look(self, *xs):
        """use objects in ways that must leave no trace"""
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for x in xs:
                for f in (hash, str, repr, lambda d: d == d, lambda d: d.string, lambda d: d.unicode, lambda d: d.latex, lambda d: d.html, lambda d: d.ndims, lambda d: d.simplified, lambda d: d.dimensionality, lambda d: d.units, lambda d: d._reference):
                    if self.r.random() < 0.5:
                        try: f(x)
                        except Exception: pass
    def _dim(self, m):
        """a dimensionality with this map; some of them have been something else before"""
        D = self.q.dimensionality.Dimensionality
        c = self.r.random()
        if c > 0.3: return D(m)
        try:
            if c < 0.1:
                d = D(self._units()); self._look(d)
                d **= 0
                d *= D(m)
            elif c < 0.2:
                l = list(m.items()); n = self.r.randint(0, len(l))
                d = D(dict(l[:n])); self._look(d)
                d *= D(dict(l[n:]))
            else:
                l = list(m.items()); n = self.r.randint(0, len(l))
                d = D(dict(l[n:])); self._look(d)
                d /= D({u: -p for u, p in l[:n]})
        except Exception: return D(m)
        return d if dict(d) == m and all(type(d[u]) is type(p) for u, p in m.items()) else D(m)
    def dims(self, name):
        d = self._dim(self._units())
        self.made[name] = d
        return self.note(name, d)
    def named_dims(self, name):
        """a dimensionality over the units of the catalogue"""
        return self.text_dims(name, False)
    def text_dims(self, name, compounds=True):
        q, r = self.q, self.r
        units = catalogue_units(q)
        m = {}
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4])):
            u = r.choice(units) if r.random() < 0.8 or not compounds else r.choice([u for g in pool(q) for u in g])
            m[u] = r.choice([1, 1, 1, -1, -1, 2, -2, 3, -3, 0.5, -0.5, 1.5, -2.5, 10, 12, -20, 100, 1.0, -1.0, 2.0, 0.1, 2.25, 1e-7, -3e-7, 1e22, 1.25e20, 1 / 3, 2 / 3, 123456, 1000000, 1.10, -10.0, 20.5, 100.0,
                             np.int64(2), np.float64(0.5), np.int32(-1), np.float64(-3.0), np.float32(0.5), r.randint(-99, 99) or 1, round(r.uniform(-9, 9), r.choice([1, 2, 3])) or 1.5])
        d = self._dim(m)
        self.made[name] = d
        return self.note(name, d)
    # ------------------------------------------------------------ texts
    def use_unicode(self, b): self.q.markup.config.use_unicode = b
    def any_text(self, name): return self.note(name, random_text(self.q, self.r))
    def unit_texts(self, m, which):
        sym = lambda u: getattr(u, which)
        return [[(sym(u), p * s) for u, p in m.items() if p * s > 0] for s in (1, -1)]
    def is_unit_text(self, r, m, which):
        num, den = self.unit_texts(m, which)
        if not num and not den: return r == 'dimensionless'
        for n, i in [('1', len('1'))] if not num else list(match_product(r, 0, num)):
            if not r.startswith(n): continue
            if not den:
                if i == len(r): return True
                continue
            if r[i:i + 1] != '/': continue
            rest = r[i + 1:]
            if len(den) > 1:
                if rest[:1] != '(' or rest[-1:] != ')': continue
                rest = rest[1:-1]
            if any(j == len(rest) for _, j in match_product(rest, 0, den)): return True
        return False
    def tokens(self, plain, m, which):
        """the (symbol, text of the exponent) pairs of the numerator and of the denominator, in the order of the plain text"""
        num, den = self.unit_texts(m, which)
        for a in permutations_of(num):
            for b in permutations_of(den):
                def side(fs, s):
                    out = []
                    for i, (sym, p) in enumerate(fs):
                        if i:
                            if s[:1] != '*': return None
                            s = s[1:]
                        if not s.startswith(sym): return None
                        s = s[len(sym):]; e = None
                        if p != 1:
                            k = _number.match(s, 2)
                            if s[:2] != '**' or not k: return None
                            e, s = k.group(), s[k.end():]
                        out.append((sym, e))
                    return out, s
                x = side(a, plain) if a else ([], plain[1:] if plain[:1] == '1' else plain)
                if x is None: continue
                rest = x[1]
                if not b:
                    if rest == '' or not a: return x[0], []
                    continue
                rest = rest[1:]
                if len(b) > 1: rest = rest[1:-1]
                y = side(b, rest)
                if y is not None and y[1] == '': return x[0], y[0]
        self.post('the plain text names every unit with its exponent', False)
    def catalogue_unit(self):
        u = self.r.choice(catalogue_units(self.q)) if self.r.random() < 0.9 else self.r.choice([u for g in pool(self.q) for u in g])
        self.note('unit', u)
        return u
    def only_arithmetic(self, s, o):
        c = canary(self.q)
        fired, c.__dict__['fired'] = c.__dict__['fired'], None
        if fired: return False
        k, v = arithmetic_value(self.q, s)
        if k == 'refused': return o.exc is not None
        if k == 'error': return o.exc is not None
        if o.exc is not None: return False
        return same_object(o.value, v)
    def near_dims(self, name, other):
        m = dict(self.made[other])
        items = list(self._near(m).items() if self.r.random() < 0.6 else m.items())
        self.r.shuffle(items)
        d = self.q.dimensionality.Dimensionality()
        for u, p in items: d[u] = p
        if self.r.random() < 0.15 and d:
            u = self.r.choice(list(d)); d[u] = self.r.choice([-1, -2, 1, 2, 0.5])
        self.made[name] = d
        return self.note(name, d)
    def _shape(self, scalar, ndim=None):
        r = self.r
        if scalar: return ()
        if ndim is not None:
            return tuple([3, 4, 2][:ndim]) if r.random() < 0.5 else tuple(r.choice([2, 3, 4]) for _ in range(ndim))
        if r.random() < 0.75: return self.base_shape
        return r.choice([(), self.base_shape[-1:], (1,), (2, 1), (3,), (2, 3), (5,)])
    def _vals(self, shape, dtype, nonzero=False, positive=False):
        r = self.r
        c = r.random()
        def one():
            if self.hints and r.random() < 0.25: return r.choice(self.hints)
            if c < 0.35: return r.choice([0, 1, -1, 2, -2, 3, 10, 5, 7, -4, 12])
            if c < 0.5: return r.choice([0.0, 1.0, -1.0, 0.5, 1e-3, 250.0, 1e6, -0.25, 1.5, 1.000001, 1 - 1e-9])
            return r.choice([r.uniform(-10, 10), r.uniform(0, 1), r.uniform(-1000, 1000), r.lognormvariate(0, 4)])
        a = np.array([one() for _ in range(int(np.prod(shape)))], dtype='d').reshape(shape)
        if nonzero or positive: a = np.where(a == 0, 1.0, a)
        if positive: a = np.abs(a)
        k = np.dtype(dtype).kind
        if k in 'iu':
            a = np.clip(np.round(a), -10**9, 10**9)
            if k == 'u': a = np.abs(a)
            if nonzero or positive: a = np.where(a == 0, 1, a)
        if np.dtype(dtype).itemsize <= 2 and k in 'iu': a = np.clip(a, -100, 100)
        a = np.array(a, dtype=dtype)
        c = r.random()
        if a.ndim and c < 0.1:   # (not reversed: maximum.reduce of numpy 2.0.2 with an output is wrong on those)
            # the same numbers, laid out differently in memory
            if c < 0.05: return np.repeat(a, 2, axis=-1)[..., ::2]
            return np.asfortranarray(a)
        return a
    def _dtype(self, dtype):
        if isinstance(dtype, np.dtype): return dtype
        if dtype == 'any': return self.r.choice(['d', 'd', 'd', 'l', 'l', 'f', 'i', 'd'])
        return {'float': 'd', 'int': 'l', 'bool': '?'}[dtype]
    def _dimsfor(self, dims, near):
        if dims is not None: return dict(dims)
        if near is not None: return self._near(dict(self.map(near)))
        return self._units()
    def _mk(self, arr, dims):
        D = self.q.dimensionality.Dimensionality
        if np.asarray(arr).dtype.kind == 'f' and self.r.random() < 0.15:
            # one that was in other units before
            l = list(dims.items()); n = self.r.randint(0, len(l))
            try:
                x = self.q.Quantity(np.array(arr), D(dict(l[:n]))); self._look(x)
                y = x
                y *= self.q.Quantity(1.0, D(dict(l[n:])))
                if y is x and type(y) is self.q.Quantity and dict(y.dimensionality) == dims and y.dtype == arr.dtype and np.array_equal(np.asarray(y), arr): return y
            except Exception: pass
        x = self.q.Quantity(arr, D(dims))
        # one that owns its data
        return x.copy() if np.ndim(arr) and self.r.random() < 0.15 else x
    def quantity(self, name, dims=None, near=None, scalar=False, dtype='any', cls=None, positive=False, view=False, shape=None, nonzero=False, ndim=None, frozen=False, same=None):
        shp = self._shape(scalar, ndim) if shape is None else shape
        if same is not None: shp = np.shape(same)
        if cls is None and not frozen:
            x = self._again(self.q.Quantity, shp if shape is not None or same is not None or scalar else None, ndim, dims, dtype, nonzero, positive)
            if x is not None: return self.note(name, x)
        a = self._vals(shp, self._dtype(dtype), nonzero, positive)
        x = self._mk(a, self._dimsfor(dims, near))
        if view:
            big = self._mk(np.concatenate([a.reshape((1,) + a.shape)] * 2), self._dimsfor(dims, near))
            x = big[1]
            if shp == (): x = big[1:].reshape(())
        if cls is not None: x = x.view(cls)
        if frozen: x.flags.writeable = False
        self.given.append(x)
        return self.note(name, x)
    def _again(self, cls, shape, ndim, dims, dtype, nonzero, positive):
        """an operand given before once more, or a view of it; only for calls that write to no operand"""
        if not self.aliased or not self.given or self.r.random() > 0.1: return None
        z = self.r.choice(self.given)
        a = np.asarray(z)
        if type(z) is not cls or ndim is not None and z.ndim != ndim or dims is not None and dict(dims) != dict(z.dimensionality): return None
        if shape is not None and z.shape != tuple(shape) or nonzero and not a.all() or positive and not (a > 0).all(): return None
        if dtype != 'any' and np.dtype({'float': 'd', 'int': 'l', 'bool': '?'}.get(dtype, dtype)) != z.dtype: return None
        c = self.r.random()
        return z if c < 0.5 or not z.ndim else z[::-1] if c < 0.9 else z[:]
    def uncertain(self, name, dims=None, near=None, scalar=False, nonzero=False, positive=False, **k):
        shp = self._shape(scalar) if k.get('same') is None else np.shape(k['same'])
        dt = k.get('dtype', 'd')
        if not k.get('nan'):
            x = self._again(self.q.UncertainQuantity, shp if scalar or k.get('same') is not None else None, None, dims, dt, nonzero, positive)
            if x is not None: return self.note(name, x)
        a = self._vals(shp, dt if dt == 'd' else self._dtype(dt), nonzero, positive)
        s = np.abs(self._vals(shp, 'd' if dt == 'd' else self.r.choice('dff')))
        if k.get('nan') and self.r.random() < 0.6: a = np.where(self.np.random(shp) < 0.3, np.nan, a)
        if self.r.random() < 0.5: s = s * 0.01
        d = self.q.dimensionality.Dimensionality(self._dimsfor(dims, near))
        x = self.q.UncertainQuantity(a, d, s) if dt == 'd' else self.q.UncertainQuantity(a, d, s, dtype=a.dtype)
        self.given.append(x)
        return self.note(name, x)
    def unit(self, name, kind='derived', near=None, cls=None):
        q = self.q
        if kind == 'dimensionless': return self.note(name, q.dimensionless)
        P = pool(q)
        uq = q.unitquantity
        if cls is not None: 
            c = [u for g in P for u in g if type(u) is cls]
            return self.note(name, self.r.choice(c))
        if near is not None and self.r.random() < 0.7:
            b = self.base(self.map(near))
            g = [u for x in P for u in x[:1] if self.base(self.map(u)).eq(b)]
            g = [u for x in P if x[0] in g for u in x if self._kind(u) == kind]
            if g and self.r.random() < 0.8: return self.note(name, self.r.choice(g))
            if kind in ('derived', 'compound', 'constant'):
                k = (kind, self.r.random() < 0.5, tuple(sorted((u._name, float(p)) for u, p in self.map(near).items())))
                if k not in _made:
                    ref = self._mk(np.array(1.0), self._near(dict(self.map(near))))
                    try:
                        if kind == 'derived': _made[k] = q.UnitQuantity(self.new_name('w'), ref * float(self.r.choice([1, 2.5, 0.25, 1000, 12])))
                        elif kind == 'constant':
                            # the symbols of constants are not registered: different ones can have the same
                            _made[k] = q.UnitConstant(self.new_name('w'), ref * float(self.r.choice([1, 2.5, 0.25, 1000, 12])), symbol='pydvk')
                        else:
                            u = q.CompoundUnit(ref.dimensionality.string)
                            _made[k] = u if dict(u._definition.dimensionality) == dict(ref.dimensionality) else None
                    except Exception: _made[k] = None
                if _made[k] is not None: return self.note(name, _made[k])
        c = [u for g in P for u in g if self._kind(u) == kind]
        return self.note(name, self.r.choice(c))
    def _kind(self, u):
        uq = self.q.unitquantity
        if isinstance(u, uq.CompoundUnit): return 'compound'
        if isinstance(u, uq.UnitConstant): return 'constant'
        if u._definition is None: return 'base'
        return 'derived'
    def number(self, name, kind='float', nonzero=False, positive=False):
        if kind == 'int':
            v = self.r.choice([0, 1, 2, 3, -1, -2, 5, 10]) if self.r.random() < 0.8 or not self.hints else int(self.r.choice(self.hints))
        else:
            v = float(self.r.choice([self.r.choice([0.0, 1.0, 2.0, 0.5, -1.0, -0.5, 3.0, 1e3]), self.r.uniform(-5, 5), float(self._vals((), 'd'))]))
        if positive: v = abs(v)
        if nonzero and v == 0 or positive and v == 0: v = type(v)(1)
        if kind == 'npfloat': v = np.float64(v)
        return self.note(name, v)
    def array(self, name, dtype='any', scalar=False, nonzero=False, positive=False, shape=None, ndim=None, uniform=False):
        if uniform and self.r.random() < 0.7:
            a = np.full(self._shape(scalar, ndim), float(self.r.choice([0, 1, 2, 3, -1, -2, 0.5, 1.5])))
            if a.size > 1 and self.r.random() < 0.2: a.flat[self.r.randrange(a.size)] += self.r.choice([1e-6, -1e-9, 1e-4])
            return self.note(name, a)
        return self.note(name, self._vals(self._shape(scalar, ndim) if shape is None else shape, self._dtype(dtype), nonzero, positive))
    def list(self, name, nonzero=False):
        shp = self.base_shape or (3,)
        return self.note(name, self._vals(shp, 'd', nonzero).tolist())
    def operand(self, name, kind, **k):
        if kind == 'quantity': return self.quantity(name, **k)
        if kind == 'scalarq': return self.quantity(name, scalar=True, **k)
        if kind == 'view': return self.quantity(name, view=True, **k)
        if kind == 'uncertain': return self.uncertain(name, **k)
        if kind in ('derived', 'base', 'compound', 'dimensionless', 'constant'): return self.unit(name, kind, near=k.get('near'))
        k.pop('near', None); k.pop('dims', None); k.pop('same', None)
        if kind in ('float', 'int', 'npfloat'): return self.number(name, kind, **k)
        if kind == 'ndarray': return self.array(name, **k)
        if kind == 'list': return self.list(name, nonzero=k.get('nonzero', False))
        raise ValueError(kind)
    def with_nan(self, name, x):
        """the quantity with some elements that are not a number"""
        a = np.array(np.asarray(x), dtype='d')
        a = np.where(self.np.random(a.shape) < 0.5, np.nan, a)
        return self.note(name, self._mk(a, self.map(x)))
    def unit_quantity(self, name, near=None):
        return self.note(name, self._mk(np.array(1.0), self._dimsfor(None, near)))
    def representable(self, x, ratio, dtype='d'):
        if not hasattr(x, 'dtype'): return
        if dtype == 'f' or x.dtype.kind == 'f' and x.dtype.itemsize < 8:
            if not 1e-20 < abs(ratio) < 1e20: raise Skip()
        elif not 1e-150 < abs(ratio) < 1e150: raise Skip()
    def dims_of(self, x): return x.dimensionality
    def unit_string(self, x):
        d = x.dimensionality
        for u in d:
            try: ok = self.q.unit_registry[str(u.symbol)] is u
            except Exception: ok = False
            if not ok: raise Skip()
        return d.string
    def single(self, x): return np.shape(x) in ((), (1,))
    def all_one(self, m): return bool(np.all(m.a == 1))
    nnames = 0
    def new_name(self, name):
        ConcH.nnames += 1
        return 'pydv_%s_%d_%d' % (name, os.getpid(), ConcH.nnames)
    @contextlib.contextmanager
    def preferred(self, ps):
        old = self.q.quantity.PREFERRED
        self.q.quantity.PREFERRED = list(ps)
        try: yield
        finally: self.q.quantity.PREFERRED = old
    def _dcls(self):
        u = self.q.unitquantity
        return [c for c in u.IrreducibleUnit.__subclasses__()]
    def defaults(self): return {c: c._default_unit for c in self._dcls() if c._default_unit is not None}
    @contextlib.contextmanager
    def any_defaults(self):
        """an arbitrary state of the default units"""
        old = {c: c.__dict__.get('_default_unit', contextlib) for c in self._dcls()}
        try:
            if self.r.random() < 0.7:
                for c in old:
                    l = [u for g in pool(self.q) for u in g if type(u) is c]
                    if l and self.r.random() < 0.5: c._default_unit = self.r.choice(l)
            yield
        finally:
            for c, d in old.items():
                if d is contextlib: 
                    if '_default_unit' in c.__dict__: del c._default_unit
                else: c._default_unit = d
    def default_candidate(self, name, C):
        l = [u for g in pool(self.q) for u in g if type(u) is C and not u._name.startswith('pydv')] or [C._default_unit]
        return self.note(name, self.r.choice(l))
    def irreducible(self, name, C):
        u = self.default_candidate(name, C)
        return u, C._default_unit
    def name_of(self, u): return u._name
    def index(self, name='i'):
        k = self.r.choice([0, -1, slice(None), slice(1, None), slice(None, None, -1), Ellipsis, slice(0, 2), (Ellipsis, 0), np.array([0, 0])])
        return self.note(name, k)
    def axis(self, x):
        n = np.ndim(x)
        if n == 0: raise Skip()
        return self.note('axis', self.r.randrange(-n, n))
    def count(self, x, axis=None): return x.size if axis is None else x.shape[axis]
    def out_like(self, name, m, dims=None):
        return self.note(name, self._mk(self._vals(m.shape, m.dtype), dims if dims is not None else self._units()))
    def plain_like(self, name, m): return self.note(name, self._vals(m.shape, m.dtype))
    def attempt(self, f):
        try: return f()
        except (IndexError, ValueError, TypeError): return None
    def index_array(self, x, kind):
        if np.ndim(x) == 0: raise Skip()
        if kind == 'mask': return self.note('mask', self.np.random(x.shape if self.r.random() < 0.6 else x.shape[:1]) < 0.5)
        n = x.shape[0]
        return self.note('index', np.array([self.r.randrange(-n, n + (self.r.random() < 0.1)) for _ in range(self.r.choice([1, 2, 3]))]))
    def indices(self, x, mode):
        n = max(x.size, 1)
        if self.r.random() < 0.4: return self.note('index', self.r.randrange(-n, n) if mode != 'wrap' else n + 1)
        return self.note('index', [self.r.randrange(-n, n + (self.r.random() < 0.3)) for _ in range(self.r.choice([1, 2, 3]))])
    def put(self, m, k, v, mode): return self._store(m, v, lambda a, w: a.put(k, w, mode))
    def _store(self, m, v, f):
        """f(array, values) stores into an array: apply it to the numbers, their error bounds and their definedness"""
        a, e, ok = m.a.copy(), np.array(np.broadcast_to(m.err, m.a.shape), dtype=float), np.ones(m.a.shape, bool)
        v = CMag.of(v)
        if a.dtype.kind in 'iu' and v.a.dtype.kind in 'fc':
            if np.any(np.abs(v.a) > 1e9): raise Skip()      # out of range of the integer type
            v = self.cast(v, m)
        with np.errstate(all='ignore'):
            f(a, v.a); f(e, v.err); f(ok, v.ok)
        return CMag(a, e, ok)
    def sorted_quantity(self, name):
        a = np.sort(self._vals((self.r.choice([1, 3, 6]),), 'd'))
        return self.note(name, self._mk(a, self._units()))
    def complex_quantity(self, name, kind):
        shp = self._shape(False)
        x = self._mk(self._vals(shp, 'd') + 1j * self._vals(shp, 'd'), self._units())
        if kind == 'view' and shp: x = x[::-1]
        return self.note(name, x)
    def dimension(self, x, n): pass
    def scalar_shape(self, x): return np.shape(x) == ()
    def shape_of(self, x): return np.shape(x)
    def samples(self): return self.r.choice([(1,), (2,), (4,), (3, 4), (6,)])
    def gradients(self, m, ds, ndim):
        if min(m.shape) < 2: raise Skip()
        def f(a): 
            r = np.gradient(a, *[d.a for d in ds])
            return [r] if ndim == 1 else list(r)
        with np.errstate(all='ignore'):
            r = f(m.a)
            sc = float(np.max(np.abs(m.a))) / float(min([abs(float(d.a)) for d in ds] + [1.0])) if m.a.size else 0
        return [CMag(x, np.abs(x) * 1e-11 + sc * 1e-13) for x in r]
    def trapezoid(self, y, x, dx):
        with np.errstate(all='ignore'):
            r = np.trapezoid(y.a, None if x is None else x.a, dx.a if isinstance(dx, CMag) else dx, -1)
            big = lambda m: float(np.max(np.abs(m.a))) if m.a.size else 0.0
            sc = big(y) * y.a.size * (big(x) if x is not None else abs(float(dx.a)) if isinstance(dx, CMag) else 1.0)
        return CMag(r, np.abs(r) * 1e-11 + sc * 1e-14)
    def vector(self, name, kind):
        shp = self.r.choice([(3,), (3,), (2, 3)])
        return self.operand(name, kind, shape=shp)
    def with_unit_axis(self): return self.r.choice([(1, 3), (1,), (1, 2, 1), (1, 1)])
    def unit_axis(self): return 0
    def opaque(self, name): return self.note(name, self.r.choice([0, 1, 2]))
    def boolean(self, name): return self.note(name, self.r.random() < 0.5)
    # ------------------------------------------------------------ observation
    def is_quantity(self, x): return isinstance(x, self.q.Quantity)
    def is_unit(self, x): return isinstance(x, self.q.UnitQuantity)
    def cls(self, x): return type(x)
    def isinstance(self, x, c): return isinstance(x, c)
    def map(self, x):
        if isinstance(x, CMap): return x
        if isinstance(x, dict): return CMap(x)
        if isinstance(x, self.q.Quantity):
            d = x._dimensionality if not isinstance(x, self.q.UnitQuantity) else (CMap() if isinstance(x, self.q.unitquantity.Dimensionless) else {x: 1})
            return CMap({u: p for u, p in d.items()})
        return CMap()
    def empty(self): return CMap()
    def one(self, u): return self.map(u)
    def mag(self, x):
        if isinstance(x, CMag): return x
        return CMag(np.asarray(x))
    def has_magnitude(self, x): return not isinstance(x, (dict, str, tuple, type(None)))
    def unc(self, x): return CMag(np.asarray(x._uncertainty))
    def unc_obj(self, x): return getattr(x, '_uncertainty', None)
    def scalar(self, x):
        v = x.item() if isinstance(x, np.generic) else x
        return v
    def size(self, m): return map_size(self.q, m)
    def base(self, m): return map_base(self.q, m)
    def _dflt(self, b):
        s, o = 1.0, CMap()
        for u, p in b.items():
            d = type(u)._default_unit if hasattr(type(u), '_default_unit') else u
            s *= (unit_size(self.q, u) / unit_size(self.q, d)) ** p
            o = o + CMap({d: p})
        return s, o
    def dsize(self, m): return map_size(self.q, m) * self._dflt(map_base(self.q, m))[0]
    def dbase(self, m): return self._dflt(map_base(self.q, m))[1]
    def compatible(self, a, b): return map_base(self.q, a).eq(map_base(self.q, b))
    def phys(self, x): return self.mag(x) * self.size(self.map(x))
    def fn(self, name, *ms, **kw):
        f = getattr(np, name) if isinstance(name, str) else name
        ms = [CMag.of(m) for m in ms]
        if f in (np.power, np.float_power):
            ms = [CMag(m.a, m.err if i == 0 else np.zeros(m.a.shape)) for i, m in enumerate(ms)]
        try: return ms[0]._ap(f, *ms)
        except (ValueError, TypeError): raise Skip()
    def red(self, name, m, *args, **kw):
        if isinstance(m, CMag): a = m
        else: a = self.mag(m)
        args = [x.a if isinstance(x, CMag) else x for x in args]
        kw = {k: x.a if isinstance(x, CMag) else x for k, x in kw.items()}
        def f(z):
            if name in ('nansum', 'nanmean', 'nanstd', 'nanmax', 'nanmin', 'nanargmax', 'nanargmin', 'diff', 'ediff1d', 'cross', 'unwrap', 'ptp', 'size', 'gradient', 'nanvar'):
                r = getattr(np, name)(z, *args, **kw)
            else: r = getattr(z, name)(*args, **kw)
            return r[0] if isinstance(r, tuple) else r
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                r = np.asarray(f(a.a))
        except Exception as ex:
            raise Skip()
        if name == 'unwrap':
            # discontinuous: only where a small change of the data changes little
            with np.errstate(all='ignore'):
                for k in (1 - 1e-7, 1 + 1e-7):
                    for z in (a.a * k, a.a * np.where(np.arange(a.a.shape[-1]) % 2, k, 1)):
                        r2 = np.asarray(f(z))
                        if not np.allclose(r2, r, rtol=1e-5, atol=1e-5 * (1 + np.max(np.abs(a.a), initial=0))): raise Skip()
        if r.dtype.kind in 'fc':
            sc = np.max(np.abs(a.a[np.isfinite(a.a)])) if a.a.size and np.isfinite(a.a).any() else 0
            p = 2 if name == 'var' else 1
            e = np.abs(r) * 1e-9 + (float(sc) ** p) * (eps_of(r.dtype) + eps_of(a.dtype if a.dtype.kind in 'fc' else float)) * max(1, a.a.size) * 4
            return CMag(r, e)
        return CMag(r)
    def boolean_values(self, r): return np.asarray(r).dtype.kind == 'b'
    def everywhere(self, m, b, where=None): return bool(np.all((m.a == b) | (False if where is None else ~where.ok)))
    def equal(self, a, b): return bool(np.array_equal(a.a, b.a))
    def exact(self, m): return CMag(m.a, np.zeros(m.a.shape))
    def value(self, m): return m.a.item()
    def holds(self, like, m): return np.can_cast(m.dtype, like.dtype, 'same_kind')
    def getitem(self, m, k): return CMag(m.a[k], np.asarray(m.err)[k] if np.shape(m.err) == m.a.shape else None)
    def setitem(self, m, k, v): return self._store(m, v, lambda a, w: a.__setitem__(k, w))
    def cast(self, m, like):
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if like.dtype.kind in 'iu' and m.a.dtype.kind in 'fc':
                # the integer next to a value that is not exactly computed is not determined
                ok = (np.floor(m.a - m.err) == np.floor(m.a + m.err)) & (np.abs(m.a) < 1e9)
                return CMag(m.a.astype(like.dtype), np.zeros(m.a.shape), ok)
            return CMag(m.a.astype(like.dtype), m.err + np.abs(m.a) * eps_of(like.dtype) if like.dtype.kind in 'fc' else m.err, m.ok)
    # ------------------------------------------------------------ formulas
    def And(self, *a): return all(bool(x) for x in a)
    def Or(self, *a): return any(bool(x) for x in a)
    def Not(self, a): return not a
    def Implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def eqmap(self, a, b): return a.eq(b)
    def eqnum(self, a, b): return abs(a - b) <= 1e-12 * max(abs(a), abs(b), 1e-300)
    def lt(self, a, b): return a < b
    def same(self, got, want, dtype=False):
        g = got if isinstance(got, CMag) else self.mag(got)
        w = want if isinstance(want, CMag) else self.mag(want)
        if g.shape != w.shape: return False
        if dtype and g.dtype != w.dtype: return False
        with np.errstate(all='ignore'):
            err = np.asarray(w.err, dtype=float)
            big = np.abs(w.a) > 1e30 if w.a.dtype.kind in 'fc' else (np.abs(w.a.astype(float)) > 1e15 if w.a.dtype.kind in 'iu' else np.zeros(w.shape, bool))
            if g.a.dtype.kind == 'f': err = err + np.abs(w.a) * eps_of(g.a.dtype)
            diff = np.abs(g.a.astype(complex if g.a.dtype.kind == 'c' else float) - w.a.astype(complex if w.a.dtype.kind == 'c' else float))
            good = (diff <= 64 * err + 1e-300) | ~np.broadcast_to(w.ok, w.shape) | big
        return bool(np.all(good))
    def same_shape(self, a, b): return self.mag(a).shape == self.mag(b).shape
    def broadcasts(self, *ms):
        try: return np.broadcast_shapes(*[self.mag(m).shape for m in ms]) == self.mag(ms[0]).shape
        except ValueError: return False
    def conform(self, *ms):
        try: np.broadcast_shapes(*[self.mag(m).shape for m in ms])
        except ValueError: raise Skip()
    def defined(self, m): return bool(np.all(self.mag(m).ok))
    def nonnegative(self, m, where=None): return bool(np.all((m.a >= 0) | (False if where is None else ~np.broadcast_to(where.ok, m.shape))))
    def zero_where_nan(self, m, v): return CMag(np.where(np.isnan(m.a), 0, v.a), np.where(np.isnan(m.a), 0, v.err), np.isnan(m.a) | v.ok)
    def numbers(self, m): return CMag(~np.isnan(m.a))
    def at(self, m, i, axis):
        """the elements of m at the indices i along the axis"""
        if axis is None: return CMag(m.a.ravel()[int(i.a)], np.broadcast_to(m.err, m.a.shape).ravel()[int(i.a)])
        j = np.expand_dims(i.a, axis)
        return CMag(np.take_along_axis(m.a, j, axis).squeeze(axis), np.take_along_axis(np.broadcast_to(m.err, m.a.shape), j, axis).squeeze(axis))
    def asarray(self, m): return m
    def astype(self, m, dtype): return self.cast(m, CMag(np.zeros((), dtype)))
    def extreme(self, got, want): self.post('the extreme value', self.same(got, want))
    def holds_type(self, m, dtype): return np.promote_types(m.a.dtype, dtype) == m.a.dtype
    def all_zero(self, m): return not np.any(self.mag(m).a)
    def identical(self, a, b): return a is b
    def shares(self, a, b):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b)
    def is_view(self, v, x): return v is not x and np.shares_memory(v, x)
    def shares_dims(self, a, b):
        g = lambda x: x if isinstance(x, dict) else x.__dict__.get('_dimensionality') if isinstance(x, np.ndarray) and hasattr(x, '__dict__') else None
        return g(a) is not None and g(a) is g(b)
    # ------------------------------------------------------------ control
    def assume(self, f):
        if not f: raise Skip()
    def branch(self, f): return bool(f)
    def run(self, fn, *args):
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                r = fn(*args)
                self.results.append(r)
                return Outcome(r)
            except RecursionError as ex: return Outcome(None, RecursionError, ex)
            except Exception as ex: return Outcome(None, type(ex), ex)
    run_raw = run
    def post(self, name, goal):
        self.checked += 1
        if not goal:
            self.failed.append(name)
            raise PostFailed(name)
    def returns(self, o, name='returns'):
        self.checked += 1
        if o.exc is not None:
            self.failed.append('%s (raises %s: %s)' % (name, o.exc.__name__, o.excobj))
            raise PostFailed(name)
        return o.value
    def raises(self, o, excs, name='raises'):
        excs = excs if isinstance(excs, tuple) else (excs,)
        self.checked += 1
        if o.exc is None or not issubclass(o.exc, excs):
            self.failed.append('%s %s (%s)' % (name, '/'.join(x.__name__ for x in excs), 'returned %s' % describe(o.value) if o.exc is None else 'raised %s: %s' % (o.exc.__name__, o.excobj)))
            raise PostFailed(name)
    def fail(self, msg):
        self.failed.append(msg)
        raise PostFailed(msg)
    # ------------------------------------------------------------ units and the registry
    def protocol(self): return self.note('protocol', self.r.choice([0, 1, 2, 3, 4, 5]))
    def element(self, x):
        if x.ndim == 0 or x.shape[0] == 0: return x
        return x[self.r.choice([slice(0, 1), slice(None, None, 2), slice(None, None, -1)])]
    def writeable(self, x): return bool(x.flags.writeable)
    def all_true(self, m): return bool(np.all(m.a))
    def text(self, u, which): return getattr(u, which)
    def unit_state(self, u):
        d = u.__dict__.get('_definition')
        return dict(name=u.name, symbol=u.symbol, u_symbol=u.u_symbol, format_order=u.format_order, aliases=list(getattr(u, '_aliases', ()) or ()), elem=float(np.asarray(u)), writeable=u.flags.writeable, shape=u.shape, dtype=u.dtype.str,
                    hash=hash(u), size=map_size(self.q, CMap({u: 1})), simplified=str(u.simplified), definition=None if d is None or d is u else (np.asarray(d).tolist(), {(type(k).__name__, k.name): p for k, p in d.dimensionality.items()}))
    def same_unit_state(self, a, b, order=False):
        return all(a[k] == b[k] for k in a if k != 'format_order' or order)
    def denotes(self, s, u):
        try: return self.q.unit_registry[s] is u or not s.isidentifier()
        except Exception: return not s.isidentifier()
    def elsewhere(self, xs):
        import pickle, subprocess
        from . import boot
        code = ("import sys; sys.path.insert(0, %r); from pydv import boot; boot.load_repo(); import pickle; from pydv.conc import portrait\n"
                "d = pickle.load(sys.stdin.buffer); sys.stdout.buffer.write(pickle.dumps([portrait(x) for x in d]))" % os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        p = subprocess.run([sys.executable, '-B', '-c', code], input=pickle.dumps(xs, self.r.choice([0, 2, 4, 5])), capture_output=True, timeout=60, env=dict(os.environ, PYDV_REPO=boot.REPO))
        if p.returncode: self.fail('the other process fails: %s' % p.stderr.decode(errors='replace')[-300:])
        got = pickle.loads(p.stdout)
        want = [portrait(x) for x in xs]
        for g, w in zip(got, want):
            if g != w: self.fail('in another process: %r instead of %r' % (g, w))
        return len(got) == len(want)
    def new_text(self, n): return self.new_name(n)
    def some_name(self, u):
        c = [x for x in [u.name, u.symbol] + list(getattr(u, '_aliases', ()) or ()) if isinstance(x, str) and x.isidentifier() and self.denotes(x, u)]
        if not c: raise Skip()
        return self.note('name', self.r.choice(c))
    def equal_units(self, u, v):
        return self.compatible(self.map(u), self.map(v)) and self.eqsize(map_size(self.q, self.map(u)), map_size(self.q, self.map(v)))
    def eqsize(self, a, b):
        a, b = float(np.asarray(getattr(a, 'a', a))), float(np.asarray(getattr(b, 'a', b)))
        if 0 < abs(a - b) < 1e-9 * abs(b): raise Skip()
        if a == b and self.r.random() < 0 : raise Skip()
        return a == b
    def is_text(self, s, *alts): return s == [a for a in alts if a][0]
    def no_text(self, s): return not s
    def unregistered(self, s):
        try: self.q.unit_registry[s]
        except LookupError: return True
        return False
    def like_unit(self, u): return _copy.copy(u) if self.r.random() < 0.3 else __import__('pickle').loads(__import__('pickle').dumps(u))
    def different(self, u, v):
        if type(u) is type(v) and u.name == v.name: raise Skip()
        return True
    def done(self): raise Skip()

def describe(v):
    if isinstance(v, np.ndarray):
        d = v.__dict__.get('_dimensionality') if hasattr(v, '__dict__') else None
        s = '%s(%s, dtype=%s' % (type(v).__name__, np.asarray(v).tolist(), v.dtype)
        if hasattr(v, '_name'): return 'unit %s' % v._name
        if d is not None: s += ', units={%s}' % ', '.join('%s: %s' % (u._name, p) for u, p in d.items())
        if '_uncertainty' in getattr(v, '__dict__', {}): s += ', uncertainty=%s' % describe(v.__dict__['_uncertainty'])
        return s + ')'
    if isinstance(v, dict) and v and all(hasattr(u, '_name') for u in v): return '%s{%s}' % (type(v).__name__, ', '.join('%s: %s' % (u._name, p) for u, p in v.items()))
    return repr(v)[:300]

ALIASED = {'product', 'sum_quantities', 'uncertain_product', 'uncertain_sum', 'comparison', 'binary_ufunc', 'power_dimensional', 'hypot', 'arctan2', 'cross', 'trapz', 'gradient', 'searchsorted', 'clip', 'get_factor', 'factors_compose'}
def run_case(q, case, seed, hints=()):
    """one concrete run; returns (status, h, message)"""
    def start():
        h = ConcH(q, seed, hints)
        h.aliased = case.name.split('[')[0] in ALIASED
        return h
    h = start()
    try:
        case.run(h)
        if seed % 5 == 0 and h.results and 'reference' not in case.name and not any(f.endswith('._reference') for f in case.funcs):
            # what a call returned belongs to the caller: changing it must not change what the same calls give later
            for x in h.results: spoil(q, x)
            first, h = h, start()
            h.inputs.append(('history', 'the same calls once before, and their results changed in place'))
            case.run(h)
            h.checked += first.checked
        return 'ok', h, ''
    except Skip: return 'skip', h, ''
    except PostFailed as ex: return 'failed', h, h.failed[-1]
def spoil(q, x, depth=0):
    """change an object in place, as its owner may"""
    if isinstance(x, (list, tuple)) and depth < 3:
        for y in x[:8]: spoil(q, y, depth + 1)
        return
    if isinstance(x, q.UnitQuantity): return
    kg = q.unit_registry['kilogram']
    def change(f):
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try: f(x)
            except Exception: pass
    if isinstance(x, q.Quantity):
        change(lambda x: operator.imul(x, 3))
        change(lambda x: operator.imul(x, q.Quantity(1, kg)))
        change(lambda x: x.fill(np.asarray(x).flat[0] + 1))
    elif isinstance(x, q.dimensionality.Dimensionality):
        change(lambda x: operator.imul(x, kg.dimensionality))
        change(lambda x: operator.ipow(x, 3))
    elif isinstance(x, np.ndarray):
        change(lambda x: operator.imul(x, 3))
        change(lambda x: x.fill(0))
def portrait(x):
    """a description of an object that does not depend on the process"""
    import quantities as q
    un = lambda u: (type(u).__name__, u.name, u.symbol, u.u_symbol, repr(float('%.12g' % map_size(q, CMap({u: 1})))), sorted((k.name, repr(float(p))) for k, p in map_base(q, CMap({u: 1})).items()))
    dm = lambda d: sorted((un(u), repr(float(p))) for u, p in d.items())
    if isinstance(x, q.UnitQuantity): return un(x), x.flags.writeable, repr(float('%.12g' % float((3 * x).simplified.magnitude))), float((2 * x).rescale(x).magnitude)
    if isinstance(x, q.Quantity):
        r = [type(x).__name__, x.dtype.str, x.shape, np.asarray(x).tobytes(), dm(x.dimensionality), str(x.dimensionality)]
        if hasattr(x, '_uncertainty'): r += [np.asarray(x._uncertainty).tobytes(), dm(x._uncertainty.dimensionality)]
        return r
    return type(x).__name__, dm(x), x.string
