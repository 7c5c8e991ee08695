"""Exact meaning of the unit and constant definitions: the module bodies of quantities/units and quantities/constants are
executed with every numeric literal taken as an exact rational (pi as a symbol) and the unit classes replaced by their
contract (a new unit is as big as its definition; a base unit without definition has a dimension of its own; products,
quotients and powers multiply sizes and add exponents - proved in C01, C02, C08).  The size of each unit is then a closed
term, and every obligation about it is decided by exact rational arithmetic."""
import ast, os, sys, types, builtins
from fractions import Fraction as F

class Unsupported(Exception): pass

def factor(n):
    out, p = {}, 2
    while p * p <= n and p < 10 ** 6:
        while n % p == 0: out[p] = out.get(p, 0) + 1; n //= p
        p += 1
    if n > 1: out[n] = out.get(n, 0) + 1
    return out

class Ex:
    """c * pi**k * prod(p**r) * prod(base unit ** e): an exact number with dimensions"""
    def __init__(self, c, k=F(0), rad=(), dims=()):
        self.c, self.k, self.rad, self.dims = F(c), F(k), {p: r for p, r in dict(rad).items() if r}, {b: e for b, e in dict(dims).items() if e}
        for p in list(self.rad):
            w = self.rad[p].numerator // self.rad[p].denominator
            if w:
                self.c *= F(p) ** w
                self.rad[p] -= w
                if not self.rad[p]: del self.rad[p]
    vague = False     # a sum of irrational numbers: not exact any more
    def like(self, *o):
        if any(x.vague for x in o): self.vague = True
        return self
    @staticmethod
    def of(x):
        if isinstance(x, Ex): return x
        if isinstance(x, XUnit): return x.size
        if isinstance(x, bool): raise Unsupported('truth value as a number')
        if isinstance(x, (int, F)): return Ex(x)
        if isinstance(x, float): return Ex(F(repr(x)) if x == x and abs(x) != float('inf') else 0)
        return NotImplemented
    def _mul(self, o, s):
        o = Ex.of(o)
        if o is NotImplemented: return o
        if s < 0 and o.c == 0: raise ZeroDivisionError
        add = lambda a, b: {k: a.get(k, F(0)) + s * b.get(k, F(0)) for k in set(a) | set(b)}
        return Ex(self.c * o.c if s > 0 else self.c / o.c, self.k + s * o.k, add(self.rad, o.rad), add(self.dims, o.dims)).like(self, o)
    def __mul__(self, o): return self._mul(o, 1)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._mul(o, -1)
    def __rtruediv__(self, o):
        o = Ex.of(o)
        return o if o is NotImplemented else o._mul(self, -1)
    def __pow__(self, o):
        o = Ex.of(o)
        if o is NotImplemented: return o
        if o.k or o.rad or o.dims: raise Unsupported('irrational exponent')
        e = o.c
        if e.denominator == 1: c, rad = self.c ** int(e), {}
        else:
            if self.c < 0: raise Unsupported('root of a negative number')
            c, rad = F(1), {}
            for s, n in ((1, self.c.numerator), (-1, self.c.denominator)):
                for p, m in factor(n).items() if n > 1 else (): rad[p] = rad.get(p, F(0)) + s * m * e
        for p, r in self.rad.items(): rad[p] = rad.get(p, F(0)) + r * e
        return Ex(c, self.k * e, rad, {b: x * e for b, x in self.dims.items()}).like(self, o)
    def __rpow__(self, o):
        o = Ex.of(o)
        return o if o is NotImplemented else o ** self
    def _add(self, o, s):
        o = Ex.of(o)
        if o is NotImplemented: return o
        if o.c == 0 and not o.dims: return self
        if self.dims != o.dims: raise ValueError('sum of different dimensions')
        if (self.k, self.rad) != (o.k, o.rad):
            r = Ex(F(float(self) + s * float(o)), dims=self.dims)
            r.vague = True
            return r
        return Ex(self.c + s * o.c, self.k, self.rad, self.dims).like(self, o)
    def __add__(self, o): return self._add(o, 1)
    __radd__ = __add__
    def __sub__(self, o): return self._add(o, -1)
    def __rsub__(self, o): return (-self)._add(o, 1)
    def __neg__(self): return Ex(-self.c, self.k, self.rad, self.dims).like(self)
    def __pos__(self): return self
    def number(self):
        if self.dims: raise Unsupported('a quantity as a number')
        return float(self)
    def __float__(self):
        import math
        v = float(self.c) * math.pi ** float(self.k)
        for p, r in self.rad.items(): v *= float(p) ** float(r)
        return v
    def __index__(self):
        if self.k or self.rad or self.dims or self.c.denominator != 1: raise TypeError('not an integer')
        return int(self.c)
    __int__ = __index__
    def __bool__(self): return self.c != 0
    def __eq__(self, o):
        o = Ex.of(o)
        return o if o is NotImplemented else (self.c, self.k, self.rad, self.dims) == (o.c, o.k, o.rad, o.dims)
    def __hash__(self): return hash(self.c) if not (self.k or self.rad or self.dims) else hash((self.c, self.k))
    def __lt__(self, o): return self.number() < Ex.of(o).number()
    def __gt__(self, o): return self.number() > Ex.of(o).number()
    def __le__(self, o): return self.number() <= Ex.of(o).number()
    def __ge__(self, o): return self.number() >= Ex.of(o).number()
    def ratio(self, o):
        """self / o as an exact value when it is rational"""
        q = self / o
        if q.dims: return None
        return q.c if not (q.k or q.rad) else F(float(q))
    def __repr__(self): return '%s%s%s %s' % (self.c if self.c.denominator < 10 ** 6 else float(self.c), '*pi**%s' % self.k if self.k else '', ''.join('*%s**%s' % x for x in self.rad.items()), ' '.join('%s**%s' % x for x in sorted(self.dims.items())))
PI = Ex(1, 1)

class XUnit:
    """contract of the unit classes: as big as the definition"""
    primary = None
    def __init__(self, name, definition=None, symbol=None, u_symbol=None, aliases=(), doc=None):
        self.name, self.symbol, self.u_symbol, self.aliases = name, symbol, u_symbol, list(aliases)
        if definition is None: self.size = Ex(1, dims={name: F(1)})
        else:
            self.size = Ex.of(definition)
            if self.size is NotImplemented: raise Unsupported('definition %r' % (definition,))
        self.register()
    def register(self):
        for l in [self.name, self.symbol] + self.aliases:
            if l: WORLD.registry.setdefault(l, self)
    def __repr__(self): return '<%s>' % self.name
    def __hash__(self): return hash(self.name)
    def __eq__(self, o): return self is o
    units = property(lambda self: self)
for _n in ('mul', 'truediv', 'pow', 'add', 'sub', 'rmul', 'rtruediv', 'radd', 'rsub', 'rpow', 'neg', 'pos'):
    def _f(self, *a, _n='__%s__' % _n): return getattr(self.size, _n)(*a)
    setattr(XUnit, '__%s__' % _n, _f)
class XConstant(XUnit):
    def register(self): WORLD.constants[self.name] = self
class XDimensionless(XUnit):
    def __init__(self, name, definition=None):
        XUnit.__init__(self, name, Ex(1))
class XCompound(XUnit):
    def __init__(self, name):
        self.name, self.symbol, self.u_symbol, self.aliases = name, None, None, []
        self.size = parse(name)
        WORLD.compounds[name] = self
def parse(s):
    """a unit string: an arithmetic expression over the registered units (C09)"""
    s = s.replace('^', '**').replace('·', '*')
    if s == '': return Ex(1)
    v = eval(compile(lift(ast.parse(s, mode='eval')), '<units>', 'eval'), dict(_N=number, __builtins__={}), WORLD.registry)
    return Ex.of(v)
def quantity(value=1, units='', *a, **k):
    v = Ex.of(value)
    if v is NotImplemented: raise Unsupported('quantity %r' % (value,))
    return v * (parse(units) if isinstance(units, str) else Ex.of(units))

class Lift(ast.NodeTransformer):
    def visit_Constant(self, n):
        if type(n.value) in (int, float):
            return ast.copy_location(ast.Call(ast.Name('_N', ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n
    def visit_JoinedStr(self, n): return n
def lift(tree, lines=None): return ast.fix_missing_locations(Lift().visit(tree))
def number(s): return Ex(F(s))

class World: pass
WORLD = None

def load(root):
    """the exact sizes: {label: XUnit}; root: the directory of the package"""
    global WORLD
    w = WORLD = World()
    w.registry, w.constants, w.compounds, w.mods = {}, {}, {}, {}
    uq = types.ModuleType('quantities.unitquantity')
    for n in ('UnitQuantity', 'UnitMass', 'UnitLength', 'UnitTime', 'UnitCurrent', 'UnitLuminousIntensity', 'UnitSubstance', 'UnitTemperature', 'UnitInformation', 'UnitCurrency', 'IrreducibleUnit'): setattr(uq, n, XUnit)
    uq.CompoundUnit, uq.UnitConstant, uq.Dimensionless = XCompound, XConstant, XDimensionless
    uq.set_default_units = lambda *a, **k: None
    uq.dimensionless = XDimensionless('dimensionless')
    q = types.ModuleType('quantities.quantity'); q.Quantity = quantity
    u = types.ModuleType('quantities.uncertainquantity'); u.UncertainQuantity = lambda d, units='', uncertainty=None, *a, **k: quantity(d, units)
    r = types.ModuleType('quantities.registry')
    class R:
        def __getitem__(self, s): return parse(s) if s not in w.registry else w.registry[s]
    r.unit_registry = R()
    import math
    mm = types.ModuleType('math')
    for n in dir(math): setattr(mm, n, getattr(math, n))
    mm.pi = PI
    def sqrt(x): return Ex.of(x) ** F(1, 2)
    mm.sqrt = sqrt
    fixed = {'quantities.unitquantity': uq, 'quantities.quantity': q, 'quantities.uncertainquantity': u, 'quantities.registry': r, 'math': mm}
    pkg = types.ModuleType('quantities'); pkg.__path__ = []
    for k, v in fixed.items():
        if k.startswith('quantities.'): setattr(pkg, k.split('.')[1], v)
    pkg.Quantity, pkg.UncertainQuantity, pkg.unit_registry = quantity, u.UncertainQuantity, r.unit_registry
    fixed['quantities'] = pkg
    def find(name):
        if name in fixed: return fixed[name]
        if name in w.mods: return w.mods[name]
        if not name.startswith('quantities.'): return __import__(name, fromlist=['x'])
        p = os.path.join(root, *name.split('.')[1:])
        f = os.path.join(p, '__init__.py') if os.path.isdir(p) else p + '.py'
        if not os.path.exists(f): raise ImportError(name)
        m = types.ModuleType(name)
        m.__package__ = name if os.path.isdir(p) else name.rpartition('.')[0]
        w.mods[name] = m
        par, _, last = name.rpartition('.')
        with open(f, encoding='utf-8') as fh: tree = ast.parse(fh.read(), f)
        b = dict(vars(builtins)); b['__import__'] = imp
        m.__dict__['__builtins__'], m.__dict__['_N'] = b, number
        exec(compile(lift(tree), f, 'exec'), m.__dict__)
        if par in w.mods: setattr(w.mods[par], last, m)
        return m
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__'].split('.')
            base = base[:len(base) - level + 1]
            full = '.'.join(base + ([name] if name else []))
        else: full = name
        m = find(full)
        if not fromlist: return find(full.split('.')[0]) if not level else m
        for x in fromlist:
            if x != '*' and not hasattr(m, x) and full.startswith('quantities'):
                try: setattr(m, x, find(full + '.' + x))
                except ImportError: pass
        return m
    find('quantities.units')
    w.units_ns = vars(w.mods['quantities.units'])
    find('quantities.constants')
    w.constants_ns = vars(w.mods['quantities.constants'])
    return w
