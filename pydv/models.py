"""Assumed contracts (models) of numpy, dict and builtins. Everything here is trusted; the concrete runs of the
same contracts cross-check it on every run of a check."""
import ast as _ast, re
import builtins, operator, types, copy as _copy, pickle as _pickle, functools, math, warnings
import numpy as np
from fractions import Fraction
from .core import *
from .core import z3
from .dims import *
from .values import *

def registry_hook(I, f, args, kwargs):
    """the unit registry on symbolic strings and units"""
    if f.__name__ == '__getitem__' and len(args) == 2 and isinstance(args[1], SStr) and getattr(args[1], 'denotes', None) is not None:
        TRUSTED.add('unit_registry[s] gives the unit that s denotes (checked by C09)')
        x = args[1].denotes
        if x.unit is not None: return x
        q = SArr(I.Quantity, Buffer(x.elem if getattr(args[1], 'value', False) else rv(1)), SCALAR, F8)
        q.attrs['_dimensionality'] = SDim(I.Dim, x.attrs['_dimensionality'].st)
        return q
    if f.__name__ == '__setitem__' and f.__qualname__.startswith('UnitRegistry.__setitem__') and len(args) == 3 and isinstance(args[1], str) and args[1].startswith('pydv_new_'):
        TRUSTED.add('registering a new name does nothing else (checked by C08)')
        return None
    return NotImplemented

TRUSTED = set()      # names of the models used (for the evidence)

class SListData:
    """a Python list holding numbers; arr is its conversion to an array"""
    def __init__(self, elem, shape, dtype): self.elem, self.shape, self.dtype = elem, shape, dtype

class Flags:
    def __init__(self, arr): self.arr = arr

def as_boolterm(I, v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, SBool): return v.t
    if isinstance(v, SArr) and z3.is_bool(v.elem) and v.shape.scalar: return v.elem
    return z3.BoolVal(I.truth(v))

def is_pynum(v): return isinstance(v, (int, float, np.integer, np.floating, np.bool_)) 

def num_term(v):
    """(term, kind, ok) of a scalar number"""
    if isinstance(v, SNum): return rv(v.t), v.kind, v.ok
    if isinstance(v, SBool): return If(v.t, rv(1), rv(0)), 'int', TRUE
    if isinstance(v, (bool, np.bool_)): return rv(int(v)), 'int', TRUE
    if isinstance(v, (int, np.integer)): return rv(int(v)), 'int', TRUE
    if isinstance(v, (float, np.floating)):
        f = float(v)
        if f != f or f in (math.inf, -math.inf):
            t = z3.Real('const_%s' % ('nan' if f != f else 'inf' if f > 0 else 'ninf'))
            return t, 'float', TRUE
        return rv(f), 'float', TRUE
    raise Unsupported('number expected, got %r' % (v,))

# ------------------------------------------------------------------ numbers
def num_getattr(I, v, name):
    if name == 'copy' and v.np: return NativeM('copy', lambda I: v)
    if name in ('real',): return v
    if name == 'imag': return 0
    if isinstance(v, SNum) and v.np:
        if name == 'shape': return SCALAR
        if name == 'ndim': return 0
        if name == 'size': return 1
        if name == 'dtype': return F8 if v.kind == 'float' else I8
        if name == 'item': return NativeM('item', lambda I: SNum(v.t, v.kind, False, v.ok))
        if name in ('min', 'max', 'sum', 'any', 'all', 'squeeze', 'astype', 'view'): return nd_getattr(I, to_array(I, v), name, np.ndarray)
    t = bool if isinstance(v, SBool) else (np.float64 if v.kind == 'float' else np.int64) if v.np else (float if v.kind == 'float' else int)
    if hasattr(t, name): raise Unsupported('attribute %s of a number' % name)
    throw(AttributeError, '%r object has no attribute %r' % (t.__name__, name))

def num_special(I, a, name, b):
    op = name.strip('_')
    refl = False
    if op.startswith('r') and op[1:] in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'xor'): refl, op = True, op[1:]
    if op.startswith('i') and op[1:] in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'xor'): return NotImplemented
    isn = lambda x: isinstance(x, (SNum, SBool, bool)) or is_pynum(x)
    if isinstance(b, SArr) and isinstance(a, SNum) and a.np:
        return NotImplemented
    if not isn(b): return NotImplemented
    x, y = (b, a) if refl else (a, b)
    (s, ks, oks), (t, kt, okt) = num_term(x), num_term(y)
    if op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        r = {'eq': s == t, 'ne': s != t, 'lt': s < t, 'le': s <= t, 'gt': s > t, 'ge': s >= t}[op]
        return mkbool(r)
    k = 'float' if 'float' in (ks, kt) else 'int'
    np_ = any(isinstance(v, SNum) and v.np or isinstance(v, np.generic) for v in (x, y))
    ok = And(oks, okt)
    if op == 'truediv':
        if not np_:
            if E().decide(t == 0): throw(ZeroDivisionError, 'division by zero')
        return SNum(s / t, 'float', np_, And(ok, t != 0))
    if op == 'pow':
        if k == 'int' and not (const_frac(t) is not None and const_frac(t) >= 0): k = 'float'
        return SNum(rpow(s, t), k, np_, And(ok, Or(s != 0, t >= 0)))
    if op in ('add', 'sub', 'mul'):
        r = {'add': s + t, 'sub': s - t, 'mul': s * t}[op]
        return SNum(z3.simplify(r), 'float', np_, ok) if k == 'float' else SNumInt(z3.simplify(r), np_)
    if op in ('floordiv', 'mod'):
        return SNum(z3.Function(op, R, R, R)(s, t), 'float', np_, And(ok, t != 0))
    raise Unsupported('%s on numbers' % op)

def SNumInt(t, np_=False):
    n = SNum(rv(0), 'float', np_)
    n.t, n.kind = t, 'int'
    return n

# ------------------------------------------------------------------ hashes
def hnum(x):
    """Python: hash(-1) == hash(-2); otherwise hash is taken to separate exponents"""
    return If(x == -1, rv(-2), x)
class HashAtom:
    pass
def b_hash(I, v):
    if isinstance(v, SArr):
        owner, d = I.find_owner(v.cls, '__hash__')
        if isinstance(d, types.FunctionType):
            return I.call(d, [v])
        throw(TypeError, 'unhashable type')
    if isinstance(v, SDim):
        owner, d = I.find_owner(v.cls, '__hash__')
        if isinstance(d, types.FunctionType): return I.call(d, [v])
        throw(TypeError, 'unhashable type: dict')
    if isinstance(v, tuple) and len(v) == 2:
        a, b = v
        if isinstance(a, SArr) and a.unit is not None and (isinstance(b, SNum) or is_pynum(b)):
            return SHash((), [('kv', a.unit, hnum(num_term(b)[0]))])
        if isinstance(a, type) and isinstance(b, (str, SStr)):
            TRUSTED.add('hash collisions of (class, string) pairs do not occur')
            return SHash((('named', a, b if isinstance(b, str) else id(b)),))
        if isinstance(b, SArr) and b.unit is not None and (isinstance(a, SNum) or is_pynum(a)):
            return SHash((), [('vk', b.unit, hnum(num_term(a)[0]))])
    if isinstance(v, (list, dict)): throw(TypeError, 'unhashable type')
    if isinstance(v, (SNum,)): return SHash((), [('v', hnum(num_term(v)[0]))])
    from .interp import is_sym
    if not is_sym(v):
        return SHash((('c', hash(v)),)) 
    raise Unsupported('hash of %r' % (v,))

def hash_special(I, a, name, b):
    if name in ('__xor__', '__ixor__', '__rxor__'):
        if isinstance(b, int): b = SHash((('c', b),))
        if isinstance(b, SHash): return SHash(tuple(a.base) + tuple(b.base), a.entries + b.entries)
    if name in ('__eq__', '__ne__'):
        if isinstance(b, int): return NotImplemented
    raise Unsupported('arithmetic on hash values')

def hash_fold(dimval, fn):
    """the xor over the entries of a map of hash(fn(u, val)); fn: (u, val) -> term of the hashed number"""
    return ('fold', dimval, fn)

def hash_eq(I, a, b):
    """equality of two hash values: the base constants agree, and the multisets of contributions agree
    (assumption: the 64-bit tuple hashes of different (unit, number) pairs do not collide or cancel)"""
    TRUSTED.add('hash: different (unit, hash(number)) pairs do not collide or cancel under xor; hash(-1)==hash(-2) is modelled')
    if a.base == b.base and len(a.entries) == 1 and len(b.entries) == 1 and a.entries[0][0] == 'fold' and b.entries[0][0] == 'fold':
        (_, da, fa, ta), (_, db, fb, tb) = a.entries[0], b.entries[0]
        if ta != tb: raise Unsupported('hashes of different form')
        e = E()
        key = ('hasheq', id(a), id(b))
        if key in e.memo: return e.memo[key][0]
        p = e.fresh('hasheq', z3.BoolSort())
        sk = e.new_unit('hu')
        e.memo[key] = (p, a, b)
        def same(u):
            return And(da.dom(u) == db.dom(u), z3.Implies(da.dom(u), fa(u) == fb(u)))
        e.forall(lambda u: z3.Implies(p, same(u)))
        e.fact(z3.Or(p, z3.Not(same(sk))))
        return p
    if len(a.base) == len(b.base) == 1 and not a.entries and not b.entries:
        x, y = a.base[0], b.base[0]
        if x[0] == y[0] == 'unit': return x[1] == y[1]
        if x[0] == y[0] and x[0] in ('named', 'c'): return z3.BoolVal(x == y)
    raise Unsupported('comparison of hash values')

# ------------------------------------------------------------------ strings, shapes, dtypes
def str_getattr(I, v, name):
    if name == '__doc__': return None
    if isinstance(v, (I.t.AnyText, I.t.Txt, I.t.SymP)):
        r = I.t.text_method(I, v, name)
        if r is not None: return r
    if name == 'join': return NativeM('join', lambda I, seq: I.t.join(I, v, seq))
    if hasattr(str, name):
        return NativeM(name, lambda I, *a, **k: SStr('%s of %s' % (name, v.what)))
    throw(AttributeError, name)

def list_getattr(I, v, name):
    if not hasattr(list, name): throw(AttributeError, "'list' object has no attribute %r" % name)
    raise Unsupported('list.%s' % name)

def shape_cmp(I, op, a, b):
    if op not in ('eq', 'ne'): raise Unsupported('shape comparison')
    def t():
        if isinstance(a, Shape) and isinstance(b, Shape):
            if a == b: return TRUE
            if a.scalar: return is0(b)
            if b.scalar: return is0(a)
            e = E()
            k = ('shapeeq', frozenset([a, b]))
            if k not in e.memo:
                e.memo[k] = z3.Bool('shapeeq_%s' % '|'.join(sorted('+'.join(sorted(map(str, s.toks))) for s in (a, b))))
                for x, y in ((a, b), (b, a)):
                    if y.toks < x.toks: e.fact(e.memo[k] == Not(no_broadcast(x, y)))
            return e.memo[k]
        s, o = (a, b) if isinstance(a, Shape) else (b, a)
        if o == (): return is0(s)
        if o == (1,):
            if s.scalar: return FALSE
            one = z3.Bool('is11_%s' % '+'.join(sorted(map(str, s.toks))))
            E().fact(z3.Implies(one, And(single_element(s), Not(is0(s)))))
            return one
        if isinstance(o, tuple): raise Unsupported('shape comparison with %r' % (o,))
        return FALSE
    r = t()
    return mkbool(r if op == 'eq' else Not(r))

def shape_item(I, s, k):
    if s.scalar: throw(IndexError, 'tuple index out of range')
    kt = k if isinstance(k, int) else str(k.t) if isinstance(k, SNum) else '_'.join(map(str, k.key)) if isinstance(k, SOpaque) and k.pytype is int else None
    if kt is None: raise Unsupported('shape[%r]' % (k,))
    n = z3.Int('len_%s_%s' % ('+'.join(sorted(map(str, s.toks))), kt))
    E().fact(n >= 0)
    return SNumInt(n)

def to_dtype(I, d):
    if d is None or isinstance(d, SDtype): return d
    if isinstance(d, str) or d in (float, int, bool) or isinstance(d, np.dtype) or (isinstance(d, type) and issubclass(d, np.generic)):
        k = np.dtype(d)
        return F8 if k == np.dtype('d') else I8 if k == np.dtype('l') else B1 if k.kind == 'b' else SDtype([k.str], z3.BoolVal(k.kind in 'fc'))
    raise Unsupported('dtype %r' % (d,))

def dtype_cmp(I, op, a, b):
    a, b = to_dtype(I, a), to_dtype(I, b)
    if op not in ('eq', 'ne') or a is None or b is None: raise Unsupported('dtype comparison')
    if a.same(b): return op == 'eq'
    raise Unsupported('dtype comparison')

def kind_in(I, dt, seq):
    s = set(seq)
    if {'f', 'c'} <= s and not s & set('iub'): return mkbool(dt.inexact)
    if {'i', 'u'} <= s and not s & set('fc'): return mkbool(Not(dt.inexact))
    if set('iufc') <= s: return True
    raise Unsupported('dtype kind in %r' % (seq,))

# ------------------------------------------------------------------ dict (Dimensionality) methods
def key_term(I, k):
    if isinstance(k, SArr) and k.unit is not None: return E().unit(k.unit)
    raise Unsupported('key %r of a dimensionality' % (k,))

def unit_object(I, t):
    """the unit object for a Unit term"""
    e = E()
    key = ('unitobj', t.get_id())
    if key not in e.memo:
        a = SArr(I.UnitQuantity, Buffer(rv(1)), SCALAR, F8, writeable=FALSE)
        a.unit = t
        a.generic = True
        e.memo[key] = (a, t)
        for o, _ in e.concrete_units.values():
            if o.unit is not None and o.unit.eq(t): return o
    return e.memo[key][0]

def exp_num(t):
    n = SNum(rv(0))
    n.t = z3.simplify(rv(t))
    return n

def dict_init(I, d, *args, **kw):
    if kw: raise Unsupported('dict keyword arguments')
    if args: dict_update(I, d, args[0])
    elif not args: d.st = DimVal.empty()

def as_map(I, o):
    if isinstance(o, SDim): return o.st
    if isinstance(o, SMapIter) and o.mode == 'items': return o.st
    if isinstance(o, dict) and not o: return DimVal.empty()
    if isinstance(o, (list, tuple)):
        st = DimVal.empty()
        tmp = SDim(dict, st)
        for x in o:
            k, v = I.iterate(x)
            dict_setitem(I, tmp, k, v)
        return tmp.st
    raise Unsupported('dict from %r' % (o,))

def dict_update(I, d, o):
    m = as_map(I, o)
    st = d.st
    if st.lin is not None and not st.lin and st.wf: d.st = m
    elif m.lin is not None and not m.lin and m.wf: pass
    else:
        d.st = DimVal(lambda u: If(m.dom(u), m.val(u), st.val(u)), None, lambda u: Or(m.dom(u), st.dom(u)))

def dict_getitem(I, d, k):
    t = key_term(I, k)
    if E().decide(d.st.dom(t)): return exp_num(d.st.val(t))
    throw(KeyError, k)

def set_entry(st, t, val, dom=TRUE):
    def v(u): return val if u.eq(t) else If(u == t, val, st.val(u))
    def dm(u): return dom if u.eq(t) else If(u == t, dom, st.dom(u))
    return DimVal(v, None, dm)

def dict_setitem(I, d, k, v):
    t = key_term(I, k)
    x = num_term(v)[0]
    st = d.st
    if st.lin is not None and not st.lin and st.wf:
        c = const_frac(x)
        if c is not None and c != 0:
            d.st = DimVal.single(t, c)
            return
    d.st = set_entry(st, t, x)
def dict_del(I, d, k):
    t = key_term(I, k)
    if not E().decide(d.st.dom(t)): throw(KeyError, k)
    d.st = set_entry(d.st, t, rv(0), FALSE)

def dict_pop(I, d, k, *dflt):
    t = key_term(I, k)
    if E().decide(d.st.dom(t)):
        r = exp_num(d.st.val(t))
        d.st = set_entry(d.st, t, rv(0), FALSE)
        return r
    if dflt: return dflt[0]
    throw(KeyError, k)

def dict_get(I, d, k, dflt=None):
    t = key_term(I, k)
    if E().decide(d.st.dom(t)): return exp_num(d.st.val(t))
    return dflt

def dict_setdefault(I, d, k, dflt=None):
    t = key_term(I, k)
    if E().decide(d.st.dom(t)): return exp_num(d.st.val(t))
    dict_setitem(I, d, k, dflt)
    return dflt

def dict_clear(I, d): d.st = DimVal.empty()
def dict_copy(I, d):
    return SDim(dict, d.st)

DICT = {'items': lambda I, d: SMapIter(d, 'items'), 'keys': lambda I, d: SMapIter(d, 'keys'), 'values': lambda I, d: SMapIter(d, 'values'),
        'pop': dict_pop, 'get': dict_get, 'update': lambda I, d, o: dict_update(I, d, o), 'clear': dict_clear, 'copy': dict_copy,
        'setdefault': dict_setdefault, '__setitem__': dict_setitem, '__getitem__': dict_getitem, '__delitem__': dict_del,
        '__contains__': lambda I, d, k: I.contains(d, k), '__len__': lambda I, d: b_len(I, d),
        '__init__': lambda I, d, *a: dict_init(I, d, *a),
        '__eq__': lambda I, d, o: dict_special(I, d, '__eq__', o), '__ne__': lambda I, d, o: dict_special(I, d, '__ne__', o),
        '__iter__': lambda I, d: SMapIter(d, 'keys')}

def dict_getattr(I, d, name):
    if name in DICT:
        f = DICT[name]
        return NativeM('dict.' + name, lambda I, *a, **k: f(I, d, *a, **k))
    if not hasattr(dict, name): throw(AttributeError, '%r object has no attribute %r' % (d.cls.__name__, name))
    raise Unsupported('dict.%s' % name)

def dict_special(I, d, name, o):
    if name in ('__eq__', '__ne__'):
        if not isinstance(o, SDim): return NotImplemented
        if d.st.wf and o.st.wf: t = d.st.eq(o.st)
        else:
            e = E()
            p = e.fresh('dicteq', z3.BoolSort())
            sk = e.new_unit('de')
            same = lambda u: And(d.st.dom(u) == o.st.dom(u), z3.Implies(d.st.dom(u), d.st.val(u) == o.st.val(u)))
            st, ot = d.st, o.st
            e.forall(lambda u: z3.Implies(p, same(u)))
            e.fact(z3.Or(p, z3.Not(same(sk))))
            t = p
        return mkbool(t if name == '__eq__' else Not(t))
    if name in ('__or__', '__ior__') and isinstance(o, SDim):
        if name == '__ior__':
            dict_update(I, d, o); return d
        r = SDim(dict, d.st); dict_update(I, r, o)
        return r
    return NotImplemented

def host_dict_get(I, o, k):
    from .interp import is_sym
    if isinstance(k, SStr) and isinstance(o, dict):
        v = live_dict(I, o, k).v
        if v is None: throw(KeyError, k)
        return v
    if isinstance(k, (np.ufunc, types.FunctionType, str, int)):
        if k in o: return I.lift(o[k])
        throw(KeyError, k)
    raise Unsupported('lookup in a concrete dict')

# ------------------------------------------------------------------ builtins
def b_len(I, v):
    if isinstance(v, SDim):
        n = z3.Int('len_%d' % id(v.st))
        E().memo[('keep', id(v.st))] = v.st
        ne = I.dim_nonempty(v)
        E().fact(And(n >= 0, (n > 0) == ne))
        return SNumInt(n)
    if isinstance(v, SListData): return SNumInt(z3.Int('len_list'))
    from .interp import has_fold, Sentinel
    if isinstance(v, list) and has_fold(v):
        if any(isinstance(x, Sentinel) for x in v): raise Unsupported('a list that grows in the loop')
        n = z3.IntVal(0)
        for x in v: n = n + (x.count() if isinstance(x, I.t.Fold) else 1)
        return SNumInt(n)
    if isinstance(v, SArr):
        if v.shape.scalar: throw(TypeError, 'len() of unsized object')
        return shape_item(I, v.shape, 0)
    if isinstance(v, SObj): return I.call(I.getattr(v, '__len__'))
    if isinstance(v, (SStr, SMapIter, SOpaque, SSeq, SNum)): raise Unsupported('len')
    if isinstance(v, Shape): return I.getattr(SArr(np.ndarray, Buffer(rv(0)), v, F8), 'ndim')
    return len(v)

def b_getattr(I, v, name, *d):
    if not d: return I.getattr(v, name)
    try: return I.getattr(v, name)
    except PyExc as ex:
        if issubclass(ex.exc.cls, AttributeError): return d[0]
        raise

def b_type(I, v): return I.pytype(v)

def b_str(I, *a):
    from .interp import is_sym
    if a and (isinstance(a[0], str) or isinstance(a[0], SStr)): return a[0]
    if a and isinstance(a[0], SNum): return I.t.number_text(I, a[0], 'str')
    if a and isinstance(a[0], SDim): return SStr(('dimstr', a[0].st))
    if a and is_sym(a[0]): return SStr('str(%s)' % type(a[0]).__name__)
    return str(*a)
def b_repr(I, v):
    from .interp import is_sym
    return SStr('repr') if is_sym(v) else repr(v)

def b_abs(I, v):
    if isinstance(v, SNum):
        return exp_num(If(rv(v.t) < 0, -rv(v.t), rv(v.t))) if v.kind == 'float' else SNumInt(z3.If(v.t < 0, -v.t, v.t))
    if isinstance(v, SObj):
        owner, d = I.find_owner(v.cls, '__abs__')
        if isinstance(d, types.FunctionType): return I.call(d, [v])
        if isinstance(v, SArr): return call_ufunc(I, np.absolute, [v], {})
    return abs(v)

def b_list(I, *a):
    if not a: return E().track(TL()())
    v = a[0]
    if isinstance(v, (SMapIter, SSeq)): return v
    if isinstance(v, SDim): return SMapIter(v, 'keys')
    if isinstance(v, Shape): return v
    return E().track(TL()(I.iterate(v)))
def TL():
    from .interp import TList
    return TList
def b_tuple(I, *a):
    if not a: return ()
    if isinstance(a[0], (SMapIter, SSeq, Shape)): return a[0]
    return tuple(I.iterate(a[0]))
def b_sorted(I, v, key=None, reverse=False):
    if isinstance(v, list) and any(isinstance(x, I.t.Fold) for x in v): return E().track(TL()(v))
    # the order of a symbolic map is unknown anyway: sorting permutes it
    if isinstance(v, SDim): return SMapIter(v, 'keys')
    if isinstance(v, (SMapIter, SSeq)): return v
    l = I.iterate(v)
    from .interp import is_sym
    if is_sym(l): raise Unsupported('sorted of symbolic values')
    return sorted(l, key=key, reverse=reverse)
def b_sum(I, v, start=0):
    if isinstance(v, SSeq):
        from .loops import fold_sum
        return fold_sum(I, v, start)
    r = start
    for x in I.iterate(v): r = I.binop('add', r, x)
    return r
def b_any(I, v):
    if isinstance(v, SSeq):
        e = E()
        f = v.pred(I)
        p = e.fresh('any', z3.BoolSort())
        sk = e.new_unit('any')
        e.fact(z3.Implies(p, And(v.st.dom(sk), f(sk))))
        e.forall(lambda u: z3.Implies(And(v.st.dom(u), f(u)), p))
        return mkbool(p)
    for x in I.iterate(v):
        if I.truth(x): return True
    return False
def b_all(I, v):
    if isinstance(v, SSeq):
        e = E()
        f = v.pred(I)
        p = e.fresh('all', z3.BoolSort())
        sk = e.new_unit('all')
        e.fact(z3.Or(p, And(v.st.dom(sk), z3.Not(f(sk)))))
        e.forall(lambda u: z3.Implies(And(p, v.st.dom(u)), f(u)))
        return mkbool(p)
    for x in I.iterate(v):
        if not I.truth(x): return False
    return True
def b_zip(I, *a): return list(zip(*[I.iterate(x) for x in a]))
def b_enumerate(I, v, start=0): return list(enumerate(I.iterate(v), start))
def b_map(I, f, *a): return [I.call(f, x) for x in zip(*[I.iterate(y) for y in a])]
def b_filter(I, f, a): return [x for x in I.iterate(a) if I.truth(I.call(f, [x]) if f else x)]
def b_range(I, *a):
    from .interp import is_sym
    if is_sym(a): raise Unsupported('range of a symbolic length')
    return range(*a)
def b_float(I, *a):
    v = a[0]
    if isinstance(v, SNum): return SNum(rv(v.t), 'float', False, v.ok)
    if isinstance(v, SArr):
        if not v.shape.scalar: raise Unsupported('float of an array')
        return SNum(v.elem, 'float', False, v.ok)
    return float(*a)
def b_int(I, *a):
    v = a[0] if a else 0
    if isinstance(v, SNum) and v.kind == 'int': return v
    if isinstance(v, (SNum, SArr)): raise Unsupported('int()')
    return int(*a)
def b_bool(I, v=False):
    if isinstance(v, SBool): return v
    return I.truth(v)
def b_minmax(which):
    def f(I, *a, **k):
        if k: raise Unsupported('min/max with key')
        l = I.iterate(a[0]) if len(a) == 1 else list(a)
        r = l[0]
        for x in l[1:]:
            c = I.compare('lt' if which == 'min' else 'gt', x, r)
            r = x if I.truth(c) else r
        return r
    return f
def b_isinstance(I, v, c): return I.isinstance(v, c)
def b_issubclass(I, a, b): return issubclass(a, b)
def b_hasattr(I, v, n): return I.hasattr(v, n)
def b_setattr(I, v, n, x): I.setattr(v, n, x)
def b_callable(I, v):
    return isinstance(v, (SFunc, BoundM, NativeM)) or callable(v)
def b_id(I, v): return SOpaque(('id', id(v)), int)
def b_dict(I, *a, **k):
    if a and isinstance(a[0], (SDim, SMapIter)):
        d = SDim(dict, DimVal.empty()); dict_update(I, d, a[0]); return d
    return dict(*a, **k)
def b_iter(I, v):
    if isinstance(v, SDim): return SMapIter(v, 'keys')
    return v if isinstance(v, (SMapIter, SSeq)) else I.iterate(v)
def b_reversed(I, v): return list(reversed(I.iterate(v)))
def b_divmod(I, a, b): raise Unsupported('divmod')
def b_pow(I, a, b): return I.binop('pow', a, b)
def b_round(I, v, *a):
    if isinstance(v, SObj): return I.call(I.getattr(v, '__round__'), list(a))
    if isinstance(v, SNum): raise Unsupported('round of a number')
    return round(v, *a)

def m_deepcopy(I, v, memo=None):
    if isinstance(v, SArr):
        owner, d = I.find_owner(v.cls, '__deepcopy__')
        if isinstance(d, types.FunctionType): return I.call(d, [v, {} if memo is None else memo])
        if v.cls is np.ndarray: return nd_copy(I, v)
        raise Unsupported('deepcopy of %s' % v.cls.__name__)
    if isinstance(v, SDim):
        owner, d = I.find_owner(v.cls, '__deepcopy__')
        if isinstance(d, types.FunctionType): return I.call(d, [v, {} if memo is None else memo])
        # copy protocol for dict subclasses: a new map with deep-copied keys; units copy to themselves
        return SDim(v.cls, v.st)
    if isinstance(v, (SNum, SBool, SStr)): return v
    from .interp import is_sym
    if not is_sym(v): return _copy.deepcopy(v)
    raise Unsupported('deepcopy')
# ---- pickling: the reduce protocol
class SPickle:
    def __init__(self, d): self.d = d
def m_dumps(I, v, protocol=None, **kw):
    if kw: raise Unsupported('pickle options')
    TRUSTED.add('pickle transports classes, functions, strings, numbers, tuples and dict entries, and follows __reduce__/__setstate__')
    memo = {}
    def native(cls, *names):
        return not any(isinstance(I.find_owner(cls, n)[1], types.FunctionType) for n in names)
    def dump(v, depth=0):
        if depth > 12: raise Unsupported('pickling too deep')
        if isinstance(v, SArr):
            if id(v) not in memo:
                if not native(v.cls, '__reduce_ex__'): raise Unsupported('__reduce_ex__')
                d = I.find_owner(v.cls, '__reduce__')[1]
                t = I.call(d, [v]) if isinstance(d, types.FunctionType) else nd_method(I, v, '__reduce__', (), {})
                if not isinstance(t, tuple) or not 2 <= len(t) <= 3: raise Unsupported('what __reduce__ returned')
                memo[id(v)] = ('obj', v, [dump(x, depth + 1) for x in t])
            return memo[id(v)]
        if isinstance(v, SDim):
            if not native(v.cls, '__reduce__', '__reduce_ex__', '__getstate__', '__setstate__', '__setitem__', '__new__', '__getnewargs__', '__getnewargs_ex__'): raise Unsupported('pickling a dict subclass')
            return ('dim', v, v.cls, v.st)
        if isinstance(v, tuple): return ('tuple', v, [dump(x, depth + 1) for x in v])
        if isinstance(v, (TList_(), list)): return ('list', v, [dump(x, depth + 1) for x in v])
        if isinstance(v, dict): return ('dict', v, [(k, dump(x, depth + 1)) for k, x in v.items()])
        if isinstance(v, (SNum, SBool, SStr, SDtype, Shape, SOpaque, str, bytes, int, float, type(None), type, types.FunctionType, types.BuiltinFunctionType)): return ('atom', v)
        raise Unsupported('pickling %r' % (v,))
    return SPickle(dump(v))
def TList_():
    from .interp import TList
    return TList
def m_loads(I, p, **kw):
    if not isinstance(p, SPickle) or kw: raise Unsupported('unpickling')
    memo = {}
    def load(d):
        if d[0] == 'atom': return d[1]
        if id(d) in memo: return memo[id(d)]
        if d[0] == 'dim':
            r = SDim(d[2], d[3]); r.attrs.update({k: x for k, x in d[1].attrs.items()})
        elif d[0] == 'tuple': r = tuple(load(x) for x in d[2])
        elif d[0] == 'list': r = TList_()(load(x) for x in d[2])
        elif d[0] == 'dict':
            from .interp import TDict
            r = TDict((k, load(x)) for k, x in d[2])
        else:
            f, args = load(d[2][0]), load(d[2][1])
            if isinstance(f, SOpaque) and f.key == ('np reconstruct',): r = call_builtin(I, np.ndarray.__new__, list(args), {})
            else: r = I.call(f, list(args))
            if len(d[2]) == 3:
                st = load(d[2][2])
                if st is not None:
                    ss = I.find_owner(r.cls, '__setstate__')[1]
                    if isinstance(ss, types.FunctionType): I.call(ss, [r, st])
                    else: nd_method(I, r, '__setstate__', (st,), {})
        memo[id(d)] = r
        return r
    return load(p.d)

# ---- dicts of the package keyed by strings, looked up with an unknown string
def live_dict(I, o, k):
    """the entry of a live dict for an unknown string: [is there one, its value]"""
    key = ('livedict', id(o), id(k))
    m = E().memo
    if key not in m:
        regs = getattr(k, 'registered', 0)
        if regs == 0: raise Unsupported('lookup of an unknown string')
        m[key] = TEntry(regs)
        m[('keep', id(k))] = k
        E().track(m[key])
    return m[key]
class TEntry:
    def __init__(self, v): self.v = v
    def save(self): return self.v
    def load(self, s): self.v = s

def m_copy(I, v):
    if isinstance(v, SArr):
        owner, d = I.find_owner(v.cls, '__copy__')
        if isinstance(d, types.FunctionType): return I.call(d, [v])
        return nd_method(I, v, 'copy', ('K',), {})
    if isinstance(v, SDim):
        owner, d = I.find_owner(v.cls, '__copy__')
        if isinstance(d, types.FunctionType): return I.call(d, [v])
        return SDim(v.cls, v.st)
    from .interp import is_sym
    if not is_sym(v): return _copy.copy(v)
    raise Unsupported('copy')

# ------------------------------------------------------------------ arrays
def base_for(cls, src):
    """the .base of a view of class cls taken of src (numpy collapses chains of views of one type)"""
    obj = src
    while obj.base is not None and obj.base.cls is cls:
        obj = obj.base
    return obj

def finalize(I, new, obj):
    owner, d = I.find_owner(new.cls, '__array_finalize__')
    if isinstance(d, types.FunctionType): I.call(d, [new, obj])
    return new

def nd_view(I, a, cls=None, copyflags=True):
    cls = a.cls if cls is None else cls
    v = SArr(cls, a.buf, a.shape, a.dtype, base_for(cls, a), a.writeable)
    if issubclass(cls, I.UnitQuantity) and not issubclass(a.cls, I.UnitQuantity):
        # a unit of its own, different from every other one
        v.unit = E().fresh('newunit', Unit)
        v.unnamed = True
        E().unit(v.unit)
        E().memo[('unitobj', v.unit.get_id())] = (v, v.unit)
    return finalize(I, v, a)

def name_unit(I, v, name):
    """units are told apart by their class and name (contract of UnitQuantity.__hash__): a new one with the name of
    another one of the same class is the same dictionary key, one with a name of its own is a new key"""
    v.unnamed = False
    I.used.add('UnitQuantity.__hash__')
    m = E().memo
    for o, _ in E().concrete_units.values():
        if o is not v and o.cls is v.cls and o.unit is not None and o.attrs.get('_name') == name and isinstance(name, str):
            v.unit = o.unit
            return
    for k in [k for k in m if isinstance(k, tuple) and k[0] == 'unitobj']:
        o, t = m[k]
        n = o.attrs.get('_name')
        if o is not v and o.cls is v.cls and (n is name or isinstance(n, str) and isinstance(name, str) and n == name):
            v.unit = t
            return
    for t in E().units:
        if not t.eq(v.unit): E().fact(t != v.unit)

def define_unit(I, u, ref):
    """the size of a new unit is that of its definition (RMu and RDu are what _conv_ref holds, from here on)"""
    e = E()
    if ref is None:
        e.fact(RMu_f(u.unit) == 1)
        e.forall(lambda x: RDu_f(u.unit, x) == If(x == u.unit, rv(1), rv(0)))
    elif isinstance(ref, SArr) and '_dimensionality' in ref.attrs:
        e.fact(RMu_f(u.unit) == ref.elem)
        d = ref.attrs['_dimensionality'].st
        e.assume(RD(DimVal.single(u.unit)).eq(d))

def new_array(I, elem, shape, dtype, ok=TRUE, npscalar=False):
    return SArr(np.ndarray, Buffer(elem, ok), shape, dtype, npscalar=npscalar)

def to_array(I, v, subok=True):
    """np.asanyarray / np.asarray without dtype"""
    if isinstance(v, SArr):
        if v.cls is np.ndarray or subok: return v
        return nd_view(I, v, np.ndarray)
    if isinstance(v, SListData):
        return new_array(I, v.elem, v.shape, v.dtype)
    if isinstance(v, SBool): return new_array(I, v.t, SCALAR, B1)
    if isinstance(v, (bool, np.bool_)): return new_array(I, z3.BoolVal(bool(v)), SCALAR, B1)
    if isinstance(v, SNum) or is_pynum(v):
        t, k, ok = num_term(v)
        return new_array(I, t, SCALAR, getattr(v, 'dt', None) or (F8 if k == 'float' else I8), ok)
    if isinstance(v, (list, tuple)) and v and all(isinstance(x, SNum) or is_pynum(x) for x in v) and len(set(map(str, v))) == 1:
        t, k, ok = num_term(v[0])
        return new_array(I, t, Shape(['list%d' % len(v)]), F8 if k == 'float' else I8, ok)
    if isinstance(v, np.ndarray): return I.lift(v)
    raise Unsupported('array from %r' % (v,))

def arr_dtype(v):
    """dtype an operand contributes to a ufunc (weak for Python numbers)"""
    if isinstance(v, SArr): return v.dtype
    if isinstance(v, SListData): return v.dtype
    if isinstance(v, SNum): return (F8 if v.kind == 'float' else I8) if v.np else (pyfloat_dtype() if v.kind == 'float' else pyint_dtype())
    if isinstance(v, (SBool, bool)): return B1
    if isinstance(v, int): return pyint_dtype()
    if isinstance(v, float): return pyfloat_dtype()
    if isinstance(v, np.generic): return F8 if isinstance(v, np.floating) else I8
    raise Unsupported('dtype of %r' % (v,))

def np_asarray(I, data, dtype=None, subok=False, copy=None):
    dt = to_dtype(I, dtype)
    a = to_array(I, data, subok)
    if dt is None or dt.same(a.dtype):
        if copy is True: return nd_copy(I, a) if (subok or a.cls is np.ndarray) else nd_copy(I, nd_view(I, a, np.ndarray))
        return a
    return nd_cast(I, a, dt)

def nd_cast(I, a, dt):
    el = a.elem
    if z3.is_bool(el):
        if dt.same(B1): return nd_copy(I, a)
        el = If(el, rv(1), rv(0))
    elif dt.toks == B1.toks:
        r = SArr(a.cls, Buffer(el != 0, a.ok), a.shape, dt)
        return finalize(I, r, a)
    r = SArr(a.cls, Buffer(cast(el, a.dtype, dt), a.ok), a.shape, dt)
    return finalize(I, r, a)

def nd_copy(I, a):
    r = SArr(a.cls, Buffer(a.elem, a.ok), a.shape, a.dtype)
    return finalize(I, r, a)

def elem_real(v):
    """(term, ok) of an operand as a real"""
    if isinstance(v, SArr):
        el = v.elem
        return (If(el, rv(1), rv(0)) if z3.is_bool(el) else el), v.ok
    if isinstance(v, SListData): return v.elem, TRUE
    t, k, ok = num_term(v)
    return t, ok

def shape_of(v):
    return v.shape if isinstance(v, (SArr, SListData)) else SCALAR

def f1(n):
    E().opaque_used = True
    return z3.Function(n, R, R)
def f2(n):
    E().opaque_used = True
    return z3.Function(n, R, R, R)
def f2axioms(n, x, y):
    """arctan2(k x, k y) = arctan2(x, y), hypot(k x, k y) = k hypot(x, y) for k > 0 are used by the harnesses only"""
    return f2(n)(x, y)

UN = {'negative': lambda x: -x, 'positive': lambda x: x, 'absolute': lambda x: If(x < 0, -x, x), 'fabs': lambda x: If(x < 0, -x, x),
      'square': lambda x: x * x, 'sqrt': msqrt, 'reciprocal': lambda x: rv(1) / x, 'conjugate': lambda x: x,
      'sign': lambda x: If(x > 0, rv(1), If(x < 0, rv(-1), rv(0)))}
BI = {'add': lambda x, y: x + y, 'subtract': lambda x, y: x - y, 'multiply': lambda x, y: x * y, 'divide': lambda x, y: x / y,
      'true_divide': lambda x, y: x / y, 'power': rpow, 'float_power': rpow, 'maximum': lambda x, y: If(x >= y, x, y), 'minimum': lambda x, y: If(x <= y, x, y)}
CMP = {'equal': lambda x, y: x == y, 'not_equal': lambda x, y: x != y, 'less': lambda x, y: x < y, 'less_equal': lambda x, y: x <= y,
       'greater': lambda x, y: x > y, 'greater_equal': lambda x, y: x >= y}
INEXACT = {'divide', 'true_divide', 'sqrt', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh',
           'arctanh', 'arctan2', 'hypot', 'exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'radians', 'degrees', 'logaddexp',
           'logaddexp2', 'fabs', 'rint', 'floor', 'ceil', 'float_power', 'deg2rad', 'rad2deg', 'trunc', 'cbrt', 'isnan'}
PARTIAL_DOMAIN = {'arcsin', 'arccos', 'arccosh', 'arctanh', 'log', 'log2', 'log10', 'log1p'}
BOOLS = {'isnan', 'isfinite', 'isinf', 'signbit', 'logical_not', 'logical_and', 'logical_or', 'logical_xor'}

def uf_apply(uf, args):
    """element value, ok, dtype of uf(*args)"""
    n = uf.__name__
    xs = [elem_real(a) for a in args]
    ok = And(*[o for _, o in xs])
    v = [t for t, _ in xs]
    dt = arr_dtype(args[0])
    for a in args[1:]: dt = dt.join(arr_dtype(a))
    if dt.toks == {'pyint'}: dt = I8
    if dt.toks == {'pyfloat'}: dt = F8
    if n in CMP: return CMP[n](*v), ok, B1
    if n in ('isnan',): return Not(ok), TRUE, B1
    if n in ('isfinite',): return ok, TRUE, B1
    if n in BOOLS:
        b = [a.elem if isinstance(a, SArr) and z3.is_bool(a.elem) else x != 0 for a, x in zip(args, v)]
        if n == 'logical_not': return Not(b[0]), ok, B1
        if n == 'logical_and': return And(*b), ok, B1
        if n == 'logical_or': return Or(*b), ok, B1
        if n == 'logical_xor': return z3.Xor(*b), ok, B1
        return z3.Function(n, R, z3.BoolSort())(v[0]), ok, B1
    if n in ('bitwise_not', 'invert') and isinstance(args[0], SArr) and z3.is_bool(args[0].elem): return Not(args[0].elem), ok, B1
    if n in INEXACT:
        dt = dt if z3.is_true(dt.inexact) else SDtype(dt.toks | {'inexact'}, TRUE)
    if n in UN:
        t = UN[n](v[0])
        if n == 'reciprocal': ok = And(ok, v[0] != 0)
        if n == 'sqrt': ok = And(ok, v[0] >= 0)
        return t, ok, dt
    if n in BI:
        t = BI[n](*v)
        if n in ('divide', 'true_divide'): ok = And(ok, v[1] != 0)
        if n in ('power', 'float_power'):
            c = const_frac(v[1])
            if c is None: ok = And(ok, Or(v[0] != 0, v[1] >= 0), Or(v[0] >= 0, z3.IsInt(v[1])))
            else:
                if c < 0: ok = And(ok, v[0] != 0)
                if c.denominator != 1: ok = And(ok, v[0] >= 0)
        return t, ok, dt
    if uf.nout != 1: raise Unsupported('ufunc %s' % n)
    if len(v) == 1:
        okx = ok if n not in PARTIAL_DOMAIN else And(ok, z3.Function('dom_' + n, R, z3.BoolSort())(v[0]))
        return f1(n)(v[0]), okx, dt
    if len(v) == 2:
        if n in ('remainder', 'mod', 'fmod', 'floor_divide'): ok = And(ok, v[1] != 0)
        return f2(n)(*v), ok, dt
    E().opaque_used = True
    return z3.Function(n, *([R] * (len(v) + 1)))(*v), ok, dt

def call_ufunc(I, uf, args, kw):
    TRUSTED.add('numpy ufunc call protocol (inputs, output conversion, __array_wrap__ of the operand of highest priority)')
    kw = dict(kw)
    out = kw.pop('out', None)
    if isinstance(out, tuple): out = out[0]
    if kw.pop('where', True) is not True or kw.pop('casting', None) or kw.pop('subok', True) is not True or kw.pop('dtype', None) is not None or kw:
        raise Unsupported('ufunc keywords')
    args = list(args)
    if len(args) == uf.nin + 1:
        out = args.pop()
    if len(args) != uf.nin: throw(TypeError, 'wrong number of arguments to ufunc')
    if uf.nout != 1: raise Unsupported('ufunc %s' % uf.__name__)
    ins = []
    for a in args:
        if isinstance(a, (SStr, str)) or a is None or isinstance(a, (SDim, SExc)): 
            throw(TypeError, 'ufunc %r not supported for the input types' % uf.__name__)
        ins.append(a if isinstance(a, (SArr, SListData, SNum, SBool)) or is_pynum(a) or isinstance(a, bool) else to_array(I, a))
    el, ok, dt = uf_apply(uf, ins)
    shp = SCALAR
    for a in ins: shp = shp.bc(shape_of(a))
    # whose __array_wrap__: out's if given, else the input of highest __array_priority__ (leftmost wins ties)
    wrapper = None
    if out is not None:
        if not isinstance(out, SArr): throw(TypeError, 'return arrays must be of ArrayType')
        if not z3.is_false(dt.inexact) and not z3.is_true(out.dtype.inexact):
            if E().decide(And(dt.inexact, Not(out.dtype.inexact))):
                throw(TypeError, 'Cannot cast ufunc output')
        if E().decide(Not(out.writeable)): throw(ValueError, 'output array is read-only')
        if not shp.toks <= out.shape.toks:
            if out.shape.scalar or not shp.toks <= out.shape.toks:
                if E().decide(no_broadcast(shp, out.shape)):
                    throw(ValueError, 'non-broadcastable output operand')
        out.buf.write(el, ok)
        if out.cls is not np.ndarray: wrapper = out
        res = out
        ctx = tuple(args) + (out,)
    else:
        best = None
        for a in ins:
            if isinstance(a, SArr) and a.cls is not np.ndarray:
                p = I.getattr(a, '__array_priority__')
                if best is None or p > best: best, wrapper = p, a
        res = SArr(np.ndarray, Buffer(el, ok), shp, dt, npscalar=False)
        ctx = tuple(args)
    if wrapper is None:
        return res
    w = I.getattr(wrapper, '__array_wrap__')
    if isinstance(w, NativeM): return res
    return I.call(w, [res, (uf, ctx, 0), out is None])

def no_broadcast(shp, into):
    """Bool: an array of shape shp cannot be stored into one of shape `into`"""
    if shp.toks <= into.toks: return FALSE
    t = shp.toks - into.toks
    return z3.Bool('nobroadcast_%s_%s' % ('+'.join(sorted(map(str, t))), '+'.join(sorted(map(str, into.toks)))))

ND_BIN = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'truediv': np.true_divide, 'floordiv': np.floor_divide, 'mod': np.remainder,
          'pow': np.power, 'eq': np.equal, 'ne': np.not_equal, 'lt': np.less, 'le': np.less_equal, 'gt': np.greater, 'ge': np.greater_equal,
          'and': np.bitwise_and, 'or': np.bitwise_or, 'xor': np.bitwise_xor}

def operand_ok(b):
    return isinstance(b, (SArr, SListData, SNum, SBool, bool, list, tuple)) or is_pynum(b) or isinstance(b, np.ndarray)

def nd_special(I, a, name, b):
    op = name.strip('_')
    inplace = refl = False
    if op not in ND_BIN:
        if op[0] == 'i' and op[1:] in ND_BIN: inplace, op = True, op[1:]
        elif op[0] == 'r' and op[1:] in ND_BIN: refl, op = True, op[1:]
        else: return NotImplemented
    uf = ND_BIN[op]
    if not operand_ok(b):
        if op in ('eq', 'ne'): raise Unsupported('array comparison with %r' % (b,))
        if isinstance(b, (SStr, str)): throw(TypeError, 'ufunc not supported for the input types')
        return NotImplemented
    if isinstance(b, (list, tuple)): b = to_array(I, b)
    if op == 'pow':
        return nd_pow(I, a, b, inplace, refl)
    if inplace: return call_ufunc(I, uf, [a, b], {'out': a})
    x, y = (b, a) if refl else (a, b)
    return call_ufunc(I, uf, [x, y], {})

def nd_pow(I, a, b, inplace, refl):
    if refl: return call_ufunc(I, np.power, [b, a], {})
    kw = {'out': a} if inplace else {}
    # numpy's fast paths for scalar exponents
    fast = None
    if not isinstance(b, SListData) and shape_of(b).scalar:
        t, ok = elem_real(b)
        for c, u in ((Fraction(1), np.positive), (Fraction(-1), np.reciprocal), (Fraction(0), None), (Fraction(1, 2), np.sqrt), (Fraction(2), np.square)):
            if E().decide(t == rv(c)):
                if u is None:
                    if a.cls is not np.ndarray or kw: raise Unsupported('array ** 0 fast path')
                    return new_array(I, rv(1), a.shape, a.dtype)
                if c in (Fraction(-1), Fraction(1, 2)) and not z3.is_true(a.dtype.inexact):
                    if not E().decide(a.dtype.inexact): break
                return call_ufunc(I, u, [a], kw)
    return call_ufunc(I, np.power, [a, b], kw)

def nd_unary(I, a, name):
    return call_ufunc(I, {'__neg__': np.negative, '__pos__': np.positive, '__invert__': np.invert, '__abs__': np.absolute}[name], [a], {})

# opaque operations -------------------------------------------------------------------------------------------
def canon(I, v):
    if v is None or isinstance(v, (bool, int, float, str)): return repr(v)
    if isinstance(v, SNum): return 'num:%s' % z3.simplify(v.t).sexpr()
    if isinstance(v, SDtype): return 'dt:%s' % ','.join(sorted(v.toks))
    if isinstance(v, SOpaque): return 'op:%r' % (v.key,)
    if isinstance(v, (tuple, list)): return '(%s)' % ','.join(canon(I, x) for x in v)
    if isinstance(v, slice): return 'slice(%s)' % ','.join(canon(I, x) for x in (v.start, v.stop, v.step))
    if isinstance(v, Shape): return repr(v)
    if v is np.newaxis or v is Ellipsis: return repr(v)
    if isinstance(v, type): return 'dt:%s' % ','.join(sorted(to_dtype(I, v).toks))
    if v is np._NoValue: return 'novalue'
    raise Unsupported('argument %r of an unmodelled array operation' % (v,))

def opaque(I, name, arrays, extra=()):
    """the result element of an unmodelled (but functional) array operation: equal operands give equal results"""
    e = E()
    ops = []
    for a in arrays:
        if isinstance(a, SArr): ops.append((a.elem, a.ok, a.shape, a.dtype))
        elif isinstance(a, SListData): ops.append((a.elem, TRUE, a.shape, a.dtype))
        else:
            t, k, ok = num_term(a); ops.append((t, ok, SCALAR, F8))
    key = (name, tuple(canon(I, x) for x in extra), tuple(o[2] for o in ops), tuple(o[0].sort().name() for o in ops))
    l = e.opaques.setdefault(key, [])
    for o2, el, ok in l:
        if all(x[0].eq(y[0]) and x[1].eq(y[1]) for x, y in zip(ops, o2)): return el, ok
    for o2, el, ok in l:
        if all(e.entails(And(x[0] == y[0], x[1] == y[1])) for x, y in zip(ops, o2)):
            return el, ok
    el = e.fresh('%s_' % name)
    ok = e.fresh('ok_%s_' % name, z3.BoolSort())
    e.opaque_used = True
    l.append((ops, el, ok))
    return el, ok

SIG = {  # parameters after the array, of ndarray methods and numpy functions
    'sum': ('axis', 'dtype', 'out', 'keepdims', 'initial', 'where'), 'prod': ('axis', 'dtype', 'out', 'keepdims', 'initial', 'where'),
    'mean': ('axis', 'dtype', 'out', 'keepdims', 'where'), 'var': ('axis', 'dtype', 'out', 'ddof', 'keepdims'), 'std': ('axis', 'dtype', 'out', 'ddof', 'keepdims'),
    'max': ('axis', 'out', 'keepdims', 'initial', 'where'), 'min': ('axis', 'out', 'keepdims', 'initial', 'where'), 'ptp': ('axis', 'out', 'keepdims'),
    'argmax': ('axis', 'out', 'keepdims'), 'argmin': ('axis', 'out', 'keepdims'), 'cumsum': ('axis', 'dtype', 'out'), 'cumprod': ('axis', 'dtype', 'out'),
    'round': ('decimals', 'out'), 'trace': ('offset', 'axis1', 'axis2', 'dtype', 'out'), 'squeeze': ('axis',), 'clip': ('min', 'max', 'out'),
    'argsort': ('axis', 'kind', 'order'), 'nonzero': (), 'searchsorted': ('v', 'side', 'sorter'), 'any': ('axis', 'out'), 'all': ('axis', 'out'),
    'nansum': ('axis', 'dtype', 'out'), 'nanmean': ('axis', 'dtype', 'out'), 'nanstd': ('axis', 'dtype', 'out', 'ddof'), 'nanvar': ('axis', 'dtype', 'out', 'ddof'),
    'nanmax': ('axis', 'out'), 'nanmin': ('axis', 'out'), 'nanargmin': ('axis', 'out'), 'nanargmax': ('axis', 'out'),
    'tolist': (), 'flatten': ('order',), 'ravel': ('order',), 'reshape': ('shape',), 'transpose': ('axes',), 'repeat': ('repeats', 'axis'), 'take': ('indices', 'axis', 'out', 'mode'),
    'diff': ('n', 'axis', 'prepend', 'append'), 'ediff1d': ('to_end', 'to_begin'), 'cross': ('b', 'axisa', 'axisb', 'axisc', 'axis'), 'unwrap': ('discont', 'axis', 'period'),
    'nan_to_num': (), 'expand_dims': ('axis',), 'take_along_axis': ('indices', 'axis'), 'unravel_index': ('shape',), 'size': ('axis',),
    'nancumsum': ('axis', 'dtype', 'out'), 'nanprod': ('axis', 'dtype', 'out'), 'nanmedian': ('axis', 'out'), 'median': ('axis', 'out'),
}
DEFAULTS = {'axis': None, 'dtype': None, 'out': None, 'ddof': 0, 'decimals': 0, 'offset': 0, 'axis1': 0, 'axis2': 1, 'side': 'left', 'n': 1, 'initial': np._NoValue,
            'where': np._NoValue, 'keepdims': False, 'kind': None, 'order': None, 'sorter': None, 'to_end': None, 'to_begin': None, 'mode': 'raise',
            'axisa': -1, 'axisb': -1, 'axisc': -1, 'min': None, 'max': None, 'discont': None, 'period': 6.283185307179586}
FLOATRES = {'mean', 'var', 'std', 'nanmean', 'nanstd', 'nanvar', 'median', 'nanmedian'}
INTRES = {'argmax', 'argmin', 'nanargmin', 'nanargmax', 'searchsorted', 'argsort', 'nonzero', 'size'}
NOREDUCE = {'round', 'clip', 'cumsum', 'cumprod', 'argsort', 'unwrap', 'nan_to_num', 'nancumsum'}
ALWAYS_ARRAY = {'squeeze', 'diff', 'ediff1d', 'cross', 'flatten', 'ravel', 'reshape', 'transpose', 'repeat', 'trace', 'take', 'expand_dims', 'take_along_axis', 'unravel_index', 'nonzero', 'searchsorted'}

def infinite(t, which):
    t = z3.simplify(t)
    return z3.is_const(t) and str(t) == 'const_' + which

AXISRED = {'sum', 'prod', 'mean', 'var', 'std', 'max', 'min', 'ptp', 'argmax', 'argmin', 'nansum', 'nanmean', 'nanstd', 'nanvar', 'nanmax', 'nanmin', 'nanargmin', 'nanargmax'}
def is_square(t):
    return z3.is_mul(t) and t.num_args() == 2 and t.arg(0).eq(t.arg(1)) or (z3.is_app(t) and t.num_args() == 3 and t.decl().kind() == z3.Z3_OP_ITE and is_square0(t.arg(1)) and is_square0(t.arg(2)))
def is_square0(t): return is_square(t) or const_frac(t) == 0
def array_op(I, name, a, args, kw):
    """an ndarray method / numpy function on a base-class array, modelled as an unknown function of its arguments"""
    TRUSTED.add('numpy %s computes some function of its arguments only (no side effect but on out=)' % name)
    names = SIG[name]
    p = {n: DEFAULTS.get(n) for n in names}
    if name in ('cumsum', 'cumprod', 'argsort') and name == 'argsort': p['axis'] = -1
    if name in ('diff', 'unwrap'): p['axis'] = -1
    if len(args) > len(names): throw(TypeError, 'too many arguments')
    for n, v in zip(names, args): p[n] = v
    for k, v in kw.items():
        if k == 'a_min': k = 'min'
        if k == 'a_max': k = 'max'
        if k not in p: throw(TypeError, 'unexpected keyword argument %r' % k)
        p[k] = v
    if p.get('kind') in ('quick', 'quicksort'): p['kind'] = None
    if p.get('keepdims') is np._NoValue: p['keepdims'] = False
    out = p.pop('out', None)
    dt = to_dtype(I, p.pop('dtype', None)) if 'dtype' in p else None
    arrays, extra = [a], []
    for n in names:
        if n not in p: continue
        v = p[n]
        if isinstance(v, (SArr, SListData)) or (n in ('b', 'v', 'min', 'max', 'discont', 'period', 'to_end', 'to_begin', 'prepend', 'append') and v is not None and not isinstance(v, (tuple, list))):
            if isinstance(v, SArr) and v.cls is not np.ndarray: v = nd_view(I, v, np.ndarray)
            if not isinstance(v, (SArr, SListData, SNum)) and not is_pynum(v): raise Unsupported('argument %s=%r' % (n, v))
            arrays.append(v); extra.append(n)
        else: extra.append((n, v))
    extra = [x if isinstance(x, str) else '%s=%s' % (x[0], canon(I, x[1])) for x in extra]
    if dt is not None: extra.append('dtype=%s' % canon(I, dt))
    if name == 'clip':
        lo, hi = p['min'], p['max']
        x, okx = elem_real(a)
        el, ok = x, okx
        if lo is not None:
            l, o = elem_real(lo); el = el if infinite(l, 'ninf') else If(el < l, l, el); ok = And(ok, o)
        if hi is not None:
            h, o = elem_real(hi); el = el if infinite(h, 'inf') else If(el > h, h, el); ok = And(ok, o)
    elif name in ('any', 'all') and a.shape.scalar:
        el, ok = (a.elem if z3.is_bool(a.elem) else a.elem != 0), a.ok
    elif name in ('min', 'max', 'sum', 'prod') and a.shape.scalar and p.get('axis') is None:
        el, ok = elem_real(a)
    elif name == 'sum' and not z3.is_bool(a.elem) and const_frac(a.elem) is not None and z3.is_true(a.ok):
        # the sum of a constant is the number of elements times it
        n = nd_getattr(I, a, 'size') if p.get('axis') is None else shape_item(I, a.shape, p['axis'])
        el, ok = a.elem * rv(num_term(n)[0]), TRUE
    elif name in ('squeeze', 'reshape', 'ravel'):
        shp = p['shape'] if name == 'reshape' and isinstance(p['shape'], Shape) else Shape(['%s(%s;%s)' % (name, '+'.join(sorted(map(str, a.shape.toks))), ','.join(extra))])
        if a.shape.scalar and name == 'squeeze': shp = SCALAR
        el, ok = opaque(I, 'reshape', [a], [shp]) if not (a.shape.scalar and shp.scalar) else (a.elem, a.ok)
        return SArr(np.ndarray, Buffer(el, ok), shp, a.dtype, base_for(np.ndarray, a), a.writeable)
    else:
        el, ok = opaque(I, name, arrays, extra)
        if name in ('min', 'max') and p.get('axis') is None and p.get('initial') is np._NoValue and p.get('where') is np._NoValue:
            x, _ = elem_real(a)
            E().fact(el <= x if name == 'min' else el >= x)
            if z3.is_true(a.ok): ok = TRUE
            TRUSTED.add('numpy min/max bound every element')
        if name in ('sum', 'nansum') and (z3.is_bool(a.elem) or is_square(a.elem)):
            E().fact(el >= 0)
            TRUSTED.add('sums of squares are not negative')
        if name in ('any', 'all'):
            b = z3.Function('nonzero_' + name, R, z3.BoolSort())(el)
            x = a.elem if z3.is_bool(a.elem) else a.elem != 0
            E().fact(z3.Implies(b, x) if name == 'all' else z3.Implies(x, b))
            el, ok = b, TRUE
    # result dtype and shape
    rdt = dt or a.dtype
    if dt is None:
        if name in FLOATRES and not z3.is_true(rdt.inexact): rdt = SDtype(rdt.toks | {'inexact'}, TRUE)
        if name in INTRES: rdt = I8
        if name in ('any', 'all'): rdt = B1
    elif name not in INTRES:
        pass
    red = name not in NOREDUCE
    scalar = red and p.get('axis') is None and name not in ALWAYS_ARRAY and not p.get('keepdims')
    if scalar: shp = SCALAR
    elif not red: shp = a.shape
    elif name in AXISRED:
        # every reduction along an axis gives the same shape
        shp = Shape(['reduced(%s;axis=%s)' % ('+'.join(sorted(map(str, a.shape.toks))), canon(I, p.get('axis')))])
        if p.get('keepdims'): shp = Shape(['keep(%s)' % '+'.join(sorted(map(str, shp.toks)))])
    else: shp = Shape(['%s(%s;%s)' % (name, '|'.join('+'.join(sorted(map(str, shape_of(x).toks))) for x in arrays), ','.join(extra))])
    if not red and name != 'round' and name != 'argsort':
        for x in arrays[1:]: shp = shp.bc(shape_of(x))
    if out is not None:
        if not isinstance(out, SArr): throw(TypeError, 'output must be an array')
        if E().decide(Not(out.writeable)): throw(ValueError, 'output array is read-only')
        out.buf.write(el, ok)
        if out.cls is not np.ndarray:
            # numpy may call out's __array_wrap__ on the way: its units are unknown afterwards
            if '_dimensionality' in out.attrs: out.attrs['_dimensionality'] = SDim(I.Dim, DimVal.symbolic('outdims'))
        return out
    if scalar:
        if name in ('any', 'all'): return mkbool(el)
        n = SNum(rv(0), 'float', True, ok); n.t = el
        n.kind = 'int' if name in INTRES else 'float'
        n.opaque_int = name in INTRES
        n.dt = rdt
        return n
    if name == 'nonzero': return (SArr(np.ndarray, Buffer(el, ok), shp, I8),)
    return SArr(np.ndarray, Buffer(el, ok), shp, rdt)

def nd_method(I, a, name, args, kw):
    """ndarray's own implementation of method `name`"""
    if name == 'view':
        t = kw.get('type', args[0] if args else None)
        if t is None: return nd_view(I, a, a.cls)
        if not (isinstance(t, type) and issubclass(t, np.ndarray)): raise Unsupported('view with a dtype')
        return nd_view(I, a, t)
    if name == 'astype':
        kw = dict(kw)
        dt = to_dtype(I, kw.pop('dtype', args[0] if args else None))
        cp = kw.pop('copy', True)
        if kw or len(args) > 1: raise Unsupported('astype options')
        if dt is None: dt = F8
        if cp is not True and cp is not False: raise Unsupported('astype copy')
        if dt.same(a.dtype):
            return nd_copy(I, a) if cp else a
        return nd_cast(I, a, dt)
    if name in ('copy', '__copy__'):
        return nd_copy(I, a)
    if name == 'fill':
        v = args[0]
        if isinstance(v, (SStr, SDim)): throw(TypeError, 'fill')
        t, ok = elem_real(v)
        if E().decide(Not(a.writeable)): throw(ValueError, 'assignment destination is read-only')
        a.buf.write(cast(t, arr_dtype(v), a.dtype), ok)
        return None
    if name == 'put':
        ind, val = args[0], args[1]
        mode = args[2] if len(args) > 2 else kw.get('mode', 'raise')
        if E().decide(Not(a.writeable)): throw(ValueError, 'assignment destination is read-only')
        if isinstance(val, (SListData, SNum)) or is_pynum(val): val = to_array(I, val)
        v = SArr(np.ndarray, Buffer(cast(val.elem, val.dtype, a.dtype), val.ok), val.shape, a.dtype)
        arrs = [a, v] + ([to_array(I, ind, False)] if isinstance(ind, (SArr, SListData)) else [])
        el, ok = opaque(I, 'put', arrs, [mode] if len(arrs) > 2 else [ind, mode])
        a.buf.write(el, ok)
        return None
    if name == '__array_wrap__' : return args[0]
    if name == '__reduce__':
        TRUSTED.add('ndarray.__reduce__/__setstate__ transport shape, dtype and data')
        st = (1, a.shape, a.dtype, False, SOpaque(('data', a.elem, a.ok), bytes))
        return (SOpaque(('np reconstruct',)), (a.cls, (0,), b'b'), st)
    if name == '__setstate__':
        st = args[0]
        if not isinstance(st, tuple) or len(st) != 5 or not isinstance(st[4], SOpaque): throw(TypeError, '__setstate__ state')
        a.shape, a.dtype = st[1], st[2]
        a.buf = Buffer(st[4].key[1], st[4].key[2])
        return None
    if name == '__format__': return SStr('format')
    if name in ('item', '__float__'):
        if not a.shape.scalar: raise Unsupported('item')
        return SNum(a.elem, 'float', False, a.ok)
    if name == '__len__': return b_len(I, a)
    if name == '__getitem__': return nd_getitem(I, a, *args)
    if name == '__setitem__': return nd_setitem(I, a, *args)
    if name == '__array__': return to_array(I, a, False)
    if name == 'tolist':
        if a.shape.scalar: return SNum(a.elem, 'float', False, a.ok)
        raise Unsupported('tolist of an array')
    if name in SIG:
        if a.cls is np.ndarray: return array_op(I, name, a, args, kw)
        if name in ('ravel', 'reshape', 'transpose', 'squeeze', 'flatten', 'take', 'repeat'):
            r = array_op(I, name, nd_view(I, a, np.ndarray), args, kw)
            v = SArr(a.cls, r.buf, r.shape, r.dtype, base_for(a.cls, a), a.writeable)
            return finalize(I, v, a)
    if name.startswith('__') and name.endswith('__') and len(args) == 1:
        r = nd_special(I, a, name, args[0])
        return r
    if name in ('__neg__', '__pos__', '__abs__', '__invert__'): return nd_unary(I, a, name)
    raise Unsupported('ndarray.%s on %s' % (name, a.cls.__name__))

def nd_getattr(I, a, name, owner=None):
    if name == 'shape': return a.shape
    if name == 'dtype': return a.dtype
    if name == 'base': return a.base
    if name == 'flags': return Flags(a)
    if name == 'size':
        if a.shape.scalar: return 1
        n = z3.Int('size_%s' % '+'.join(sorted(map(str, a.shape.toks)))); E().fact(n >= 0)
        return SNumInt(n)
    if name == 'ndim':
        if a.shape.scalar: return 0
        if ('ndim', a.shape) in E().memo: return E().memo[('ndim', a.shape)]
        n = z3.Int('ndim_%s' % '+'.join(sorted(map(str, a.shape.toks)))); E().fact(And(n >= 0, (n == 0) == is0(a.shape)))
        return SNumInt(n)
    if name == 'T':
        return nd_method(I, a, 'transpose', (), {})
    if name == 'real':
        if a.cls is np.ndarray: return SArr(np.ndarray, a.buf, a.shape, a.dtype, base_for(np.ndarray, a), a.writeable)
        return nd_view(I, a)
    if name == 'imag':
        r = SArr(a.cls, Buffer(f1('imag')(a.elem)), a.shape, a.dtype, None)
        r.imag_of = a
        return finalize(I, r, a)
    if name == '__doc__': return SStr('doc')
    if name == '__array_priority__': return 0.0
    if not hasattr(np.ndarray, name):
        throw(AttributeError, '%r object has no attribute %r' % (a.cls.__name__, name))
    if name in ('__class__',): return a.cls
    return NativeM('ndarray.' + name, lambda I, *x, **k: nd_method(I, a, name, x, k))

def nd_setattr(I, a, name, v):
    if name == 'real':
        if E().decide(Not(a.writeable)): throw(ValueError, 'read-only')
        t, ok = elem_real(to_array(I, v))
        a.buf.write(cast(t, arr_dtype(v), a.dtype), ok)
        return
    if name == 'imag':
        t, ok = elem_real(to_array(I, v))
        a.buf.imag = (t, ok)
        return
    raise Unsupported('assignment to ndarray.%s' % name)

def nd_getitem(I, a, k):
    TRUSTED.add('ndarray indexing selects elements of the array, the same ones for the same index and shape')
    e = E()
    base = SArr(np.ndarray, a.buf, a.shape, a.dtype, a, a.writeable)
    if a.shape.scalar and k == ():
        n = SNum(rv(0), 'float', True, a.ok); n.t = a.elem
        n.dt = a.dtype
        return n
    if isinstance(k, (SArr, SListData)):
        if isinstance(k, SArr) and k.cls is not np.ndarray: k = nd_view(I, k, np.ndarray)
        if z3.is_bool(k.elem): k = SArr(np.ndarray, Buffer(If(k.elem, rv(1), rv(0))), k.shape, SDtype(['mask'], FALSE))
        el, ok = opaque(I, 'getitem', [base, k], [])
        kk = 'arr'
    else:
        el, ok = opaque(I, 'getitem', [base], [k])
        kk = canon(I, k)
    sh = '+'.join(sorted(map(str, a.shape.toks)))
    if a.shape.scalar and k != () and k is not Ellipsis: throw(IndexError, 'too many indices for array')
    full = isinstance(k, SOpaque) and k.key[0] == 'unravel'
    isscalar = z3.Bool('scalarindex_%s_%s' % (sh, kk))
    if full or e.decide(isscalar):
        n = SNum(rv(0), 'float', True, ok); n.t = el
        n.dt = a.dtype
        return n
    bad = z3.Bool('indexerror_%s_%s' % (sh, kk))
    if e.decide(bad): throw(IndexError, 'index out of bounds')
    v = SArr(a.cls, Buffer(el, ok), Shape(['item(%s;%s)' % (sh, kk)]), a.dtype, base_for(a.cls, a), a.writeable)
    return finalize(I, v, a)

def nd_setitem(I, a, k, v):
    if E().decide(Not(a.writeable)): throw(ValueError, 'assignment destination is read-only')
    v = to_array(I, v) if not isinstance(v, SArr) else v
    val = SArr(np.ndarray, Buffer(cast(v.elem, v.dtype, a.dtype), v.ok), v.shape, a.dtype)
    if not (k is Ellipsis and v.shape.scalar) and E().decide(z3.Bool('setitemerror_%s_%s_%s' % ('+'.join(sorted(map(str, a.shape.toks))), 'arr%d' % id(k) if isinstance(k, SArr) else canon(I, k), '+'.join(sorted(map(str, v.shape.toks)))))):
        throw(IndexError, 'index or shape of the assignment')
    el, ok = opaque(I, 'setitem', [SArr(np.ndarray, a.buf, a.shape, a.dtype), val], [k] if not isinstance(k, SArr) else ['arr%d' % id(k)])
    a.buf.write(el, ok)

# ------------------------------------------------------------------ numpy functions
def np_isscalar(I, v):
    return isinstance(v, (SNum, SBool, SStr)) or np.isscalar(v) if not isinstance(v, (SArr, SDim, SListData)) else False
def np_result_type(I, *a):
    dt = None
    for x in a:
        if isinstance(x, SArr): d = x.dtype
        elif isinstance(x, SNum) or is_pynum(x): d = arr_dtype(x)
        else: d = to_dtype(I, x)
        dt = d if dt is None else dt.join(d)
    if dt.toks == {'pyfloat'}: dt = F8
    if dt.toks == {'pyint'}: dt = I8
    return dt
def np_dtype(I, d): return to_dtype(I, d)
def np_array(I, data, dtype=None, copy=True, subok=False, ndmin=0, order=None):
    if ndmin: raise Unsupported('ndmin')
    a = np_asarray(I, data, dtype, subok)
    return nd_copy(I, a) if (a is data or isinstance(data, SArr)) and copy else a
def np_zeros(val):
    def f(I, shape, dtype=float, **k):
        if k: raise Unsupported('zeros options')
        dt = to_dtype(I, dtype)
        if not isinstance(shape, Shape): raise Unsupported('zeros of a concrete shape')
        return new_array(I, z3.BoolVal(bool(val)) if dt.same(B1) else rv(val), shape, dt)
    return f
def np_unravel_index(I, i, shape):
    if not isinstance(shape, Shape) or not isinstance(i, SNum): raise Unsupported('unravel_index')
    TRUSTED.add('unravel_index of the index of an element is the complete index of that element')
    return SOpaque(('unravel', canon(I, i), canon(I, shape)), tuple)
def np_expand_dims(I, a, axis):
    a = to_array(I, a)
    if a.cls is not np.ndarray: raise Unsupported('expand_dims of a quantity')
    el, ok = opaque(I, 'expand_dims', [a], [axis])
    return SArr(np.ndarray, Buffer(el, ok), Shape(['expand(%s;%s)' % ('+'.join(sorted(map(str, a.shape.toks))), canon(I, axis))]), a.dtype, a)
def np_take_along_axis(I, a, i, axis):
    if not isinstance(a, SArr) or a.cls is not np.ndarray: raise Unsupported('take_along_axis of a quantity')
    i = to_array(I, i)
    el, ok = opaque(I, 'take_along_axis', [a, i], [axis])
    return new_array(I, el, Shape(['along(%s;%s;%s)' % ('+'.join(sorted(map(str, a.shape.toks))), '+'.join(sorted(map(str, i.shape.toks))), canon(I, axis))]), a.dtype, ok)
def np_where(I, c, *xy):
    if len(xy) != 2: raise Unsupported('np.where without values')
    c, x, y = to_array(I, c), *[v if isinstance(v, (SArr, SNum)) or is_pynum(v) else to_array(I, v) for v in xy]
    for v in (x, y):
        if isinstance(v, SArr) and issubclass(v.cls, I.q.Quantity): raise Unsupported('np.where of quantities')
    b = c.elem if z3.is_bool(c.elem) else c.elem != 0
    (tx, okx), (ty, oky) = elem_real(x), elem_real(y)
    dt = arr_dtype(x).join(arr_dtype(y))
    dt = F8 if dt.toks <= {'pyfloat', 'd', 'pyint'} and z3.is_true(dt.inexact) else I8 if dt.toks == {'pyint'} else dt
    TRUSTED.add('np.where selects elementwise')
    shp = c.shape
    for v in (x, y): shp = shp.bc(shape_of(v))
    return new_array(I, If(b, tx, ty), shp, dt, If(b, okx, oky))
def np_full_like(val):
    def f(I, a, dtype=None, **k):
        if k: raise Unsupported('options')
        a = to_array(I, a)
        dt = to_dtype(I, dtype) or a.dtype
        r = SArr(a.cls, Buffer(z3.BoolVal(bool(val)) if dt.same(B1) else rv(val)), a.shape, dt)
        return finalize(I, r, a)
    return f
def np_func(name):
    def f(I, a, *args, **kw):
        if isinstance(a, (SListData, SNum)) or is_pynum(a): a = to_array(I, a)
        if not isinstance(a, SArr):
            raise Unsupported('np.%s of %r' % (name, a))
        if a.cls is not np.ndarray:
            if name in ('sum', 'prod', 'mean', 'std', 'var', 'max', 'min', 'cumsum', 'cumprod', 'clip', 'ptp', 'argmax', 'argmin', 'round', 'trace',
                        'squeeze', 'searchsorted', 'argsort', 'nonzero', 'any', 'all', 'take', 'ravel', 'reshape', 'repeat', 'transpose'):
                p = dict(zip(SIG[name], args)); p.update(kw)
                m = I.getattr(a, name)
                if not isinstance(m, NativeM):
                    return I.call(m, [], {k: v for k, v in p.items()})
            if name == 'cross':
                TRUSTED.add('np.cross of quantities is the plain array np.cross gives for their numbers')
                return array_op(I, name, nd_view(I, a, np.ndarray), args, kw)
            if name == 'size': return I.getattr(a, 'size') if not args and not kw else array_op(I, name, nd_view(I, a, np.ndarray), args, kw)
            raise Unsupported('np.%s of a %s' % (name, a.cls.__name__))
        if name == 'size' and not args and not kw: return I.getattr(a, 'size')
        if name == 'diff' and any(isinstance(v, SArr) and v.cls is not np.ndarray for v in list(args) + list(kw.values())): raise Unsupported('np.diff of quantities')
        return array_op(I, name, a, args, kw)
    return f
def np_around(I, a, decimals=0, out=None):
    a = a if isinstance(a, SArr) else to_array(I, a)
    return I.call(I.getattr(a, 'round'), [], {'decimals': decimals, 'out': out})
def np_any(name):
    def f(I, a, axis=None, **k):
        if isinstance(a, (bool, SBool)): return a
        if isinstance(a, SArr) and z3.is_bool(a.elem) or isinstance(a, SArr):
            b = a if a.cls is np.ndarray else nd_view(I, a, np.ndarray)
            return array_op(I, name, b, (axis,), k)
        return array_op(I, name, to_array(I, a), (axis,), k)
    return f
def np_isclose(I, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    for v in (a, b):
        if isinstance(v, SArr) and issubclass(v.cls, I.q.Quantity): raise Unsupported('isclose of quantities')
    b_ = call_ufunc(I, np.absolute, [b], {})
    tol = call_ufunc(I, np.add, [atol, call_ufunc(I, np.multiply, [rtol, b_], {})], {})
    d = call_ufunc(I, np.absolute, [call_ufunc(I, np.subtract, [a, b], {})], {})
    return call_ufunc(I, np.less_equal, [d, tol], {})
def np_allclose(I, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return I.truth(np_any('all')(I, np_isclose(I, a, b, rtol, atol)))
def np_array_equal(I, a, b, equal_nan=False):
    for v in (a, b):
        if isinstance(v, SArr) and issubclass(v.cls, I.q.Quantity): raise Unsupported('array_equal of quantities')
    a, b = to_array(I, a), to_array(I, b)
    if a.shape != b.shape and E().choose(2): return False
    return I.truth(np_any('all')(I, call_ufunc(I, np.equal, [a, b], {})))
def np_gradient(I, f, *varargs, **kw):
    # a list of arrays, one per axis; modelled for the two-dimensional case
    if kw: raise Unsupported('gradient options')
    f = to_array(I, f)
    res = []
    nd = E().memo.get(('ndim', f.shape))
    if nd is None: raise Unsupported('gradient of an array of unknown dimension')
    for ax in range(nd):
        el, ok = opaque(I, 'gradient%d_%d' % (ax, len(varargs)), [f] + [to_array(I, v) for v in varargs], [])
        res.append(new_array(I, el, f.shape, f.dtype, ok))
    return res[0] if nd == 1 else tuple(res)
def np_shape(I, a): return shape_of(a)
def np_copyf(I, a, order='K', subok=False): return nd_copy(I, to_array(I, a, subok))
def m_warn(I, *a, **k): return None
def np_moddot(I, *a, **k): raise Unsupported('np function')

_table = None
def lookup(f):
    global _table
    if _table is None:
        t = {builtins.len: b_len, builtins.getattr: b_getattr, builtins.hasattr: b_hasattr, builtins.setattr: b_setattr, builtins.isinstance: b_isinstance,
             builtins.issubclass: b_issubclass, builtins.hash: b_hash, builtins.type: b_type, builtins.str: b_str, builtins.repr: b_repr, builtins.abs: b_abs,
             builtins.list: b_list, builtins.tuple: b_tuple, builtins.sorted: b_sorted, builtins.sum: b_sum, builtins.any: b_any, builtins.all: b_all,
             builtins.zip: b_zip, builtins.enumerate: b_enumerate, builtins.map: b_map, builtins.filter: b_filter, builtins.range: b_range,
             builtins.float: b_float, builtins.int: b_int, builtins.bool: b_bool, builtins.min: b_minmax('min'), builtins.max: b_minmax('max'),
             builtins.callable: b_callable, builtins.id: b_id, builtins.dict: b_dict, builtins.iter: b_iter, builtins.reversed: b_reversed, builtins.round: b_round,
             builtins.pow: b_pow, _copy.deepcopy: m_deepcopy, _copy.copy: m_copy, warnings.warn: m_warn,
             np.asarray: lambda I, d, dtype=None, **k: np_asarray(I, d, dtype, False, **k), np.asanyarray: lambda I, d, dtype=None, **k: np_asarray(I, d, dtype, True, **k),
             np.array: np_array, np.isscalar: np_isscalar, np.result_type: np_result_type, np.dtype: np_dtype, np.zeros: np_zeros(0), np.ones: np_zeros(1),
             np.zeros_like: np_full_like(0), np.where: np_where, np.unravel_index: np_unravel_index, np.expand_dims: np_expand_dims, np.take_along_axis: np_take_along_axis, np.ones_like: np_full_like(1), np.around: np_around, np.round: np_around, np.any: np_any('any'), np.all: np_any('all'), np.isclose: np_isclose, np.allclose: np_allclose, np.array_equal: np_array_equal,
             _ast.parse: lambda I, *a, **k: I.t.m_parse(I, *a, **k), _ast.walk: lambda I, t: I.t.m_walk(I, t), builtins.compile: lambda I, *a, **k: I.t.m_compile(I, *a, **k), builtins.eval: lambda I, *a, **k: I.t.m_eval(I, *a, **k), re.sub: re_sub,
             np.shape: np_shape, np.copy: np_copyf, np.gradient: np_gradient}
        for n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'xor'):
            t[getattr(operator, n)] = (lambda n: lambda I, a, b: I.binop(n, a, b))(n)
            t[getattr(operator, 'i' + n)] = (lambda n: lambda I, a, b: I.binop(n, a, b, True))(n)
        for n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'): t[getattr(operator, n)] = (lambda n: lambda I, a, b: I.compare(n, a, b))(n)
        t[operator.neg] = lambda I, a: I.unary('-', a)
        t[operator.pos] = lambda I, a: I.unary('+', a)
        t[operator.getitem] = lambda I, a, k: I.getitem(a, k)
        t[operator.setitem] = lambda I, a, k, v: I.setitem(a, k, v)
        t[functools.reduce] = m_reduce
        t[_pickle.dumps], t[_pickle.loads] = m_dumps, m_loads
        for n in SIG:
            fn = getattr(np, n, None)
            if fn is not None and fn not in t and not isinstance(fn, np.ufunc) and n not in ('tolist', 'flatten'): t[fn] = np_func(n)
        for n, alias in (('max', 'amax'), ('min', 'amin')): t[getattr(np, alias)] = np_func(n)
        _table = t
    try:
        return _table.get(f)
    except TypeError:
        return None

def seq_list(I, s):
    """the elements of an iterable as a list (with a fold for a comprehension over a map)"""
    if isinstance(s, list): return s
    if isinstance(s, SSeq): return [s.fold(I)]
    return I.iterate(s)
def re_sub(I, pat, repl, s, count=0, flags=0):
    if isinstance(pat, str): pat = re.compile(pat, flags)
    if isinstance(repl, str) and isinstance(s, I.t.AnyText): return I.t.AnyText('sub')
    if isinstance(repl, str) and isinstance(s, (I.t.Txt, I.t.SymP)): return I.t.preprocess(s, pat, lambda x: pat.sub(repl, x))
    if isinstance(s, SStr): return SStr('sub')
    if not is_sym_(repl) : return I.native(pat.sub, [repl, s], {'count': count})
    raise Unsupported('re.sub')
def is_sym_(v):
    from .interp import is_sym
    return is_sym(v)
def unit_text(I, u, which):
    """the symbol, unicode symbol or name of an arbitrary unit (its accessors are checked by C08)"""
    e = E()
    k = ('unittext', u.unit.get_id(), which)
    if k not in e.memo: e.memo[k] = (I.t.SymP(u.unit, which), u.unit)
    return e.memo[k][0]

def m_reduce(I, f, seq, *init):
    l = I.iterate(seq)
    if init: r = init[0]
    else:
        r, l = l[0], l[1:]
    for x in l: r = I.call(f, [r, x])
    return r

def call_builtin(I, f, args, kwargs):
    """bound methods of concrete objects, slot wrappers, ndarray methods called through the class"""
    from .interp import is_sym
    n = getattr(f, '__name__', '')
    objcls = getattr(f, '__objclass__', None)
    slf = getattr(f, '__self__', None)
    if objcls is np.ndarray and args and isinstance(args[0], SArr): return nd_method(I, args[0], n, tuple(args[1:]), kwargs)
    if objcls is dict and args and isinstance(args[0], SDim): return I.call(dict_getattr(I, args[0], n), args[1:], kwargs)
    if objcls is object and n in ('__setattr__',):
        args[0].attrs[args[1]] = args[2]; return None
    if f is np.ndarray.__new__ or (n == '__new__' and slf is np.ndarray):
        cls = args[0]
        a = SArr(cls, Buffer(E().fresh('uninit')), Shape(['new']), I8)
        return finalize(I, a, None)
    if isinstance(slf, np.ufunc) and n == 'reduce':
        a = args[0]
        m = {'add': 'sum', 'multiply': 'prod', 'maximum': 'max', 'minimum': 'min'}.get(slf.__name__)
        if m and isinstance(a, SArr) and a.cls is np.ndarray:
            ax = args[1] if len(args) > 1 else kwargs.get('axis', 0)
            return array_op(I, m, a, (), {'axis': ax})
        raise Unsupported('ufunc.reduce')
    if isinstance(slf, (list,)) and not isinstance(slf, type):
        try: return f(*args, **kwargs)
        except (IndexError, ValueError) as ex: throw(type(ex), *ex.args)
    if isinstance(slf, dict):
        return f(*args, **kwargs) if not is_sym(args[:1]) else I_unsup(f)
    if isinstance(slf, str) and n == 'join' and len(args) == 1: return I.t.join(I, slf, seq_list(I, args[0]))
    if isinstance(slf, re.Pattern) and n == 'sub': return re_sub(I, slf, *args, **kwargs)
    if isinstance(slf, str) and is_sym(args): return SStr('str.' + n)
    if not is_sym(args) and not is_sym(kwargs): return I.native(f, args, kwargs)
    raise Unsupported('call of %r' % (f,))
def I_unsup(f): raise Unsupported('call of %r' % (f,))
