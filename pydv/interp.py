"""A symbolic interpreter for the Python subset the package is written in. It executes the *live* function
objects of the package: the AST is located through the code object, names through the live globals and
closure cells, attributes through the live classes (MRO, properties, decorators)."""
import ast, types, builtins, operator, os, functools, copy as _copy, inspect
import numpy as np
from .core import *
from .core import z3
from .dims import *
from .values import *
from .boot import REPO

class Return(Exception):
    def __init__(self, v): self.v = v
class Break(Exception): pass
class Continue(Exception): pass

class Poison:
    """value of a variable that is unknown after a summarised loop"""
    def __repr__(self): return 'Poison'
POISON = Poison()

def mangled(name, fr):
    """private name mangling"""
    if not name.startswith('__') or name.endswith('__') or '__' not in name: return name
    parts = [x for x in fr.fn.name.split('.<locals>')[0].split('.')]
    if len(parts) < 2: return name
    return '_%s%s' % (parts[-2].lstrip('_'), name)

class Frame:
    def __init__(self, fn, parent=None):
        self.fn, self.parent, self.vars = fn, parent, {}
        self.exc = None
        self.comp = False
        E().track(self)
    def save(self): return dict(self.vars)
    def load(self, s): self.vars = dict(s)

from .text import Fold
from . import text as text_
class TList(list):
    """a list made by interpreted code (tracked for rollback)"""
    def save(self): return list(self)
    def load(self, s): self[:] = s
class TDict(dict):
    def save(self): return dict(self)
    def load(self, s):
        self.clear(); self.update(s)

# ------------------------------------------------------------------ source
_trees = {}
def tree_of(filename):
    if filename not in _trees:
        src = open(filename, encoding='utf8').read()
        t = ast.parse(src, filename)
        idx = {}
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    line = min(d.lineno for d in n.decorator_list)
                nm = n.name if isinstance(n, ast.FunctionDef) else '<lambda>'
                idx.setdefault((nm, line), []).append(n)
        _trees[filename] = idx
    return _trees[filename]

def node_of(f):
    c = f.__code__
    idx = tree_of(c.co_filename)
    l = idx.get((c.co_name, c.co_firstlineno))
    if not l:
        raise Unsupported('no source for %s' % f.__qualname__)
    if len(l) > 1:
        names = c.co_varnames[:c.co_argcount]
        l = [n for n in l if tuple(a.arg for a in n.args.posonlyargs + n.args.args) == names] or l
        if len(l) > 1 and c.co_name == '<lambda>':
            pos = list(c.co_positions())
            pos = [x for x in pos if x[0] is not None and (x[2], x[3]) != (0, 0)]
            l2 = [n for n in l if pos and (n.body.lineno, n.body.col_offset, n.body.end_lineno, n.body.end_col_offset) ==
                  (min(x[0] for x in pos), min(x[2] for x in pos if x[0] == min(y[0] for y in pos)), max(x[1] for x in pos), max(x[3] for x in pos if x[1] == max(y[1] for y in pos)))]
            l2 = l2 or [n for n in l if pos and (n.body.lineno, n.body.col_offset) <= (min((x[0], x[2]) for x in pos)) and max((x[1], x[3]) for x in pos) <= (n.body.end_lineno, n.body.end_col_offset)]
            if len(l2) != 1: raise Unsupported('several lambdas on one line')
            l = l2
    return l[0]

_ROOTS = tuple(os.path.realpath(x) + os.sep for x in (os.path.join(REPO, 'quantities'), os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cases')))
def in_repo(f):
    return isinstance(f, types.FunctionType) and os.path.realpath(f.__code__.co_filename).startswith(_ROOTS)

BINOPS = {ast.Add: ('add', '+'), ast.Sub: ('sub', '-'), ast.Mult: ('mul', '*'), ast.Div: ('truediv', '/'),
          ast.FloorDiv: ('floordiv', '//'), ast.Mod: ('mod', '%'), ast.Pow: ('pow', '**'), ast.BitXor: ('xor', '^'),
          ast.BitAnd: ('and', '&'), ast.BitOr: ('or', '|'), ast.LShift: ('lshift', '<<'), ast.RShift: ('rshift', '>>'),
          ast.MatMult: ('matmul', '@')}
CMPOPS = {ast.Eq: ('eq', 'eq'), ast.NotEq: ('ne', 'ne'), ast.Lt: ('lt', 'gt'), ast.LtE: ('le', 'ge'),
          ast.Gt: ('gt', 'lt'), ast.GtE: ('ge', 'le')}
NATIVE_OP = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'truediv': operator.truediv,
             'floordiv': operator.floordiv, 'mod': operator.mod, 'pow': operator.pow, 'xor': operator.xor, 'and': operator.and_,
             'or': operator.or_, 'lshift': operator.lshift, 'rshift': operator.rshift, 'matmul': operator.matmul,
             'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}
class Sentinel:
    """stands for the unknown elements of a list within a loop"""
def has_fold(l): return any(isinstance(x, (Fold, Sentinel)) for x in l)
SYM = (SArr, SDim, SNum, SBool, SStr, SOpaque, SDtype, SExc, SFunc, BoundM, SSuper, NativeM, SMapIter, SSeq, SHash, SObj, Shape, Poison, text_.Node, text_.NodeValue)

def is_sym(v):
    if isinstance(v, SYM): return True
    if isinstance(v, (list, tuple, set, frozenset)): return any(is_sym(x) for x in v)
    if isinstance(v, dict): return any(is_sym(x) for x in v.values()) or any(is_sym(x) for x in v)
    if isinstance(v, slice): return is_sym((v.start, v.stop, v.step))
    return False

def is_num(v):
    return isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, (bool, np.bool_))

class Interp:
    def __init__(self, contracts=None):
        self.contracts = contracts or {}     # qualname -> apply(I, args, kwargs)
        self.used = set()                    # contracts applied
        self.functions = set()
        self.executed = set()                # repo functions interpreted
        self.skip = []                       # qualnames to interpret once although they have a contract
        self.depth = 0
        self.overlay = {}
        self.goverlay = {}
        self.steps = 0
        from . import models, text
        self.m, self.t = models, text
        q = self.q = __import__('quantities')
        self.Dim = q.dimensionality.Dimensionality
        self.Quantity = q.quantity.Quantity
        self.UnitQuantity = q.unitquantity.UnitQuantity
        self.UQ = q.uncertainquantity.UncertainQuantity

    # ---------------------------------------------------------------- lifting live objects
    def lift(self, v):
        if isinstance(v, SYM) or v is None or isinstance(v, (str, bool, type, int, float, types.ModuleType)): return v
        e = E()
        if isinstance(v, np.ndarray):
            k = id(v)
            if k in e.concrete_units: return e.concrete_units[k][0]
            r = self.lift_array(v)
            return r
        if isinstance(v, self.Dim):
            return SDim(type(v), self.lift_dims(v))
        if isinstance(v, np.bool_): return bool(v)
        if isinstance(v, tuple) and any(isinstance(x, (np.ndarray, self.Dim)) for x in v):
            return tuple(self.lift(x) for x in v)
        return v

    def lift_dims(self, d):
        lin = DimVal.empty()
        for u, p in d.items():
            lin = lin + DimVal.single(self.lift(u).unit, Fraction(float(p)).limit_denominator(10**6))
        return lin

    def lift_array(self, v):
        e = E()
        q = type(v)
        if isinstance(v, self.UnitQuantity):
            b = Buffer(rv(1))
            a = SArr(q, b, SCALAR, F8, writeable=FALSE)
            e.concrete_units[id(v)] = (a, v)
            nm = 'unit_%s' % v.__dict__.get('_name', '?')
            t = z3.Const(nm + '@%s' % q.__name__, Unit)
            for o, _ in list(e.concrete_units.values()):
                if o.unit is not None: e.fact(t != o.unit)
            a.unit = t
            a.attrs = {k: x for k, x in v.__dict__.items()}
            a.live = v
            e.unit(t)
            if not isinstance(v, self.q.unitquantity.Dimensionless):
                # the size and irreducible dimensions of a live unit are those of its cached reference
                ref = v.__dict__.get('_conv_ref')
                if ref is None:
                    e.fact(RMu_f(t) == 1)
                    e.forall(lambda x: RDu_f(t, x) == If(x == t, rv(1), rv(0)))
                else:
                    try:
                        m = float(np.asarray(ref))
                        dd = self.lift_dims(ref._dimensionality)
                        e.fact(RMu_f(t) == rv(m))
                        e.forall(lambda x: RDu_f(t, x) == dd.val(x))
                    except (AttributeError, TypeError):
                        pass
            return a
        if v.ndim == 0 and v.dtype.kind in 'fiub':
            x = v.item() if not isinstance(v, self.Quantity) else np.asarray(v).item()
            el = rv(x) if not isinstance(x, bool) else z3.BoolVal(x)
            a = SArr(q, Buffer(el), SCALAR, F8 if v.dtype.kind == 'f' else I8)
        else:
            tok = 'live%d' % id(v)
            a = SArr(q, Buffer(e.fresh('live')), Shape([tok]), F8)
        e.concrete_units[id(v)] = (a, v)
        if isinstance(v, self.Quantity):
            a.attrs = {k: x for k, x in v.__dict__.items()}
            a.attrs['_dimensionality'] = self.lift(v.__dict__['_dimensionality']) if '_dimensionality' in v.__dict__ else SDim(self.Dim, DimVal.empty())
        return a

    # ---------------------------------------------------------------- types
    def pytype(self, v):
        if isinstance(v, (SArr, SDim, SObj)): return v.cls
        if isinstance(v, SNum): return (np.float64 if v.kind == 'float' else np.int64) if v.np else (float if v.kind == 'float' else int)
        if isinstance(v, SBool): return bool
        if isinstance(v, SStr): return str
        if isinstance(v, self.t.Node): return self.t.node_class(self, v)
        if isinstance(v, self.t.NodeValue): return self.t.value_class(self, v)
        if isinstance(v, SHash): return int
        if isinstance(v, SExc): return v.cls
        if isinstance(v, Shape): return tuple
        if isinstance(v, SFunc): return types.FunctionType
        if isinstance(v, (BoundM, NativeM)): return types.MethodType
        if isinstance(v, SOpaque): return v.pytype
        if isinstance(v, TList): return list
        if isinstance(v, TDict): return dict
        if isinstance(v, self.m.SListData): return list
        if isinstance(v, SDtype): return np.dtype
        if isinstance(v, Poison): raise Unsupported('use of a loop variable after the loop')
        return type(v)

    def isinstance(self, v, cls):
        if isinstance(v, self.t.Node): return self.t.node_isinstance(v.k, cls)
        if isinstance(v, self.t.NodeValue): return self.t.value_isinstance(v.k, cls)
        if isinstance(cls, tuple): return any(self.isinstance(v, c) for c in cls)
        if not isinstance(cls, type): 
            throw(TypeError, 'isinstance() arg 2 must be a type')
        t = self.pytype(v)
        return issubclass(t, cls)

    # ---------------------------------------------------------------- truth
    def truth(self, v):
        if isinstance(v, list) and any(isinstance(x, Sentinel) for x in v): raise Unsupported('a list that grows in the loop')
        if isinstance(v, SBool): return E().decide(v.t)
        if isinstance(v, SNum): return E().decide(v.t != 0)
        if isinstance(v, SDim): return E().decide(self.dim_nonempty(v))
        if isinstance(v, SArr):
            if not v.shape.scalar:
                if not E().decide(single_element(v.shape)):
                    throw(ValueError, 'The truth value of an array with more than one element is ambiguous')
            return E().decide(v.elem if z3.is_bool(v.elem) else v.elem != 0)
        if isinstance(v, (SFunc, BoundM, NativeM, SExc, SDtype)): return True
        if isinstance(v, Shape): return not v.scalar if v.scalar else E().decide(Not(is0(v)))
        if isinstance(v, SMapIter): return True
        if isinstance(v, SObj):
            m = self.find(v.cls, '__bool__') or self.find(v.cls, '__len__')
            if m is None: return True
            return self.truth(self.call(m, [v]))
        if isinstance(v, (self.t.Txt, self.t.SymP)): return E().decide(Not(self.t.empty(v)))
        if isinstance(v, self.t.AnyText): return E().decide(E().fresh('nonempty', z3.BoolSort()))
        if isinstance(v, list) and has_fold(v): return True if any(not isinstance(x, Fold) for x in v) else E().decide(Or(*[x.some() for x in v]))
        if isinstance(v, SStr) and getattr(v, 'denotes', None) is not None: return True     # a string of units is not the empty string
        if isinstance(v, SStr) and getattr(v, 'registered', None) is not None: return True     # names are not empty
        if isinstance(v, SStr) and hasattr(v, 'registered'):
            if not hasattr(v, 'nonempty'): v.nonempty = E().fresh('nonempty', z3.BoolSort())
            return E().decide(v.nonempty)
        if isinstance(v, (SStr, SOpaque, SHash, SSeq, Poison)): raise Unsupported('truth value of %r' % v)
        return bool(v)

    def dim_nonempty(self, d):
        e = E()
        st = d.st
        if st.lin is not None and not st.lin and st.wf: return FALSE
        key = ('ne', id(st))
        if key not in e.memo:
            if st.wf:
                p = Not(st.is_empty())
            else:
                p = e.fresh('nonempty', z3.BoolSort())
                sk = e.new_unit('ne')
                e.fact(z3.Implies(p, st.dom(sk)))
                e.forall(lambda u: z3.Implies(z3.Not(p), z3.Not(st.dom(u))))
            e.memo[key] = (p, st)
        return e.memo[key][0]

    # ---------------------------------------------------------------- attribute access
    def find(self, cls, name):
        for c in cls.__mro__:
            if (c, name) in self.overlay: return self.overlay[(c, name)]
            if name in c.__dict__: return c.__dict__[name]
        return None
    def find_owner(self, cls, name, after=None):
        mro = cls.__mro__
        if after is not None: mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.__dict__: return c, self.overlay.get((c, name), c.__dict__[name])
        return None, None

    def getattr(self, v, name, after=None):
        """v.name; after: start the MRO search behind this class (super())"""
        if isinstance(v, SSuper): return self.getattr(v.obj, name, v.cls)
        if isinstance(v, (SArr, SDim)) or (isinstance(v, SObj) and not isinstance(v, type)):
            if isinstance(v, type): pass
            cls = v.cls
            if name == '__class__': return cls
            if name == '__dict__': raise Unsupported('__dict__')
            owner, d = self.find_owner(cls, name, after)
            if isinstance(d, property) and getattr(v, 'generic', False) and name == 'format_order': return SOpaque(('format_order',), tuple)
            if isinstance(d, property) and getattr(v, 'generic', False) and name in ('symbol', 'u_symbol', 'name'):
                return self.m.unit_text(self, v, name)
            if isinstance(d, property):
                return self.call_getter(owner, name, d, v)
            if after is None and name in v.attrs:
                x = v.attrs[name]
                y = self.lift(x)
                if y is not x: v.attrs[name] = y
                return y
            if owner in (np.ndarray, dict, object) or owner is None or (d is not None and not isinstance(d, (types.FunctionType, classmethod, staticmethod)) and callable(d) and not isinstance(d, type)):
                if isinstance(v, SArr): return self.m.nd_getattr(self, v, name, owner)
                if isinstance(v, SDim): return self.m.dict_getattr(self, v, name)
                if d is None: throw(AttributeError, "%r object has no attribute %r" % (cls.__name__, name))
                if isinstance(d, types.FunctionType): return BoundM(v, d)
                raise Unsupported('attribute %s of %s' % (name, cls.__name__))
            if isinstance(d, types.FunctionType): return BoundM(v, d)
            if isinstance(d, classmethod): return BoundM(cls, d.__func__)
            if isinstance(d, staticmethod): return d.__func__
            return self.lift(d)
        if isinstance(v, type):
            for c in v.__mro__:
                if (c, name) in self.overlay: return self.overlay[(c, name)]
                if name in c.__dict__:
                    d = c.__dict__[name]
                    if isinstance(d, classmethod): return BoundM(v, d.__func__)
                    if isinstance(d, staticmethod): return d.__func__
                    return self.lift(d)
            try: return self.lift(getattr(v, name))
            except AttributeError as ex: throw(AttributeError, str(ex))
        if isinstance(v, (SNum, SBool)):
            return self.m.num_getattr(self, v, name)
        if isinstance(v, SDtype):
            if name == 'kind': return SOpaque(('kind', v), str)
            if name == 'type': return SOpaque(('type', v), type)
            raise Unsupported('dtype.%s' % name)
        if isinstance(v, SExc):
            if name == 'args': return v.args
            throw(AttributeError, name)
        if isinstance(v, self.t.Node): return self.t.node_getattr(self, v, name)
        if isinstance(v, SStr): return self.m.str_getattr(self, v, name)
        if isinstance(v, (SFunc, BoundM)):
            if name in ('__name__', '__qualname__'): return v.name if isinstance(v, SFunc) else 'm'
            if name == '__doc__': return SStr('doc')
            if isinstance(v, SFunc) and name in v.attrs: return v.attrs[name]
            if isinstance(v, BoundM) and name == '__func__': return v.fn
            throw(AttributeError, name)
        if isinstance(v, self.m.SListData): return self.m.list_getattr(self, v, name)
        if isinstance(v, (list, dict)) and is_sym(v):
            return NativeM(name, lambda I, *a, **k: getattr(v, name)(*a, **k))
        if isinstance(v, SMapIter) or isinstance(v, SSeq): raise Unsupported('attribute %s of an iterator' % name)
        if isinstance(v, (SHash, SOpaque, Poison, Shape)):
            if isinstance(v, Shape) and name == '__len__': raise Unsupported('len(shape)')
            if isinstance(v, (SHash, Shape)) or (isinstance(v, SOpaque) and v.pytype in (type(None),)):
                if not hasattr(int if isinstance(v, SHash) else tuple, name): throw(AttributeError, name)
            if isinstance(v, SOpaque) and v.pytype is not object and not hasattr(v.pytype, name): throw(AttributeError, name)
            raise Unsupported('attribute %s of %r' % (name, v))
        if isinstance(v, self.m.Flags):
            if name == 'writeable': return mkbool(v.arr.writeable)
            raise Unsupported('flags.%s' % name)
        # concrete object
        try:
            r = getattr(v, name)
        except AttributeError as ex:
            throw(AttributeError, str(ex))
        return self.lift(r)

    def call_getter(self, owner, name, prop, v):
        q = '%s.%s' % (owner.__name__, name)
        c = self.contracts.get(q)
        if c is not None and q not in self.skip:
            self.used.add(q)
            return c(self, [v], {})
        if q in self.skip: self.skip.remove(q)
        if isinstance(prop.fget, types.FunctionType) and in_repo(prop.fget): return self.call_sfunc(self.sfunc(prop.fget), [v], {})
        return self.call(prop.fget, [v])

    def getattr_raw(self, v, name):
        """property v.name evaluated from its body, contract or not"""
        owner, d = self.find_owner(v.cls, name)
        return self.call_sfunc(self.sfunc(d.fget), [v], {})

    def hasattr(self, v, name):
        try:
            self.getattr(v, name)
            return True
        except PyExc as ex:
            if issubclass(ex.exc.cls, AttributeError): return False
            raise

    def setattr(self, v, name, val):
        if isinstance(v, (SArr, SDim, SObj)) and not isinstance(v, type):
            owner, d = self.find_owner(v.cls, name)
            if isinstance(d, property):
                if d.fset is None: throw(AttributeError, "can't set attribute %s" % name)
                return self.call(d.fset, [v, val])
            if owner is np.ndarray and isinstance(v, SArr):
                return self.m.nd_setattr(self, v, name, val)
            v.attrs[name] = val
            if name == '_name' and isinstance(v, SArr) and getattr(v, 'unnamed', False): self.m.name_unit(self, v, val)
            if name == '_conv_ref' and isinstance(v, SArr) and v.unit is not None: self.m.define_unit(self, v, val)
            return
        if isinstance(v, type):
            self.overlay[(v, name)] = val
            return
        if isinstance(v, self.m.Flags):
            if name == 'writeable':
                v.arr.writeable = self.m.as_boolterm(self, val)
                return
        if isinstance(v, SFunc):
            v.attrs[name] = val
            return
        raise Unsupported('attribute assignment on %r' % (v,))

    # ---------------------------------------------------------------- calls
    def call(self, f, args=(), kwargs=None):
        args = list(args); kwargs = dict(kwargs or {})
        if isinstance(f, BoundM): return self.call(f.fn, [f.obj] + args, kwargs)
        if isinstance(f, NativeM): return self.lift(f.fn(self, *args, **kwargs))
        if isinstance(f, SFunc): return self.call_sfunc(f, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [self.lift(f.__self__)] + args, kwargs)
        if isinstance(f, types.FunctionType) and in_repo(f):
            return self.call_repo(f, args, kwargs)
        if isinstance(f, type): return self.construct(f, args, kwargs)
        m = self.m.lookup(f)
        if m is not None: return self.lift(m(self, *args, **kwargs))
        if isinstance(f, np.ufunc): return self.m.call_ufunc(self, f, args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + args, {**f.keywords, **kwargs})
        if isinstance(f, SObj):
            return self.call(self.getattr(f, '__call__'), args, kwargs)
        if isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType, types.MethodDescriptorType, types.WrapperDescriptorType,
                          types.MethodWrapperType)):
            return self.m.call_builtin(self, f, args, kwargs)
        if isinstance(f, SYM): throw(TypeError, 'object is not callable') if isinstance(f, (SNum, SStr, SArr)) else None
        if not is_sym(args) and not is_sym(kwargs):
            return self.native(f, args, kwargs)
        raise Unsupported('call of %r' % (f,))

    def native(self, f, args, kwargs):
        try:
            return self.lift(f(*args, **kwargs))
        except (Unsupported, PathEnd, PyExc): raise
        except Exception as ex:
            throw(type(ex), *ex.args)

    def qualname(self, f):
        return f.__qualname__

    def call_repo(self, f, args, kwargs):
        q = f.__qualname__
        c = self.contracts.get(q)
        if c is not None:
            if q in self.skip: self.skip.remove(q)
            else:
                self.used.add(q)
                return c(self, args, kwargs)
        if f.__module__ == 'quantities.registry' and not is_sym(args):
            return self.native(f, args, kwargs)
        if f.__module__ == 'quantities.registry' and f.__name__ in ('__getitem__', '__setitem__') and self.m.registry_hook:
            r = self.m.registry_hook(self, f, args, kwargs)
            if r is not NotImplemented: return r
        return self.call_sfunc(self.sfunc(f), args, kwargs)

    def sfunc(self, f):
        if str(f.__module__).startswith('quantities'): self.functions.add(f)
        cells = {}
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try: cells[n] = c.cell_contents
                except ValueError: pass
        return SFunc(node_of(f), None, f.__globals__, f.__qualname__, f.__defaults__ or (), f.__kwdefaults__, cells, f.__code__.co_filename)

    def bind(self, sf, args, kwargs):
        a = sf.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args); kwargs = dict(kwargs)
        if len(args) > len(names) and not a.vararg:
            throw(TypeError, '%s() takes %d positional arguments but %d were given' % (sf.name, len(names), len(args)))
        for n, v in zip(names, args): env[n] = v
        if a.vararg: env[a.vararg.arg] = tuple(args[len(names):])
        for k in list(kwargs):
            if k in names:
                if k in env: throw(TypeError, '%s() got multiple values for argument %r' % (sf.name, k))
                env[k] = kwargs.pop(k)
            elif k in [x.arg for x in a.kwonlyargs]:
                env[k] = kwargs.pop(k)
        if a.kwarg: env[a.kwarg.arg] = TDict(kwargs)
        elif kwargs: throw(TypeError, '%s() got an unexpected keyword argument %r' % (sf.name, list(kwargs)[0]))
        nd = len(sf.defaults)
        for n, d in zip(names[len(names) - nd:], sf.defaults):
            if n not in env: env[n] = self.lift(d)
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg in sf.kwdefaults: env[x.arg] = self.lift(sf.kwdefaults[x.arg])
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env: throw(TypeError, '%s() missing a required argument: %r' % (sf.name, n))
        return env

    def call_sfunc(self, sf, args, kwargs):
        self.depth += 1
        if str(sf.globs.get('__name__', '')).startswith('quantities'): self.executed.add(sf.name)
        if self.depth > 60: raise Unsupported('recursion too deep')
        try:
            fr = Frame(sf, sf.frame)
            fr.vars = self.bind(sf, args, kwargs)
            if isinstance(sf.node, ast.Lambda): return self.eval(sf.node.body, fr)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(sf.node)):
                raise Unsupported('generator function')
            try:
                self.block(sf.node.body, fr)
            except Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def construct(self, cls, args, kwargs):
        if issubclass(cls, BaseException): return SExc(cls, tuple(args))
        m = self.m.lookup(cls)
        if m is not None: return self.lift(m(self, *args, **kwargs))
        if issubclass(cls, dict) and cls.__module__.startswith('quantities'):
            d = SDim(cls, DimVal.empty())
            init = self.find(cls, '__init__')
            if isinstance(init, types.FunctionType): self.call(init, [d] + args, kwargs)
            else: self.m.dict_init(self, d, *args, **kwargs)
            return d
        if cls.__module__.startswith('quantities'):
            new = self.getattr(cls, '__new__')
            if isinstance(new, types.FunctionType):
                obj = self.call(new, [cls] + args, kwargs)
            else:
                if issubclass(cls, np.ndarray): raise Unsupported('ndarray.__new__')
                obj = SObj(cls)
            if isinstance(obj, (SObj,)) and issubclass(obj.cls, cls):
                init = self.find(cls, '__init__')
                if isinstance(init, types.FunctionType): self.call(init, [obj] + args, kwargs)
            return obj
        if not is_sym(args) and not is_sym(kwargs): return self.native(cls, args, kwargs)
        raise Unsupported('construction of %s' % cls.__name__)

    # ---------------------------------------------------------------- operators
    def method(self, v, name):
        """special method lookup (on the type); None if absent"""
        t = self.pytype(v)
        owner, d = self.find_owner(t, name)
        return owner, d

    def binop(self, op, a, b, inplace=False):
        if not is_sym(a) and not is_sym(b) and not isinstance(a, self.m.SListData) and not isinstance(b, self.m.SListData):
            try: return self.lift(NATIVE_OP[op](a, b))
            except (Unsupported, PathEnd, PyExc): raise
            except Exception as ex: throw(type(ex), *ex.args)
        if op == 'mod' and isinstance(a, (str, SStr)):
            x = self.t.percent(self, a, b)
            if x is not None: return x
            return SStr('formatted')
        if inplace:
            r = self.try_special('__i%s__' % op, a, b)
            if r is not NotImplemented: return r
        ta, tb = self.pytype(a), self.pytype(b)
        l, r = '__%s__' % op, '__r%s__' % op
        tried = False
        if tb is not ta and issubclass(tb, ta):
            oa, _ = self.find_owner(ta, r)
            ob, _ = self.find_owner(tb, r)
            if ob is not None and ob is not oa:
                x = self.try_special(r, b, a)
                if x is not NotImplemented: return x
                tried = True
        x = self.try_special(l, a, b)
        if x is not NotImplemented: return x
        if not tried and tb is not ta:
            x = self.try_special(r, b, a)
            if x is not NotImplemented: return x
        throw(TypeError, 'unsupported operand type(s) for %s: %r and %r' % (op, ta.__name__, tb.__name__))

    def try_special(self, name, a, b):
        if isinstance(a, (SArr, SDim, SObj)):
            owner, d = self.find_owner(a.cls, name)
            if d is None: return NotImplemented
            if isinstance(d, types.FunctionType): return self.call(d, [a, b])
            if isinstance(a, SArr) and owner is np.ndarray: return self.m.nd_special(self, a, name, b)
            if isinstance(a, SDim): return self.m.dict_special(self, a, name, b)
            return NotImplemented
        if isinstance(a, (SNum, SBool)) or is_num(a) or isinstance(a, bool):
            return self.m.num_special(self, a, name, b)
        if isinstance(a, SHash): return self.m.hash_special(self, a, name, b)
        if isinstance(a, (SStr, str)):
            if name == '__add__' and self.t.known(a) and self.t.known(b): return self.t.txt(a, b)
            if name in ('__add__', '__mod__', '__mul__') and isinstance(b, (SStr, str, int)): return SStr('concat')
            if name == '__radd__' and self.t.known(a) and self.t.known(b): return self.t.txt(b, a)
            if name == '__radd__' and isinstance(b, (SStr, str)): return SStr('concat')
            return NotImplemented
        if isinstance(a, Shape): return NotImplemented
        if isinstance(a, (tuple, list)) and isinstance(b, type(a)) and name in ('__add__', '__iadd__'):
            if name == '__iadd__' and isinstance(a, list):
                a.extend(b); return a
            return a + b if isinstance(a, tuple) else E().track(TList(list(a) + list(b)))
        if isinstance(a, (tuple, list)) and name == '__mul__' and isinstance(b, int): return a * b
        return NotImplemented

    def compare(self, op, a, b):
        if op in ('is', 'is not'):
            r = self.identical(a, b)
            return r if op == 'is' else (not r if isinstance(r, bool) else mkbool(Not(r.t)))
        if op in ('in', 'not in'):
            r = self.contains(b, a)
            return r if op == 'in' else self.not_(r)
        if not is_sym(a) and not is_sym(b):
            try: return self.lift(NATIVE_OP[op](a, b))
            except (Unsupported, PathEnd, PyExc): raise
            except Exception as ex: throw(type(ex), *ex.args)
        refl = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[op]
        ta, tb = self.pytype(a), self.pytype(b)
        l, r = '__%s__' % op, '__%s__' % refl
        if op in ('eq', 'ne') and (a is None and isinstance(b, SOpaque) and b.pytype in (int, tuple) or b is None and isinstance(a, SOpaque) and a.pytype in (int, tuple)): return op == 'ne'
        if isinstance(a, Shape) or isinstance(b, Shape): return self.m.shape_cmp(self, op, a, b)
        if isinstance(a, SDtype) or isinstance(b, SDtype): return self.m.dtype_cmp(self, op, a, b)
        if isinstance(a, SHash) and isinstance(b, SHash):
            t = self.m.hash_eq(self, a, b)
            return mkbool(t if op == 'eq' else Not(t)) if op in ('eq', 'ne') else SBool(E().fresh('hashcmp', z3.BoolSort()))
        tried = False
        if tb is not ta and issubclass(tb, ta):
            x = self.try_special(r, b, a)
            if x is not NotImplemented: return x
            tried = True
        x = self.try_special(l, a, b)
        if x is not NotImplemented: return x
        if not tried:
            x = self.try_special(r, b, a)
            if x is not NotImplemented: return x
        if op in ('eq', 'ne') and self.t.is_text(a) and self.t.is_text(b):
            x = self.t.equal(self, a, b)
            if x is not None: return x if op == 'eq' else self.not_(x)
        if isinstance(a, (SStr, SOpaque)) or isinstance(b, (SStr, SOpaque)):
            for u, v in ((a, b), (b, a)):
                if op in ('eq', 'ne') and isinstance(u, SStr) and getattr(u, 'denotes', None) is not None and (v is None or isinstance(v, str) and v == ''): return op == 'ne'
            if op in ('eq', 'ne') and type(a) is type(b) and isinstance(a, SStr):
                if a is b: return op == 'eq'
                if isinstance(a.what, tuple) and isinstance(b.what, tuple) and a.what[0] == b.what[0] == 'dimstr':
                    self.m.TRUSTED.add('different unit maps have different string forms (C20)')
                    t = a.what[1].eq(b.what[1])
                    return mkbool(t if op == 'eq' else Not(t))
                if isinstance(a.what, str) and a.what == b.what and a.what.startswith(('name_', 'symbol_', 'u_symbol_')): return op == 'eq'
                raise Unsupported('comparison of unknown strings')
            if op in ('eq', 'ne') and (ta is str) != (tb is str): return op == 'ne'
            raise Unsupported('comparison of %r and %r' % (a, b))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and op in ('eq', 'ne'):
            if type(a) != type(b) and not (isinstance(a, list) and isinstance(b, list)): return op == 'ne'
            if len(a) != len(b): return op == 'ne'
            t = TRUE
            for x, y in zip(a, b):
                if x is y: continue
                t = And(t, self.m.as_boolterm(self, self.compare('eq', x, y)))
            return mkbool(t if op == 'eq' else Not(t))
        if op == 'eq': return self.identical(a, b)
        if op == 'ne': return self.not_(self.identical(a, b))
        throw(TypeError, 'not supported between instances of %r and %r' % (ta.__name__, tb.__name__))

    def identical(self, a, b):
        if a is b: return True
        if isinstance(a, SArr) and isinstance(b, SArr) and a.unit is not None and b.unit is not None and (a.maybe or b.maybe if hasattr(a, 'maybe') or hasattr(b, 'maybe') else False):
            return mkbool(a.unit == b.unit)
        return False

    def contains(self, seq, x):
        if isinstance(seq, SDim): return mkbool(seq.st.dom(self.m.key_term(self, x)))
        if isinstance(seq, SMapIter) and seq.mode == 'keys': return mkbool(seq.st.dom(self.m.key_term(self, x)))
        if isinstance(x, SOpaque) and isinstance(x.key, tuple) and x.key[0] == 'kind' and isinstance(seq, (str, tuple, list)):
            return self.m.kind_in(self, x.key[1], seq)
        if isinstance(seq, (tuple, list)):
            t = FALSE
            for y in seq:
                if y is x: return True
                t = Or(t, self.m.as_boolterm(self, self.compare('eq', y, x)))
            return mkbool(t)
        if isinstance(seq, dict):
            if isinstance(x, SArr): raise Unsupported('array as dict key')
            if isinstance(x, self.t.NodeName): return mkbool(self.t.Reg(x.k))
            if not is_sym(x): return x in seq
            if isinstance(x, SStr): return self.m.live_dict(self, seq, x).v is not None
        if isinstance(seq, SObj):
            return self.call(self.getattr(seq, '__contains__'), [x])
        if self.t.is_text(seq) and self.t.is_text(x):
            if isinstance(seq, str) and isinstance(x, str): return x in seq
            r = self.t.contains(self, x, seq)
            if r is not None: return r
        if isinstance(seq, (SStr, str)) or isinstance(x, SStr): raise Unsupported('in on strings %r in %r' % (x, seq))
        if not is_sym(seq) and not is_sym(x): return x in seq
        raise Unsupported('in on %r' % (seq,))

    def not_(self, v):
        if isinstance(v, SBool): return mkbool(Not(v.t))
        if isinstance(v, bool): return not v
        return not self.truth(v)

    def unary(self, op, v):
        if op == 'not': return self.not_(v)
        if not is_sym(v):
            return {'-': operator.neg, '+': operator.pos, '~': operator.invert}[op](v)
        if isinstance(v, SNum):
            return SNum(-v.t, v.kind, v.np, v.ok) if op == '-' else v
        name = {'-': '__neg__', '+': '__pos__', '~': '__invert__'}[op]
        if isinstance(v, SObj):
            owner, d = self.find_owner(v.cls, name)
            if isinstance(d, types.FunctionType): return self.call(d, [v])
            if isinstance(v, SArr): return self.m.nd_unary(self, v, name)
        raise Unsupported('unary %s on %r' % (op, v))

    # ---------------------------------------------------------------- names
    def load(self, fr, name):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison): raise Unsupported('variable %s is used after a summarised loop' % name)
                return v
            if name in f.fn.cells: return self.lift(f.fn.cells[name])
            g = f.fn.globs
            f = f.parent
        if (id(fr.fn.globs), name) in self.goverlay: return self.goverlay[(id(fr.fn.globs), name)]
        if name in fr.fn.globs: return self.lift(fr.fn.globs[name])
        if hasattr(builtins, name): return getattr(builtins, name)
        throw(NameError, name)

    def store(self, fr, name, v):
        fr.vars[name] = v

    # ---------------------------------------------------------------- statements
    def block(self, body, fr):
        for s in body: self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > 200000: raise Unsupported('too many steps')
        getattr(self, 's_' + type(s).__name__, self.s_unsupported)(s, fr)
    def s_unsupported(self, s, fr): raise Unsupported('statement %s' % type(s).__name__)
    def s_Pass(self, s, fr): pass
    def s_Expr(self, s, fr): self.eval(s.value, fr)
    def s_Return(self, s, fr): raise Return(self.eval(s.value, fr) if s.value else None)
    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets: self.assign(t, v, fr)
    def s_AnnAssign(self, s, fr):
        if s.value is not None: self.assign(s.target, self.eval(s.value, fr), fr)
    def s_AugAssign(self, s, fr):
        op = BINOPS[type(s.op)][0]
        t = s.target
        if isinstance(t, ast.Name):
            self.store(fr, t.id, self.binop(op, self.load(fr, t.id), self.eval(s.value, fr), True))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.setattr(o, mangled(t.attr, fr), self.binop(op, self.getattr(o, mangled(t.attr, fr)), self.eval(s.value, fr), True))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr); k = self.eval(t.slice, fr)
            self.setitem(o, k, self.binop(op, self.getitem(o, k), self.eval(s.value, fr), True))
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name): self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value, fr), mangled(t.attr, fr), v)
        elif isinstance(t, ast.Subscript): self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                i = [isinstance(x, ast.Starred) for x in t.elts].index(True)
                n = len(t.elts) - i - 1
                for x, y in zip(t.elts[:i], vs[:i]): self.assign(x, y, fr)
                self.assign(t.elts[i].value, list(vs[i:len(vs) - n]), fr)
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - n:]): self.assign(x, y, fr)
                return
            if len(vs) != len(t.elts): throw(ValueError, 'cannot unpack')
            for x, y in zip(t.elts, vs): self.assign(x, y, fr)
        else: raise Unsupported('assignment target')
    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name): fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr); k = self.eval(t.slice, fr)
                if isinstance(o, SDim): self.m.dict_del(self, o, k)
                elif isinstance(o, (list, dict)): del o[k]
                else: raise Unsupported('del')
            else: raise Unsupported('del')
    def s_If(self, s, fr):
        self.block(s.body if self.truth(self.eval(s.test, fr)) else s.orelse, fr)
    def s_While(self, s, fr):
        n = 0
        while self.truth(self.eval(s.test, fr)):
            n += 1
            if n > 64: raise Unsupported('while loop without an inferred invariant')
            try: self.block(s.body, fr)
            except Break: return
            except Continue: pass
        self.block(s.orelse, fr)
    def s_Break(self, s, fr): raise Break()
    def s_Continue(self, s, fr): raise Continue()
    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            throw(AssertionError)
    def s_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None and f.exc is None: f = f.parent
            if f is None: throw(RuntimeError, 'No active exception to reraise')
            raise PyExc(f.exc)
        v = self.eval(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException): v = SExc(v, ())
        if not isinstance(v, SExc): raise Unsupported('raise of %r' % (v,))
        raise PyExc(v)
    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyExc as ex:
                for h in s.handlers:
                    if h.type is None: ok = True
                    else:
                        t = self.eval(h.type, fr)
                        ok = issubclass(ex.exc.cls, t if isinstance(t, tuple) else (t,))
                    if ok:
                        old, fr.exc = fr.exc, ex.exc
                        try:
                            if h.name: self.store(fr, h.name, ex.exc)
                            self.block(h.body, fr)
                        finally:
                            fr.exc = old
                            if h.name: fr.vars.pop(h.name, None)
                        return
                raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.block(s.finalbody, fr)
    def s_With(self, s, fr):
        for i in s.items:
            v = self.eval(i.context_expr, fr)
            if is_sym(v): raise Unsupported('with on a symbolic object')
            if i.optional_vars is not None: raise Unsupported('with ... as')
        self.block(s.body, fr)
    def s_FunctionDef(self, s, fr):
        d = [self.eval(x, fr) for x in s.args.defaults]
        kd = {a.arg: self.eval(x, fr) for a, x in zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
        f = SFunc(s, fr, fr.fn.globs, fr.fn.name + '.<locals>.' + s.name, d, kd, {}, fr.fn.filename)
        v = f
        for dec in reversed(s.decorator_list):
            v = self.call(self.eval(dec, fr), [v])
        self.store(fr, s.name, v)
    def s_Import(self, s, fr):
        for a in s.names:
            m = __import__(a.name)
            self.store(fr, a.asname or a.name.split('.')[0], m if not a.asname else __import__('sys').modules[a.name])
    def s_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.fn.globs.get('__package__')
        try:
            mod = importlib.import_module('.' * s.level + (s.module or ''), pkg if s.level else None)
            for a in s.names: self.store(fr, a.asname or a.name, self.lift(getattr(mod, a.name)))
        except ImportError as ex:
            throw(type(ex), *ex.args)
    def s_Global(self, s, fr): raise Unsupported('global')
    def s_Nonlocal(self, s, fr): raise Unsupported('nonlocal')
    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        if isinstance(it, SDim): it = SMapIter(it, 'keys')
        if isinstance(it, (SMapIter, SSeq)):
            from .loops import loop_map
            return loop_map(self, s, it, fr)
        for x in self.iterate(it):
            self.assign(s.target, x, fr)
            try: self.block(s.body, fr)
            except Break: return
            except Continue: continue
        self.block(s.orelse, fr)

    def iterate(self, v):
        """the elements of an iterable of known length"""
        if isinstance(v, list) and has_fold(v): raise Unsupported('iteration over a list of unknown length')
        if isinstance(v, (list, tuple, range, str, dict, set, frozenset)): return list(v)
        if isinstance(v, Shape):
            raise Unsupported('iteration over a shape')
        if isinstance(v, self.m.SListData): raise Unsupported('iteration over symbolic list data')
        if isinstance(v, SYM): raise Unsupported('iteration over %r' % (v,))
        if hasattr(v, '__iter__'): return [self.lift(x) for x in v]
        throw(TypeError, 'not iterable')

    # ---------------------------------------------------------------- subscripts
    def getitem(self, o, k):
        if isinstance(o, SArr):
            owner, d = self.find_owner(o.cls, '__getitem__')
            if isinstance(d, types.FunctionType): return self.call(d, [o, k])
            return self.m.nd_getitem(self, o, k)
        if isinstance(o, SDim):
            owner, d = self.find_owner(o.cls, '__getitem__')
            if isinstance(d, types.FunctionType): return self.call(d, [o, k])
            return self.m.dict_getitem(self, o, k)
        if isinstance(o, SObj): return self.call(self.getattr(o, '__getitem__'), [k])
        if isinstance(o, Shape): return self.m.shape_item(self, o, k)
        if isinstance(o, list) and has_fold(o): raise Unsupported('subscript of a list of unknown length')
        if isinstance(o, (list, tuple, dict, str)) and not is_sym(k):
            try: return self.lift(o[k])
            except Exception as ex: throw(type(ex), *ex.args)
        if isinstance(o, SSuper): return self.call(self.getattr(o, '__getitem__'), [k])
        if not is_sym(o):
            g = getattr(type(o), '__getitem__', None)
            if in_repo(g): return self.call(g, [o, k])
            if isinstance(o, dict): return self.m.host_dict_get(self, o, k)
            if not is_sym(k):
                try: return self.lift(o[k])
                except Exception as ex: throw(type(ex), *ex.args)
        raise Unsupported('subscript of %r by %r' % (o, k))

    def setitem(self, o, k, v):
        if isinstance(o, SArr):
            owner, d = self.find_owner(o.cls, '__setitem__')
            if isinstance(d, types.FunctionType): return self.call(d, [o, k, v])
            return self.m.nd_setitem(self, o, k, v)
        if isinstance(o, SDim):
            owner, d = self.find_owner(o.cls, '__setitem__')
            if isinstance(d, types.FunctionType): return self.call(d, [o, k, v])
            return self.m.dict_setitem(self, o, k, v)
        if isinstance(o, SObj): return self.call(self.getattr(o, '__setitem__'), [k, v])
        if isinstance(o, (TList, TDict)) and not is_sym(k):
            o[k] = v
            return
        if isinstance(o, dict) and isinstance(k, SStr):
            self.m.live_dict(self, o, k).v = v
            return
        if not is_sym(o):
            g = getattr(type(o), '__setitem__', None)
            if in_repo(g): return self.call(g, [o, k, v])
        raise Unsupported('item assignment on %r' % (o,))

    # ---------------------------------------------------------------- expressions
    def eval(self, n, fr):
        return getattr(self, 'e_' + type(n).__name__, self.e_unsupported)(n, fr)
    def e_unsupported(self, n, fr): raise Unsupported('expression %s' % type(n).__name__)
    def e_Constant(self, n, fr): return n.value
    def e_Name(self, n, fr): return self.load(fr, n.id)
    def e_Attribute(self, n, fr): return self.getattr(self.eval(n.value, fr), mangled(n.attr, fr))
    def e_Subscript(self, n, fr): return self.getitem(self.eval(n.value, fr), self.eval(n.slice, fr))
    def e_Slice(self, n, fr):
        return slice(*[self.eval(x, fr) if x is not None else None for x in (n.lower, n.upper, n.step)])
    def e_Tuple(self, n, fr): return tuple(self.elts(n.elts, fr))
    def e_List(self, n, fr): return E().track(TList(self.elts(n.elts, fr)))
    def e_Set(self, n, fr): return set(self.elts(n.elts, fr))
    def elts(self, l, fr):
        out = []
        for x in l:
            if isinstance(x, ast.Starred): out += self.iterate(self.eval(x.value, fr))
            else: out.append(self.eval(x, fr))
        return out
    def e_Dict(self, n, fr):
        ks = [self.eval(k, fr) if k is not None else None for k in n.keys]
        vs = [self.eval(v, fr) for v in n.values]
        if any(isinstance(k, SArr) for k in ks):
            st = DimVal.empty()
            d = SDim(dict, st)
            for k, v in zip(ks, vs): self.m.dict_setitem(self, d, k, v)
            return d
        r = E().track(TDict())
        for k, v in zip(ks, vs):
            if k is None: r.update(v)
            else: r[k] = v
        return r
    def e_BoolOp(self, n, fr):
        v = None
        for i, x in enumerate(n.values):
            v = self.eval(x, fr)
            if i == len(n.values) - 1: return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t: return False if isinstance(v, SBool) else v
            if isinstance(n.op, ast.Or) and t: return True if isinstance(v, SBool) else v
        return v
    def e_BinOp(self, n, fr):
        return self.binop(BINOPS[type(n.op)][0], self.eval(n.left, fr), self.eval(n.right, fr))
    def e_UnaryOp(self, n, fr):
        return self.unary({ast.Not: 'not', ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(n.op)], self.eval(n.operand, fr))
    def e_Compare(self, n, fr):
        l = self.eval(n.left, fr)
        res = True
        for op, c in zip(n.ops, n.comparators):
            r = self.eval(c, fr)
            o = {ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}.get(type(op)) or CMPOPS[type(op)][0]
            res = self.compare(o, l, r)
            if len(n.ops) > 1 and not self.truth(res): return False
            l = r
        return res
    def e_IfExp(self, n, fr):
        return self.eval(n.body if self.truth(self.eval(n.test, fr)) else n.orelse, fr)
    def e_Lambda(self, n, fr):
        return SFunc(n, fr, fr.fn.globs, fr.fn.name + '.<locals>.<lambda>', [self.eval(x, fr) for x in n.args.defaults], {}, {}, fr.fn.filename)
    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.store(fr, n.target.id, v)
        return v
    def e_JoinedStr(self, n, fr):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant): parts.append(x.value)
            else:
                v = self.eval(x.value, fr)
                if is_sym(v):
                    w = self.t.to_text(self, self.m.b_str(self, v)) if x.conversion in (-1, 115) and not x.format_spec else None
                    parts.append(w if w is not None else SStr('fmt'))
                else:
                    s = {115: str, 114: repr, 97: ascii}.get(x.conversion, lambda y: y)(v)
                    parts.append(format(s, self.eval(x.format_spec, fr) if x.format_spec else ''))
        if all(self.t.known(p) for p in parts) and is_sym(parts): return self.t.Txt(parts)
        if any(isinstance(p, SStr) for p in parts): return SStr('fmt')
        return ''.join(parts)
    def e_Starred(self, n, fr): raise Unsupported('starred')
    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return self.zero_super(fr)
        f = self.eval(n.func, fr)
        if f is super:
            a = [self.eval(x, fr) for x in n.args]
            return SSuper(a[0], a[1])
        args = self.elts(n.args, fr)
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None: kw.update(v)
            else: kw[k.arg] = v
        if f is eval and args and (isinstance(args[0], (self.t.Code, SStr))): return self.t.m_eval(self, *args, **kw)
        if f in (globals, locals, vars, eval, exec): raise Unsupported('call of %s' % f.__name__)
        return self.call(f, args, kw)
    def zero_super(self, fr):
        f = fr
        while f is not None:
            if '__class__' in f.fn.cells:
                a = f.fn.node.args
                return SSuper(f.fn.cells['__class__'], f.vars[(a.posonlyargs + a.args)[0].arg])
            f = f.parent
        raise Unsupported('super() outside a method')
    # comprehensions
    def comp(self, n, fr, emit, gens=None):
        gens = n.generators if gens is None else gens
        g = gens[0]
        it = self.eval(g.iter, fr)
        for x in self.iterate(it):
            self.assign(g.target, x, fr)
            if all(self.truth(self.eval(c, fr)) for c in g.ifs):
                if len(gens) > 1: self.comp(n, fr, emit, gens[1:])
                else: emit()
    def comp_frame(self, fr):
        f = Frame(fr.fn, fr)
        f.comp = True
        f.fn = types.SimpleNamespace(cells={}, globs=fr.fn.globs, node=None, filename=fr.fn.filename, name=fr.fn.name + '.<locals>.<comp>')
        return f
    def seq_source(self, n, fr):
        if len(n.generators) == 1:
            it = self.eval(n.generators[0].iter, fr)
            if isinstance(it, SDim): it = SMapIter(it, 'keys')
            if isinstance(it, (SMapIter, SSeq)): return it
            n.generators[0]  # concrete: evaluated again below
        return None
    def e_ListComp(self, n, fr):
        src = self.seq_source(n, fr)
        f = self.comp_frame(fr)
        if src is not None:
            from .loops import comp_seq
            return comp_seq(self, n, n.elt, src, f)
        out = E().track(TList())
        self.comp(n, f, lambda: out.append(self.eval(n.elt, f)))
        return out
    e_GeneratorExp = e_ListComp
    def e_SetComp(self, n, fr): return set(self.e_ListComp(n, fr))
    def e_DictComp(self, n, fr):
        src = self.seq_source(n, fr)
        f = self.comp_frame(fr)
        if src is not None:
            from .loops import comp_dict
            return comp_dict(self, n, src, f)
        out = E().track(TDict())
        def emit():
            k = self.eval(n.key, f); out[k] = self.eval(n.value, f)
        self.comp(n, f, emit)
        return out

def walk_own(node):
    st = list(ast.iter_child_nodes(node))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda)):
            st.extend(ast.iter_child_nodes(n))
