"""Symbolic strings: concatenations of literal text, unit symbols, numbers and joined lists over all keys of a unit map;
strings about which nothing is known; and the syntax trees Python's parser makes of them (C09, C20)."""
import ast, re
from .core import *
from .core import z3
from .dims import *
from .values import *

Int = z3.IntSort()

class SymP(SStr):
    """the symbol, unicode symbol or name of a unit: a non-empty string"""
    def __init__(self, unit, which):
        super().__init__('%s_%s' % (which, unit)); self.unit, self.which = unit, which
        self.registered = None
class NumP:
    """the decimal text of a number; how: 'str' (as printed) or 'exp' (without insignificant zeros)"""
    def __init__(self, t, how): self.t, self.how = t, how
    def __repr__(self): return 'NumP(%s)' % self.t
class JoinP:
    def __init__(self, sep, elems): self.sep, self.elems = sep, elems
    def __repr__(self): return 'JoinP(%r,%r)' % (self.sep, self.elems)

class Fold:
    """the elements a loop over the map appends to a list: for each key, in the order of iteration, the text of the
    first case whose condition holds, or nothing"""
    def __init__(self, M, k0, cases): self.M, self.k0, self.cases = M, k0, cases
    def at(self, u): return [(z3.substitute(c, (self.k0, u)), psubst(p, self.k0, u)) for c, p in self.cases]
    def cond(self, u): return And(self.M.dom(u), Or(*[c for c, p in self.at(u)])) if self.cases else FALSE
    def some(self):
        """there is an element"""
        e = E()
        k = ('foldsome', id(self))
        if k not in e.memo:
            p = e.fresh('some', z3.BoolSort())
            sk = e.new_unit('some')
            e.memo[k] = (p, sk, self)
            e.fact(z3.Implies(p, self.cond(sk)))
            e.forall(lambda u: z3.Implies(self.cond(u), p))
        return e.memo[k][0]
    def several(self):
        """there is more than one"""
        e = E()
        k = ('foldmany', id(self))
        if k not in e.memo:
            p = self.some()
            sk = e.memo[('foldsome', id(self))][1]
            q, sk2 = e.fresh('several', z3.BoolSort()), e.new_unit('several')
            e.memo[k] = (q, self)
            e.fact(z3.Implies(q, And(p, self.cond(sk2), sk2 != sk)))
            e.forall(lambda u: z3.Implies(And(z3.Not(q), self.cond(u)), u == sk))
        return e.memo[k][0]
    def count(self):
        e = E()
        k = ('foldcount', id(self))
        if k not in e.memo:
            n = e.fresh('count', Int)
            e.memo[k] = (n, self)
            e.fact(And(n >= 0, (n >= 1) == self.some(), (n >= 2) == self.several()))
        return e.memo[k][0]

class Txt(SStr):
    def __init__(self, pieces):
        super().__init__('text')
        out = []
        for p in pieces:
            for x in (p.pieces if isinstance(p, Txt) else [p]):
                if isinstance(x, JoinP) and len(x.elems) == 1 and not isinstance(x.elems[0], Fold): x = x.elems[0]; x = x if not isinstance(x, Txt) else x
                for y in (x.pieces if isinstance(x, Txt) else [x]):
                    if y == '' and isinstance(y, str): continue
                    if isinstance(y, str) and out and isinstance(out[-1], str): out[-1] += y
                    else: out.append(y)
        self.pieces = tuple(out)
    def __repr__(self): return 'Txt%r' % (self.pieces,)

def psubst(p, k0, u):
    if isinstance(p, Txt): return Txt([psubst(x, k0, u) for x in p.pieces])
    if isinstance(p, SymP): return SymP(z3.substitute(p.unit, (k0, u)), p.which)
    if isinstance(p, NumP): return NumP(z3.simplify(z3.substitute(p.t, (k0, u))), p.how)
    return p

def is_text(v): return isinstance(v, (str, SStr))
def known(v): return isinstance(v, (str, Txt, SymP))
def txt(*ps): return Txt(ps)

def piece_empty(p):
    """a condition: this piece is the empty string"""
    if isinstance(p, (SymP, NumP)): return FALSE
    if isinstance(p, JoinP):
        if any(not isinstance(x, Fold) for x in p.elems) : return FALSE if len(p.elems) > 1 or p.sep else TRUE if not p.elems else Unsupported
        return Not(Or(*[x.some() for x in p.elems]))
    if isinstance(p, str): return z3.BoolVal(p == '')
    raise Unsupported('length of a string')
def empty(t):
    """a condition: the string is empty"""
    if isinstance(t, str): return z3.BoolVal(t == '')
    if isinstance(t, SymP): return FALSE
    return And(*[piece_empty(p) for p in t.pieces])

def number_text(I, v, how):
    t = I.m.num_term(v)[0]
    return txt(NumP(z3.simplify(t), how))

def to_text(I, v, how='str'):
    """str(v) for a value that may appear in a text, or None"""
    if isinstance(v, (Txt, SymP, str)): return v
    if isinstance(v, SNum): return number_text(I, v, how)
    if isinstance(v, SStr): return v
    return None

_fmt = re.compile(r'%(\((\w+)\))?[sd]|%%')
def percent(I, fmt, arg):
    """fmt % arg"""
    if not isinstance(fmt, str): return None
    args = list(arg) if isinstance(arg, tuple) else [arg]
    if not any(isinstance(x, (Txt, SymP, SNum)) for x in args): return None
    out, pos = [], 0
    for m in _fmt.finditer(fmt):
        if '%' in fmt[pos:m.start()]: return None
        out.append(fmt[pos:m.start()]); pos = m.end()
        if m.group() == '%%': out.append('%'); continue
        if m.group(1) or not args: return None
        x = args.pop(0)
        if m.group()[-1] == 'd' and isinstance(x, SNum) and x.kind == 'float': return None
        x = I.m.b_str(I, x)
        x = to_text(I, x)
        if x is None or not known(x): return None
        out.append(x)
    if '%' in fmt[pos:] or args: return None
    return txt(*out, fmt[pos:])

def join(I, sep, seq):
    if not isinstance(sep, str): raise Unsupported('join')
    elems = []
    for x in seq:
        if isinstance(x, Fold) or known(x): elems.append(x)
        elif isinstance(x, SStr): raise Unsupported('join of unknown strings')
        else: throw(TypeError, 'sequence item: expected str instance')
    if not any(isinstance(x, Fold) for x in elems):
        out = []
        for i, x in enumerate(elems): out += ([sep] if i else []) + [x]
        return txt(*out)
    return txt(JoinP(sep, elems))

class AnyText(SStr):
    """a string about which nothing is known"""
    def __init__(self, what='any'): super().__init__(what)

def text_method(I, v, name):
    """methods of symbolic strings"""
    if isinstance(v, AnyText):
        if name in ('replace', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'translate', 'casefold', 'removeprefix', 'removesuffix', '__str__', 'format', 'expandtabs'):
            return NativeM(name, lambda I, *a, **k: AnyText('%s(%s)' % (name, v.what)))
        if name in ('startswith', 'endswith', 'isidentifier', 'isdigit', 'isalpha', 'isspace', '__contains__'):
            return NativeM(name, lambda I, *a, **k: SBool(E().fresh(name, z3.BoolSort())))
        return None
    def replace(I, x, y, *n):
        """texts of dimensionalities are changed in their unit symbols only, to ones of the same unit"""
        if n or not isinstance(x, str) or not isinstance(y, str): raise Unsupported('replace')
        return preprocess(v, x, lambda s: s.replace(x, y))
    if name == 'replace': return NativeM(name, replace)
    if name in ('strip', 'rstrip', 'lstrip'):
        def strip(I, *a):
            if a and a != (None,): raise Unsupported('strip')
            return v
        return NativeM(name, strip)
    return None

def preprocess(v, what, f):
    """a replacement in a text: done in its literal parts; in symbols it is trusted to keep what they denote"""
    out = []
    for p in (v.pieces if isinstance(v, Txt) else [v]):
        if isinstance(p, str):
            if f(p) != p: raise Unsupported('replacement in the literal part of a text')
        elif isinstance(p, JoinP) and f(p.sep) != p.sep: raise Unsupported('replacement in the literal part of a text')
        out.append(p)
    from .models import TRUSTED
    TRUSTED.add('the replacements a unit string goes through keep the meaning of the texts of dimensionalities (all symbols of the catalogue and templates of texts are run)')
    return v

def contains(I, x, s):
    """x in s for strings"""
    if isinstance(s, AnyText) or isinstance(x, AnyText): return SBool(E().fresh('in', z3.BoolSort()))
    if isinstance(s, Txt) and isinstance(x, str):
        if any(isinstance(p, str) and x in p for p in s.pieces): return True
        return SBool(E().fresh('in', z3.BoolSort()))
    return None

def equal(I, a, b):
    """a == b for strings, or None"""
    if isinstance(a, AnyText) or isinstance(b, AnyText):
        if a is b: return True
        return SBool(E().fresh('streq', z3.BoolSort()))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Txt) and isinstance(y, str) and y == '': return mkbool(empty(x))
    if isinstance(a, Txt) and isinstance(b, (Txt, str, SymP)) or isinstance(b, Txt) and isinstance(a, (str, SymP)):
        if E().entails(same(a, b)): return True
        raise Unsupported('comparison of texts')
    return None

# ------------------------------------------------------------------ comparison with a specification (goals only)
def same(a, b):
    """a condition that implies that both texts are the same (for goals)"""
    a, b = [x.pieces if isinstance(x, Txt) else (x,) for x in (a, b)]
    a, b = list(Txt(a).pieces), list(Txt(b).pieces)
    if len(a) != len(b): return FALSE
    return And(*[psame(x, y) for x, y in zip(a, b)])
def psame(x, y):
    if isinstance(x, str) or isinstance(y, str): return z3.BoolVal(isinstance(x, str) and isinstance(y, str) and x == y)
    if isinstance(x, SymP) and isinstance(y, SymP): return And(z3.BoolVal(x.which == y.which), x.unit == y.unit)
    if isinstance(x, NumP) and isinstance(y, NumP): return And(z3.BoolVal(x.how == y.how), x.t == y.t)
    if isinstance(x, JoinP) and isinstance(y, JoinP):
        if x.sep != y.sep or len(x.elems) != len(y.elems): return FALSE
        r = []
        for p, q in zip(x.elems, y.elems):
            if isinstance(p, Fold) != isinstance(q, Fold): return FALSE
            r.append(fsame(p, q) if isinstance(p, Fold) else same(p, q))
        return And(*r)
    if x is y: return TRUE
    if isinstance(x, SStr) and isinstance(y, SStr) and isinstance(x.what, tuple) and isinstance(y.what, tuple) and x.what[0] == y.what[0]:
        return x.what[1].eq(y.what[1]) if hasattr(x.what[1], 'lin') else z3.BoolVal(x.what[1] is y.what[1])
    return FALSE
def fsame(f, g):
    u = E().new_unit('fs')
    a, b = f.at(u), g.at(u)
    r = [f.M.dom(u) == g.M.dom(u), Implies(f.M.dom(u), Or(*[c for c, p in a]) == Or(*[c for c, p in b]))]
    for c, p in a:
        for d, q in b:
            r.append(Implies(And(f.M.dom(u), c, d), same(p, q)))
    return And(*r)

# ------------------------------------------------------------------ Python's parser and evaluator
def _all_node_classes():
    out, st = [], [ast.AST]
    while st:
        c = st.pop()
        for s in c.__subclasses__():
            if s not in out:
                out.append(s); st.append(s)
    return sorted([c for c in out if c.__module__ in ('ast', '_ast')], key=lambda c: c.__name__)
CLASSES = _all_node_classes()
# classes of the nodes the parser really makes (the deprecated ones and the abstract ones are never made)
CONCRETE = [c for c in CLASSES if c.__module__ == 'ast' and not c.__subclasses__() and c.__name__ not in ('Num', 'Str', 'Bytes', 'NameConstant', 'Ellipsis', 'Index', 'ExtSlice', 'Suite', 'AugLoad', 'AugStore', 'Param')
            or c is ast.Constant]
ARITH = [ast.Expression, ast.Constant, ast.Name, ast.Load, ast.BinOp, ast.UnaryOp] + [c for c in CONCRETE if issubclass(c, (ast.operator, ast.unaryop))]
CONSTS = [int, float, complex, bool, str, bytes, type(None), type(Ellipsis)]
NUMBERS = [int, float, complex]
Cls = z3.Function('ast_class', Unit, Int)
Kind = z3.Function('constant_type', Unit, Int)
Reg = z3.Function('name_is_registered', Unit, z3.BoolSort())

def in_classes(k, cls): return Or(*[Cls(k) == i for i, c in enumerate(CONCRETE) if issubclass(c, cls)])
def arithmetic(k):
    """the node is part of an arithmetic expression over registered names and numbers"""
    return And(Or(*[in_classes(k, c) for c in ARITH]), Implies(in_classes(k, ast.Name), Reg(k)),
               Implies(in_classes(k, ast.Constant), Or(*[Kind(k) == CONSTS.index(c) for c in NUMBERS])))

class Tree(SObj):
    """the syntax tree of a string: a set of nodes of unknown number and classes"""
    def __init__(self, src):
        super().__init__(ast.Expression)
        e = E()
        self.src = src
        f = z3.Function(e.fresh_name('tree'), Unit, z3.BoolSort())
        self.nodes = DimVal(lambda u: rv(0), None, lambda u: f(u))
        e.forall(lambda u: z3.Implies(f(u), And(Cls(u) >= 0, Cls(u) < len(CONCRETE), Kind(u) >= 0, Kind(u) < len(CONSTS))))
        if isinstance(src, Txt):
            I = e.I
            I.m.TRUSTED.add("Python's grammar: the text of a dimensionality is an expression of names, numbers, *, / and ** (symbols are identifiers registered for their unit: all of the catalogue are checked)")
            ok = [ast.Expression, ast.BinOp, ast.Name, ast.Load, ast.Constant, ast.Mult, ast.Div, ast.Pow]
            e.forall(lambda u: z3.Implies(f(u), And(Or(*[in_classes(u, c) for c in ok]), Implies(in_classes(u, ast.Name), Reg(u)), Implies(in_classes(u, ast.Constant), Or(Kind(u) == 0, Kind(u) == 1)))))
class Code(SObj):
    def __init__(self, tree):
        super().__init__(type((lambda: 0).__code__)); self.tree = tree
class Node:
    def __init__(self, k): self.k = k
    def __repr__(self): return 'Node(%s)' % self.k
class NodeName(SStr):
    def __init__(self, k): super().__init__('id'); self.k = k
class NodeValue:
    def __init__(self, k): self.k = k
class NodeIter(SMapIter):
    def __init__(self, tree):
        self.dim, self.st, self.mode = None, tree.nodes, 'nodes'

def node_isinstance(k, cls):
    cs = cls if isinstance(cls, tuple) else (cls,)
    flat = []
    for c in cs: flat += list(c) if isinstance(c, tuple) else [c]
    return mkbool(Or(*[in_classes(k, c) for c in flat]))
def value_isinstance(k, cls):
    cs = cls if isinstance(cls, tuple) else (cls,)
    return mkbool(Or(*[Kind(k) == i for i, t in enumerate(CONSTS) if issubclass(t, cs)]))
def node_getattr(I, v, name):
    if name == 'id':
        if not E().decide(in_classes(v.k, ast.Name)): throw(AttributeError, name)
        return NodeName(v.k)
    if name in ('value', 'n', 's'):
        if not E().decide(in_classes(v.k, ast.Constant)):
            raise Unsupported('the value of another node')
        return NodeValue(v.k)
    if name == '__class__': return node_class(I, v)
    raise Unsupported('attribute %s of a node' % name)
def node_class(I, v):
    """fork over the classes that matter"""
    for i, c in enumerate(CONCRETE):
        if E().decide(Cls(v.k) == i): return c
    raise PathEnd()
def value_class(I, v):
    for i, c in enumerate(CONSTS):
        if E().decide(Kind(v.k) == i): return c
    raise PathEnd()

def tree_of(I, s):
    e = E(); e.I = I
    k = ('tree', id(s))
    if k not in e.memo: e.memo[k] = (Tree(s), s)
    return e.memo[k][0]
def m_parse(I, source, filename='<unknown>', mode='exec', **kw):
    if not isinstance(source, SStr): return I.native(ast.parse, [source], dict(kw, filename=filename, mode=mode))
    if mode != 'eval': raise Unsupported('ast.parse in mode %r' % (mode,))
    e = E()
    if isinstance(source, AnyText) and e.choose(2): throw(SyntaxError, 'invalid syntax')
    if not isinstance(source, (AnyText, Txt)): raise Unsupported('parsing %r' % source)
    return tree_of(I, source)
def m_walk(I, t):
    if isinstance(t, Tree): return NodeIter(t)
    if isinstance(t, Node): raise Unsupported('walk over a part of the tree')
    return I.native(ast.walk, [t], {})
def m_compile(I, source, filename='', mode='exec', *a, **kw):
    if isinstance(source, SStr): source = m_parse(I, source, mode=mode)
    if isinstance(source, Tree): return Code(source)
    raise Unsupported('compile')
def m_eval(I, code, globs=None, locs=None):
    """Python's evaluator: the caller owes that nothing but arithmetic over registered names and numbers is evaluated"""
    e = E()
    if isinstance(code, SStr): code = m_compile(I, code, mode='eval')
    if not isinstance(code, Code): raise Unsupported('eval')
    reg = I.q.unit_registry._UnitRegistry__registry
    ctx = reg.__dict__['_%s__context' % type(reg).__name__.lstrip('_')] if '_%s__context' % type(reg).__name__.lstrip('_') in reg.__dict__ else None
    ok = isinstance(globs, dict) and set(globs) <= {'__builtins__'} and isinstance(globs.get('__builtins__', None), dict) and not globs['__builtins__']
    ok_empty_names = ok or (isinstance(globs, dict) and globs.get('__builtins__', 0) is None)
    if not any(l is locs for l in [ctx] if l is not None): raise Unsupported('eval with other names than the registered ones')
    u = e.new_unit('node')
    goal = Implies(code.tree.nodes.dom(u), arithmetic(u))
    if not ok_empty_names: goal = FALSE
    e.prove(goal, 'only arithmetic over registered names and numbers is evaluated')
    if isinstance(code.tree.src, AnyText):
        c = e.choose(3)
        if c == 1: throw(NameError, 'name is not defined')
        if c == 2: throw(ZeroDivisionError, 'or another error of arithmetic')
        r = SObj(object); r.evaluated = code.tree
        return r
    d = denotation(code.tree.src)
    q = SArr(I.Quantity, Buffer(rv(1)), SCALAR, I.m.F8)
    q.attrs['_dimensionality'] = SDim(I.Dim, d)
    return q

def denotation(t):
    """the units an arithmetic expression of this form stands for"""
    e = E()
    ps = list(t.pieces)
    def side(ps, one_only):
        # a product: 1, a joined list, or a parenthesised one
        if ps == ['1']: return None
        if len(ps) == 3 and ps[0] == '(' and ps[2] == ')': ps, one_only = [ps[1]], False
        if len(ps) != 1 or not isinstance(ps[0], JoinP) or ps[0].sep != '*' or len(ps[0].elems) != 1: raise Unsupported('the meaning of %r' % (t,))
        f = ps[0].elems[0]
        if one_only: e.prove(Not(f.several()), 'a/b*c is not a/(b*c): several units in the denominator need parentheses')
        e.prove(f.some(), 'the text is an expression')
        return f
    if ps == ['dimensionless']: return DimVal.empty()
    # split at the division
    num, den, cur = [], None, []
    for p in ps:
        if isinstance(p, str) and '/' in p:
            if den is not None or p.count('/') > 1: raise Unsupported('the meaning of %r' % (t,))
            a, b = p.split('/')
            num = cur + ([a] if a else []); cur = [b] if b else []; den = True
        else: cur.append(p)
    if den is None: num, cur = cur, None
    fn = side(num, False)
    fd = side(cur, True) if cur is not None else None
    def val(u):
        r = rv(0)
        for f, s in ((fn, 1), (fd, -1)):
            if f is None: continue
            for c, p in f.at(u):
                r = r + If(And(f.M.dom(u), c), s * factor(p, u), rv(0))
        return r
    u = e.new_unit('den')
    return find_lin(DimVal(val))

def factor(p, u):
    """the exponent of a factor sym or sym**exp, which must be the symbol of the unit at u"""
    ps = Txt([p]).pieces
    if not ps or not isinstance(ps[0], SymP) or not ps[0].unit.eq(u): raise Unsupported('the meaning of a factor %r' % (p,))
    if len(ps) == 1: return rv(1)
    if len(ps) == 3 and ps[1] == '**' and isinstance(ps[2], NumP): return ps[2].t
    raise Unsupported('the meaning of a factor %r' % (p,))
