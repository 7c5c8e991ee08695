"""Rules for loops over a symbolic finite map (all iterations at once, no unrolling).
The invariant of each accumulator is inferred from one symbolic iteration at an arbitrary key k, run from an
arbitrary (havocked) accumulator state, and then checked against that same iteration:
  pointwise  - a map that is only touched at the current key: after the loop it holds, at every key of the iterated
               map, the value the body computes from the entry value at that key, and is unchanged elsewhere;
  fold       - a quantity that is multiplied by a contribution depending on the key only: after the loop it is the
               entry value times the product of the contributions (recognised as a reference function of the map);
  sum / xor  - likewise for numbers and hash values."""
import ast
from .core import *
from .core import z3
from .dims import *
from .values import *
from . import models

def consts_of(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x)
        elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl())
        st.extend(x.children())
    return acc

def sub(t, *pairs): return z3.substitute(t, *pairs)

def assigned_names(body):
    s = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): s.add(n.id)
    return s

def item_of(I, it, k):
    if isinstance(it, MapSeq): return it.item(I, k)
    if it.mode == 'nodes': return I.t.Node(k)
    u = models.unit_object(I, k)
    v = models.exp_num(it.st.val(k))
    return {'items': (u, v), 'keys': u, 'values': v}[it.mode]

class Hav:
    pass

def havoc_value(I, name, v):
    """an arbitrary value of the same kind, and a description of it"""
    e = E()
    h = Hav(); h.entry = v
    if isinstance(v, SHash):
        h.kind = 'hash'; h.val = SHash((('hv', name),))
    elif isinstance(v, SArr) and issubclass(v.cls, I.Quantity) and not issubclass(v.cls, I.UnitQuantity) and v.shape.scalar and '_uncertainty' not in v.attrs:
        h.kind = 'quantity'
        h.m = e.fresh('acc_%s' % name)
        h.atom = Atom(('acc', 'acc_%s' % name), z3.Function(e.fresh_name('accdim_%s' % name), Unit, R))
        q = SArr(v.cls, Buffer(h.m, v.ok), SCALAR, v.dtype)
        q.attrs = dict(v.attrs)
        q.attrs['_dimensionality'] = SDim(I.Dim, DimVal.of_atom(h.atom))
        h.val = q
    elif isinstance(v, SNum) or models.is_pynum(v) and not isinstance(v, bool):
        h.kind = 'num'
        h.m = e.fresh('acc_%s' % name)
        h.val = SNum(rv(0)); h.val.t = h.m
    elif isinstance(v, SDim):
        h.kind = 'dimvar'
        h.atom = Atom(('acc', 'acc_%s' % name), z3.Function(e.fresh_name('accdim_%s' % name), Unit, R))
        h.val = SDim(v.cls, DimVal.of_atom(h.atom))
    else:
        from .interp import POISON
        h.kind = 'poison'; h.val = POISON
    return h

def loop_map(I, node, it, fr):
    if isinstance(it, SSeq) and not isinstance(it, MapSeq): raise Unsupported('loop over a symbolic sequence')
    from .interp import Return, Break, Continue, POISON, TList, TDict, Frame, Sentinel, has_fold
    e = E()
    names = assigned_names(node.body)
    tgt = assigned_names([ast.Assign(targets=[node.target], value=ast.Constant(0))]) | {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
    carried = [n for n in sorted(names - tgt) if n in fr.vars]
    temps = [n for n in sorted(names) if n not in fr.vars or n in tgt]
    entry_dims = [o for o in e.heap if isinstance(o, SDim)]
    entry_st = {id(o): o.st for o in entry_dims}
    it_st = it.st
    known = {}

    def body_once(k, havocs, rec):
        """one iteration at key k; returns the way it ended"""
        I.assign(node.target, item_of(I, it, k), fr)
        try:
            I.block(node.body, fr)
        except Continue: pass
        except Break: return ('break', None)
        except Return as r: return ('return', r.v)
        except PyExc as ex: return ('exc', ex.exc)
        return ('normal', None)

    lists = [o for o in e.heap if isinstance(o, TList)]
    list0 = {id(o): list(o) for o in lists}
    def havoc_frame():
        for o in lists: o[:] = [Sentinel()]
        hs = {}
        for n in carried:
            hs[n] = havoc_value(I, n, fr.vars[n])
            fr.vars[n] = hs[n].val
        for n in temps:
            if n in fr.vars: fr.vars[n] = POISON
        return hs

    # phase 1: which maps does the body modify?
    def phase1():
        k = e.new_unit('k'); e.assume(it_st.dom(k))
        havoc_frame()
        body_once(k, None, None)
        return [id(o) for o in entry_dims if o.st is not entry_st[id(o)]]
    mod_ids = set()
    for r in e.nested(phase1): mod_ids |= set(r)
    mods = [o for o in entry_dims if id(o) in mod_ids]

    class Res: pass
    k0 = z3.Const(e.fresh_name('loopkey'), Unit)

    def havoc_map(o, k):
        st = entry_st[id(o)]
        nm = e.fresh_name('itmap')
        f, g = z3.Function(nm, Unit, R), z3.Function(nm + 'd', Unit, z3.BoolSort())
        val = lambda u: st.val(u) if u.eq(k) else If(u == k, st.val(u), f(u))
        dom = lambda u: st.dom(u) if u.eq(k) else If(u == k, st.dom(u), g(u))
        o.st = DimVal(val, None, dom)
        return o.st

    def phase2():
        r = Res()
        n0 = len(e.facts)
        k = e.unit(k0); e.assume(it_st.dom(k))
        hs = havoc_frame()
        its = {id(o): havoc_map(o, k) for o in mods}
        heap0 = [(o, o.save()) for o in e.heap if isinstance(o, (SObj, Buffer, TList, TDict, Frame)) and o is not fr and not isinstance(o, SDim) and not (isinstance(o, Frame) and o.comp)]
        conds0 = len(e.conds)
        r.end, r.val = body_once(k, hs, r)
        r.cond = And(*e.conds[conds0:])
        r.maps = {}
        r.vars = {}
        r.lists = {}
        if r.end != 'normal': return r
        for o, s in heap0:
            if isinstance(o, TList) and len(o) == len(s) + 1 and len(s) == 1 and o[0] is s[0]: r.lists[id(o)] = o[1]
            elif not same_state(o.save(), s): raise Unsupported('the loop body changes other state (%r)' % (o,))
        for o in mods:
            # frame: nothing but the entry at k changes
            u = e.new_unit('frame')
            st = its[id(o)]
            if not e.entails(z3.Implies(u != k, And(o.st.val(u) == st.val(u), o.st.dom(u) == st.dom(u)))):
                raise Unsupported('the loop body changes a map at another key')
            if o is it.dim and not e.entails(o.st.dom(k) == st.dom(k)):
                raise Unsupported('the loop body changes the size of the map it iterates over')
            r.maps[id(o)] = (z3.simplify(o.st.val(k)), z3.simplify(o.st.dom(k)))
        v = it_st.val(k)
        for n in carried:
            h, x = hs[n], fr.vars.get(n)
            r.vars[n] = contribution(I, h, x, k, v)
        return r
    e.conds = getattr(e, 'conds', [])
    outs = e.nested(phase2)
    exits = [r for r in outs if r.end != 'normal']
    normal = [r for r in outs if r.end == 'normal']
    # exceptional exits: either some key takes one of them, or no key does
    if exits:
        c = e.choose(2)
        if c == 0:
            k = e.new_unit('exitkey'); e.assume(it_st.dom(k))
            havoc_frame()
            for o in mods: havoc_map(o, k)
            end, val = body_once(k, None, None)
            if end == 'normal': raise PathEnd()
            if end == 'break': return None
            if end == 'return': raise Return(val)
            raise PyExc(val)
        for r in exits:
            if not_over(r.cond, k0, e): raise Unsupported('the exit condition of the loop depends on earlier iterations')
        e.forall(lambda u: z3.Implies(it_st.dom(u), z3.And([z3.Not(sub(r.cond, (k0, u))) for r in exits])))
    if not normal:
        # no iteration can complete: the map must be empty
        e.forall(lambda u: z3.Not(it_st.dom(u)))
    # conclude
    for r in normal:
        for t in [r.cond] + [x for m in r.maps.values() for x in m]:
            if len(normal) > 1 or t is not r.cond:
                bad = not_over(t, k0, e)
                if bad: raise Unsupported('loop effect depends on %s' % bad)
    for o in mods:
        st = entry_st[id(o)]
        def mk(o=o, st=st):
            def pick(u, j):
                t = None
                for r in normal:
                    x = sub(r.maps[id(o)][j], (k0, u))
                    t = x if t is None else If(sub(r.cond, (k0, u)), x, t)
                return t
            if not normal: return st
            return DimVal(lambda u: If(it_st.dom(u), pick(u, 0), st.val(u)), None, lambda u: If(it_st.dom(u), pick(u, 1), st.dom(u)))
        o.st = mk()
    for o in lists: o[:] = list0[id(o)]
    for o in lists:
        if any(id(o) in r.lists for r in normal):
            cases = []
            for r in normal:
                if id(o) in r.lists:
                    if not I.t.known(r.lists[id(o)]): raise Unsupported('the list elements a loop makes')
                    bad = not_over(r.cond, k0, e)
                    if bad: raise Unsupported('loop effect depends on %s' % bad)
                    cases.append((r.cond, r.lists[id(o)]))
            o.append(I.t.Fold(it_st, k0, cases))
    for n in carried:
        if normal: fr.vars[n] = conclude(I, n, fr.vars[n], [(r.cond, r.vars[n]) for r in normal], it_st, k0)
    for n in temps: fr.vars[n] = POISON
    I.block(node.orelse, fr)

def same_state(a, b):
    if type(a) != type(b): return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same_state(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_state(a[k], b[k]) for k in a)
    if z3.is_expr(a): return a.eq(b)
    return a is b or (isinstance(a, (int, str, float, bool)) and a == b)

def not_over(t, k, e):
    """names of constants in t that were made inside the loop body (None if t only depends on k and the outside)"""
    for c in consts_of(t):
        n = c.name() if isinstance(c, z3.FuncDeclRef) else c.decl().name()
        if isinstance(c, z3.ExprRef) and c.eq(k): continue
        base, _, num = n.partition('!')
        if n.startswith(('itmap', 'acc')): return n
        if e.fresh_n.get('$mark') and False: return n
        if n in getattr(e, 'loop_fresh', ()): return n
    return None

def contribution(I, h, x, k, v):
    """what one iteration does to an accumulator"""
    e = E()
    if h.kind == 'hash':
        if not isinstance(x, SHash): raise Unsupported('hash accumulator')
        rest = [b for b in x.base if b != ('hv', h.val.base[0][1])]
        if rest or len(x.base) != 1 or len(x.entries) > 1: raise Unsupported('hash accumulator')
        if not x.entries: return ('none',)
        t = x.entries[0]
        if t[0] not in ('kv', 'vk') or not t[1].eq(k): raise Unsupported('hash contribution')
        return ('hash', t[0], z3.simplify(t[2]))
    if h.kind == 'quantity':
        if not isinstance(x, SArr) or x.cls is not h.val.cls: raise Unsupported('the accumulated value changes its kind')
        m2, d2 = x.elem, x.attrs['_dimensionality'].st
        c = z3.simplify(sub(m2, (h.m, rv(1))))
        if any(isinstance(y, z3.ExprRef) and y.eq(h.m) for y in consts_of(c)): raise Unsupported('accumulation')
        from .ring import ring_equal
        if not ring_equal(m2, h.m * c) and not e.entails(m2 == h.m * c): raise Unsupported('accumulation is not multiplicative')
        if not z3.is_true(z3.simplify(x.ok)) and not e.entails(x.ok == h.val.ok): pass
        d2 = find_lin(d2)
        if not (h.atom in d2.lin and d2.lin[h.atom] == 1): raise Unsupported('accumulated units')
        delta = DimVal.of_lin({a: q for a, q in d2.lin.items() if a is not h.atom})
        tag = None
        if e.entails(c == rpow(RMu_f(k), v)): tag = 'RM'
        elif ring_equal(c, rpow(SM(DimVal.single(k)), v)) or e.entails(c == rpow(SM(DimVal.single(k)), v)): tag = 'SM'
        elif e.entails(c == 1): tag = 'one'
        u = e.new_unit('cu')
        dtag = None
        if e.entails(delta.val(u) == v * RDu_f(k, u)): dtag = 'RD'
        elif delta.same_form(SD(DimVal.single(k)) * v) or e.entails(delta.val(u) == v * SD(DimVal.single(k)).val(u)): dtag = 'SD'
        elif e.entails(delta.val(u) == If(u == k, v, rv(0))): dtag = 'D'
        elif e.entails(delta.val(u) == 0): dtag = 'zero'
        return ('quantity', tag, dtag, c, delta)
    if h.kind == 'num':
        t, _, ok = models.num_term(x)
        d = z3.simplify(t - h.m)
        if any(isinstance(y, z3.ExprRef) and y.eq(h.m) for y in consts_of(d)):
            d = z3.simplify(sub(t, (h.m, rv(0))))
            if not e.entails(t == h.m + d): raise Unsupported('accumulation is not additive')
        return ('num', d)
    if h.kind == 'dimvar':
        if x is not h.val and not isinstance(x, SDim): raise Unsupported('accumulation')
        d2 = find_lin(x.st)
        if not (h.atom in d2.lin and d2.lin[h.atom] == 1): raise Unsupported('accumulated units')
        delta = DimVal.of_lin({a: q for a, q in d2.lin.items() if a is not h.atom})
        u = e.new_unit('cu')
        for tag, f in (('RD', lambda: v * RDu_f(k, u)), ('SD', lambda: v * SD(DimVal.single(k)).val(u)), ('D', lambda: If(u == k, v, rv(0))), ('zero', lambda: rv(0))):
            if e.entails(delta.val(u) == f()): return ('dimvar', tag)
        return ('dimvar', None)
    return ('poison',)

def fold_dims(tag, M):
    if tag == 'RD': return RD(M)
    if tag == 'SD': return SD(M)
    if tag == 'D': return M
    if tag == 'zero': return DimVal.empty()
    e = E(); e.opaque_used = True
    return DimVal.symbolic('folded')

def conclude(I, name, entry, rs, M, k0):
    from .interp import POISON
    e = E()
    kinds = {r[1][0] for r in rs}
    if kinds == {'poison'}: return POISON
    if kinds <= {'hash', 'none'}:
        if kinds == {'none'}: return entry
        if 'none' in kinds or len({r[1][1] for r in rs}) > 1: raise Unsupported('hash contribution on some keys only')
        for c, r in rs:
            if not_over(r[2], k0, e): raise Unsupported('hash contribution depends on the order')
        def fn(u):
            t = None
            for c, r in rs:
                x = sub(r[2], (k0, u))
                t = x if t is None else If(sub(c, (k0, u)), x, t)
            return t
        return SHash(tuple(entry.base), entry.entries + (('fold', M, fn, rs[0][1][1]),))
    if kinds == {'quantity'}:
        tags = {r[1][1] for r in rs}; dt = {r[1][2] for r in rs}
        q = SArr(entry.cls, Buffer(entry.elem, entry.ok), SCALAR, entry.dtype)
        q.attrs = dict(entry.attrs)
        m, d = entry.elem, entry.attrs['_dimensionality'].st
        tag = tags.pop() if len(tags) == 1 else None
        dtag = dt.pop() if len(dt) == 1 else None
        if tag == 'RM': f = RM(M)
        elif tag == 'SM': f = SM(M)
        elif tag == 'one': f = rv(1)
        else:
            e.opaque_used = True
            f = e.fresh('prod'); e.fact(f > 0)
        q.buf.elem = z3.simplify(f * m)
        q.attrs['_dimensionality'] = SDim(I.Dim, d + fold_dims(dtag, M))
        return q
    if kinds == {'dimvar'}:
        dt = {r[1][1] for r in rs}
        return SDim(entry.cls, entry.st + fold_dims(dt.pop() if len(dt) == 1 else None, M))
    if kinds == {'num'}:
        t = None
        for c, r in rs:
            if not_over(r[1], k0, e) or not_over(c, k0, e): raise Unsupported('sum depends on the order')
            t = r[1] if t is None else If(c, r[1], t)
        n = SNum(rv(0)); n.t = models.num_term(entry)[0] + foldsum(M, t, k0)
        return n
    raise Unsupported('accumulator of mixed kind')

def foldsum(M, t, k0):
    """the sum over the entries of M of t[k0]; canonical in t"""
    e = E()
    K = z3.Const('$K', Unit)
    t = z3.simplify(sub(t, (k0, K)))
    for (M2, t2, s) in e.memo.setdefault('sums', []):
        if M2 is M and t2.eq(t): return s
    for (M2, t2, s) in e.memo['sums']:
        u = e.new_unit('su')
        if e.entails(And(M.dom(u) == M2.dom(u), z3.Implies(M.dom(u), sub(t, (K, u)) == sub(t2, (K, u))))):
            return s
    s = e.fresh('sum')
    e.opaque_used = True
    u = e.new_unit('su')
    e.fact(z3.Implies(z3.And(z3.Not(M.dom(u))), TRUE))
    e.memo['sums'].append((M, t, s))
    return s

def fold_sum(I, seq, start):
    e = E()
    k0 = z3.Const(e.fresh_name('sumkey'), Unit)
    t = seq.term(I, k0)
    n = SNum(rv(0)); n.t = models.num_term(start)[0] + foldsum(seq.src.st, t, k0)
    return n

class MapSeq(SSeq):
    """[elt for target in items-of-a-map if cond]"""
    def __init__(self, I, n, elt, src, frame):
        super().__init__(src, None)
        self.I, self.n, self.elt, self.frame = I, n, elt, frame
    def run(self, I, k, what):
        e = E()
        res = []
        def go():
            c0 = len(e.conds)
            e.unit(k); e.assume(self.src.st.dom(k))
            I.assign(self.n.generators[0].target, item_of(I, self.src, k), self.frame)
            inc = TRUE
            for c in self.n.generators[0].ifs:
                if not I.truth(I.eval(c, self.frame)): inc = FALSE; break
            v = I.eval(self.elt, self.frame) if z3.is_true(inc) else None
            return And(*e.conds[c0:]), inc, what(v) if v is not None else None
        return e.nested(go)
    @property
    def st(self):
        """the map whose keys the elements belong to"""
        if not self.n.generators[0].ifs: return self.src.st
        if not hasattr(self, '_st'):
            k = z3.Const(E().fresh_name('filterkey'), Unit)
            t = FALSE
            for c, inc, v in self.run(self.I, k, lambda v: TRUE): t = Or(t, And(c, inc))
            M = self.src.st
            self._st = DimVal(M._val, None, lambda u: And(M.dom(u), sub(t, (k, u))))
        return self._st
    dim = None
    mode = 'seq'
    def item(self, I, k):
        I.assign(self.n.generators[0].target, item_of(I, self.src, k), self.frame)
        for c in self.n.generators[0].ifs:
            if not I.truth(I.eval(c, self.frame)): raise PathEnd()
        return I.eval(self.elt, self.frame)
    def fold(self, I):
        """the elements as texts"""
        k = z3.Const(E().fresh_name('foldkey'), Unit)
        cases = []
        for c, inc, v in self.run(I, k, lambda v: v):
            if v is None: continue
            if not I.t.known(v): raise Unsupported('elements that are no texts')
            cases.append((c, v))
        return I.t.Fold(self.src.st, k, cases)
    def term(self, I, k):
        t = rv(0)
        for c, inc, v in self.run(I, k, lambda v: models.num_term(v)[0]):
            if v is not None: t = If(c, v, t)
        return t
    def pred(self, I):
        k = z3.Const(E().fresh_name('predkey'), Unit)
        t = FALSE
        for c, inc, v in self.run(I, k, lambda v: models.as_boolterm(I, v)):
            if v is not None: t = If(c, v, t)
        return lambda u: sub(t, (k, u))

def comp_seq(I, n, elt, src, f):
    if isinstance(src, SSeq) and not isinstance(src, MapSeq): raise Unsupported('comprehension over a symbolic sequence')
    return MapSeq(I, n, elt, src, f)

def comp_dict(I, n, src, f):
    """{key: value for ... in map}: only for keys that are the keys of the map"""
    e = E()
    if isinstance(src, SSeq): raise Unsupported('comprehension over a symbolic sequence')
    k = z3.Const(e.fresh_name('dkey'), Unit)
    def go():
        c0 = len(e.conds)
        e.unit(k); e.assume(src.st.dom(k))
        I.assign(n.generators[0].target, item_of(I, src, k), f)
        for c in n.generators[0].ifs:
            if not I.truth(I.eval(c, f)): return And(*e.conds[c0:]), FALSE, rv(0)
        key = I.eval(n.key, f)
        if models.key_term(I, key) is not k and not models.key_term(I, key).eq(k): raise Unsupported('dict comprehension with other keys')
        v = models.num_term(I.eval(n.value, f))[0]
        return And(*e.conds[c0:]), TRUE, z3.simplify(v)
    rs = e.nested(go)
    def pick(u, j):
        t = None
        for r in rs:
            x = sub(r[j], (k, u))
            t = x if t is None else If(sub(r[0], (k, u)), x, t)
        return t
    M = src.st
    return SDim(dict, DimVal(lambda u: If(M.dom(u), pick(u, 2), rv(0)), None, lambda u: And(M.dom(u), pick(u, 1))))
