"""A small decision procedure for equalities of rational functions: cross-multiply and compare the
polynomials over the non-arithmetic sub-terms. Used when z3's nonlinear solver gives up."""
from fractions import Fraction
from .boot import load_z3
z3 = load_z3()

def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            e = dict(m)
            for x, k in n: e[x] = e.get(x, 0) + k
            key = tuple(sorted((x, k) for x, k in e.items() if k))
            v = r.get(key, 0) + c * d
            if v: r[key] = v
            else: r.pop(key, None)
    if len(r) > 400: raise OverflowError
    return r
ONE = {(): Fraction(1)}

def frac(t, cache):
    k = t.get_id()
    if k in cache: return cache[k]
    r = _frac(t, cache)
    cache[k] = r
    return r
def _frac(t, cache):
    if z3.is_rational_value(t): return {(): Fraction(t.numerator_as_long(), t.denominator_as_long())} if t.numerator_as_long() else {}, ONE
    if z3.is_int_value(t): return ({(): Fraction(t.as_long())} if t.as_long() else {}), ONE
    d = t.decl().kind()
    ch = t.children()
    if d == z3.Z3_OP_ADD or d == z3.Z3_OP_SUB:
        n, q = frac(ch[0], cache)
        for c in ch[1:]:
            n2, q2 = frac(c, cache)
            s = 1 if d == z3.Z3_OP_ADD else -1
            if q == q2: n = padd(n, n2, s)
            else: n, q = padd(pmul(n, q2), pmul(n2, q), s), pmul(q, q2)
        return n, q
    if d == z3.Z3_OP_UMINUS:
        n, q = frac(ch[0], cache)
        return pmul({(): Fraction(-1)}, n), q
    if d == z3.Z3_OP_MUL:
        n, q = ONE, ONE
        for c in ch:
            n2, q2 = frac(c, cache)
            n, q = pmul(n, n2), pmul(q, q2)
        return n, q
    if d == z3.Z3_OP_DIV:
        n, q = frac(ch[0], cache)
        n2, q2 = frac(ch[1], cache)
        if not n2: raise OverflowError
        return pmul(n, q2), pmul(q, n2)
    if d == z3.Z3_OP_POWER and z3.is_int_value(z3.simplify(ch[1])) and 0 <= z3.simplify(ch[1]).as_long() <= 8:
        n, q = ONE, ONE
        for _ in range(z3.simplify(ch[1]).as_long()):
            n2, q2 = frac(ch[0], cache)
            n, q = pmul(n, n2), pmul(q, q2)
        return n, q
    if d == z3.Z3_OP_TO_REAL: return frac(ch[0], cache)
    cache.setdefault('atoms', []).append(t)
    return {((t.get_id(), 1),): Fraction(1)}, ONE

def ring_equal(a, b):
    """a == b as rational functions (wherever the denominators are non-zero)"""
    try:
        c = {}
        n, _ = frac(z3.simplify(a - b), c)
        return not n
    except (OverflowError, z3.Z3Exception):
        return False

def ring_proves(goal, facts):
    g = z3.simplify(goal)
    if z3.is_and(g): return all(ring_proves(c, facts) for c in g.children())
    if z3.is_eq(g) and g.arg(0).sort() == z3.RealSort():
        return ring_equal(g.arg(0), g.arg(1))
    if z3.is_or(g): return any(ring_proves(c, facts) for c in g.children())
    return False
