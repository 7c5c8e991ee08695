"""Path exploration, facts and proof obligations (back end: z3)."""
import time
from .boot import load_z3
z3 = load_z3()
from fractions import Fraction

class Unsupported(Exception):
    """the function is outside the subset of Python/numpy the engine understands"""
class PathEnd(Exception):
    """this path is finished (infeasible, or ended after an obligation)"""

Unit = z3.DeclareSort('Unit')
R = z3.RealSort()

def rv(x):
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float constant')
        f = Fraction(x)
        return z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if z3.is_expr(x):
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x
    raise Unsupported('no real value for %r' % (x,))

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a): return FALSE
    return TRUE if not a else a[0] if len(a) == 1 else z3.And(*a)
def Or(*a):
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a): return TRUE
    return FALSE if not a else a[0] if len(a) == 1 else z3.Or(*a)
def Not(a):
    return FALSE if z3.is_true(a) else TRUE if z3.is_false(a) else z3.Not(a)
def Implies(a, b):
    return Or(Not(a), b)
def If(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    return z3.If(c, a, b)

def is_const(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)
def const_frac(t):
    """the rational value of a numeral term, or None"""
    t = z3.simplify(t)
    if z3.is_rational_value(t): return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t): return Fraction(t.as_long())
    return None

class Obligation:
    __slots__ = ('name', 'status', 'time', 'backend', 'model', 'reason', 'opaque')
    def __init__(self, name, status, t, backend, model=None, reason=''):
        self.opaque = bool(Engine.cur.opaque_used)
        self.name, self.status, self.time, self.backend, self.model, self.reason = name, status, t, backend, model, reason

class Engine:
    """One Engine per harness (contract case). explore() re-executes the harness once per path."""
    cur = None
    def __init__(self, timeout_ms=4000, max_paths=400, deadline=None):
        self.timeout = timeout_ms
        self.max_paths = max_paths
        self.obligations = []
        self.paths = 0
        self.live_paths = 0
        self.smt_time = 0.0
        self.smt_calls = 0
        self.assumptions = set()
        self.deadline = deadline

    # ---- per-path state
    def reset(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        self.pos = 0
        self.fresh_n = {}
        self.units = []           # Unit terms in play
        self.unit_ids = set()
        self.unis = []            # universally quantified facts: Unit term -> Bool
        self.memo = {}
        self.opaques = {}
        self.concrete_units = {}  # id(obj) -> (term, obj)
        self.heap = []
        self.log = []
        self.hooks = []
        self.inputs = {}
        self.conds = []
        self.opaque_used = False
        self.facts = []

    def fresh(self, name, sort=R):
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        return z3.Const(name if n == 0 else '%s!%d' % (name, n), sort)

    def fresh_name(self, name):
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        return name if n == 0 else '%s!%d' % (name, n)

    # ---- facts
    def fact(self, f):
        if isinstance(f, bool): f = z3.BoolVal(f)
        if not z3.is_true(f):
            self.solver.add(f)
            self.facts.append(f)

    def assume(self, f):
        f = z3.simplify(f) if z3.is_expr(f) else z3.BoolVal(bool(f))
        if z3.is_false(f):
            raise PathEnd('assume')
        self.fact(f)

    def unit(self, t):
        """register a Unit term: every universal fact is instantiated at it"""
        k = t.get_id()
        if k in self.unit_ids: return t
        self.unit_ids.add(k)
        self.units.append(t)
        for f in list(self.unis):
            self.fact(f(t))
        for h in list(self.hooks):
            h(t)
        return t

    def forall(self, f):
        self.unis.append(f)
        for t in list(self.units):
            self.fact(f(t))

    def new_unit(self, name='u'):
        return self.unit(self.fresh(name, Unit))

    # ---- solver access
    def check(self, *assumps):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the check used up')
        t = time.time()
        r = self.solver.check(*assumps)
        self.smt_time += time.time() - t
        self.smt_calls += 1
        return r

    def entails(self, f):
        """is f certainly true here?"""
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        self.solver.push()
        try:
            self.solver.add(z3.Not(f))
            return self.check() == z3.unsat
        finally:
            self.solver.pop()

    def possible(self, f):
        f = z3.simplify(f)
        if z3.is_false(f): return False
        self.solver.push()
        try:
            self.solver.add(f)
            return self.check() != z3.unsat
        finally:
            self.solver.pop()

    # ---- branching
    def decide(self, cond):
        if isinstance(cond, bool): return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if self.pos < len(self.trail):
            c = self.trail[self.pos][0]
        else:
            if not self.possible(cond): c, alt = False, False
            elif not self.possible(z3.Not(cond)): c, alt = True, False
            else: c, alt = True, True
            self.trail.append([c, [False] if alt else []])
        self.pos += 1
        f = cond if c else z3.Not(cond)
        self.fact(f)
        self.conds.append(f)
        return c

    def choose(self, n):
        if n == 1: return 0
        if self.pos < len(self.trail):
            c = self.trail[self.pos][0]
        else:
            c = 0
            self.trail.append([0, list(range(1, n))])
        self.pos += 1
        return c

    def explore(self, fn):
        """run fn on every feasible path; returns the list of results"""
        Engine.cur = self
        self.trail = []
        out = []
        while True:
            self.reset()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('more than %d paths' % self.max_paths)
            try:
                r = fn()
                if self.check() != z3.unsat:
                    self.live_paths += 1
                    out.append(r)
            except PathEnd:
                pass
            while self.trail and not self.trail[-1][1]:
                self.trail.pop()
            if not self.trail:
                return out
            top = self.trail[-1]
            top[0] = top[1].pop(0)

    def nested(self, fn):
        """Explore fn() on all its sub-paths from the current state, rolling everything back after each.
        Returns the list of fn's results (with the path condition)."""
        snap = self.snapshot()
        save = (self.trail, self.pos)
        out = []
        trail = []
        n = 0
        while True:
            self.trail, self.pos = trail, 0
            self.solver.push()
            nf, nu, nuni, nh, nc = len(self.facts), len(self.units), len(self.unis), len(self.hooks), len(self.conds)
            ids = set(self.unit_ids)
            memo, opq = dict(self.memo), {k: list(v) for k, v in self.opaques.items()}
            n += 1
            if n > 64: raise Unsupported('too many paths in a loop body')
            try:
                r = fn()
                if self.check() != z3.unsat:
                    out.append(r)
            except PathEnd:
                pass
            finally:
                self.solver.pop()
                del self.facts[nf:]; del self.units[nu:]; del self.unis[nuni:]; del self.hooks[nh:]; del self.conds[nc:]
                self.unit_ids = ids
                self.memo, self.opaques = memo, opq
                self.restore(snap)
            while trail and not trail[-1][1]:
                trail.pop()
            if not trail: break
            trail[-1][0] = trail[-1][1].pop(0)
        self.trail, self.pos = save
        return out

    # ---- heap snapshots (objects register themselves with track())
    def track(self, obj):
        self.heap.append(obj)
        return obj
    def snapshot(self):
        return [(o, o.save()) for o in self.heap]
    def restore(self, snap):
        for o, s in snap: o.load(s)
        del self.heap[len(snap):]

    # ---- obligations
    def prove(self, goal, name):
        t = time.time()
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            if self.check() == z3.unsat: raise PathEnd()
            self.obligations.append(Obligation(name, 'proved', 0.0, 'simplifier'))
            return True
        s = self.solver
        s.push()
        s.add(z3.Not(goal))
        r = self.check()
        model, backend, reason = None, 'z3', ''
        if r == z3.sat:
            model = s.model()
        elif r == z3.unknown:
            reason = s.reason_unknown()
            s2 = z3.SolverFor('QF_NRA') if False else z3.Then('simplify', 'solve-eqs', 'smt').solver()
            s2.set('timeout', self.timeout * 3)
            s2.add(*s.assertions())
            r = s2.check()
            backend = 'z3(tactic)'
            if r == z3.sat: model = s2.model()
            if r == z3.unknown:
                from .ring import ring_proves
                if ring_proves(goal, self.facts):
                    r, backend = z3.unsat, 'ring normaliser'
        s.pop()
        dt = time.time() - t
        st = 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'
        self.obligations.append(Obligation(name, st, dt, backend, model, reason))
        return st == 'proved'

def E():
    return Engine.cur
