"""Symbolic values, path exploration and solver back ends (shared by the C++ and Python front ends).

Numbers are z3 terms (Int / Real / Bool) or Python int / Fraction / bool.  Floating point is treated as
mathematical reals (stated assumption in every evidence file)."""
import os, time, subprocess, tempfile, itertools
from fractions import Fraction
import z3

class Unsupported(Exception):
    pass
class Infeasible(Exception):
    pass
class Budget(Unsupported):
    pass

def is_z(x): return isinstance(x, z3.ExprRef)
def isnum(x): return isinstance(x, (int, Fraction, bool)) or (is_z(x) and not isinstance(x, z3.ArrayRef))

def R(x):
    """to a Real term / Fraction"""
    if isinstance(x, bool): return Fraction(int(x))
    if isinstance(x, (int, Fraction)): return Fraction(x)
    if isinstance(x, float): return Fraction(repr(x)) if x == x and abs(x) != float('inf') else _bad(x)
    if z3.is_bool(x): return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(x): return z3.ToReal(x)
    return x
def _bad(x): raise Unsupported('non-finite literal %r' % x)
def RV(x):
    x = R(x)
    return z3.RealVal(str(x)) if isinstance(x, Fraction) else x
def IV(x):
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int): return z3.IntVal(x)
    if z3.is_bool(x): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x
def BV(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, (int, Fraction)): return z3.BoolVal(x != 0)
    if z3.is_bool(x): return x
    return x != 0
def asint(x):
    if isinstance(x, bool): return int(x)
    if is_z(x) and z3.is_bool(x): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x

def isreal(x): return isinstance(x, Fraction) or (is_z(x) and z3.is_real(x))

def arith(op, a, b):
    a, b = asint(a), asint(b)
    if isreal(a) or isreal(b):
        a, b = R(a), R(b)
        if not is_z(a) and not is_z(b):
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/':
                if b == 0: raise Unsupported('division by literal zero')
                return a / b
        # light simplification keeps terms small
        if op == '+':
            if not is_z(a) and a == 0: return b
            if not is_z(b) and b == 0: return a
        if op == '-' and not is_z(b) and b == 0: return a
        if op == '*':
            if not is_z(a):
                if a == 0: return Fraction(0)
                if a == 1: return b
            if not is_z(b):
                if b == 0: return Fraction(0)
                if b == 1: return a
        if op == '/':
            if not is_z(b):
                if b == 1: return a
                return RV(1 / b) * a if is_z(a) else a / b
            if not is_z(a) and a == 0: return Fraction(0)
        a, b = RV(a), RV(b)
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()
    if not is_z(a) and not is_z(b):
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        q = abs(a) // abs(b)
        q = q if (a >= 0) == (b >= 0) else -q
        if op == '/': return q
        if op == '%': return a - q * b
    if op in '+-*':
        if op == '+' and not is_z(a) and a == 0: return b
        if op in '+-' and not is_z(b) and b == 0: return a
        if op == '*':
            if not is_z(a) and a == 1: return b
            if not is_z(b) and b == 1: return a
            if (not is_z(a) and a == 0) or (not is_z(b) and b == 0): return 0
        a, b = IV(a), IV(b)
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[op]()
    a, b = IV(a), IV(b)
    # C++ truncating division / remainder on mathematical integers
    q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
    if op == '/': return z3.simplify(q)
    if op == '%': return z3.simplify(a - q * b)
    raise Unsupported('integer op ' + op)

def cmp(op, a, b):
    if isinstance(a, bool) or (is_z(a) and z3.is_bool(a)) or isinstance(b, bool) or (is_z(b) and z3.is_bool(b)):
        if op in ('==', '!=') and (isinstance(a, bool) or z3.is_bool(a) if is_z(a) else isinstance(a, bool)) and (isinstance(b, bool) or (is_z(b) and z3.is_bool(b))):
            if not is_z(a) and not is_z(b): return (a == b) if op == '==' else (a != b)
            r = BV(a) == BV(b)
            return r if op == '==' else z3.Not(r)
        a, b = asint(a), asint(b)
    if not is_z(a) and not is_z(b):
        return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if isreal(a) or isreal(b): a, b = RV(a), RV(b)
    else: a, b = IV(a), IV(b)
    return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b,
            '==': lambda: a == b, '!=': lambda: a != b}[op]()

def neg(a):
    a = asint(a)
    return -a
def ite(c, a, b):
    if not is_z(c): return a if c else b
    c = BV(c)
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = Cx.of(a), Cx.of(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if (isinstance(a, bool) or (is_z(a) and z3.is_bool(a))) and (isinstance(b, bool) or (is_z(b) and z3.is_bool(b))):
        return z3.If(c, BV(a), BV(b))
    if isreal(a) or isreal(b): return z3.If(c, RV(a), RV(b))
    return z3.If(c, IV(a), IV(b))
def land(a, b):
    if not is_z(a): return b if a else False
    if not is_z(b): return a if b else False
    return z3.And(a, b)
def lor(a, b):
    if not is_z(a): return True if a else b
    if not is_z(b): return True if b else a
    return z3.Or(a, b)
def lnot(a):
    return (not a) if not is_z(a) else z3.Not(BV(a))

class Cx:
    """complex number as a pair of reals"""
    __slots__ = ('re', 'im', 'sqof')
    def __init__(self, re, im=Fraction(0)): self.re, self.im = R(re), R(im)
    @staticmethod
    def of(x): return x if isinstance(x, Cx) else Cx(x)
    def __add__(a, b): b = Cx.of(b); return Cx(arith('+', a.re, b.re), arith('+', a.im, b.im))
    def __sub__(a, b): b = Cx.of(b); return Cx(arith('-', a.re, b.re), arith('-', a.im, b.im))
    def __mul__(a, b):
        if not isinstance(b, Cx): b = R(b); return Cx(arith('*', a.re, b), arith('*', a.im, b))
        return Cx(arith('-', arith('*', a.re, b.re), arith('*', a.im, b.im)), arith('+', arith('*', a.re, b.im), arith('*', a.im, b.re)))
    def __truediv__(a, b):
        if not isinstance(b, Cx): b = R(b); return Cx(arith('/', a.re, b), arith('/', a.im, b))
        n = b.norm()
        c = a * b.conj()
        return Cx(arith('/', c.re, n), arith('/', c.im, n))
    def __neg__(a): return Cx(neg(a.re), neg(a.im))
    def conj(a): return Cx(a.re, neg(a.im))
    def norm(a): return arith('+', arith('*', a.re, a.re), arith('*', a.im, a.im))
    def __repr__(a): return 'Cx(%s,%s)' % (a.re, a.im)

# ---- transcendental functions: uninterpreted + ground axioms ------------------------------------
UF = {n: z3.Function('fn_' + n, z3.RealSort(), z3.RealSort()) for n in
      ('log', 'exp', 'sin', 'cos', 'asin', 'acos', 'tan', 'atan')}
UF2 = {n: z3.Function('fn_' + n, z3.RealSort(), z3.RealSort(), z3.RealSort()) for n in ('atan2', 'pow')}
SQRT = z3.Function('fn_sqrt', z3.RealSort(), z3.RealSort())
INTINV = z3.Function('fn_trunc', z3.RealSort(), z3.IntSort())

def sqrt(x):
    x = R(x)
    if isinstance(x, Fraction):
        import math
        n, d = math.isqrt(x.numerator) if x >= 0 else -1, math.isqrt(x.denominator)
        if n >= 0 and n * n == x.numerator and d * d == x.denominator: return Fraction(n, d)
    return SQRT(RV(x))
def trunc(x):
    x = R(x)
    if isinstance(x, Fraction): return int(x)
    if z3.is_to_real(x): return x.arg(0)
    return INTINV(x)

def subterms(es):
    seen = {}
    st = list(es)
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen[e.get_id()] = e
        if z3.is_quantifier(e): continue   # no ground axioms below binders
        st.extend(e.children())
    return list(seen.values())

PI = z3.Real('pi')
def ground_axioms(es, rounds=2, cross=True):
    """Instances of the (true) axioms of sqrt, log, exp, sin, cos, asin, acos, truncation for the terms in es."""
    ax, done = [], set()
    base = list(es)
    for _ in range(rounds):
        ts = subterms(base + ax)
        new = []
        byf = {}
        for t in ts:
            if not z3.is_app(t) or t.num_args() == 0: continue
            d = t.decl().name()
            if d.startswith('fn_'): byf.setdefault(d[3:], []).append(t)
        def add(key, f):
            if key not in done:
                done.add(key); new.append(f)
        for t in byf.get('sqrt', []):
            x = t.arg(0)
            add(('sqrt', t.get_id()), z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
        for t in byf.get('trunc', []):
            x = t.arg(0)
            k = z3.ToReal(t)
            add(('trunc', t.get_id()), z3.And(z3.Implies(x >= 0, z3.And(k <= x, x < k + 1, t >= 0)),
                                              z3.Implies(x <= 0, z3.And(k >= x, x > k - 1, t <= 0))))
        logs = byf.get('log', [])
        for i, t in enumerate(logs):
            for u in logs[i + 1:]:
                a, b = t.arg(0), u.arg(0)
                add(('log', t.get_id(), u.get_id()), z3.Implies(z3.And(a > 0, b > 0), z3.And((a < b) == (t < u), (a == b) == (t == u))))
        # sqrt / square and products inside log
        for t in logs:
            a = t.arg(0)
            if z3.is_app(a) and a.decl().name() == 'fn_sqrt':
                y = a.arg(0)
                add(('logsqrt', t.get_id()), z3.Implies(y > 0, t * 2 == UF['log'](y)))
            if z3.is_mul(a) and a.num_args() == 2:
                p, q = a.arg(0), a.arg(1)
                if p.eq(q):
                    add(('logsq', t.get_id()), z3.Implies(p > 0, t == 2 * UF['log'](p)))
                else:
                    add(('logmul', t.get_id()), z3.Implies(z3.And(p > 0, q > 0), t == UF['log'](p) + UF['log'](q)))
            if z3.is_div(a):
                p, q = a.arg(0), a.arg(1)
                add(('logdiv', t.get_id()), z3.Implies(z3.And(p > 0, q > 0), t == UF['log'](p) - UF['log'](q)))
            if z3.is_app(a) and a.decl().name() == 'fn_exp':
                add(('logexp', t.get_id()), t == a.arg(0))
            add(('log1', t.get_id()), z3.Implies(a > 0, z3.And((a > 1) == (t > 0), (a == 1) == (t == 0))))
        exps = byf.get('exp', [])
        for i, t in enumerate(exps):
            add(('exp', t.get_id()), t > 0)
            add(('explog', t.get_id()), UF['log'](t) == t.arg(0)) if not logs else None
            for u in exps[i + 1:]:
                add(('exp', t.get_id(), u.get_id()), z3.And((t.arg(0) < u.arg(0)) == (t < u), (t.arg(0) == u.arg(0)) == (t == u)))
        for t in byf.get('sin', []):
            x = t.arg(0)
            add(('sincos', x.get_id()), z3.And(t * t + UF['cos'](x) * UF['cos'](x) == 1, t <= 1, t >= -1, UF['cos'](x) <= 1, UF['cos'](x) >= -1))
        for t in byf.get('cos', []):
            x = t.arg(0)
            add(('sincos', x.get_id()), z3.And(UF['sin'](x) * UF['sin'](x) + t * t == 1, t <= 1, t >= -1, UF['sin'](x) <= 1, UF['sin'](x) >= -1))
        for t in byf.get('asin', []):
            x = t.arg(0)
            add(('asin', t.get_id()), z3.Implies(z3.And(x >= -1, x <= 1), z3.And((x > 0) == (t > 0), (x < 0) == (t < 0), z3.Implies(x >= 0, z3.And(t >= x, t * 2 <= PI)))))
            for u in byf['asin']:
                if t.get_id() < u.get_id():
                    add(('asin', t.get_id(), u.get_id()), z3.Implies(z3.And(x >= -1, x <= 1, u.arg(0) >= -1, u.arg(0) <= 1), z3.And((x < u.arg(0)) == (t < u), (x == u.arg(0)) == (t == u))))
        for t in byf.get('acos', []):
            x = t.arg(0)
            add(('acos', t.get_id()), z3.Implies(z3.And(x >= -1, x <= 1), z3.And(t >= 0, t <= PI, (x == 1) == (t == 0))))
            for u in byf['acos']:
                if t.get_id() < u.get_id():
                    add(('acos', t.get_id(), u.get_id()), z3.Implies(z3.And(x >= -1, x <= 1, u.arg(0) >= -1, u.arg(0) <= 1), z3.And((x < u.arg(0)) == (t > u), (x == u.arg(0)) == (t == u))))
        if not new: break
        ax += new
    if any(z3.is_const(t) and t.decl().name() == 'pi' for t in subterms(base + ax)):
        ax.append(z3.And(PI > z3.RealVal('3.14159265358979'), PI < z3.RealVal('3.1415926535898')))
    return ax

# ---- path exploration ------------------------------------------------------------------------------
class State:
    def __init__(self, script, assumptions, feas_ms=150, maxlen=400):
        self.script, self.idx = list(script), 0
        self.pc = []
        self.taken = []
        self.pending = []
        self.events = []
        self.ghost = {}
        self.fresh = itertools.count()
        self.assume_list = list(assumptions)
        self.feas_ms = feas_ms
        self.maxlen = maxlen
        self.obls = []
        self.journal = []
        self.solver = z3.SolverFor('QF_NRA') if False else z3.Solver()
        self.solver.set('timeout', feas_ms)
        for a in assumptions: self.solver.add(a)
        self.steps = 0
        self.nforks = 0
    def new(self, name, sort='R'):
        n = '%s!%d' % (name, next(self.fresh))
        return {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[sort](n)
    def assume(self, f):
        if not is_z(f):
            if not f: raise Infeasible()
            return
        self.pc.append(f)
        self.solver.add(f)
    def oblige(self, name, f):
        self.obls.append((name, f, list(self.pc)))
    def branch(self, c):
        if not is_z(c): return bool(c)
        c = z3.simplify(BV(c))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.idx < len(self.script):
            d = self.script[self.idx]
        else:
            t = self._feasible(c)
            if not t: d = False
            elif not self._feasible(z3.Not(c)): d = True
            else:
                d = True
                self.pending.append(self.taken + [False])
                self.nforks += 1
                if len(self.taken) > self.maxlen: raise Budget('path too long')
        self.idx += 1
        self.taken.append(d)
        self.assume(c if d else z3.Not(c))
        return d
    def _feasible(self, c):
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

def explore(fn, assumptions=(), max_paths=3000, feas_ms=150, deadline=None):
    """Run fn(state) along every feasible path.  Returns [(state, result)]."""
    out, stack = [], [[]]
    while stack:
        script = stack.pop()
        st = State(script, assumptions, feas_ms)
        try:
            r = fn(st)
            out.append((st, r))
        except Infeasible:
            pass
        stack.extend(st.pending)
        if len(out) + len(stack) > max_paths: raise Budget('more than %d paths' % max_paths)
        if deadline and time.time() > deadline: raise Budget('exploration time limit')
    return out

# ---- discharge --------------------------------------------------------------------------------------
CVC5 = '/usr/bin/cvc5'
class Verdict:
    __slots__ = ('status', 'backend', 'seconds', 'model', 'smt')
    def __init__(self, status, backend, seconds, model=None, smt=None):
        self.status, self.backend, self.seconds, self.model, self.smt = status, backend, seconds, model, smt

def _smt2(fs):
    s = z3.Solver()
    for f in fs: s.add(f)
    return s.to_smt2()

def elim_ints(fs):
    return fs

def prove(hyps, goal, timeout=20.0, axioms=True, use_cvc5=True):
    v = _prove(hyps, goal, timeout, axioms, use_cvc5)
    if v.status == 'proved' or not is_z(goal): return v
    from engine import cex
    fs = [h for h in hyps if is_z(h)] + [z3.Not(goal)]
    if v.status == 'refuted' and v.model is not None and cex.needs_confirm(fs) and not cex.confirm(v.model, fs):
        v.status, v.model, v.backend = 'unknown', None, v.backend + ' (model not confirmed with the real functions)'
    return v

def falsify(hyps, goal, seconds=2.0):
    from engine import cex
    if not is_z(goal): return None
    return cex.search([h for h in hyps if is_z(h)] + [z3.Not(goal)], seconds)

def _prove(hyps, goal, timeout=20.0, axioms=True, use_cvc5=True):
    """Is goal implied by hyps?  status: proved | refuted (model) | unknown."""
    t0 = time.time()
    if not is_z(goal):
        if goal: return Verdict('proved', 'constant', 0.0)
        goal = z3.BoolVal(False)
    g = z3.simplify(goal)
    if z3.is_true(g): return Verdict('proved', 'z3-simplify', time.time() - t0)
    if any((not is_z(h)) and not h for h in hyps): return Verdict('proved', 'constant', 0.0)
    fs = [h for h in hyps if is_z(h)] + [z3.Not(goal)]
    if axioms: fs = fs + ground_axioms(fs)
    ints = any(z3.is_int(t) for t in subterms(fs))
    def attempt(name, gs, to, tac=None):
        try:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', tac).solver() if tac else z3.Solver()
            s.set('timeout', int(to * 1000))
            for f in gs: s.add(f)
            return s.check(), s
        except z3.Z3Exception:
            return z3.unknown, None
    r, s = attempt('z3', fs, min(timeout, 0.7))
    if r == z3.unsat: return Verdict('proved', 'z3', time.time() - t0)
    if (z3.is_eq(goal) or z3.is_and(goal) or z3.is_implies(goal)) and not (r == z3.sat and not any(t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED for t in subterms([goal]))):
        from engine import ratnorm
        def side(hs, f, to):
            gs = [h for h in hs if is_z(h)] + [z3.Not(f)]
            return attempt('z3', gs + ground_axioms(gs), to)[0] == z3.unsat
        try:
            if ratnorm.identity([h for h in hyps if is_z(h)], goal, side): return Verdict('proved', ratnorm.METHOD[0] or 'rational normal form', time.time() - t0)
        except (ratnorm.Fail, z3.Z3Exception, RecursionError): pass
    if r == z3.sat: return Verdict('refuted', 'z3', time.time() - t0, s.model())
    try: r, s = attempt('z3', linear_abstraction(fs + (int_hints(fs) if ints else [])), min(timeout, 2.0))
    except Unsupported: r = z3.unknown
    if r == z3.unsat: return Verdict('proved', 'z3-linear', time.time() - t0)
    r, s = attempt('z3', fs, min(timeout, 3.0))
    if r == z3.unsat: return Verdict('proved', 'z3', time.time() - t0)
    if r == z3.sat: return Verdict('refuted', 'z3', time.time() - t0, s.model())
    # relaxation: integers as reals, uninterpreted applications as constants (weaker hypotheses: only unsat counts,
    # unless nothing was relaxed)
    try: gs = _purify(relax_ints(fs + int_hints(fs)) if ints else fs)
    except Unsupported: gs = None
    if gs is not None:
        r, s = attempt('nlsat', gs, min(timeout, 8.0), 'qfnra-nlsat')
        if r == z3.unsat: return Verdict('proved', 'z3-nlsat', time.time() - t0)
        if r == z3.sat and not ints:
            try: m = s.model()
            except z3.Z3Exception: m = None
            return Verdict('refuted', 'z3-nlsat', time.time() - t0, m)
        if r == z3.unknown and use_cvc5:
            if run_cvc5(gs, min(timeout, 10.0)) == 'unsat': return Verdict('proved', 'cvc5', time.time() - t0)
    r, s = attempt('z3', fs, timeout)
    if r == z3.unsat: return Verdict('proved', 'z3', time.time() - t0)
    if r == z3.sat: return Verdict('refuted', 'z3', time.time() - t0, s.model())
    if ints and use_cvc5:
        if run_cvc5(fs, min(timeout, 10.0)) == 'unsat': return Verdict('proved', 'cvc5', time.time() - t0)
    return Verdict('unknown', 'z3+nlsat+cvc5', time.time() - t0)

def linear_abstraction(fs):
    """weaken: nonlinear products, quotients and function applications become unconstrained constants (only unsat counts)"""
    atoms, memo, keep = {}, {}, []
    def atom(key, sort):
        if key not in atoms: atoms[key] = z3.FreshConst(sort, 'lin')
        return atoms[key]
    def isnumv(e): return z3.is_int_value(e) or z3.is_rational_value(e) or z3.is_algebraic_value(e)
    def mono(e):
        """(numeral, rest or None)"""
        if isnumv(e): return e, None
        if z3.is_mul(e):
            ns = [c for c in e.children() if isnumv(c)]; rs = [c for c in e.children() if not isnumv(c)]
            if len(ns) == 1 and rs: return ns[0], (rs[0] if len(rs) == 1 else z3.Product(*rs))
        return None, e
    def go(e):
        i = e.get_id()
        if i in memo: return memo[i]
        if z3.is_quantifier(e): raise Unsupported('quantifier')
        keep.append(e)
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_MUL:
            n, rest = mono(e)
            if rest is not None and n is not None: r = n * go(rest)
            elif rest is None: r = e
            else:
                fl = []
                for c in e.children(): fl.append(str(go(c)))
                r = atom('mul:' + '*'.join(sorted(fl)), e.sort())
        elif k == z3.Z3_OP_DIV and not isnumv(e.children()[1]):
            num, den = e.children()
            num = z3.simplify(num, som=True); keep.append(num)
            ts = num.children() if z3.is_add(num) else [num]
            dk = str(go(den)); parts = []
            for t in ts:
                n, rest = mono(t)
                a = atom('div:%s/%s' % ('1' if rest is None else str(go(rest)), dk), e.sort())
                parts.append(a if n is None else n * a)
            r = parts[0] if len(parts) == 1 else z3.Sum(*parts)
        elif k == z3.Z3_OP_POWER: r = atom('pow:' + str([go(c) for c in e.children()]), e.sort())
        elif k == z3.Z3_OP_UNINTERPRETED and e.num_args(): r = atom('app:%s%s' % (e.decl().name(), [str(go(c)) for c in e.children()]), e.sort())
        else:
            ch = [go(c) for c in e.children()]
            r = e
            if ch:
                if z3.is_and(e): r = z3.And(*ch)
                elif z3.is_or(e): r = z3.Or(*ch)
                elif z3.is_add(e): r = z3.Sum(*ch)
                else: r = e.decl()(*ch)
        memo[i] = r; keep.append(r)
        return r
    return [go(z3.simplify(f, som=True)) for f in fs]

def int_hints(fs):
    """integer tautologies kept before integrality is forgotten: t <= n-1 or t >= n for truncations t, integer constants n"""
    ts = [t for t in subterms(fs) if z3.is_int(t)]
    tr = [t for t in ts if z3.is_app(t) and t.decl().name() == 'fn_trunc']
    cs = [t for t in ts if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED] + [z3.IntVal(0)]
    out = []
    if len(tr) * len(cs) > 40: cs = cs[:6]
    for t in tr[:8]:
        for c in cs: out.append(z3.Or(t <= c - 1, t >= c))
    for i, t in enumerate(tr[:6]):
        for u in tr[i + 1:6]: out.append(z3.Or(t <= u - 1, t == u, t >= u + 1))
    return out

def relax_ints(fs):
    """weaken: integer terms become real terms (integrality forgotten)"""
    memo = {}
    def go(e):
        i = e.get_id()
        if i in memo: return memo[i][1]
        if z3.is_quantifier(e): raise Unsupported('quantifier')
        ch = [go(c) for c in e.children()]
        k = e.decl().kind() if z3.is_app(e) else None
        if z3.is_int_value(e): r = z3.RealVal(e.as_long())
        elif k == z3.Z3_OP_TO_REAL: r = ch[0]
        elif k in (z3.Z3_OP_TO_INT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM): r = z3.Real('rlx!%d' % i)
        elif k == z3.Z3_OP_UNINTERPRETED:
            d = e.decl()
            isint = e.sort() == z3.IntSort()
            if not ch: r = z3.Real(d.name() + '!r') if isint else e
            else:
                doms = [c.sort() for c in ch]
                f = z3.Function(d.name() + ('!r' if isint or any(d.domain(j) == z3.IntSort() for j in range(d.arity())) else ''), *(doms + [z3.RealSort() if isint else e.sort()]))
                r = f(*ch)
        elif not ch: r = e
        elif k == z3.Z3_OP_ITE: r = z3.If(ch[0], ch[1], ch[2])
        elif k == z3.Z3_OP_EQ: r = ch[0] == ch[1]
        elif k == z3.Z3_OP_DISTINCT: r = z3.Distinct(*ch)
        elif k == z3.Z3_OP_ADD: r = z3.Sum(*ch)
        elif k == z3.Z3_OP_MUL: r = z3.Product(*ch)
        elif k == z3.Z3_OP_SUB: r = ch[0] - ch[1] if len(ch) == 2 else ch[0] - z3.Sum(*ch[1:])
        elif k == z3.Z3_OP_UMINUS: r = -ch[0]
        elif k == z3.Z3_OP_DIV: r = ch[0] / ch[1]
        elif k == z3.Z3_OP_LE: r = ch[0] <= ch[1]
        elif k == z3.Z3_OP_GE: r = ch[0] >= ch[1]
        elif k == z3.Z3_OP_LT: r = ch[0] < ch[1]
        elif k == z3.Z3_OP_GT: r = ch[0] > ch[1]
        elif k == z3.Z3_OP_AND: r = z3.And(*ch)
        elif k == z3.Z3_OP_OR: r = z3.Or(*ch)
        elif k == z3.Z3_OP_NOT: r = z3.Not(ch[0])
        elif k == z3.Z3_OP_IMPLIES: r = z3.Implies(ch[0], ch[1])
        elif k == z3.Z3_OP_XOR: r = z3.Xor(ch[0], ch[1])
        elif k == z3.Z3_OP_POWER: r = ch[0] ** ch[1]
        else: raise Unsupported('relax ' + str(e.decl()))
        memo[i] = (e, r)
        return r
    return [go(f) for f in fs]

def _purify(fs):
    sub, cnt = {}, [0]
    def go(e):
        i = e.get_id()
        if i in sub: return sub[i][1]
        if z3.is_app(e):
            d = e.decl().name()
            if d.startswith('fn_') or (e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0):
                r = z3.FreshConst(e.sort(), 'p')
            else:
                ch = [go(c) for c in e.children()]
                r = e.decl()(*ch) if ch else e
                if ch and z3.is_and(e): r = z3.And(*ch)
                elif ch and z3.is_or(e): r = z3.Or(*ch)
                elif ch and z3.is_add(e): r = z3.Sum(*ch)
                elif ch and z3.is_mul(e): r = z3.Product(*ch)
        else: r = e
        sub[i] = (e, r)
        return r
    return [go(f) for f in fs]

def run_cvc5(fs, to):
    txt = '(set-logic ALL)\n' + _smt2(fs)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt); fn = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(to * 1000), '--nl-ext-tplanes', fn], capture_output=True, text=True, timeout=to + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout else ''
    except (subprocess.TimeoutExpired, FileNotFoundError):
        out = ''
    finally:
        os.unlink(fn)
    return out

def satisfiable(fs, timeout=10.0):
    """sanity (vacuity) check of a set of hypotheses; returns 'sat'/'unsat'/'unknown'"""
    fs = [f for f in fs if is_z(f)]
    s = z3.Solver(); s.set('timeout', int(timeout * 1000))
    for f in fs + ground_axioms(fs): s.add(f)
    r = str(s.check())
    if r == 'unknown' and not any(z3.is_int(t) for t in subterms(fs)):
        try:
            s = z3.Tactic('qfnra-nlsat').solver(); s.set('timeout', int(timeout * 1000))
            for f in _purify(fs + ground_axioms(fs)): s.add(f)
            r = str(s.check())
        except z3.Z3Exception: pass
    return r
