"""Proof of real identities a == b by rational normal form: both sides become quotients of polynomials over atoms (constants
and function applications, applications of the same function being identified when their arguments are equal as rational
functions); the identity holds when the cross-multiplied difference is the zero polynomial.  Conditionals are removed by case
distinction.  Every divisor must be shown nonzero and every square-root argument nonnegative (left to the caller's solver)."""
import z3, itertools, time
from fractions import Fraction

class Fail(Exception): pass
MAXT = 1500
METHOD = ['']
DEBUG = False

def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def mmul(m, n):
    d = dict(m)
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))
def pmul(a, b):
    if len(a) * len(b) > 10 * MAXT: raise Fail('size')
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n); v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    if len(r) > MAXT: raise Fail('size')
    return r
ONE = {(): Fraction(1)}

class Norm:
    def __init__(self):
        self.atoms, self.byname, self.memo, self.dens, self.nonneg, self.keep = [], {}, {}, [], [], []
        self.root = {}                       # atom -> (num, den) of its square
    def atom(self, name, args, e):
        for i, a in self.byname.get(name, []):
            if len(a) == len(args) and all(self.same(x, y) for x, y in zip(a, args)): return i
        i = len(self.atoms); self.atoms.append(e); self.byname.setdefault(name, []).append((i, args))
        return i
    def same(self, x, y): return not padd(pmul(x[0], y[1]), pmul(y[0], x[1]), -1)
    def var(self, i): return {((i, 1),): Fraction(1)}
    def go(self, e):
        k = e.get_id()
        if k not in self.memo: self.memo[k] = self.go_(e); self.keep.append(e)
        return self.memo[k]
    def go_(self, e):
        if z3.is_int_value(e): return {(): Fraction(e.as_long())} if e.as_long() else {}, ONE
        if z3.is_rational_value(e):
            f = e.as_fraction(); return ({(): Fraction(f)} if f else {}), ONE
        k = e.decl().kind(); c = e.children()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            n, d = self.go(c[0])
            for x in c[1:]:
                n2, d2 = self.go(x); s = 1 if k == z3.Z3_OP_ADD else -1
                if d == d2: n = padd(n, n2, s)
                else: n, d = padd(pmul(n, d2), pmul(n2, d), s), pmul(d, d2)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            n, d = self.go(c[0]); return padd({}, n, -1), d
        if k == z3.Z3_OP_MUL:
            n, d = self.go(c[0])
            for x in c[1:]:
                n2, d2 = self.go(x); n, d = self.red(pmul(n, n2), pmul(d, d2))
            return n, d
        if k == z3.Z3_OP_DIV:
            n, d = self.go(c[0]); n2, d2 = self.go(c[1])
            if not n2: raise Fail('division by zero')
            if not (len(n2) == 1 and () in n2): self.dens.append(c[1])
            return self.red(pmul(n, d2), pmul(d, n2))
        if k == z3.Z3_OP_TO_REAL and z3.is_int(c[0]):
            return self.go(c[0]) if c[0].decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS) or z3.is_int_value(c[0]) else (self.var(self.atom('toreal:' + c[0].sexpr(), [], e)), ONE)
        if k == z3.Z3_OP_POWER:
            p = c[1]
            if z3.is_int_value(p) or (z3.is_rational_value(p) and p.denominator_as_long() == 1):
                q = p.as_long() if z3.is_int_value(p) else p.numerator_as_long()
                if 0 <= q <= 8:
                    n, d = self.go(c[0]); rn, rd = ONE, ONE
                    for _ in range(q): rn, rd = self.red(pmul(rn, n), pmul(rd, d))
                    return rn, rd
            raise Fail('power')
        if k == z3.Z3_OP_ITE: raise Fail('ite')
        if k == z3.Z3_OP_UNINTERPRETED:
            if not c: return self.var(self.atom(e.sexpr(), [], e)), ONE
            nm = e.decl().name()
            if nm == 'fn_pow' and z3.is_rational_value(c[1]) and c[1].denominator_as_long() == 2 and 0 < c[1].numerator_as_long() < 16:
                n, d = self.go(c[0]); self.nonneg.append(c[0])
                i = self.atom('fn_sqrt', [(n, d)], e); self.root[i] = (n, d)
                rn, rd = self.var(i), ONE
                for _ in range(c[1].numerator_as_long() // 2): rn, rd = pmul(rn, n), pmul(rd, d)
                return rn, rd
            a = []
            for x in c:
                if z3.is_real(x) or z3.is_int(x): a.append(self.go(x))
                else: raise Fail('argument sort')
            i = self.atom(nm, a, e)
            if nm == 'fn_sqrt': self.root[i] = a[0]; self.nonneg.append(c[0])
            return self.var(i), ONE
        if k == z3.Z3_OP_TO_INT or k == z3.Z3_OP_IDIV or k == z3.Z3_OP_MOD:
            return self.var(self.atom('op%d' % k, [self.go(x) for x in c], e)), ONE
        raise Fail('term %s' % e.decl().name())
    def red(self, n, d):
        if self.root and (any(e > 1 and a in self.root for m in n for a, e in m) or any(e > 1 and a in self.root for m in d for a, e in m)):
            n, kn = self.reduce(n, True); d, kd = self.reduce(d, True)
            n, d = pmul(n, kd), pmul(d, kn)
        if len(d) == 1 and () in d and d[()] != 1: n, d = {m: c / d[()] for m, c in n.items()}, ONE
        return n, d
    def reduce(self, p, fac=False):
        """replace even powers of square roots"""
        k = ONE
        for i, (n, d) in sorted(self.root.items(), reverse=True):
            top = max([dict(m).get(i, 0) // 2 for m in p] or [0])
            if not top: continue
            r = {}
            for m, c in p.items():
                e = dict(m).get(i, 0); q = e // 2
                rest = tuple((a, x) for a, x in m if a != i)
                if e % 2: rest = tuple(sorted(rest + ((i, 1),)))
                t = {rest: c}
                for _ in range(q): t = pmul(t, n)
                for _ in range(top - q): t = pmul(t, d)
                r = padd(r, t)
            p = r
            for _ in range(top): k = pmul(k, d)
        return (p, k) if fac else p

P61 = (1 << 61) - 1
class Zero(Exception): pass
class Point:
    """one random point of F_p, p = 2^61 - 1: constants and applications of uninterpreted functions take random values (the
    same application values for the same argument values), square roots are square roots of F_p"""
    def __init__(self, seed):
        import random
        self.r = random.Random(seed); self.v, self.memo, self.dens, self.nonneg, self.keep = {}, {}, [], [], []
    def val(self, key):
        if key not in self.v: self.v[key] = self.r.randrange(2, P61)
        return self.v[key]
    def go(self, e):
        k = e.get_id()
        if k not in self.memo: self.memo[k] = self.go_(e) % P61; self.keep.append(e)
        return self.memo[k]
    def root(self, x):
        if ('root', x) not in self.v:
            y = pow(x, (P61 + 1) // 4, P61)
            if y * y % P61 != x: raise Zero
            self.v[('root', x)] = y if self.r.random() < .5 else P61 - y
        return self.v[('root', x)]
    def go_(self, e):
        if z3.is_int_value(e): return e.as_long()
        if z3.is_rational_value(e): return e.numerator_as_long() * pow(e.denominator_as_long(), -1, P61)
        k = e.decl().kind(); c = e.children()
        if k == z3.Z3_OP_ADD: return sum(self.go(x) for x in c)
        if k == z3.Z3_OP_SUB: return self.go(c[0]) - sum(self.go(x) for x in c[1:])
        if k == z3.Z3_OP_UMINUS: return -self.go(c[0])
        if k == z3.Z3_OP_MUL:
            r = 1
            for x in c: r = r * self.go(x) % P61
            return r
        if k == z3.Z3_OP_DIV:
            d = self.go(c[1])
            if not d: raise Zero
            if not (z3.is_rational_value(c[1]) or z3.is_int_value(c[1])): self.dens.append(c[1])
            return self.go(c[0]) * pow(d, -1, P61)
        if k == z3.Z3_OP_POWER:
            q = c[1]
            if z3.is_int_value(q) or (z3.is_rational_value(q) and q.denominator_as_long() == 1):
                q = q.as_long() if z3.is_int_value(q) else q.numerator_as_long()
                if 0 <= q <= 16: return pow(self.go(c[0]), q, P61)
            raise Fail('power')
        if k == z3.Z3_OP_TO_REAL:
            if z3.is_int_value(c[0]) or c[0].decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS): return self.go(c[0])
            return self.val('toreal:' + c[0].sexpr())
        if k == z3.Z3_OP_UNINTERPRETED:
            if not c: return self.val(e.sexpr())
            nm = e.decl().name()
            if nm == 'fn_pow' and z3.is_rational_value(c[1]) and c[1].denominator_as_long() == 2 and 0 < c[1].numerator_as_long() < 16:
                self.nonneg.append(c[0]); x = self.go(c[0]); return self.root(x) * pow(x, c[1].numerator_as_long() // 2, P61)
            if nm == 'fn_sqrt': self.nonneg.append(c[0]); return self.root(self.go(c[0]))
            for x in c:
                if not (z3.is_real(x) or z3.is_int(x)): raise Fail('argument sort')
            return self.val((nm,) + tuple(self.go(x) for x in c))
        if k in (z3.Z3_OP_TO_INT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD): return self.val(('op%d' % k,) + tuple(self.go(x) for x in c))
        raise Fail('term %s' % e.decl().name())

def points(a, b, n=3):
    """a == b at n random points of F_p?  Two different rational functions of total degree D over the atoms agree at a random
    point with probability below 2 D / 2^61 (Schwartz-Zippel)"""
    got = 0; N = None
    for seed in range(400):
        N = Point(seed * 7919 + 13)
        try: x, y = N.go(a), N.go(b)
        except Zero: continue
        if x != y: return False, N
        got += 1
        if got == n: return True, N
    raise Fail('no point found')

def conds(e, seen=None, out=None):
    seen = set() if seen is None else seen; out = [] if out is None else out
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: out.append(x.children()[0])
        st += x.children()
    return out
def size(e): return len(e.sexpr()) if e.num_args() else 1

def decide(hyps, c, solver):
    """truth of a comparison whose two sides differ by a single monomial of factors of known sign"""
    k = c.decl().kind()
    op = {z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>', z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<'}.get(k)
    if op is None or not z3.is_real(c.children()[0]): return None
    N = Norm()
    try: n, d = N.go(c.children()[0] - c.children()[1])
    except Fail: return None
    if len(n) != 1 or len(d) != 1: return None
    s = 1
    for p in (n, d):
        (m, co), = p.items()
        if co < 0: s = -s
        for a, e in m:
            if e % 2 and not solver(hyps, N.atoms[a] > 0, 1.0): return None
            if e % 2 == 0 and not solver(hyps, N.atoms[a] != 0, 1.0): return None
    for x in N.dens:
        if not solver(hyps, x != 0, 1.0): return None
    return (s > 0) if op in ('>', '>=') else (s < 0)

def identity(hyps, goal, solver, budget=10.0, depth=0, t0=None):
    """goal: a == b over the reals (or a conjunction / implication of such).  solver(hyps, fact) decides side conditions."""
    t0 = t0 or time.time()
    if time.time() - t0 > budget: raise Fail('time')
    if depth == 0:
        sub = []
        for h in hyps:
            for a, b in ([h.children(), h.children()[::-1]] if z3.is_eq(h) else []):
                if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and (z3.is_rational_value(b) or z3.is_int_value(b)) and a.sort() == b.sort(): sub.append((a, b)); break
        if sub: goal = z3.substitute(goal, *sub)
    if z3.is_true(goal): return True
    if z3.is_and(goal): return all(identity(hyps, g, solver, budget, depth, t0) for g in goal.children())
    if z3.is_implies(goal): return identity(hyps + [goal.children()[0]], goal.children()[1], solver, budget, depth, t0)
    if not z3.is_eq(goal) or not (z3.is_real(goal.children()[0]) or z3.is_int(goal.children()[0])): raise Fail('not an identity')
    cs = conds(goal)
    if cs:
        if depth > 8: raise Fail('conditionals')
        c = min(cs, key=size)
        known = decide(hyps, c, solver)
        for val in (True, False):
            if known is not None and val != known: continue
            f = c if val else z3.Not(c)
            g = z3.substitute(goal, (c, z3.BoolVal(val)))
            g = simp_ite(g)
            if known is None and solver(hyps + [f], z3.BoolVal(False), 0.3): continue
            if not identity(hyps + [f], g, solver, budget, depth + 1, t0): return False
        return True
    a, b = goal.children()
    same, N = points(a, b)
    if not same: return False
    METHOD[0] = 'rational normal form'
    try:
        N = Norm(); x, y = N.go(a), N.go(b)
        p = padd(pmul(x[0], y[1]), pmul(y[0], x[1]), -1)
        if p: p = N.reduce(p)
    except Fail as e:
        if str(e) != 'size': raise
        METHOD[0] = 'rational identity at random points of F_p'; same, N = points(a, b); p = {}
    if p:
        if DEBUG: print('residue', len(p), [('*'.join('%s^%d' % (str(N.atoms[i])[:60], e) for i, e in m), c) for m, c in list(p.items())[:6]])
        return False
    done = set()
    for d in N.dens:
        if d.get_id() in done: continue
        done.add(d.get_id())
        if not solver(hyps, d != 0, 1.5): raise Fail('divisor %s' % d)
    for d in N.nonneg:
        if d.get_id() in done: continue
        done.add(d.get_id())
        if not solver(hyps, d >= 0, 1.5): raise Fail('root of %s' % d)
    return True

def simp_ite(e, memo=None):
    """If(true/false, ..) resolved, nothing else touched"""
    memo = {} if memo is None else memo
    k = e.get_id()
    if k in memo: return memo[k][1]
    c = e.children()
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        q = z3.simplify(simp_ite(c[0], memo))
        if z3.is_true(q): r = simp_ite(c[1], memo)
        elif z3.is_false(q): r = simp_ite(c[2], memo)
        else: r = z3.If(q, simp_ite(c[1], memo), simp_ite(c[2], memo))
    elif c:
        n = [simp_ite(x, memo) for x in c]
        if all(x.eq(y) for x, y in zip(n, c)): r = e
        elif z3.is_and(e): r = z3.And(*n)
        elif z3.is_or(e): r = z3.Or(*n)
        elif z3.is_add(e): r = z3.Sum(*n)
        elif z3.is_mul(e): r = z3.Product(*n)
        else: r = e.decl()(*n)
    else: r = e
    memo[k] = (e, r); return r
