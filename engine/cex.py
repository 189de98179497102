"""Counterexample validation: a solver model of a formula with transcendental functions only satisfies the axiom
instances given; it counts as a counterexample when the formula also evaluates to true with the real functions.
When the solver gives none, a small random search over the free variables is tried."""
import math, random, time
import z3

class NoVal(Exception): pass
TOL = 1e-7
FN = dict(fn_sqrt=lambda x: math.sqrt(x), fn_log=lambda x: math.log(x), fn_exp=lambda x: math.exp(min(x, 600)), fn_sin=math.sin, fn_cos=math.cos, fn_tan=math.tan,
          fn_asin=lambda x: math.asin(max(-1, min(1, x))) if abs(x) < 1 + 1e-9 else _no(), fn_acos=lambda x: math.acos(max(-1, min(1, x))) if abs(x) < 1 + 1e-9 else _no(),
          fn_pow=lambda a, b: a ** b if a > 0 else _no(), fn_atan=math.atan, fn_atan2=math.atan2, fn_trunc=lambda x: float(int(x)), fn_floor=math.floor, fn_round=lambda x: float(int(x + math.copysign(0.5, x))))
def _no(): raise NoVal()
EXACT = ('fn_sqrt', 'fn_trunc', 'fn_floor')

def apps(fs):
    seen, out = set(), set()
    st = list(fs)
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): out.add('quantifier'); continue
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args(): out.add(e.decl().name())
        st += e.children()
    return out

def needs_confirm(fs): return any(a == 'quantifier' or (a.startswith('fn_') and a not in EXACT) for a in apps(fs))

def num(v):
    if z3.is_int_value(v): return float(v.as_long())
    if z3.is_rational_value(v): return float(v.as_fraction())
    if z3.is_algebraic_value(v): return float(v.approx(20).as_fraction())
    raise NoVal()

class Ev:
    def __init__(self, val, defs, model=None):
        self.val, self.defs, self.model, self.memo, self.busy = val, defs, model, {}, set()
    def go(self, e):
        i = e.get_id()
        if i in self.memo: return self.memo[i]
        r = self.memo[i] = self._go(e)
        return r
    def _go(self, e):
        if z3.is_quantifier(e): raise NoVal()
        k = e.decl().kind()
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        if z3.is_int_value(e) or z3.is_rational_value(e) or z3.is_algebraic_value(e): return num(e)
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if e.num_args() == 0:
                if nm == 'pi': return math.pi
                if nm in self.defs and nm not in self.busy:
                    self.busy.add(nm)
                    try: return self.go(self.defs[nm])
                    finally: self.busy.discard(nm)
                return self.val(e)
            if nm in FN:
                try: return float(FN[nm](*[self.go(c) for c in e.children()]))
                except (ValueError, OverflowError): raise NoVal()
            return self.val(e, [self.go(c) for c in e.children()])
        c = e.children()
        if k == z3.Z3_OP_ITE: return self.go(c[1]) if self.go(c[0]) else self.go(c[2])
        if k == z3.Z3_OP_AND: return all(self.go(x) for x in c)
        if k == z3.Z3_OP_OR: return any(self.go(x) for x in c)
        if k == z3.Z3_OP_IMPLIES: return (not self.go(c[0])) or self.go(c[1])
        if k == z3.Z3_OP_NOT:
            x = c[0]
            kk = x.decl().kind() if z3.is_app(x) else None
            if kk in REL: return self.rel(NEG[kk], x)
            return not self.go(x)
        if k == z3.Z3_OP_EQ and z3.is_bool(c[0]): return self.go(c[0]) == self.go(c[1])
        if k in REL: return self.rel(k, e)
        v = [self.go(x) for x in c]
        if k == z3.Z3_OP_ADD: return math.fsum(v)
        if k == z3.Z3_OP_MUL: return math.prod(v)
        if k == z3.Z3_OP_SUB: return v[0] - math.fsum(v[1:])
        if k == z3.Z3_OP_UMINUS: return -v[0]
        if k == z3.Z3_OP_DIV:
            if v[1] == 0: raise NoVal()
            return v[0] / v[1]
        if k == z3.Z3_OP_POWER: return v[0] ** v[1]
        if k in (z3.Z3_OP_TO_REAL,): return v[0]
        if k == z3.Z3_OP_TO_INT: return float(math.floor(v[0]))
        if k == z3.Z3_OP_IDIV: return float(v[0] // v[1])
        if k == z3.Z3_OP_MOD: return float(v[0] % v[1])
        raise NoVal()
    def rel(self, k, e):
        a, b = (self.go(x) for x in e.children()[:2])
        d, s = a - b, TOL * (1e-3 + abs(a) + abs(b))
        # strict truths must hold with margin unless both sides are integers; non-strict ones up to rounding
        if k == z3.Z3_OP_EQ: return abs(d) <= s
        if k == 'ne' or k == z3.Z3_OP_DISTINCT: return abs(d) > s
        isint = z3.is_int(e.children()[0])
        if k == z3.Z3_OP_LE: return d <= (0 if isint else s * 1e-6)
        if k == z3.Z3_OP_GE: return d >= -(0 if isint else s * 1e-6)
        if k == z3.Z3_OP_LT: return d < -(0 if isint else s)
        return d > (0 if isint else s)
REL = (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT)
NEG = {z3.Z3_OP_EQ: 'ne', z3.Z3_OP_DISTINCT: z3.Z3_OP_EQ, z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}

def consts(e):
    seen, out, st = set(), {}, [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x
        st += x.children()
    return out

def flatten(fs):
    out = []
    for f in fs:
        if z3.is_and(f): out += flatten(f.children())
        else: out.append(f)
    return out

def definitions(fs):
    """acyclic c == term definitions among the top-level conjuncts"""
    defs, deps = {}, {}
    def reach(a, target, seen):
        if a == target: return True
        if a in seen: return False
        seen.add(a)
        return any(reach(b, target, seen) for b in deps.get(a, ()))
    for f in flatten(fs):
        if z3.is_eq(f) and not z3.is_bool(f.children()[0]):
            for a, b in (f.children(), f.children()[::-1]):
                if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name() not in defs:
                    n = a.decl().name(); cs = consts(b)
                    if not any(reach(x, n, set()) for x in cs): defs[n] = b; deps[n] = list(cs); break
    return defs

def confirm(model, fs):
    """does the model's assignment of the free variables make every formula true with the real functions?"""
    def val(e, args=None):
        t = model.eval(e if args is None else e.decl()(*[z3.RealVal(repr(a)) if e.decl().domain(j) == z3.RealSort() else z3.IntVal(int(a)) for j, a in enumerate(args)]), model_completion=True)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        return num(t)
    for defs in ({}, definitions(fs)):
        try:
            ev = Ev(val, defs)
            if all(ev.go(f) for f in fs): return True
        except (NoVal, z3.Z3Exception, ZeroDivisionError, OverflowError, ValueError, TypeError, AttributeError): pass
    return False

def search(fs, seconds=2.0, seed=1):
    """random assignments; returns a dict of variable values satisfying every formula with margin, or None"""
    fs = flatten([f for f in fs])
    defs = definitions(fs)
    rng = random.Random(seed)
    t0 = time.time()
    order = None
    while time.time() - t0 < seconds:
        sc = 10. ** rng.uniform(-2, 2)
        tab = {}
        def val(e, args=None):
            key = (e.decl().name(), tuple(args or ()))
            if args and key not in tab:          # arguments equal up to rounding are the same argument
                for k2 in tab:
                    if k2[0] == key[0] and len(k2[1]) == len(args) and all(abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-300 for a, b in zip(k2[1], args)): key = k2; break
            if key not in tab:
                if z3.is_bool(e): tab[key] = rng.random() < 0.5
                elif z3.is_int(e): tab[key] = float(rng.choice([0, 1, 2, 3, 5, 10, rng.randrange(100)]))
                else:
                    u = rng.random()
                    tab[key] = rng.uniform(-1, 1) * sc if u < 0.4 else rng.uniform(0, 1) * sc if u < 0.7 else float(rng.choice([0, 1, -1, 2, 0.5])) if u < 0.8 else rng.uniform(0, 1) * sc * 10 ** rng.uniform(-3, 0)
            return tab[key]
        ev = Ev(val, defs); ok = True
        for f in fs:
            try:
                if not ev.go(f): ok = False; break
            except (NoVal, ZeroDivisionError, OverflowError, ValueError, TypeError, AttributeError): ok = False; break
        if ok: return {k[0] + (str(list(k[1])) if k[1] else ''): v for k, v in tab.items()}
    return None
