"""P15: bin layout.  Corr2.__init__ / Corr3.__init__ executed on symbolic parameters; BaseCorr2 / BaseCorr3 constructors from the IR."""
import itertools, types
import z3
from engine.pysym import *
import engine.pysym as Y
import specs.pyobj as O
EXP, LOG = sym.UF['exp'], sym.UF['log']
PHI_UNIT, SEP_UNIT = z3.Real('phi_unit'), z3.Real('sep_unit')
LENS = {}
def sv(x): return SArr((), x)
def isS(x): return type(x) in (SArr, SView)
def rv(x): return RV(lift(x)) if not isb(lift(x)) else x
def axis_of(n):
    """an axis of the given (symbolic) length"""
    k = z3.simplify(RV(lift(n)))
    key = k.sexpr()
    if key not in LENS: LENS[key] = ('x%d' % len(LENS), k)
    return LENS[key][0]
def length(ax): return next(k for a, k in LENS.values() if a == ax.rstrip("'"))
class SMath:
    pi = math.pi
    def __getattr__(self, n):
        f = getattr(math, n)
        def g(*a):
            if not any(isS(x) for x in a): return f(*a)
            if n in ('log', 'exp', 'sqrt', 'sin', 'cos'): return sv(UN[n](lift(a[0])))
            if n == 'ceil': return sv(-z3.ToInt(-RV(lift(a[0]))))
            if n == 'floor': return sv(z3.ToInt(RV(lift(a[0]))))
            raise Unsupported('math.' + n)
        return g if callable(f) else f
def sfloat(x=0.): return sv(RV(lift(x))) if isS(x) else float(x)
def sint(x=0): return (x if z3.is_int(lift(x)) else sv(sym.trunc(lift(x)))) if isS(x) else int(x)
def smin(*a, **k):
    if not any(isS(x) for x in a): return min(*a, **k)
    r = a[0]
    for x in a[1:]: r = np.minimum(r, x)
    return r
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if endpoint or retstep: raise Unsupported('linspace with its end point')
    ax = axis_of(num); i = z3.ToReal(Y.axis(ax))
    return SArr((ax,), vadd(lift(start), vdiv(vmul(vsub(lift(stop), lift(start)), i), R(lift(num)))))
def meshgrid(x, y, indexing='xy'):
    if indexing != 'xy': raise Unsupported('meshgrid')
    a = x.axes[0]
    if y.axes[0] != a: raise Unsupported('meshgrid of different axes')
    return SArr((a + "'", a), x.v), SArr((a + "'", a), vsubst(y.v, [(axis(a), axis(a + "'"))]))
def tile(x, reps):
    if len(reps) != len(x.axes): raise Unsupported('tile')
    ax = []
    v = x.v; sub = []
    for a, r in zip(x.axes, reps):
        if a is None: a = axis_of(r); 
        elif not (isinstance(r, int) and r == 1): raise Unsupported('tile of a long axis')
        if a in ax:
            b = a + "'"
            if x.axes[len(ax)] is not None: sub.append((axis(a), axis(b)))
            a = b
        ax.append(a)
    return SArr(ax, vsubst(v, sub) if sub else v)
def concat(l, axis=0):
    if not any(isS(x) for x in l): return np.concatenate(l, axis=axis)
    n = z3.RealVal(0)
    for x in l: n = n + length(x.axes[0])
    ax = axis_of(sv(n)); i = Y.axis(ax); off = z3.RealVal(0); v = None
    parts = []
    for x in l:
        j = i - z3.ToInt(off)
        parts.append((off, RV(vsubst(x.v, [(Y.axis(x.axes[0]), j)])))); off = off + length(x.axes[0])
    v = parts[0][1]
    for o, w in parts[1:]: v = z3.If(z3.ToReal(i) >= o, w, v)
    return SArr((ax,), v)
def zeros(shape, dtype=float, **k):
    if not isinstance(shape, tuple): shape = (shape,)
    if not any(isS(x) for x in shape): return np.zeros(shape, dtype=dtype, **k)
    seen = []
    for x in shape:
        a = x.v.decl().name()[4:] if isS(x) and is_z(x.v) and z3.is_const(x.v) and str(x.v).startswith('len_') else axis_of(x)
        seen.append(a)
    return SArr(seen, Fraction(0) if dtype is not complex else Cx(0, 0))
def arange(lo, hi=None, step=1, dtype=None):
    if hi is None: lo, hi = 0, lo
    if not (isS(lo) or isS(hi)): return np.arange(lo, hi, step, dtype=dtype)
    ax = axis_of(hi - lo); return SArr((ax,), vadd(lift(lo), z3.ToReal(axis(ax))))
def slen(x):
    if isS(x):
        n = None
        for a in x.axes: n = length(a) if n is None else n * length(a)
        return sv(z3.ToInt(n)) if n is not None else 0
    return len(x)
class LNP(NPProxy):
    def __getattr__(self, n):
        d = dict(linspace=linspace, meshgrid=meshgrid, tile=tile, concatenate=concat, zeros=zeros, arange=arange, inf=sv(z3.Real('inf')), newaxis=None)
        return d[n] if n in d else NPProxy.__getattr__(self, n)
class Rev:
    """x[::-1]"""
_gi = SArr.__getitem__
def getitem(self, k):
    if isinstance(k, slice) and k.start is None and k.stop is None and k.step == -1 and len(self.axes) == 1:
        a = self.axes[0]; return SArr((a,), vsubst(self.v, [(axis(a), z3.ToInt(length(a)) - 1 - axis(a))]), readonly=True)
    return _gi(self, k)
class Log:
    name = 'x'
    def __getattr__(self, n): return lambda *a, **k: None
def setup():
    tc = load_treecorr()
    import treecorr.corr2base as B2, treecorr.corr3base as B3, treecorr.config as CF, treecorr.util as U
    for m in (B2, B3):
        m.__dict__.update(np=LNP(), math=SMath(), float=sfloat, int=sint, len=slen, max=symmax, min=smin, range=symrange)
        m.__dict__['merge_config'] = lambda config, kwargs, valid: dict(config or {}, **kwargs)       # contract: the merged, validated settings
    CF.parse_unit = lambda s: {'radians': 1., 'sep': sv(SEP_UNIT), 'phi': sv(PHI_UNIT)}[s]
    SArr.__getitem__ = getitem
    SArr.__float__ = lambda s: float('nan')                     # only reached by message formatting; a nan in a computation is rejected by lift()
    if not hasattr(SArr, '_shape0'): SArr._shape0 = SArr.shape
    return tc, B2, B3
def at(a, **ix):
    """value of an array at given indices, by position"""
    raise NotImplementedError
def val(a, *ix):
    v = a.v
    return RV(vsubst(v, [(axis(x), i if is_z(i) else z3.IntVal(i)) for x, i in zip(a.axes, ix)]))

GIVEN = {'min max size': ('min_sep', 'max_sep', 'bin_size'), 'min max n': ('min_sep', 'max_sep', 'nbins'), 'min n size': ('min_sep', 'nbins', 'bin_size'), 'max n size': ('max_sep', 'nbins', 'bin_size'),
         'max size': ('max_sep', 'bin_size'), 'max n': ('max_sep', 'nbins'), 'n size': ('nbins', 'bin_size')}
def given(keys, bt):
    g = {}
    for k in keys:
        v = z3.Int('g_' + k) if k == 'nbins' else z3.Real('g_' + k)
        g[k] = v
        state().assume(v >= 1 if k == 'nbins' else v > 0 if not (k == 'min_sep' and bt == 'Linear') else v >= 0)
    state().assume(SEP_UNIT > 0); state().assume(PHI_UNIT > 0)
    if 'min_sep' in g and 'max_sep' in g: state().assume(g['min_sep'] < g['max_sep'])
    elif bt == 'Linear' and 'max_sep' in g: state().assume(g['max_sep'] >= z3.ToReal(g['nbins']) * g['bin_size'])      # separations are not negative
    return g
def exp_lemmas(*sums):
    """exp of a sum is the product of the exponentials (true of the real function)"""
    out = []
    for parts in sums:
        s = z3.Sum(list(parts)); p = EXP(parts[0])
        for q in parts[1:]: p = p * EXP(q)
        out.append(EXP(z3.simplify(s)) == p); out.append(EXP(s) == p); out += [EXP(q) > 0 for q in parts]
    return out
def explog(x): return [z3.Implies(x > 0, z3.And(EXP(LOG(x)) == x, z3.Implies(x > 1, LOG(x) > 0)))]
def canon_exp(fs):
    """rewrites every exp(t) with t an arithmetic term into exp of its normal form, so that equal arguments are syntactically equal"""
    return fs

def p15_two(ctx, bt, gk, units, tp='KK'):
    def go():
        tc, B2, B3 = setup()
        g = given(GIVEN[gk], bt)
        cfg = {k: sv(v) for k, v in g.items()}
        cfg['bin_type'] = bt
        if units: cfg['sep_units'] = 'sep'
        slop = z3.Real('slop'); opt = state().branch(z3.Bool('slop given'))
        if opt: state().assume(slop >= 0); cfg['bin_slop'] = sv(slop)
        c = object.__new__(getattr(tc, tp + 'Correlation'))
        B2.Corr2.__init__(c, cfg, logger=Log())
        calls = []
        c.__class__ = type('X', (type(c),), dict(_builder=staticmethod(lambda *a: calls.append(a)), _letters='__'))
        c._xi1 = c._xi2 = c._xi3 = c._xi4 = np.array([])
        c.corr
        c.metric = 'Euclidean'; mm = c._get_minmax_size()
        return c, g, opt, slop, calls[0], mm
    U = SEP_UNIT if units else z3.RealVal(1)
    F = 'treecorr.corr2base:Corr2.__init__'; ctx.fns |= {F, 'treecorr.corr2base:Corr2.corr', 'treecorr.corr2base:Corr2._get_minmax_size'}
    n_ok = 0
    for j, (st, (kind, r)) in enumerate(run(go)):
        CUR[0] = st
        if kind == 'raise': ctx.undecided('set-up', 'raises %r' % (r,)); continue
        n_ok += 1
        c, g, opt, slop, call, mm = r
        mn, mx, bs, n = RV(lift(c.min_sep)), RV(lift(c.max_sep)), RV(lift(c.bin_size)), RV(lift(c.nbins))
        ni = z3.ToInt(n)
        pc = list(st.pc)
        P = lambda name, goal, extra=(): ctx.prove('path %d: %s' % (j, name), pc + list(extra), goal, fn=F)
        for k, v in dict(min_sep=mn, max_sep=mx, nbins=n, bin_size=bs).items():
            if k in g and not (k == 'bin_size' and 'nbins' not in g): P('%s is the given one' % k, v == RV(g[k]))
        L = {'Log': LOG(mx / mn), 'Linear': mx - mn, 'TwoD': 2 * mx}[bt]
        if bt == 'Log':
            pc += explog(mn) + explog(mx) + explog(mx / mn)
            if 'max_sep' not in g:      # max = exp(n*bs)*min
                pc += [LOG(mx / mn) == n * bs, z3.Implies(z3.And(n * bs > 0), EXP(n * bs) > 1)] if P('max_sep = min_sep exp(nbins bin_size)', mx == mn * EXP(n * bs)) else []
            elif 'min_sep' not in g:
                pc += [LOG(mx / mn) == n * bs, EXP(-(n * bs)) * EXP(n * bs) == 1, EXP(n * bs) > 0] if P('min_sep = max_sep exp(-nbins bin_size)', mn == mx * EXP(-(n * bs))) else []
            pc += [LOG(mx / mn) > 0]
        P('nbins bin_size spans the range exactly', n * bs == L)
        P('there is at least one bin', n >= 1)
        if 'nbins' not in g:
            g0 = g['bin_size']
            P('the bins are not wider than asked', bs <= g0)
            P('there are no more bins than needed', (n - 1) * g0 < L)
        pc += [n * bs == L, n >= 1, bs > 0]
        i = z3.Int('i'); ir = z3.ToReal(i)
        pc += [i >= 0, ir < n]
        h = bs / 2
        if bt == 'Log':
            lr = lambda k: val(c.logr, k); rn = lambda k: val(c.rnom, k); le = lambda k: val(c.left_edges, k); re = lambda k: val(c.right_edges, k)
            P('logr is the centre of its bin', lr(i) == LOG(mn) + (ir + z3.Q(1, 2)) * bs)
            P('rnom is the exponential of logr', rn(i) == EXP(lr(i)), [])
            hb = None
            # edges: rnom / exp(h), rnom * exp(h)
            P('left edge', le(i) * EXP(z3.simplify(RV(vmul(Fraction(1, 2), lift(c.bin_size))))) == rn(i), [EXP(z3.simplify(RV(vmul(Fraction(1, 2), lift(c.bin_size))))) > 0])
            E = lambda t: z3.Function('E', z3.RealSort(), z3.RealSort())(t)
            # abstraction: log r is linear in the index, hence exp(logr(i) -+ h) are the edges of P02
            P('right edge', re(i) == rn(i) * EXP(z3.simplify(RV(vmul(Fraction(1, 2), lift(c.bin_size))))))
            P('bins tile: the right edge of a bin is the left edge of the next, in log r', lr(i) + h == lr(i + 1) - h)
            P('the first bin starts at min_sep, in log r', lr(z3.IntVal(0)) - h == LOG(mn))
            P('the last bin ends at max_sep, in log r', lr(ni - 1) + h == LOG(mn) + L)
        elif bt == 'Linear':
            rn = lambda k: val(c.rnom, k); le = lambda k: val(c.left_edges, k); re = lambda k: val(c.right_edges, k)
            P('rnom is the centre of its bin', rn(i) == mn + (ir + z3.Q(1, 2)) * bs)
            P('left edge', le(i) == mn + ir * bs); P('right edge', re(i) == mn + (ir + 1) * bs)
            P('the last bin ends at max_sep', re(ni - 1) == mx); P('the first bin starts at min_sep', le(z3.IntVal(0)) == mn)
            P('logr is the logarithm of the centre', val(c.logr, i) == LOG(rn(i)))
        else:
            k = z3.Int('k'); kr = z3.ToReal(k); pc += [k >= 0, kr < n]
            for nm, v in (('left_edges', -mx + ir * bs), ('right_edges', -mx + (ir + 1) * bs), ('bottom_edges', -mx + kr * bs), ('top_edges', -mx + (kr + 1) * bs),
                          ('dxnom', -mx + (ir + z3.Q(1, 2)) * bs), ('dynom', -mx + (kr + z3.Q(1, 2)) * bs)):
                P(nm, val(getattr(c, nm), k, i) == v)
            dx, dy = -mx + (ir + z3.Q(1, 2)) * bs, -mx + (kr + z3.Q(1, 2)) * bs
            rn = val(c.rnom, k, i)
            P('rnom is the length of the centre', rn == sym.SQRT(val(c.dxnom, k, i) * val(c.dxnom, k, i) + val(c.dynom, k, i) * val(c.dynom, k, i)))
            P('the last bin ends at max_sep', val(c.right_edges, k, ni - 1) == mx)
            lg = val(c.logr, k, i)
            P('logr', z3.If(rn == 0, lg == -z3.Real('inf'), z3.Implies(rn > 0, lg == LOG(rn))))
        # what the compiled code gets
        nb = n * n if bt == 'TwoD' else n
        names = ['_bintype', '_min_sep', '_max_sep', '_nbins', '_bin_size', 'b', 'angle_slop', 'min_rpar', 'max_rpar', 'xperiod', 'yperiod', 'zperiod']
        ctx.record('path %d: compiled object gets its 12 parameters and 8 arrays' % j, len(call) == 20 and all(x is y for x, y in zip(call[12:], (c._xi1, c._xi2, c._xi3, c._xi4, c.meanr, c.meanlogr, c.weight, c.npairs))), fn='treecorr.corr2base:Corr2.corr')
        import treecorr._treecorr as X
        ctx.record('path %d: bin type' % j, call[0] is getattr(X, bt), fn=F)
        a = [None] + [RV(lift(x)) for x in call[1:12]]
        P('compiled minimum separation, natural units', a[1] == mn * U); P('compiled maximum separation, natural units', a[2] == mx * U)
        P('compiled number of bins', a[3] == nb)
        P('compiled bin size, natural units', a[4] == (bs if bt == 'Log' else bs * U))
        sl = RV(lift(c.bin_slop))
        if opt: P('bin_slop is the given one', sl == slop)
        else:
            P('default bin_slop is at most one', z3.And(sl <= 1, sl >= 0))
            P('default bin_slop keeps the error below ten percent', {'Log': bs * sl, 'Linear': bs * sl / (mn + bs / 2), 'TwoD': sl}[bt] <= z3.Q(1, 10))
        P('compiled slop is bin_slop bins, natural units', a[5] == sl * a[4])
        for q, nm in enumerate(names[6:], 6): P('compiled ' + nm, a[q] == RV(lift(getattr(c, nm))))
        # cells not divided further are single-bin for every range separation
        ms = RV(lift(mm[0])); b, asl = a[5], a[6]; lo = mn * U
        hy = [asl >= 0, sl >= 0, lo >= 0]
        P('cells below the minimum size never need splitting', z3.And(ms >= 0, 2 * ms <= asl * (lo - 2 * ms) , (2 * ms <= b * (lo - 2 * ms)) if bt == 'Log' else (2 * ms <= b)), hy)
        for nm in ('meanr', 'meanlogr', 'weight', 'npairs'):
            v = getattr(c, nm); ctx.record('path %d: %s starts at zero in every bin' % (j, nm), v.axes == c.rnom.axes and v.v == 0, fn=F)
    ctx.record('the set-up succeeds', n_ok > 0, fn=F)

RGIVEN = {k: v for k, v in GIVEN.items() if k.startswith('min ') or k == 'max n size'}
def rng_given(ctx, P, nm, keys, g, mn, mx, s, n, hi, default, unit):
    """one of the shape ranges (u, |v|, phi): keys of the given ones among min, max, size, n"""
    G = {k: (RV(g[k]) * (unit if k in ('min', 'max') else 1)) for k in keys}
    P('%s range stays inside [0, %s]' % (nm, hi), z3.And(mn >= 0, mx <= RV(hi), mn < mx))
    P('%s bins span the range exactly' % nm, z3.And(n * s == mx - mn, n >= 1))
    s0 = G.get('size', default)
    if 'n' in G: P('%s: number of bins is the given one' % nm, n == G['n'])
    else:
        P('%s: bins are not wider than asked' % nm, n * s0 >= mx - mn - z3.RealVal('1e-10'))
        P('%s: no more bins than needed' % nm, (n - 1) * s0 < mx - mn)
    implicit = 'n' in G and 'size' in G
    if 'min' in G: P('%s: minimum is the given one' % nm, mn == G['min'])
    elif not implicit: P('%s: default minimum' % nm, mn == 0)
    if 'max' in G: P('%s: maximum is the given one' % nm, mx == G['max'])
    elif not implicit: P('%s: default maximum' % nm, mx == RV(hi))
    if implicit: P('%s: bins have the given size when they fit' % nm, z3.Or(s == G['size'], z3.And(s < G['size'], z3.Or(mn == 0, mx == RV(hi)))))

SHAPES = [c for r in (0, 1, 2, 3) for c in itertools.combinations(('min', 'max', 'size', 'n'), r)]
def p15_three(ctx, bt, gk, sk, units, tp='KKK'):
    """bt: bin type, gk: given separation parameters, sk: given shape parameters"""
    PI = lift(np.pi)
    def go():
        tc, B2, B3 = setup()
        g = given(GIVEN[gk], bt)
        cfg = {k: sv(v) for k, v in g.items()}; cfg['bin_type'] = bt
        if units: cfg['sep_units'] = 'sep'
        sg = {}
        def shape(pre, names, hi, unit):
            d = {}
            for k in sk:
                v = d[k] = z3.Int('g_%sn' % pre) if k == 'n' else z3.Real('g_%s%s' % (pre, k))
                state().assume(v >= 1 if k == 'n' else v > 0 if k in ('size', 'max') else v >= 0)
                cfg[names[k]] = sv(v)
            mn, mx = d.get('min', 0), d.get('max', RV(hi) / unit)
            state().assume(z3.And((mx - mn) * unit > z3.RealVal('1e-10'), mx * unit <= RV(hi)))
            sg[pre] = d
        V = z3.RealVal(1)
        if bt == 'LogRUV':
            for q in 'uv': shape(q, dict(min='min_' + q, max='max_' + q, size=q + 'bin_size', n='n%sbins' % q), Fraction(1), V)
        elif bt == 'LogSAS':
            if units: cfg['phi_units'] = 'phi'; V = PHI_UNIT
            shape('p', dict(min='min_phi', max='max_phi', size='phi_bin_size', n='nphi_bins'), PI, V)
        else: state().assume(z3.Int('g_maxn') >= 0); cfg['max_n'] = sv(z3.Int('g_maxn'))
        slop = z3.Real('slop'); opt = state().branch(z3.Bool('slop given'))
        if opt: state().assume(slop >= 0); cfg['bin_slop'] = sv(slop)
        c = object.__new__(getattr(tc, tp + 'Correlation'))
        B3.Corr3.__init__(c, cfg, logger=Log())
        calls = []
        c.__class__ = type('X', (type(c),), dict(_builder=staticmethod(lambda *a: calls.append(a)), _letters='___'))
        for i in range(1, 9): c.__dict__['_z%d' % i] = np.array([i])
        c.corr
        return c, g, sg, opt, slop, calls[0]
    U = SEP_UNIT if units else z3.RealVal(1); V = PHI_UNIT if units else z3.RealVal(1)
    F = 'treecorr.corr3base:Corr3.__init__'; ctx.fns |= {F, 'treecorr.corr3base:Corr3.corr'}
    n_ok = 0
    for j, (st, (kind, r)) in enumerate(run(go)):
        CUR[0] = st
        if kind == 'raise': ctx.record('path %d: a valid set of parameters is accepted' % j, False, fn=F, note='raises %r' % (r,)); continue
        n_ok += 1
        c, g, sg, opt, slop, call = r
        mn, mx, bs, n = RV(lift(c.min_sep)), RV(lift(c.max_sep)), RV(lift(c.bin_size)), RV(lift(c.nbins))
        pc = list(st.pc)
        P = lambda name, goal, extra=(): ctx.prove('path %d: %s' % (j, name), pc + list(extra), goal, fn=F)
        for k, v in dict(min_sep=mn, max_sep=mx, nbins=n, bin_size=bs).items():
            if k in g and not (k == 'bin_size' and 'nbins' not in g): P('%s is the given one' % k, v == RV(g[k]))
        pc += explog(mn) + explog(mx) + explog(mx / mn)
        if 'max_sep' not in g:
            if P('max_sep = min_sep exp(nbins bin_size)', mx == mn * EXP(n * bs)): pc += [LOG(mx / mn) == n * bs, z3.Implies(n * bs > 0, EXP(n * bs) > 1)]
        elif 'min_sep' not in g:
            if P('min_sep = max_sep exp(-nbins bin_size)', mn == mx * EXP(-(n * bs))): pc += [LOG(mx / mn) == n * bs, EXP(-(n * bs)) * EXP(n * bs) == 1, EXP(n * bs) > 0]
        L = LOG(mx / mn); pc += [L > 0]
        P('nbins bin_size spans the range exactly', n * bs == L); P('there is at least one bin', n >= 1)
        nominal = RV(g['bin_size']) if 'bin_size' in g else bs
        if 'nbins' not in g: P('the bins are not wider than asked', bs <= nominal); P('there are no more bins than needed', (n - 1) * nominal < L)
        pc += [n * bs == L, n >= 1, bs > 0]
        i, k2, l = z3.Int('i'), z3.Int('k'), z3.Int('l'); half = z3.Q(1, 2)
        pc += [i >= 0, z3.ToReal(i) < n, k2 >= 0, l >= 0]
        cen = lambda lo, s, q: lo + (z3.ToReal(q) + half) * s
        lr = lambda q: cen(LOG(mn), bs, q)
        P('logr1d is the centre of its bin', val(c.logr1d, i) == lr(i)); P('rnom1d', val(c.rnom1d, i) == EXP(val(c.logr1d, i)))
        P('the last bin ends at max_sep, in log r', lr(z3.ToInt(n) - 1) + bs / 2 == LOG(mn) + L)
        ro = c._ro
        us, vs, nu, nv = [RV(lift(x)) for x in (ro.ubin_size, ro.vbin_size, ro.nubins, ro.nvbins)]
        sl = RV(lift(c.bin_slop)); b, bu, bv = [RV(lift(x)) for x in (c.b, c.bu, c.bv)]
        if bt == 'LogRUV':
            for q, (lo, hi, s, m) in dict(u=(ro.min_u, ro.max_u, us, nu), v=(ro.min_v, ro.max_v, vs, nv)).items():
                rng_given(ctx, P, q, sk, sg[q], RV(lift(lo)), RV(lift(hi)), s, m, Fraction(1), nominal, z3.RealVal(1))
            mu, mv = RV(lift(ro.min_u)), RV(lift(ro.min_v))
            pc += [nu >= 1, nv >= 1, z3.ToReal(k2) < nu, z3.ToReal(l) < 2 * nv]
            P('u1d', val(c.u1d, k2) == cen(mu, us, k2))
            vi = z3.ToInt(nv)
            vw = z3.If(z3.ToReal(l) < nv, -cen(mv, vs, vi - 1 - l), cen(mv, vs, l - vi))
            P('v1d runs from the most negative to the most positive value', val(c.v1d, l) == vw)
            for nm, w in (('logr', lr(i)), ('u', cen(mu, us, k2)), ('v', vw), ('rnom', EXP(val(c.logr, i, k2, l)))): P(nm, val(getattr(c, nm), i, k2, l) == w)
            shape = [n, nu, 2 * nv]; grid = c.logr
        elif bt == 'LogSAS':
            rng_given(ctx, P, 'phi', sk, sg['p'], RV(lift(ro.min_u)), RV(lift(ro.max_u)), us, nu, PI, nominal, V)
            mu = RV(lift(ro.min_u)); pc += [nu >= 1, z3.ToReal(k2) < n, z3.ToReal(l) < nu]
            P('phi1d', val(c.phi1d, l) == cen(mu, us, l))
            for nm, w in (('logd2', lr(i)), ('logd3', lr(k2)), ('phi', cen(mu, us, l)), ('d2nom', EXP(val(c.logd2, i, k2, l))), ('d3nom', EXP(val(c.logd3, i, k2, l)))): P(nm, val(getattr(c, nm), i, k2, l) == w)
            shape = [n, n, nu]; grid = c.logd2
        else:
            mxn = z3.ToReal(z3.Int('g_maxn')); P('max_n is the given one', nu == mxn); pc += [z3.ToReal(k2) < n, z3.ToReal(l) < 2 * mxn + 1]
            for nm, w in (('logd2', lr(i)), ('logd3', lr(k2)), ('n', z3.ToReal(l) - mxn), ('d2nom', EXP(val(c.logd2, i, k2, l))), ('d3nom', EXP(val(c.logd3, i, k2, l)))): P(nm, val(getattr(c, nm), i, k2, l) == w)
            shape = [n, n, 2 * mxn + 1]; grid = c.logd2
        for q in range(3): P('extent of axis %d' % q, length(grid.axes[q]) == shape[q])
        P('number of bins', RV(lift(ro._nbins)) == shape[0] * shape[1] * shape[2], [z3.ToReal(z3.ToInt(shape[0] * shape[1] * shape[2])) == shape[0] * shape[1] * shape[2]])
        accs = ['meand1', 'meanlogd1', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3', 'meanu', 'meanv', 'weightr', 'ntri'] + (['weighti'] if bt == 'LogMultipole' else [])
        for nm in accs:
            a = getattr(c, nm); ctx.record('path %d: %s starts at zero in every bin' % (j, nm), type(a) is SArr and a.axes == grid.axes and a.v == 0, fn=F)
        # slop
        if opt:
            P('bin_slop is the given one', sl == slop)
            P('slop in r', b == bs * slop); P('slop in the shape', z3.And(bu == (us * slop if bt != 'LogMultipole' else 0), bv == (vs * slop if bt == 'LogRUV' else 0)))
        else:
            m10 = lambda x: z3.If(x <= z3.Q(1, 10), x, z3.Q(1, 10))
            P('default slop in r', z3.And(b == m10(bs), sl * bs == b)); P('default slop in the shape', z3.And(bu == (m10(us) if bt != 'LogMultipole' else 0), bv == (m10(vs) if bt == 'LogRUV' else 0)))
        # what the compiled code gets
        arrs = ['_z%d' % q for q in range(1, 9)] + ['meand1', 'meanlogd1', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3', 'meanu', 'meanv', 'weightr', 'weighti', 'ntri']
        ctx.record('path %d: compiled object gets its parameters and arrays in order' % j, len(call) == 39 and all(x is getattr(c, y) for x, y in zip(call[20:], arrs)), fn='treecorr.corr3base:Corr3.corr')
        import treecorr._treecorr as X
        ctx.record('path %d: bin type' % j, call[0] is getattr(X, bt), fn=F)
        want = [mn * U, mx * U, n, bs, b, c.angle_slop, ro.min_u, ro.max_u, nu, us, bu, ro.min_v, ro.max_v, nv, vs, bv, c.xperiod, c.yperiod, c.zperiod]
        for q, w in enumerate(want, 1): P('compiled parameter %d' % q, RV(lift(call[q])) == RV(lift(w)))
    ctx.record('the set-up succeeds', n_ok > 0, fn=F)

def p15_cxx(ctx, p):
    """the constructors of the compiled objects: every derived member is what its name says (the invariants assumed by P01-P03, P11-P13)"""
    from engine.cxx.interp import Program, Engine, explore, Rec
    P = Program(*p)
    def mk(f, binid):
        st_args = {}
        def go(st):
            E = Engine(P, st=st)
            a = {}
            for q in f['params']:
                t = q['t']
                a[q['name']] = binid if t == 'BinType' or 'BinType' in t else z3.Int(q['name']) if t == 'int' else z3.Real(q['name'])
            r = Rec(f['name'].split('::')[0], 'this')
            E.run(f, r, [a[q['name']] for q in f['params']])
            ctx.fns |= E.used
            return r, a
        return go
    for name, bins in (('BaseCorr2::BaseCorr2', (0, 1, 2)), ('BaseCorr3::BaseCorr3', (3, 4, 5))):
        f = [g for g in P.find('^%s$' % name) if len(g['params']) > 1]
        if len(f) != 1: ctx.undecided(name, '%d functions' % len(f)); continue
        f = f[0]
        for bid in bins:
            for j, (st, (r, a)) in enumerate(explore(mk(f, bid), [z3.Real('minsep') > 0, z3.Real('maxsep') > z3.Real('minsep')])):
                g = r.f; A = lambda n: RV(a[n])
                pr = lambda nm, e: ctx.prove('%s bin type %d path %d: %s' % (name, bid, j, nm), st.pc, RV(g[nm]) == e, fn=name) if nm in g else ctx.undecided('%s %s' % (name, nm), 'no such member')
                ctx.record('%s bin type %d: bin type' % (name, bid), g['_bin_type'] == bid, fn=name)
                same_ = ['minsep', 'maxsep', 'nbins', 'binsize', 'b', 'a', 'xp', 'yp', 'zp']
                same_ += ['minrpar', 'maxrpar'] if bid < 3 else ['minu', 'maxu', 'nubins', 'ubinsize', 'bu', 'vbinsize', 'bv'] + (['minv', 'maxv'] if bid != 4 else []) + (['nvbins'] if bid != 5 else [])
                for m in same_: pr('_' + m, A(m))
                pr('_logminsep', LOG(A('minsep'))); pr('_halfminsep', A('minsep') / 2); pr('_minsepsq', A('minsep') * A('minsep')); pr('_maxsepsq', A('maxsep') * A('maxsep'))
                pr('_bsq', A('b') * A('b')); pr('_asq', A('a') * A('a'))
                if bid < 3:
                    full = A('maxsep') if bid != 2 else A('maxsep') * RV(sym.sqrt(Fraction(2)))
                    pr('_fullmaxsep', full); pr('_fullmaxsepsq', full * full)
                else:
                    pr('_busq', A('bu') * A('bu')); pr('_bvsq', A('bv') * A('bv')); pr('_minusq', A('minu') * A('minu')); pr('_maxusq', A('maxu') * A('maxu'))
                    if bid == 3: pr('_ntot', A('nbins') * A('nubins') * A('nvbins') * 2)
                    if bid == 4: pr('_ntot', A('nbins') * A('nbins') * A('nubins'))
                    if bid == 5: pr('_ntot', A('nbins') * A('nbins') * (2 * A('nubins') + 1)); pr('_nvbins', A('nbins') * (2 * A('nubins') + 1))
                    if bid != 4: pr('_minvsq', A('minv') * A('minv')); pr('_maxvsq', A('maxv') * A('maxv'))
                    else:
                        c1, c2 = sym.UF['cos'](A('minu')), sym.UF['cos'](A('maxu')); in_ = [A('minu') >= 0, A('maxu') <= RV(Fraction(math.pi)), A('minu') < A('maxu'), c1 > c2]
                        for nm, e in (('_maxv', c1), ('_minv', c2), ('_maxvsq', z3.If(c1 < 0, -c1 * c1, c1 * c1)), ('_minvsq', z3.If(c2 < 0, -c2 * c2, c2 * c2))):
                            ctx.prove('%s LogSAS path %d: %s' % (name, j, nm), st.pc + in_, RV(g[nm]) == e, fn=name)
