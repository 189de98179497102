"""Contracts and verification conditions for the two-point tree search (Corr2.cpp, BinType.h, Split.h, Metric.h).
Used by P01 (no in-range pair discarded), P02 (bin assignment) and P03 (traversal)."""
import re, itertools, collections
import z3
from engine.cxx.interp import *
from engine.sym import *
import engine.sym as sym

Rl, It, Bl = z3.Real, z3.Int, z3.Bool
METRICS = {1: 'Euclidean', 2: 'Rperp', 3: 'Rlens', 4: 'Arc', 5: 'OldRperp', 6: 'Periodic'}
BINS = {0: 'Log', 1: 'Linear', 2: 'TwoD'}
LOG, LINEAR, TWOD = 0, 1, 2
_prog = {}
def prog(paths):
    k = tuple(paths)
    if k not in _prog: _prog[k] = Program(*paths)
    return _prog[k]

def metric_ids(P):
    """enum values read from the code (never assumed)"""
    return P

def insts(P, name):
    """(args tuple, function) for each instantiation name<...>"""
    out = []
    for f in P.find(r'^%s<' % re.escape(name)):
        m = re.match(r'.*<([^<>]*)>$', f['name'])
        out.append((tuple(int(x) for x in m.group(1).split(',')), f))
    return sorted(out, key=lambda t: t[0])

def corr2_this(name='this', rec='BaseCorr2'):
    return Rec(rec, name, True)
def F(o, m): return Rl('%s.%s' % (o, m))

def layout_inv(o='this', B=LOG):
    """class invariant of BaseCorr2 (established by the constructor: see ctor obligations; and by P15 on the Python side)"""
    mn, mx, bs, b, a = (F(o, x) for x in ('_minsep', '_maxsep', '_binsize', '_b', '_a'))
    n = It(o + '._nbins')
    inv = [F(o, '_minsepsq') == mn * mn, F(o, '_maxsepsq') == mx * mx, F(o, '_halfminsep') * 2 == mn,
           F(o, '_bsq') == b * b, F(o, '_asq') == a * a, b >= 0, a > 0, bs > 0, n >= 1, mx > mn]
    if B == TWOD: inv += [mn >= 0, mx > 0, 2 * mx == z3.ToReal(SIDE) * bs, SIDE >= 1, n == SIDE * SIDE]
    else: inv += [mn > 0]
    if B == LINEAR: inv += [mx == mn + z3.ToReal(n) * bs]
    return inv

SIDE = z3.Int('side')
class T2:
    extra = []          # further contracts used by a composition

def run_process11(P, f, B, C, extra=(), direct_real=False, feas_ms=60):
    """explore BaseCorr2::process11<B,M,P,R,C>; returns list of (state, events)"""
    cellrec = 'BaseCell<%d>' % C
    used = set(); usedc = set()
    d = Rl('d')                       # centre separation (metric distance), rsq = d*d
    def go(st):
        E = Engine(P, st=st)
        def distsq(E, e, obj, a):
            # contract of DistSq: returns the squared distance of the two centres and may enlarge the sizes
            for loc, nm in ((a[2], 's1'), (a[3], 's2')):
                old = loc.get(); new = Rl(nm + 'm')
                E.st.assume(z3.And(new >= 0, (new == 0) == (RV(old) == 0)))
                loc.set(new)
            return d * d
        def outside(E, e, obj, a):
            # contract: true only when no pair inside can be in the rpar range; sets rpar
            a[3].set(Rl('rpar'))
            r = Bl('rparOutside'); E.st.ghost['outside_s'] = a[2]
            E.st.assume(z3.Implies(r, z3.Not(Bl('rparInRange'))))
            return r
        def inside(E, e, obj, a):
            r = Bl('rparInside')
            E.st.assume(z3.Implies(r, Bl('rparInRange')))
            E.st.assume(z3.Implies(z3.And(RV(a[2]) == 0, z3.Not(Bl('rparOutside'))), r))
            return r
        E.contracts = [(re.compile(r'^MetricHelper<.*>::DistSq$'), distsq),
            (re.compile(r'^MetricHelper<.*>::isRParOutsideRange$'), outside),
            (re.compile(r'^MetricHelper<.*>::isRParInsideRange$'), inside),
            (re.compile(r'^MetricHelper<.*>::too(Small|Large)Dist$'), lambda E, e, o, a: E.st.new('metricSaysSo', 'B')),
            (re.compile(r'^BaseCorr2::process11<'), lambda E, e, o, a: E.st.events.append(('p11', E.contract_args(e), a[0].get(), a[1].get()))),
            (re.compile(r'^BaseCorr2::finishProcess$|::doFinishProcess$|^BaseCorr2::finishProcess<'), lambda E, e, o, a: E.st.events.append(('fin', a)))]
        E.contracts = list(T2.extra) + E.contracts
        if not direct_real:
            E.contracts.append((re.compile(r'^BaseCorr2::directProcess11<'), lambda E, e, o, a: E.st.events.append(('direct', E.contract_args(e), a[0].get(), a[1].get(), a[2:]))))
        this = corr2_this()
        c1, c2 = Rec(cellrec, 'c1', True), Rec(cellrec, 'c2', True)
        st.ghost['cells'] = (c1, c2)
        E.run(f, this, [TempLoc(c1), TempLoc(c2), TempLoc(Rec('MetricHelper', 'metric', True))])
        used.update(E.used); usedc.update(E.usedc)
        return list(st.events)
    base = [d >= 0, Rl('c1._size') >= 0, Rl('c2._size') >= 0] + list(extra)
    base += cell_inv('c1') + cell_inv('c2')
    ps = explore(go, base, feas_ms=feas_ms)
    return ps, base, used, usedc

def cell_inv(c):
    """class invariant of BaseCell (established by BuildCell, see P08): a cell of positive size has two children"""
    return [Rl(c + '._size') >= 0, z3.Implies(Rl(c + '._size') > 0, z3.And(z3.Not(Bl(c + '._left.null')), z3.Not(Bl(c + '._right.null'))))]

def contract_args(self, e):
    m = re.match(r'.*<([^<>]*)>$', e['name'])
    return tuple(int(x) for x in m.group(1).split(',')) if m else ()
Engine.contract_args = contract_args

def dev(s): return s
def ghost_pair(B, o='this'):
    """an arbitrary pair of objects q1 in c1, q2 in c2; rs = its separation.  Returns (hyps, in_range(pair), in_range(centres))"""
    d, rs, s1, s2 = Rl('d'), Rl('rs'), Rl('s1m'), Rl('s2m')
    mn, mx = F(o, '_minsep'), F(o, '_maxsep')
    hy = [rs >= 0, rs - d <= s1 + s2, d - rs <= s1 + s2]
    rng, crng = z3.And(rs >= mn, rs < mx), z3.And(d >= mn, d < mx)
    if B == TWOD:
        X, Y = Rl('X'), Rl('Y')
        hy += [rs * rs == X * X + Y * Y]
        rng = z3.And(rs >= mn, rs > 0, X < mx, -X < mx, Y < mx, -Y < mx)
        dx, dy = Rl('c2._data._pos._x') - Rl('c1._data._pos._x'), Rl('c2._data._pos._y') - Rl('c1._data._pos._y')
        e2 = (X - dx) * (X - dx) + (Y - dy) * (Y - dy)
        S = s1 + s2
        # e2 <= S^2 is split into its two consequences used below (lemma 'components')
        hy += [d * d == dx * dx + dy * dy, X - dx <= S, dx - X <= S, Y - dy <= S, dy - Y <= S]
        crng = z3.And(d >= mn, d > 0, dx < mx, -dx < mx, dy < mx, -dy < mx)
    return hy, rng, crng

LOGMAX = z3.RealVal('0.68')
def log_lemma(x, y):
    """trusted real analysis: log t <= t-1 (strict unless t=1); log(1-u) >= -u-u^2 for 0<=u<=0.68"""
    L = sym.UF['log']
    u = (y - x) / y
    return [z3.Implies(z3.And(x > 0, y > 0), z3.And((L(x) - L(y)) * y <= x - y, z3.Implies(x != y, (L(x) - L(y)) * y < x - y))),
            z3.Implies(z3.And(y > 0, x <= y, x >= y * (1 - LOGMAX)), (L(x) - L(y)) * y * y >= -(y - x) * y - (y - x) * (y - x))]

def within_slop(B, o='this'):
    d, s = Rl('d'), Rl('s1m') + Rl('s2m')
    b, bs = F(o, '_b'), F(o, '_binsize')
    return s <= (bs / 2 + b) * d if B == LOG else s <= bs / 2 + b

def loghyps(B, o='this'):
    if B != LOG: return []
    L = sym.UF['log']
    d, rs, mn, mx = Rl('d'), Rl('rs'), F(o, '_minsep'), F(o, '_maxsep')
    return log_lemma(rs, d) + [F(o, '_logminsep') == L(mn), L(mx) == L(mn) + z3.ToReal(It(o + '._nbins')) * F(o, '_binsize'),
        z3.Implies(rs > 0, z3.And((rs < mn) == (L(rs) < L(mn)), (rs < mx) == (L(rs) < L(mx)))), L(d * d) == 2 * L(d), F(o, '_a') <= LOGMAX]

# ---------------------------------------------------------------- P01
def p01_process11(ctx, paths, targs):
    P = prog(paths)
    f = dict(insts(P, 'BaseCorr2::process11'))[targs]
    B, M, Pp, R, C = targs
    inv = layout_inv('this', B)
    ps, base, used, usedc = run_process11(P, f, B, C, inv)
    ctx.fns |= used; ctx.assumed |= {re.sub(r'<.*>', '<>', x) for x in usedc}
    hy, rng, crng = ghost_pair(B)
    w = [Rl('c1._data._w') != 0, Rl('c2._data._w') != 0, Bl('rparInRange')]
    ctx.sat('process11 precondition', base + hy + [rng] + w)
    n = 0
    b = F('this', '_b')
    for st, ev in ps:
        if ev: continue
        n += 1
        pc = base + st.pc + hy + w
        goal = z3.And(b > 0, z3.Not(crng), within_slop(B))
        if B != TWOD:
            ctx.prove('silent return %d: no in-range pair lost' % n, pc + [rng] + loghyps(B), goal, fn=f['name'])
            continue
        cs = [z3.Not(c) for c in crng.children()]
        v = ctx.try_prove(pc + [rng], goal)
        if v.status == 'proved': ctx.add('silent return %d: no in-range pair lost' % n, v, f['name']); continue
        ctx.prove('silent return %d: centres in range' % n, pc + [rng, crng], goal, fn=f['name'])
        for j, c in enumerate(cs):
            X, Y, d = Rl('X'), Rl('Y'), Rl('d')
            ctx.prove('silent return %d: no in-range pair lost, case %d' % (n, j), pc + [rng, c], goal, fn=f['name'])
    ctx.record('rejection paths exist', n > 0, fn=f['name'])

# ---------------------------------------------------------------- P02
def p02_process11(ctx, paths, targs):
    """bin_slop = 0: whatever is accumulated as a unit lies, pair by pair, in the recorded bin, which exists"""
    P = prog(paths)
    f = dict(insts(P, 'BaseCorr2::process11'))[targs]
    B, M, Pp, R, C = targs
    inv = layout_inv('this', B) + [F('this', '_b') == 0]
    ps, base, used, usedc = run_process11(P, f, B, C, inv, direct_real=True)
    ctx.fns |= used; ctx.assumed |= {re.sub(r'<.*>', '<>', x) for x in usedc}
    hy, rng, crng = ghost_pair(B)
    ctx.sat('process11 precondition (bin_slop=0)', base + hy + [rng])
    nb, bs, mn, mx = It('this._nbins'), F('this', '_binsize'), F('this', '_minsep'), F('this', '_maxsep')
    d, rs, L = Rl('d'), Rl('rs'), sym.UF['log']
    n = 0
    for st, ev in ps:
        fins = [e for e in ev if e[0] == 'fin']
        if not fins:
            continue
        n += 1
        ctx.record('path %d: one accumulation' % n, len(ev) == 1, fn=f['name'], note=str(ev)[:300])
        a = fins[0][1]          # c1, c2, rsq, r, logr, k, k2
        rsq, r, logr, k, k2 = [x.get() if isinstance(x, Loc) else x for x in a[2:7]]
        c1, c2 = a[0].get() if isinstance(a[0], Loc) else a[0], a[1].get() if isinstance(a[1], Loc) else a[1]
        ctx.record('path %d: the same two cells are accumulated, in order' % n, (c1, c2) == st.ghost['cells'], fn=f['name'])
        pc = base + st.pc
        N = f['name']
        lh = loghyps(B)
        ctx.prove('path %d: rsq and r are the centre separation' % n, pc, z3.And(RV(rsq) == d * d, RV(r) == d), fn=N)
        if B == LOG: ctx.prove('path %d: logr' % n, pc + lh, RV(logr) == L(d), fn=N)
        ctx.prove('path %d: range' % n, pc, z3.And(crng), fn=N) if B != TWOD else [ctx.prove('path %d: range %d' % (n, j), pc, c, fn=N) for j, c in enumerate(crng.children())]
        kk = IV(k)
        ctx.prove('path %d: recorded bin exists' % n, pc + lh, z3.And(kk >= 0, kk < nb), fn=N)
        t = (L(rs) - F('this', '_logminsep')) if B == LOG else rs - mn
        pos = [rs > 0] if B == LOG else []
        # a pair of zero separation has no bin; at centre separation > 0 and single-bin it cannot exist
        if B == LOG: ctx.prove('path %d: pair separation positive' % n, pc + hy + lh, rs > 0, fn=N)
        ctx.prove('path %d: bin lower edge <= pair' % n, pc + hy + lh + pos, z3.ToReal(kk) * bs <= t, fn=N)
        ctx.prove('path %d: pair < bin upper edge' % n, pc + hy + lh + pos, t < z3.ToReal(kk + 1) * bs, fn=N)
    ctx.record('accumulation paths exist', n > 0, fn=f['name'])


def named_args(f, *dicts, **kw):
    kw = dict(kw, **{k: v for d in dicts for k, v in d.items()})
    """argument list for f by parameter name (a renamed parameter makes the obligation undecided, not refuted)"""
    out = []
    for p in f['params']:
        if p['name'] not in kw: raise Unsupported('parameter %s of %s' % (p['name'], f['name']))
        v = kw[p['name']]
        out.append(TempLoc(v) if p['isref'] and not isinstance(v, Loc) else v)
    return out
def pos(name, C=1): return Rec('Position<%d>' % C, name, True)

def twod_floor(v, i):
    """i is the bin index of component v"""
    mx, bs = F('this', '_maxsep'), F('this', '_binsize')
    return z3.And(z3.ToReal(i) * bs <= v + mx, v + mx < z3.ToReal(i + 1) * bs)

def twod_hyps():
    return layout_inv('this', TWOD) + [F('this', '_b') == 0]
def common_args():
    t = lambda m: F('this', m)
    return dict(binsize=t('_binsize'), b=t('_b'), bsq=t('_bsq'), a=t('_a'), asq=t('_asq'), minsep=t('_minsep'), maxsep=t('_maxsep'), logminsep=t('_logminsep'))

def p02_twod_calc(ctx, paths):
    """BinTypeHelper<TwoD>::calculateBinK: index j*n+i with i,j the bins of the two components"""
    P = prog(paths)
    f = [g for g in P.find(r'^BinTypeHelper<2>::calculateBinK') if 'Position<1>' in g['params'][0]['t']][0]
    dx, dy, mx, bs = Rl('p2._x') - Rl('p1._x'), Rl('p2._y') - Rl('p1._y'), F('this', '_maxsep'), F('this', '_binsize')
    i, j = It('gi'), It('gj')
    hy = twod_hyps() + [dx < mx, -dx < mx, dy < mx, -dy < mx, twod_floor(dx, i), twod_floor(dy, j)]
    def go(st):
        E = Engine(P, st=st)
        r = E.run(f, None, named_args(f, p1=pos('p1'), p2=pos('p2'), r=Rl('r'), logr=Rl('logr'), **common_args()))
        ctx.fns |= E.used
        return r
    fdiv = []
    for v, w, nm in ((dx, i, 'x'), (dy, j, 'y')):
        l = z3.And(z3.ToReal(w) <= (v + mx) / bs, (v + mx) / bs < z3.ToReal(w) + 1)
        if ctx.prove('lemma: the bin of component %s by quotient' % nm, [bs > 0, twod_floor(v, w)], l, fn=f['name']): fdiv.append(l)
    l = 2 * mx / bs == z3.ToReal(SIDE)
    if ctx.prove('lemma: number of bins per side', [bs > 0, 2 * mx == z3.ToReal(SIDE) * bs], l, fn=f['name']): fdiv.append(l)
    for n, (st, k) in enumerate(explore(go, hy)):
        ctx.prove('path %d: index in the layout' % n, hy + st.pc, z3.And(i >= 0, i < SIDE, j >= 0, j < SIDE), fn=f['name'])
        ctx.prove('path %d: index is j*n+i' % n, hy + fdiv + st.pc + [i >= 0, i < SIDE, j >= 0, j < SIDE], IV(k) == j * SIDE + i, fn=f['name'])

def p02_twod_single(ctx, paths):
    """BinTypeHelper<TwoD>::singleBin with b = 0: when true every pair falls in the bin of the centres"""
    P = prog(paths)
    f = [g for g in P.find(r'^BinTypeHelper<2>::singleBin') if any('Position<1>' in q['t'] for q in g['params'])][0]
    dx, dy, mx, bs = Rl('p2._x') - Rl('p1._x'), Rl('p2._y') - Rl('p1._y'), F('this', '_maxsep'), F('this', '_binsize')
    mn = F('this', '_minsep')
    i, j = It('gi'), It('gj')
    d, S, X, Y, rs = Rl('d'), Rl('S'), Rl('X'), Rl('Y'), Rl('rs')
    hy = twod_hyps() + [d >= 0, d * d == dx * dx + dy * dy, S >= 0, rs >= 0, rs * rs == X * X + Y * Y]
    rng = [dx < mx, -dx < mx, dy < mx, -dy < mx, d >= mn, d > 0]
    pair = [X - dx <= S, dx - X <= S, Y - dy <= S, dy - Y <= S, rs - d <= S, d - rs <= S]
    fl = [twod_floor(dx, i), twod_floor(dy, j)]
    def go(st):
        E = Engine(P, st=st)
        k, r, lr = TempLoc(-1), TempLoc(Fraction(0)), TempLoc(Fraction(0))
        b = E.run(f, None, named_args(f, rsq=d * d, s1ps2=S, p1=pos('p1'), p2=pos('p2'), k=k, r=r, logr=lr, **common_args()))
        b = E.tobool(b)
        ctx.fns |= E.used
        return (st.branch(b) if is_z(b) else b), k.get(), r.get(), lr.get()
    nt = 0
    # the bin of a component is defined with the quotient; the bounds on the pair carry over to the quotient (lemmas)
    fdiv = [z3.And(z3.ToReal(i) <= (dx + mx) / bs, (dx + mx) / bs < z3.ToReal(i) + 1, z3.ToReal(j) <= (dy + mx) / bs, (dy + mx) / bs < z3.ToReal(j) + 1)]
    ldiv = []
    for v, w, nm in ((X, dx, 'x'), (Y, dy, 'y')):
        for sg in (1, -1):
            l = sg * ((v + mx) / bs - (w + mx) / bs) <= S / bs
            if ctx.prove('lemma: component %s of a pair deviates by at most S/binsize (%d)' % (nm, sg), [bs > 0, sg * (v - w) <= S], l, fn=f['name']): ldiv.append(z3.Implies(sg * (v - w) <= S, l))
    for n, (st, (b, k, r, lr)) in enumerate(explore(go, hy)):
        if not b: continue
        nt += 1
        pc = hy + st.pc; N = f['name']
        if isinstance(k, int) and k == -1:
            ctx.prove('true path %d: no bin given only for point cells' % n, pc, S == 0, fn=N)
            continue
        q = pc + fdiv + ldiv
        ctx.prove('true path %d: r is the centre separation' % n, pc, RV(r) == d, fn=N)
        ctx.prove('true path %d: bin index' % n, q + rng + [i >= 0, i < SIDE, j >= 0, j < SIDE], IV(k) == j * SIDE + i, fn=N)
        lo = lambda v, w: z3.ToReal(w) <= (v + mx) / bs
        up = lambda v, w: (v + mx) / bs < z3.ToReal(w) + 1
        for nm, v, w in (('x', X, i), ('y', Y, j)):
            ctx.prove('true path %d: every pair above the lower %s edge' % (n, nm), q + rng + pair, lo(v, w), fn=N)
            ctx.prove('true path %d: every pair below the upper %s edge' % (n, nm), q + rng + pair, up(v, w), fn=N)
        ctx.prove('true path %d: no pair crosses min_sep' % n, pc + pair, (rs < mn) == (d < mn), fn=N)
        ctx.prove('true path %d: no coincident pair' % n, q + rng + pair + [S > 0], z3.Not(z3.And(X == 0, Y == 0)), fn=N)
    ctx.record('true paths exist', nt > 0, fn=f['name'])

def p02_twod_process11(ctx, paths, targs):
    """composition: what process11/directProcess11 record, given the two contracts above"""
    P = prog(paths)
    f = dict(insts(P, 'BaseCorr2::process11'))[targs]
    B, M, Pp, R_, C = targs
    K, K0, K2 = It('K_single'), It('K_12'), It('K_21')
    n = It('this._nbins')
    inv = twod_hyps() + [K >= 0, K < n, K0 >= 0, K0 < n, K2 >= 0, K2 < n]
    def nm(E, e, a):
        fn = E.p.fn[e['f']]
        return {p['name']: (x, p) for p, x in zip(fn['params'], a)}
    def single(E, e, o, a):
        m = nm(E, e, a)
        if not E.st.branch(Bl('single')): return False
        val = lambda x: x.get() if isinstance(x, Loc) else x
        E.st.events.append(('single', val(m['rsq'][0]), val(m['s1ps2'][0]), val(m['p1'][0]), val(m['p2'][0])) + tuple(val(m[x][0]) for x in ('binsize', 'b', 'asq', 'minsep', 'maxsep')))
        if E.st.branch(Bl('setsK')):
            m['k'][0].set(K); m['r'][0].set(Rl('d')); m['logr'][0].set(sym.UF['log'](Rl('d')))
        else: E.st.assume(Rl('s1m') + Rl('s2m') == 0)
        return True
    def calc(E, e, o, a):
        m = nm(E, e, a); val = lambda x: x.get() if isinstance(x, Loc) else x
        ps = [val(m['p1'][0]).name, val(m['p2'][0]).name]
        ok = [val(m[x][0]) is not None for x in ('binsize', 'maxsep')]
        E.st.events.append(('calc', ps, val(m['binsize'][0]), val(m['maxsep'][0])))
        if ps == ['c1._data._pos', 'c2._data._pos']: return K0
        if ps == ['c2._data._pos', 'c1._data._pos']: return K2
        raise Unsupported('positions %r' % ps)
    old = T2.extra; T2.extra = [(re.compile(r'^BinTypeHelper<2>::singleBin'), single), (re.compile(r'^BinTypeHelper<2>::calculateBinK'), calc)]
    try: ps, base, used, usedc = run_process11(P, f, B, C, inv, direct_real=True)
    finally: T2.extra = old
    ctx.fns |= used; ctx.assumed |= {re.sub(r'<.*>', '<>', x) for x in usedc if 'singleBin' not in x and 'calculateBinK' not in x}
    d = Rl('d'); hy, rng, crng = ghost_pair(B)
    cnt = 0
    for st, ev in ps:
        fins = [e for e in ev if e[0] == 'fin']
        if not fins: continue
        cnt += 1; N = f['name']; pc = base + st.pc
        a = fins[0][1]; rsq, r, logr, k, k2 = [x.get() if isinstance(x, Loc) else x for x in a[2:7]]
        c1, c2 = [x.get() if isinstance(x, Loc) else x for x in a[:2]]
        sg = [e for e in ev if e[0] == 'single']
        ctx.record('path %d: one accumulation after one singleBin test' % cnt, len(fins) == 1 and len(sg) == 1 and (c1, c2) == st.ghost['cells'], fn=N, note=str(ev)[:300])
        _, q, S, p1, p2, bs, b, asq, mn, mx = sg[0]
        ctx.prove('path %d: singleBin was asked about these cells and this layout' % cnt, pc, z3.And(RV(q) == d * d, RV(S) == Rl('s1m') + Rl('s2m'), RV(bs) == F('this', '_binsize'), RV(b) == F('this', '_b'),
            RV(mn) == F('this', '_minsep'), RV(mx) == F('this', '_maxsep'), z3.BoolVal([p1.name, p2.name] == ['c1._data._pos', 'c2._data._pos'])), fn=N)
        sets = any(str(x) == 'setsK' for x in st.pc)
        ctx.prove('path %d: recorded bin' % cnt, pc, z3.And(RV(rsq) == d * d, RV(r) == d, IV(k) == (K if sets else K0), (IV(k2) == K2) if R_ else z3.BoolVal(True)), fn=N)
        for j, c in enumerate(crng.children()): ctx.prove('path %d: range %d' % (cnt, j), pc, c, fn=N)
        if R_: ctx.record('path %d: mirrored bin computed from the swapped cells' % cnt, any(e[0] == 'calc' and e[1][0].startswith('c2') for e in ev), fn=N)
    ctx.record('accumulation paths exist', cnt > 0, fn=f['name'])

# ---------------------------------------------------------------- P03
def where(name, base):
    """which part of cell `base` the cell called `name` is: 'all', 'left', 'right' or None"""
    return {base: 'all', base + '._left': 'left', base + '._right': 'right'}.get(name)

def covers(part, in_left):
    """does this part contain an object that is in the left child (in_left) or in the right child (not in_left)?"""
    if part == 'all': return True
    return in_left if part == 'left' else z3.Not(in_left)

def B2I(*cs): return z3.If(z3.And([BV(c) for c in cs]), 1, 0)

def p03_process11(ctx, paths, targs):
    """each (a, b), a in c1, b in c2: passed on to exactly one recursive call / accumulation, or rejected (no call at all)"""
    P = prog(paths)
    f = dict(insts(P, 'BaseCorr2::process11'))[targs]
    B, M, Pp, R_, C = targs
    inv = layout_inv('this', B)
    ps, base, used, usedc = run_process11(P, f, B, C, inv)
    ctx.fns |= used; ctx.assumed |= {re.sub(r'<.*>', '<>', x) for x in usedc if 'directProcess' not in x and 'process11' not in x}
    A, Bq = Bl('a_in_left'), Bl('b_in_left')
    N = f['name']
    rej = 0
    hy, rng, crng = ghost_pair(B); lh = loghyps(B)
    point = [Rl('c1._data._w') != 0, Rl('c2._data._w') != 0, Bl('rparInRange'), Rl('s1m') == 0, Rl('s2m') == 0, Rl('c1._size') == 0, Rl('c2._size') == 0, Rl('rs') == Rl('d')]
    for n, (st, ev) in enumerate(ps):
        pc = base + st.pc
        for nm, o, opc in st.obls:
            ctx.prove('path %d: %s' % (n, nm), base + opc, o, fn=N)
        if not ev:
            # a pair of point cells of nonzero weight at an in-range separation is never dropped (extended cells: P01)
            rej += 1
            ctx.prove('path %d: no pair of in-range objects of nonzero weight is dropped' % n, pc + point + [crng] + hy + lh, z3.BoolVal(False), fn=N)
            continue
        tot, ok, note = [], True, ''
        rec = 0
        for e in ev:
            if e[0] in ('p11', 'direct'):
                w1, w2 = where(e[2].name, 'c1'), where(e[3].name, 'c2')
                if w1 is None or w2 is None: ok, note = False, 'cells %s, %s' % (e[2], e[3])
                else: tot.append(B2I(covers(w1, A), covers(w2, Bq)))
                if e[0] == 'p11':
                    rec += 1
                    if e[1] != targs: ok, note = False, 'template arguments %s' % (e[1],)
                    if (w1, w2) == ('all', 'all'): ok, note = False, 'no progress: same pair of cells again'
                else:
                    if len(ev) != 1: ok, note = False, 'accumulation and recursion'
                    if (w1, w2) != ('all', 'all'): ok, note = False, 'a part of the cells is accumulated'
                    if e[1] and e[1][:2] != (B, R_) : ok, note = False, 'directProcess11 %s' % (e[1],)
            else: ok, note = False, 'unexpected event %s' % (e[0],)
        ctx.record('path %d: recursion stays inside (c1, c2), keeps the order and the policies, and makes progress' % n, ok, fn=N, note=note)
        if tot: ctx.prove('path %d: the pair is visited exactly once' % n, pc, z3.Sum(*tot) == 1 if len(tot) > 1 else tot[0] == 1, fn=N)
    # rejection only when weightless or the range tests say so: that it is justified is P01/P02

def p03_process2(ctx, paths, f):
    P = prog(paths)
    m = re.match(r'.*<([^<>]*)>$', f['name']); B, M, Pp, C = map(int, m.group(1).split(','))
    rev = 1 if B == TWOD else 0
    N = f['name']
    d = Rl('d')
    inv = layout_inv('this', B)
    base = inv + cell_inv('c12')
    def go(st):
        E = Engine(P, st=st)
        def distsq(E, e, o, a):
            for loc, nm in ((a[2], 's1m'), (a[3], 's2m')):
                old = loc.get(); new = Rl(nm)
                E.st.assume(z3.And(new >= 0, (new == 0) == (RV(old) == 0))); loc.set(new)
            E.st.ghost['ds'] = (a[0].get().name, a[1].get().name)
            return Fraction(0) if a[0].get().name == a[1].get().name else d * d
        E.contracts = [(re.compile(r'^MetricHelper<.*>::DistSq$'), distsq),
            (re.compile(r'^BaseCorr2::process2<'), lambda E, e, o, a: E.st.events.append(('p2', E.contract_args(e), a[0].get()))),
            (re.compile(r'^BaseCorr2::process11<'), lambda E, e, o, a: E.st.events.append(('p11', E.contract_args(e), a[0].get(), a[1].get())))]
        E.run(f, corr2_this(), [TempLoc(Rec('BaseCell<%d>' % C, 'c12', True)), TempLoc(Rec('MetricHelper', 'metric', True))])
        ctx.fns |= E.used
        return list(st.events)
    A, Bq = Bl('a_in_left'), Bl('b_in_left')
    rs, mn = Rl('rs'), F('this', '_minsep')
    early = 0
    for n, (st, ev) in enumerate(explore(go, base)):
        pc = base + st.pc
        for nm, o, opc in st.obls: ctx.prove('path %d: %s' % (n, nm), base + opc, o, fn=N)
        if not ev:
            early += 1
            # a pair inside c12 is at most twice the (metric) size apart: no such pair is in range
            S = z3.Real('s1m') if 's1m' in str(st.pc) else Rl('c12._data._size')
            S = Rl('s1m') if 's1m' in str(st.pc) else Rl('c12._size')
            bound = [rs >= 0, rs <= 2 * S, Rl('c12._data._w') != 0, z3.Implies(Rl('c12._size') == 0, rs == 0)] 
            goal = z3.Or(rs < mn, rs == 0) if B == TWOD else rs < mn
            ctx.prove('early exit %d: no pair inside is in range' % early, pc + bound, goal, fn=N)
            continue
        tot, ok, note = [], True, ''
        for e in ev:
            if e[0] == 'p2':
                w = where(e[2].name, 'c12')
                if w not in ('left', 'right'): ok, note = False, 'process2(%s)' % e[2]
                else: tot.append(B2I(covers(w, A), covers(w, Bq)))
                if e[1] and e[1][:3] != (B, M, Pp): ok, note = False, 'policies %s' % (e[1],)
            else:
                w1, w2 = where(e[2].name, 'c12'), where(e[3].name, 'c12')
                if w1 not in ('left', 'right') or w2 not in ('left', 'right'): ok, note = False, 'process11(%s,%s)' % (e[2], e[3])
                else: tot.append(z3.If(z3.Or(z3.And(BV(covers(w1, A)), BV(covers(w2, Bq))), z3.And(BV(covers(w1, Bq)), BV(covers(w2, A)))), 1, 0))
                if e[1] != (B, M, Pp, rev, C): ok, note = False, 'policies %s' % (e[1],)
        ctx.record('path %d: children only, same policies, both orders recorded exactly for two-dimensional bins' % n, ok, fn=N, note=note)
        if tot: ctx.prove('path %d: every unordered pair inside is passed on exactly once' % n, pc, z3.Sum(*tot) == 1, fn=N)
    ctx.record('there is an early exit and a descent', early > 0 and n >= early, fn=N)

def p03_process(ctx, paths, f, p01=False):
    P = prog(paths)
    m = re.match(r'.*<([^<>]*)>$', f['name']); B, M, Pp, C = map(int, m.group(1).split(','))
    auto = len(f['params']) == 2
    N = f['name']
    d = Rl('d')
    inv = layout_inv('this', B)
    base = list(inv) + [d >= 0]
    nF = sum('BaseField' in p['t'] for p in f['params'])
    S = [Rl('F%d.size' % i) for i in range(2)]
    base += [s >= 0 for s in S] + [It('F%d.cells.size' % i) >= 1 for i in range(nF)]
    def go(st):
        E = Engine(P, st=st)
        dup = Rec('BaseCorr2', 'dup', True)
        if F('this', '_minsep') is not None: pass
        def distsq(E, e, o, a):
            for loc, nm in ((a[2], 's1'), (a[3], 's2')):
                old = loc.get(); new = Rl(nm + 'm')
                E.st.assume(z3.And(new >= 0, (new == 0) == (RV(old) == 0))); loc.set(new)
            return d * d
        def outside(E, e, o, a):
            a[3].set(Rl('rpar')); r = Bl('rparOutside'); E.st.assume(z3.Implies(r, z3.Not(Bl('rparInRange')))); return r
        E.contracts = [(re.compile(x), y) for x, y in [
          (r'::duplicate$', lambda E, e, o, a: Ptr(dup)),
          (r'::addData$', lambda E, e, o, a: E.st.events.append(('add', o, a[0].get() if isinstance(a[0], Loc) else a[0]))),
          (r'^BaseCorr2::process2<', lambda E, e, o, a: E.st.events.append(('p2', E.contract_args(e), a[0].get(), o))),
          (r'^BaseCorr2::process11<', lambda E, e, o, a: E.st.events.append(('p11', E.contract_args(e), a[0].get(), a[1].get(), o))),
          (r'^BaseField<.*>::getCells', lambda E, e, o, a: TempLoc(o.f.setdefault('_cells_ghost', E.vec(o.name + '.cells', 'const BaseCell<%d> *' % C)))),
          (r'^BaseField<.*>::getNTopLevel', lambda E, e, o, a: z3.Int(o.name + '.cells.size')),
          (r'MetricHelper<.*>::DistSq$', distsq),
          (r'^MetricHelper<.*>::isRParOutsideRange$', outside),
          (r'^MetricHelper<.*>::too(Small|Large)Dist$', lambda E, e, o, a: E.st.new('metricSaysSo', 'B')),
          (r'^MetricHelper<.*>::MetricHelper$', lambda E, e, o, a: None),
          (r'BaseField<.*>::getCenter', lambda E, e, o, a: E.lazy_value(o.name + '.center', e['t'])),
          (r'BaseField<.*>::getSize$', lambda E, e, o, a: Rl(o.name + '.size')),
        ]]
        E.run(f, corr2_this(), [TempLoc(Rec('BaseField<%d>' % C, 'F%d' % i, True)) if 'BaseField' in p['t'] else z3.Bool('dots') for i, p in enumerate(f['params'])])
        ctx.fns |= E.used
        return list(st.events), dup
    hy, rng, crng = ghost_pair(B)
    if B == TWOD:
        # centre components are those of the field centres
        sub = [(Rl('c%d._data._pos._%s' % (i + 1, x)), Rl('F%d.center._%s' % (i, x))) for i in range(2) for x in 'xy']
        hy = [z3.substitute(h, *sub) for h in hy]
    ia, ib, na, nb_ = It('ia'), It('ib'), It('F0.cells.size'), It('F%d.cells.size' % (nF - 1))
    anyloop = False
    for n, (st, (ev, dup)) in enumerate(explore(go, base)):
        pc = base + st.pc
        for nm, o, opc in st.obls:
            if 'null' in nm and 'cells[' in str(o): continue          # the list of top-level cells holds no null pointers (P08)
            ctx.prove('path %d: %s' % (n, nm), base + opc, o, fn=N)
        loops = [e for e in ev if e[0] == 'forall']
        if not loops:
            if auto: ctx.record('path %d: auto-correlation never exits early' % n, False, fn=N, note=str(st.pc)[:400]); continue
            ctx.prove('path %d: early exit only when no pair is in range' % n, pc + hy + [rng, Bl('rparInRange')], z3.BoolVal(False), fn=N)
            continue
        if p01: continue
        anyloop = True
        adds = [e for e in ev if e[0] == 'add']
        target_ok = len(adds) == 1 and getattr(adds[0][1], 'name', None) == 'this' and getattr(adds[0][2], 'name', None) == 'dup'
        flat = []
        def walk(evs, conds, gens):
            nonlocal ok, note
            for e in evs:
                if e[0] == 'forall':
                    _, g, lo, hi, bodies = e
                    for bpc, sub in bodies: walk(sub, conds + [IV(lo) <= g, g < IV(hi)] + [c for c in bpc if '.null' not in str(c)], gens + [g])
                elif e[0] in ('p2', 'p11'): flat.append((e, conds, gens))
        ok, note = True, ''
        walk(ev, [], [])
        inner = [e for e, c, g in flat]
        objs = {getattr(e[-1], 'name', None) for e in inner}
        ctx.record('path %d: every call works on the thread copy, which is added to the total exactly once' % n, target_ok and objs == {'dup'}, fn=N, note='%s %s' % (objs, adds))
        rev = 1 if (auto and B == TWOD) else 0
        cnt2, cnt11 = [], []
        for e, conds, gens in flat:
            def idx(c, fld):
                mm = re.match(r'^F(\d)\.cells\[(.*)\]$', c.name)
                if not mm: return None
                g = [x for x in gens if str(x) == mm.group(2)]
                return (int(mm.group(1)), g[0]) if g else None
            if e[0] == 'p2':
                a = idx(e[2], 0)
                if a is None or len(gens) != 1 or (e[1] and e[1][:3] != (B, M, Pp)): ok, note = False, str(e); continue
                cnt2.append(z3.If(z3.And([z3.substitute(c, (a[1], ia)) for c in conds]), 1, 0))
            else:
                a, b = idx(e[2], 0), idx(e[3], 1)
                if a is None or b is None or len(gens) != 2 or a[1] is b[1] or e[1] != (B, M, Pp, rev, C): ok, note = False, str(e); continue
                if not auto and (a[0], b[0]) != (0, 1): ok, note = False, 'wrong catalogs ' + str(e); continue
                cnt11.append(z3.If(z3.And([z3.substitute(c, (a[1], ia), (b[1], ib)) for c in conds]), 1, 0))
                if auto: cnt11.append(z3.If(z3.And([z3.substitute(c, (a[1], ib), (b[1], ia)) for c in conds]), 1, 0))
        ctx.record('path %d: only listed cells are processed, with the policies of this correlation' % n, ok, fn=N, note=note[:300])
        if not ok: continue
        rngs = [ia >= 0, ia < na, ib >= 0, ib < nb_]
        if auto:
            ctx.prove('path %d: pairs inside one top cell: once' % n, pc + rngs, (z3.Sum(*cnt2) if cnt2 else z3.IntVal(0)) == 1, fn=N)
            ctx.prove('path %d: pairs of two different top cells: once' % n, pc + rngs + [ia != ib], (z3.Sum(*cnt11) if cnt11 else z3.IntVal(0)) == 1, fn=N)
            ctx.prove('path %d: no top cell is paired with itself' % n, pc + rngs + [ia == ib], (z3.Sum(*cnt11) if cnt11 else z3.IntVal(0)) == 0, fn=N)
        else:
            ctx.prove('path %d: ordered pairs of top cells: once' % n, pc + rngs, (z3.Sum(*cnt11) if cnt11 else z3.IntVal(0)) == 1, fn=N)
    if not p01: ctx.record('the top-level loop exists', anyloop, fn=N)

def instances(P, tier):
    """instantiations by policy; in the quick tier one coordinate system per (bin, metric, rpar, reverse)"""
    out = {}
    for t, f in insts(P, 'BaseCorr2::process11'):
        B, M, Pp, R_, C = t
        if B == TWOD and (M, C) != (1, 1): continue          # rejected by the Python layer
        k = (B, M, Pp, R_)
        out.setdefault(k, []).append(t)
    return [t for k, ts in sorted(out.items()) for t in (ts if tier != 'quick' else ts[:1])]
