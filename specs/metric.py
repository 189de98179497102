"""P06: documented distances and line-of-sight separations; contracts on MetricHelper, ParHelper and Position used elsewhere."""
import re, itertools, z3
from engine.cxx.interp import *
from engine.sym import *
import engine.sym as sym
from specs.tree2 import prog, named_args, pos, Rl, It, Bl, METRICS
Fn = Fraction

def P3(name, C):
    """an arbitrary position; the cached norm is empty or right (class invariant, see p06_position)"""
    n = 2 if C == 1 else 3
    r = Rec('Position<%d>' % C, name, True)
    co = [Rl(name + '._' + 'xyz'[i]) for i in range(n)]
    for i in range(n): r.f['_' + 'xyz'[i]] = co[i]
    r.f['_normsq'] = Fn(0); r.f['_norm'] = Fn(0)
    return r, co
def dot(a, b): return z3.Sum([x * y for x, y in zip(a, b)])
def sub(a, b): return [x - y for x, y in zip(a, b)]
def add(a, b): return [x + y for x, y in zip(a, b)]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def poseq(E, v): return v.get() if isinstance(v, Loc) else v

def houdini_while(log):
    """loop rule for the wrapping loops: candidate invariants  f = f0 + n*period,  f <= period/2,  f >= -period/2
    for each coordinate; kept only if they hold on entry and are preserved by the body (checked by the solver)"""
    def h(E, s, fr, cond, inc, body):
        st, o = E.st, fr.this
        per = {k: v for k, v in st.ghost['periods'].items()}
        flds = [k for k in per if k in o.f]
        cur = {k: RV(o.f[k]) for k in flds}
        cands = [('le', k) for k in flds] + [('ge', k) for k in flds]
        form = lambda c, v: v[c[1]] <= per[c[1]] / 2 if c[0] == 'le' else v[c[1]] >= -per[c[1]] / 2
        keep = [c for c in cands if not st._feasible(z3.Not(form(c, cur)))]
        # which coordinate does the body change?
        f0 = dict(o.f)
        E.ex(body, fr)
        changed = [k for k in flds if not (RV(o.f[k]).eq(cur[k]))]
        for k in list(o.f): o.f[k] = f0.get(k, UNDEF)
        while True:
            hv = {k: (z3.Real('wrap_%s!%d' % (k, next(st.fresh))) if k in changed else cur[k]) for k in flds}
            ns = {k: z3.Int('n_%s!%d' % (k, next(st.fresh))) for k in changed}
            hyp = [form(c, hv) for c in keep] + [hv[k] == cur[k] + z3.ToReal(ns[k]) * per[k] for k in changed]
            for k in changed: o.f[k] = hv[k]
            c = BV(E.rv(cond, fr))
            E.ex(body, fr)
            after = {k: RV(o.f[k]) for k in flds}
            bad = []
            base = st.assume_list + st.pc + hyp + [c]
            for q in keep:
                v = prove(base, form(q, after), 5)
                if v.status != 'proved': bad.append(q)
            if not bad: break
            keep = [q for q in keep if q not in bad]
            for k in changed: o.f[k] = cur[k]
        for k in changed:
            v = prove(base, z3.Or(after[k] == hv[k] + per[k], after[k] == hv[k] - per[k]), 5)
            log.append(('loop at line %s: the body moves %s by one period' % (s.get('l'), k), v))
            o.f[k] = hv[k]
        for x in hyp: st.assume(x)
        st.assume(z3.Not(c))
        return None
    return h

def p06_wrap(ctx, paths, C):
    P = prog(paths)
    f = P.one(r'^Position<%d>::wrap$' % C)
    N = f['name']
    per = {'_x': Rl('xp'), '_y': Rl('yp'), '_z': Rl('zp')}
    if C == 1: per.pop('_z')
    base = [p > 0 for p in per.values()]
    log = []
    for st, (r, co) in explore(lambda st: (_wrap(P, f, st, per, C, log, ctx)), base):
        for nm, v in log: ctx.add(nm, v, N)
        log.clear()
        for nm, o, opc in st.obls: ctx.prove(nm, base + opc, o, fn=N)
        for k, x in zip(sorted(per), co):
            n, m = It('n_tot'), It('m')
            v, p = RV(r.f[k]), per[k]
            ctx.prove('%s stays congruent modulo its period' % k, base + st.pc, z3.Or([v == x + z3.ToReal(t) * p for t in _ints(st, k)] or [v == x]), fn=N)
            ctx.prove('%s ends in [-period/2, period/2]' % k, base + st.pc, z3.And(v <= p / 2, v >= -p / 2), fn=N)
        # hence the result is the smallest of all images (lemma, any integer number of periods m)
    v, p, m = Rl('v'), Rl('p'), It('m')
    ctx.prove('lemma: a coordinate in [-period/2, period/2] is the smallest of its images', [p > 0, v <= p / 2, v >= -p / 2, m != 0], (v + z3.ToReal(m) * p) * (v + z3.ToReal(m) * p) >= v * v, fn=N)
def _ints(st, k):
    ns = []
    for c in st.pc:
        for t in subterms([c]):
            if z3.is_int(t) and z3.is_const(t) and str(t).startswith('n_%s!' % k) and not any(t.eq(u) for u in ns): ns.append(t)
    return [z3.Sum(*ns)] if len(ns) > 1 else ns
def _wrap(P, f, st, per, C, log, ctx):
    E = Engine(P, st=st, invariants={(r'Position<.*>::wrap$', None): houdini_while(log)})
    st.ghost['periods'] = per
    o, co = P3('p', C)
    args = {'xp': per['_x'], 'yp': per['_y'], 'zp': per.get('_z')}
    E.run(f, o, named_args(f, **{k: v for k, v in args.items() if v is not None}))
    ctx.fns |= E.used
    return o, co

def wrap_contract(E, e, o, a):
    """contract of Position::wrap: moves each coordinate by a whole number of periods into [-period/2, period/2]"""
    fn = E.p.fn[e['f']]
    per = {('_' + p['name'][0]): RV(x.get() if isinstance(x, Loc) else x) for p, x in zip(fn['params'], a)}
    for k, p in per.items():
        n = E.st.new('wrap_n' + k, 'I'); v = E.st.new('wrapped' + k, 'R')
        E.st.assume(z3.And(v == RV(o.f[k]) + z3.ToReal(n) * p, v <= p / 2, v >= -p / 2))
        o.f[k] = v
    E.st.events.append(('wrap', dict(o.f), per))
    return None

def run_distsq(P, f, M, C, st, ctx, extra=()):
    E = Engine(P, st=st, contracts=[(re.compile(r'^Position<.*>::wrap$'), wrap_contract)] + list(extra))
    p1, c1 = P3('p1', C); p2, c2 = P3('p2', C)
    m = Rec(re.match(r'(.*)::', f['name']).group(1), 'metric', True)
    s1, s2 = TempLoc(Rl('s1')), TempLoc(Rl('s2'))
    r = E.run(f, m, named_args(f, p1=TempLoc(p1), p2=TempLoc(p2), s1=s1, s2=s2))
    ctx.fns |= E.used
    return E, r, s1.get(), s2.get(), c1, c2

def coord_of(f): return int(re.search(r'Position<(\d)>', f['params'][0]['t']).group(1))

def p06_distsq(ctx, paths):
    P = prog(paths)
    seen = set()
    for f in P.find(r'^MetricHelper<\d, 0>::DistSq$'):
        M = int(re.match(r'MetricHelper<(\d)', f['name']).group(1)); C = coord_of(f)
        if (M, C) in seen: continue
        seen.add((M, C))
        distsq_vc(ctx, P, f, M, C)
    ctx.record('metrics covered', {m for m, c in seen} == {1, 2, 3, 4, 5, 6}, note=str(seen))

def distsq_vc(ctx, P, f, M, C):
    nm = '%s/%s' % (METRICS[M], {1: 'flat', 2: '3d', 3: 'sphere'}[C])
    N = f['name']
    co1 = [Rl('p1._' + 'xyz'[i]) for i in range(2 if C == 1 else 3)]; co2 = [Rl('p2._' + 'xyz'[i]) for i in range(2 if C == 1 else 3)]
    base = [Rl('s1') >= 0, Rl('s2') >= 0]
    if M in (2, 3, 4, 5) and C == 2: base += [dot(co1, co1) > 0, dot(co2, co2) > 0]
    if C == 3: base += [dot(co1, co1) == 1, dot(co2, co2) == 1]
    if M == 6: base += [Rl('metric.%s' % p) > 0 for p in ('xp', 'yp', 'zp')]
    if M == 2: base += [dot(add(co1, co2), add(co1, co2)) > 0]
    d = sub(co2, co1); dd = dot(d, d)
    for n, (st, (E, r, s1, s2, c1, c2)) in enumerate(explore(lambda st: run_distsq(P, f, M, C, st, ctx), base)):
        pc = base + st.pc; r = RV(r); t = '%s path %d: ' % (nm, n)
        for o, fm, opc in st.obls: ctx.prove(t + o, base + opc, fm, fn=N)
        cr = cross(co1, co2) if C != 1 else None
        if M == 1:
            ctx.prove(t + 'squared straight-line distance', pc, r == dd, fn=N)
            ctx.prove(t + 'sizes unchanged', pc, z3.And(RV(s1) == Rl('s1'), RV(s2) == Rl('s2')), fn=N)
        elif M == 2:   # FisherRperp: L = (p1+p2)/2, rpar = L.(p2-p1)/|L|, rperp^2 = d^2 - rpar^2
            Lv = add(co1, co2); LL = dot(Lv, Lv); dl = dot(Lv, d)
            crc = dot(cr, cr)
            ctx.prove(t + 'lemma: d^2 L^2 - (d.L)^2 = 4 |p1 x p2|^2 (L = p1+p2)', [], dd * LL - dl * dl == 4 * crc, fn=N)
            ctx.prove(t + 'squared perpendicular distance = d^2 - rpar^2', pc, r * LL == 4 * crc, fn=N)
        elif M == 3:
            ctx.prove(t + 'distance of p1 from the line of sight of p2', pc, r * dot(co2, co2) == dot(cr, cr), fn=N)
        elif M == 5:
            oldrperp_vc(ctx, t, pc, r, co1, co2, dd, N)
        elif M == 6:
            w = [e for e in st.events if e[0] == 'wrap']
            ok = len(w) == 1 and len(w[0][2]) == len(co1)
            ctx.record(t + 'the difference is wrapped once, every coordinate', ok, fn=N)
            if ok:
                fl = w[0][1]
                ctx.prove(t + 'squared length of the wrapped difference', pc, r == dot([RV(fl[k]) for k in sorted(w[0][2])], [RV(fl[k]) for k in sorted(w[0][2])]), fn=N)
                ctx.prove(t + 'the periods are those of the coordinates', pc, z3.And([w[0][2]['_' + x] == Rl('metric.%sp' % x) for x in 'xyz'[:len(co1)]]), fn=N)
                # the wrapped vector is the plain difference plus whole periods: the wrap contract was applied to it
                diffs = [z3.Or(*[RV(fl['_' + x]) == sg * (b - a) + z3.ToReal(i) * Rl('metric.%sp' % x) for i in _wn(st, '_' + x) for sg in (1, -1)]) for x, a, b in zip('xyz', co1, co2)]
                ctx.prove(t + 'what is wrapped is the coordinate difference', pc, z3.And(diffs), fn=N)
            ctx.prove(t + 'sizes unchanged', pc, z3.And(RV(s1) == Rl('s1'), RV(s2) == Rl('s2')), fn=N)
        elif M == 4:
            arc_vc(ctx, t, pc, r, s1, s2, co1, co2, C, N)
    ctx.sat(nm, base)

def oldrperp_vc(ctx, t, pc, r, co1, co2, dd, N):
    """r == d^2 - (r1-r2)^2 with ri = |pi|.  The quotient and the root in the code's expression are characterised first
    (their defining equations are obligations), then the claim is decided over r1, r2, d only."""
    r1, r2, R1, R2, Q, DD = Rl('r1'), Rl('r2'), dot(co1, co1), dot(co2, co2), Rl('Q'), Rl('DD')
    ctx.prove(t + 'lemma: |r1 - r2| <= d', [r1 > 0, r2 > 0, r1 * r1 == R1, r2 * r2 == R2], dot(co1, co2) <= r1 * r2, fn=N)
    tms = [r] + list(pc); sub_, facts, k = [], [], 0
    S1, S2 = Rl('S1'), Rl('S2')           # r1^2, r2^2
    for u in subterms(tms):
        if not (z3.is_app(u) and z3.is_real(u)): continue
        if u.decl().eq(sym.SQRT):
            v = Rl('rt%d' % k); k += 1; arg = u.arg(0)
            if ctx.try_prove([], arg == R1 * R2).status == 'proved': facts.append(v == r1 * r2); ctx.prove(t + 'root %d is sqrt(r1^2 r2^2)' % k, [], arg == R1 * R2, fn=N)
            elif ctx.try_prove([], arg == R1).status == 'proved': facts.append(v == r1)
            elif ctx.try_prove([], arg == R2).status == 'proved': facts.append(v == r2)
            sub_.append((u, v))
    def ab(x): return z3.substitute(x, *sub_) if sub_ else x
    r_ = ab(r); pc_ = [ab(c) for c in pc]
    # dot products and differences of them become atoms
    ats = [(R1, S1), (R2, S2), (dd, DD), (dot(sub(co1, co2), sub(co1, co2)), DD)]
    memo = {}
    def rw(x):
        if x.get_id() in memo: return memo[x.get_id()]
        out = None
        if z3.is_real(x) and x.num_args() > 0 and any(str(c) and z3.is_const(c) and str(c)[:2] in ('p1', 'p2') for c in subterms([x])):
            for p, v in ats:
                if ctx.try_prove([], x == p, 0.5).status == 'proved': out = v; break
        if out is None:
            out = x.decl()(*[rw(c) for c in x.children()]) if x.num_args() else x
        memo[x.get_id()] = out
        return out
    r_, pc_ = rw(r_), [rw(c) for c in pc_]
    left = [c for c in subterms([r_]) if z3.is_const(c) and str(c)[:2] in ('p1', 'p2')]
    h = pc_ + facts + [r1 > 0, r2 > 0, S1 == r1 * r1, S2 == r2 * r2, DD >= (r1 - r2) * (r1 - r2)]
    if left: ctx.undecided(t + 'd^2 - (r1-r2)^2', 'expression not in terms of |p1|^2, |p2|^2, d^2'); return
    # quotient: X/(Y) with Y == (r1+r2)^2
    h0 = [z3.substitute(c, (S1, r1 * r1), (S2, r2 * r2)) for c in h]; g = z3.substitute(r_, (S1, r1 * r1), (S2, r2 * r2))
    eqs = [c for c in facts]
    g = z3.substitute(g, *[(c.arg(0), c.arg(1)) for c in eqs]); h0 = [z3.substitute(c, *[(c2.arg(0), c2.arg(1)) for c2 in eqs]) for c in h0]
    dv, hs = [], []
    for i, u in enumerate(subterms([g] + h0)):
        if z3.is_app_of(u, z3.Z3_OP_DIV) and not z3.is_rational_value(u.arg(1)):
            v = Rl('quo%d' % i)
            if ctx.try_prove([r1 > 0, r2 > 0], u.arg(0) == (r1 - r2) * (r1 - r2) * u.arg(1)).status == 'proved' and ctx.try_prove([r1 > 0, r2 > 0], u.arg(1) > 0).status == 'proved':
                ctx.prove(t + 'quotient %d is (r1-r2)^2' % i, [r1 > 0, r2 > 0], z3.And(u.arg(0) == (r1 - r2) * (r1 - r2) * u.arg(1), u.arg(1) > 0), fn=N)
                hs.append(v == (r1 - r2) * (r1 - r2)); dv.append((u, v))
    if dv: g = z3.substitute(g, *dv); h0 = [z3.substitute(c, *dv) for c in h0]
    ctx.prove(t + 'd^2 - (r1-r2)^2', h0 + hs, g == DD - (r1 - r2) * (r1 - r2), fn=N)

def _wn(st, k):
    ns = []
    for c in st.pc:
        for t in subterms([c]):
            if z3.is_int(t) and z3.is_const(t) and str(t).startswith('wrap_n%s!' % k) and not any(t.eq(u) for u in ns): ns.append(t)
    return ns

def arc_vc(ctx, t, pc, r, s1, s2, co1, co2, C, N):
    """great-circle angle and the sizes that go with it.  theta is the angle: the real function is characterised by
    cos(theta) = p1.p2/(|p1||p2|), 0 <= theta <= pi"""
    asin, at2 = sym.UF['asin'], sym.UF2['atan2']
    dd = dot(sub(co1, co2), sub(co1, co2))
    tms = subterms([r])
    if C == 3:
        A = [x for x in tms if z3.is_app(x) and x.decl().eq(asin)]
        ctx.record(t + 'one arcsine', len(A) == 1, fn=N)
        if len(A) == 1:
            u = A[0].arg(0)
            # definition of the great-circle angle between unit vectors: 2 asin(chord/2)
            ctx.prove(t + 'theta = 2 asin(chord/2)', pc, z3.And(r == 4 * A[0] * A[0], 4 * u * u == dd, u >= 0), fn=N)
        for s, o in ((s1, 's1'), (s2, 's2')):
            # asin(v) <= v (1 + (pi/2-1) v^2) on [0,1] (trusted series bound), pi/2 - 1 < 0.57079633
            v = Rl(o) / 2
            ctx.prove(t + 'size %s is enlarged to at least the arc of its chord' % o, pc + [Rl(o) <= 2, Rl('k') < z3.RealVal('0.5707964'), Rl('k') > 0, Rl('arc') <= 2 * v * (1 + Rl('k') * v * v)], RV(s) >= Rl('arc'), fn=N)
            ctx.prove(t + 'size %s: zero stays zero' % o, pc, z3.And((RV(s) == 0) == (Rl(o) == 0), RV(s) >= 0), fn=N)
    else:
        A = [x for x in tms if z3.is_app(x) and x.decl().eq(at2)]
        ctx.record(t + 'one atan2', len(A) == 1, fn=N)
        if len(A) == 1:
            y, x = A[0].arg(0), A[0].arg(1)
            cr = cross(co1, co2)
            ctx.prove(t + 'theta = atan2(|p1 x p2|, p1.p2)', pc, z3.And(r == A[0] * A[0], y * y == dot(cr, cr), y >= 0, x == dot(co1, co2)), fn=N)
        for s, o, co in ((s1, 's1', co1), (s2, 's2', co2)):
            nn = Rl('nn'); v = Rl('v')
            h = [nn > 0, nn * nn == dot(co, co), v * nn == Rl(o), v >= 0, Rl('k') < z3.RealVal('0.5707964'), Rl('k') > 0]
            # the angular radius of a ball of radius s at distance nn is asin(v) <= v(1+k v^2), v = s/nn <= 1, and at most pi otherwise
            ctx.prove(t + 'size %s: at least the angular radius' % o, pc + h + [z3.Implies(v <= 1, Rl('ang') <= v * (1 + Rl('k') * v * v)), z3.Implies(v > 1, Rl('ang') <= z3.RealVal('3.14159266')), z3.Or(v < 1, v > 1)], RV(s) >= Rl('ang'), fn=N)
            ctx.prove(t + 'size %s: zero stays zero' % o, pc + h, z3.And((RV(s) == 0) == (Rl(o) == 0), RV(s) >= 0), fn=N)

def p06_rpar(ctx, paths):
    P = prog(paths)
    for k in (1, 2):
        f = P.one(r'^ParHelper<%d>::calculateRPar$' % k); N = f['name']
        p1, c1 = P3('p1', 2); p2, c2 = P3('p2', 2)
        def go(st):
            E = Engine(P, st=st)
            a, _ = P3('p1', 2); b, _ = P3('p2', 2)
            r = E.run(f, None, named_args(f, p1=TempLoc(a), p2=TempLoc(b))); ctx.fns |= E.used
            return r
        L = add(c1, c2); d = sub(c2, c1)
        base = [dot(L, L) > 0, dot(c1, c1) > 0, dot(c2, c2) > 0]
        for n, (st, r) in enumerate(explore(go, base)):
            l = Rl('normL'); r1, r2 = Rl('r1'), Rl('r2')
            if k == 1:
                ctx.prove('rpar path %d: L.(p2-p1)/|L|' % n, base + st.pc + [l > 0, l * l == dot(L, L)], RV(r) * l == dot(L, d), fn=N)
            else:
                ctx.prove('old rpar path %d: |p2|-|p1|' % n, base + st.pc + [r1 > 0, r2 > 0, r1 * r1 == dot(c1, c1), r2 * r2 == dot(c2, c2)], RV(r) == r2 - r1, fn=N)
    for k in (0, 1, 2):
        for kind in ('Outside', 'Inside'):
            f = P.one(r'^ParHelper<%d>::isRPar%sRange$' % (k, kind)); N = f['name']
            rp = Rl('RP')
            def go(st):
                E = Engine(P, st=st, contracts=[(re.compile(r'calculateRPar$'), lambda E, e, o, a: (E.st.events.append([x.get().name for x in a[:2]]), rp)[1])])
                a, _ = P3('p1', 2); b, _ = P3('p2', 2); rl = TempLoc(Rl('rpar0') if kind == 'Outside' else rp)
                r = E.run(f, None, named_args(f, p1=TempLoc(a), p2=TempLoc(b), minrpar=Rl('mn'), maxrpar=Rl('mx'), s1ps2=Rl('S'), rpar=rl)); ctx.fns |= E.used
                return E.tobool(r), rl.get()
            hy = [Rl('S') >= 0, Rl('mn') < Rl('mx')]
            q = Rl('q')          # line-of-sight separation of an arbitrary pair, |q - rpar| <= S (assumed Lipschitz)
            for n, (st, (r, out)) in enumerate(explore(go, hy)):
                pc = hy + st.pc + [q - rp <= Rl('S'), rp - q <= Rl('S')]
                ins = z3.And(q >= Rl('mn'), q <= Rl('mx'))
                if k == 0: ctx.prove('no range: path %d' % n, pc, BV(r) == (kind == 'Inside'), fn=N); continue
                if kind == 'Outside':
                    ctx.prove('%s outside path %d: no pair of the cells is in range' % (k, n), pc, z3.Implies(BV(r), z3.Not(ins)), fn=N)
                    ctx.prove('%s outside path %d: exactly the interval test' % (k, n), hy + st.pc, BV(r) == z3.Or(rp + Rl('S') < Rl('mn'), rp - Rl('S') > Rl('mx')), fn=N)
                    ctx.prove('%s outside path %d: rpar is reported' % (k, n), hy + st.pc, RV(out) == rp, fn=N)
                    ctx.record('%s outside path %d: of these two points in this order' % (k, n), st.events == [['p1', 'p2']], fn=N, note=str(st.events))
                else:
                    ctx.prove('%s inside path %d: every pair of the cells is in range' % (k, n), pc, z3.Implies(BV(r), ins), fn=N)
                    ctx.prove('%s inside path %d: exactly the interval test' % (k, n), hy + st.pc, BV(r) == z3.And(rp - Rl('S') >= Rl('mn'), rp + Rl('S') <= Rl('mx')), fn=N)

def p06_metric_rpar(ctx, paths):
    """every MetricHelper<M,P>::isRPar*Range passes the two points and its own limits to the right ParHelper"""
    P = prog(paths)
    n = 0
    for f in P.find(r'^MetricHelper<\d, \d>::isRPar(Outside|Inside)Range$'):
        M, Pp = map(int, re.match(r'MetricHelper<(\d), (\d)>', f['name']).groups()); C = coord_of(f)
        kind = 'Outside' if 'Outside' in f['name'] else 'Inside'
        N = f['name']; tag = '%s P=%d C=%d %s' % (METRICS[M], Pp, C, kind)
        calls = []
        def ph(E, e, o, a):
            fn = E.p.fn[e['f']]; m = {p['name']: (x.get() if isinstance(x, Loc) else x) for p, x in zip(fn['params'], a)}
            E.st.events.append((e['name'], m)); return Bl('answer')
        def go(st):
            E = Engine(P, st=st, contracts=[(re.compile(r'^ParHelper<\d>::isRPar'), ph)])
            a, _ = P3('p1', C); b, _ = P3('p2', C); rl = TempLoc(Rl('rpar0'))
            r = E.run(f, Rec(re.match(r'(.*)::', N).group(1), 'metric', True), named_args(f, p1=TempLoc(a), p2=TempLoc(b), s1ps2=Rl('S'), rpar=rl)); ctx.fns |= E.used
            return r
        c1 = P3('p1', C)[1]; c2 = P3('p2', C)[1]
        base = [Rl('S') >= 0]
        for st, r in explore(go, base):
            n += 1
            if C == 1 or (not st.events):
                ctx.prove(tag + ': no line-of-sight cut', base + st.pc, BV(r) == (kind == 'Inside'), fn=N)
                if Pp == 1 and C != 1: ctx.record(tag + ': the range is tested', False, fn=N)
                continue
            nm, m = st.events[0]
            want = 'ParHelper<%d>' % (2 * Pp if M == 5 else Pp)
            ok = len(st.events) == 1 and nm.startswith(want) and [m['p1'].name, m['p2'].name] == ['p1', 'p2']
            ctx.record(tag + ': the right test on these points', ok, fn=N, note='%s %s' % (nm, m))
            ctx.prove(tag + ': the limits of this metric', base + st.pc, z3.And(RV(m['minrpar']) == Rl('metric.minrpar'), RV(m['maxrpar']) == Rl('metric.maxrpar'), BV(r) == Bl('answer')), fn=N)
            n1, n2 = Rl('n1'), Rl('n2')
            if M == 4 and C == 2:
                hy = [n1 >= 0, n2 >= 0, n1 * n1 == dot(c1, c1), n2 * n2 == dot(c2, c2)]
                ctx.prove(tag + ': sizes scaled back to physical ones', base + st.pc + hy, RV(m['s1ps2']) >= Rl('S') * n1, fn=N)
                ctx.prove(tag + ': sizes scaled back to physical ones (2)', base + st.pc + hy, RV(m['s1ps2']) >= Rl('S') * n2, fn=N)
            else: ctx.prove(tag + ': the sizes of these cells', base + st.pc, RV(m['s1ps2']) == Rl('S'), fn=N)
    ctx.record('range tests found', n >= 20, note=str(n))

def p06_position(ctx, paths):
    """class invariant of Position: the cached norm is empty (0) or the norm of the current coordinates; sphere positions are unit vectors"""
    P = prog(paths)
    ns, nm = Rl('ns'), Rl('nm')
    for C in (1, 2, 3):
        n = 2 if C == 1 else 3
        co = [Rl('p._' + 'xyz'[i]) for i in range(n)]; qo = [Rl('q._' + 'xyz'[i]) for i in range(n)]
        def inv(o, sq=None):
            c = [RV(o.f['_' + 'xyz'[i]]) for i in range(n)]
            s = dot(c, c)
            return z3.And(z3.Or(RV(o.f['_normsq']) == 0, RV(o.f['_normsq']) == s), z3.Or(RV(o.f['_norm']) == 0, z3.And(RV(o.f['_norm']) >= 0, RV(o.f['_norm']) * RV(o.f['_norm']) == s)))
        seen = 0
        for f in P.find(r'^Position<%d>::(operator|normSq|norm$|normalize|dot|cross)' % C):
            mname = f['name'].split('::')[1]
            def go(st):
                E = Engine(P, st=st)
                o = Rec('Position<%d>' % C, 'p', True)
                for i in range(n): o.f['_' + 'xyz'[i]] = co[i]
                o.f['_normsq'], o.f['_norm'] = ns, nm
                args = []
                for p in f['params']:
                    if 'Position' in p['t']:
                        q = Rec('Position<%d>' % coord(p['t']), 'q', True)
                        for i in range(n): q.f['_' + 'xyz'[i]] = qo[i]
                        q.f['_normsq'], q.f['_norm'] = Rl('qns'), Rl('qnm')
                        args.append(TempLoc(q))
                    else: args.append(Rl('a'))
                r = E.run(f, o, args); ctx.fns |= E.used
                return E, o, (r.get() if isinstance(r, Loc) else r)
            coord = lambda t: int(re.search(r'Position<(\d)>', t).group(1))
            s = dot(co, co); qs = dot(qo, qo)
            base = [z3.Or(ns == 0, ns == s), z3.Or(nm == 0, z3.And(nm >= 0, nm * nm == s)), z3.Or(Rl('qns') == 0, Rl('qns') == qs), z3.Or(Rl('qnm') == 0, z3.And(Rl('qnm') >= 0, Rl('qnm') * Rl('qnm') == qs))]
            if 'operator/' in mname or mname == 'operator/=': base.append(Rl('a') != 0)
            if C == 3 and mname in ('normSq', 'norm'): base.append(s == 1)
            try: paths_ = explore(go, base)
            except Unsupported as e:
                ctx.undecided('Position<%d>::%s' % (C, mname), e, f['name']); continue
            seen += 1
            for k, (st, (E, o, r)) in enumerate(paths_):
                N = f['name']; t = 'Position<%d>::%s path %d: ' % (C, mname, k); pc = base + st.pc
                if C != 3 or mname not in ('normSq', 'norm'): ctx.prove(t + 'cached norm stays empty or right', pc, inv(o), fn=N)
                fld = lambda x: [RV(x.f['_' + 'xyz'[i]]) for i in range(n)]
                if mname == 'normSq': ctx.prove(t + 'value', pc, RV(r) == s, fn=N)
                elif mname == 'norm': ctx.prove(t + 'value', pc, z3.And(RV(r) >= 0, RV(r) * RV(r) == s), fn=N)
                elif mname == 'dot': ctx.prove(t + 'value', pc, RV(r) == dot(co, qo), fn=N)
                elif mname == 'cross' and n == 3: ctx.prove(t + 'value', pc, z3.And([u == v for u, v in zip(fld(r), cross(co, qo))]), fn=N)
                elif mname == 'cross': ctx.prove(t + 'value', pc, RV(r) == co[0] * qo[1] - co[1] * qo[0], fn=N)
                elif mname == 'normalize' and C == 3: ctx.prove(t + 'unit vector', pc, dot(fld(o), fld(o)) == 1, fn=N)
                elif mname == 'operator+=': ctx.prove(t + 'value', pc, z3.And([u == a + b for u, a, b in zip(fld(o), co, qo)]), fn=N)
                elif mname == 'operator-=': ctx.prove(t + 'value', pc, z3.And([u == a - b for u, a, b in zip(fld(o), co, qo)]), fn=N)
                elif mname == 'operator*=': ctx.prove(t + 'value', pc, z3.And([u == a * Rl('a') for u, a in zip(fld(o), co)]), fn=N)
                elif mname == 'operator/=': ctx.prove(t + 'value', pc, z3.And([u * Rl('a') == a for u, a in zip(fld(o), co)]), fn=N)
                elif mname in ('operator+', 'operator-', 'operator*', 'operator/') and isinstance(r, Rec):
                    sg = {'operator+': lambda a, b: a + b, 'operator-': lambda a, b: a - b, 'operator*': lambda a, b: a * Rl('a'), 'operator/': lambda a, b: a / Rl('a')}[mname]
                    ctx.prove(t + 'value', pc, z3.And([u == sg(a, b) for u, a, b in zip(fld(r), co, qo)]), fn=N)
                    ctx.prove(t + 'result cached norm empty or right', pc, inv(r), fn=N)
        ctx.record('Position<%d> members found' % C, seen >= 4, note=str(seen))
