"""P23: aperture statistics as the documented weighted sums over bins, on the real Python code.  Every returned value is a
sum over the bins of the correlation; it is compared with the documented one summand by summand (value at a generic bin and
a generic radius)."""
from specs.pyobj import *
import engine.pysym as Y

def U(n, *a): return sym.UF[n](*[RV(x) for x in a])
PIV = sym.PI
def doc_T(form, s):
    """T_+, T_-, T_x of the docstrings at s"""
    s2 = s * s
    if form == 'Crittenden':
        e = U('exp', -s2 / 4)
        return (s2 * s2 - 16 * s2 + 32) / 128 * e, s2 * s2 / 128 * e, s2 * (12 - s2) / 128 * e
    ac, sq = U('acos', s / 2), RV(sym.sqrt(4 - s2)); pi = RV(PIV)
    tp = 12 / (5 * pi) * (2 - 15 * s2) * ac + s * sq * (120 + 2320 * s2 - 754 * s2 ** 2 + 132 * s2 ** 3 - 9 * s2 ** 4) / (100 * pi)
    tm = 3 / (70 * pi) * s * s2 * sym.UF2['pow'](4 - s2, z3.Q(7, 2))
    tx = 18 / pi * s2 * ac - 3 / (40 * pi) * s * s2 * sq * (196 - 74 * s2 + 14 * s2 ** 2 - s2 ** 3)
    return [z3.If(s < 2, x, 0) for x in (tp, tm, tx)]

def at(name, ix='b'): return z3.Function(name, z3.IntSort(), z3.RealSort())(axis(ix))
M = z3.Real('sum_over_bins')

def with_mark(go):
    def f():
        Y.MARK[0] = M; Y.SYMPI[0] = True
        try: return go()
        finally: Y.MARK[0] = None; Y.SYMPI[0] = False
    return f
def idx(e, *ren):
    return z3.substitute(e, *[(axis(a), axis(b)) for a, b in ren])

def two(ctx, kind, form, Rgiven, with_rand=True):
    BS = z3.Real('bin_size')
    def go():
        st = state(); st.assume(BS > 0)
        tp = dict(mapsq='GG', gamsq='GG', nmap='NG', napsq='NN')[kind]
        c, _ = corr2(tp, 'd')
        c._ro.bin_size = scalar('bin_size')
        st.assume(at('d.meanr') >= 0)
        R = SArr.new('R', ('i',)) if Rgiven else None
        if Rgiven: st.assume(at('R', 'i') > 0)
        else: st.assume(at('ro.rnom') > 0); st.assume(z3.Function('ro.rnom', z3.IntSort(), z3.RealSort())(axis("sum_b")) > 0)
        a = {} if form is None else dict(m2_uform=form)
        if kind in ('mapsq', 'gamsq'):
            c._varxip, c._varxim = SArr.new('varxip', ('b',)), SArr.new('varxim', ('b',))
        elif kind == 'nmap':
            xi = [SArr.new(n, ('b',)) for n in ('xi', 'xi_im', 'varxi')]; seen = []
            c.calculateXi = lambda rg=None: (seen.append(rg), tuple(xi))[1]
            a['rg'] = rg = object()
        else:
            xi = [SArr.new(n, ('b',)) for n in ('xi', 'varxi')]; seen = []
            c.calculateXi = lambda rr=None, dr=None, rd=None: (seen.append((rr, dr, rd)), tuple(xi))[1]
            a.update(rr='rr', dr='dr', rd='rd')
        if kind == 'mapsq': r = type(c).calculateMapSq(c, R=R, **a)
        elif kind == 'gamsq': r = type(c).calculateGamSq(c, R=R, eb=bool(form))
        elif kind == 'nmap': r = c.calculateNMap(R=R, **a); assert seen == [rg]
        else: r = c.calculateNapSq(R=R, **a); assert seen == [('rr', 'dr', 'rd')]
        return c, r
    return go

def p23_two(ctx, kind, form, Rgiven):
    tcm = mods()
    name = dict(mapsq='calculateMapSq', gamsq='calculateGamSq', nmap='calculateNMap', napsq='calculateNapSq')[kind]
    cls = getattr(tcm, dict(mapsq='GG', gamsq='GG', nmap='NG', napsq='NN')[kind] + 'Correlation')
    f = fname(getattr(cls, name)); ctx.fns.add(f)
    go = with_mark(two(ctx, kind, form, Rgiven))
    n_ok = 0
    BS = z3.Real('bin_size')
    t = 'sum_b'
    q = 'i' if Rgiven else 'b'
    fn = lambda n: z3.Function(n, z3.IntSort(), z3.RealSort())
    Rr = fn('R')(axis('i')) if Rgiven else fn('ro.rnom')(axis('b'))
    s = fn('d.meanr')(axis(t)) / Rr
    v = lambda n: fn(n)(axis(t))
    hyp = [v('d.meanr') > 0, Rr > 0, M != 0]
    for j, (st, (k, r)) in enumerate(run(go)):
        if k == 'raise': ctx.undecided(name, 'raises %r' % (r,)); continue
        n_ok += 1
        c, out = r
        W = s * s
        if kind == 'mapsq':
            tp, tm, _ = doc_T(form or 'Crittenden', s); h = BS * W / 2
            X = lambda a, b: h * (tp * v(a) + tm * v(b)); Z = lambda a, b: h * (tp * v(a) - tm * v(b))
            want = [('mapsq', X('d._xi1', 'd._xi3')), ('mapsq_im', X('d._xi2', 'd._xi4')), ('mxsq', Z('d._xi1', 'd._xi3')), ('mxsq_im', Z('d._xi2', 'd._xi4')),
                    ('varmapsq', h * h * (tp * tp * v('varxip') + tm * tm * v('varxim')))]
        elif kind == 'gamsq':
            ac, an, sq = U('acos', s / 2), U('asin', s / 2), RV(sym.sqrt(4 - s * s)); pi = RV(PIV); s2 = s * s
            sp = z3.If(s < 2, (4 * ac - s * sq) / pi, 0)
            sm = z3.If(s < 2, (s * sq * (6 - s2) - 8 * (3 - s2) * an) / (pi * s2 * s2), 4 * (s2 - 3) / (s2 * s2))
            want = [('gamsq', BS * W * sp * v('d._xi1')), ('vargamsq', (BS * W * sp) * (BS * W * sp) * v('varxip'))]
            if form: want += [('gamsq_e', BS * W / 2 * (sp * v('d._xi1') + sm * v('d._xi3'))), ('gamsq_b', BS * W / 2 * (sp * v('d._xi1') - sm * v('d._xi3'))),
                              ('vargamsq_e', (BS * W / 2) * (BS * W / 2) * (sp * sp * v('varxip') + sm * sm * v('varxim')))]
        elif kind == 'nmap':
            _, _, tx = doc_T(form or 'Crittenden', s); h = BS * W * tx
            want = [('nmap', h * v('xi')), ('nmx', h * v('xi_im')), ('varnmap', h * h * v('varxi'))]
        else:
            tp, _, _ = doc_T(form or 'Crittenden', s); h = BS * W * tp
            want = [('napsq', h * v('xi')), ('varnapsq', h * h * v('varxi'))]
        ctx.record('path %d: number of returned values' % j, len(out) == len(want), fn=f, note='%d' % len(out))
        for (nm, w), o in zip(want, out):
            ctx.record('path %d: %s has one value per radius' % (j, nm), tuple(o.axes) == (q,), fn=f, note=str(o.axes))
            ctx.prove('path %d: %s is the documented sum' % (j, nm), st.pc + hyp, RV(o.v) == M * w, fn=f)
    ctx.record('a value is returned', n_ok > 0, fn=f)

# ---------------------------------------------------------------- three-point
def cx(x): return Cx.of(x)
def conj(x): return x.conj()
def doc_T3(s, t, k):
    """T0, T1, T2, T3: JBJ (2004) eqs. 51, 52 (after the phase adjustment) for equal radii; SKL (2005) eqs. 62-69 in general"""
    s, t = cx(s), cx(t)
    q = [(s + t) / cx(3)]; q += [q[0] - t, q[0] - s]
    a = [vmul(x, x.conj()).re for x in q]; A = vmul(vmul(a[0], a[1]), a[2])
    P = lambda *f: __import__('functools').reduce(vmul, f)
    T = []
    others = [(1, 2), (2, 0), (0, 1)]
    if k is None:
        e = -U('exp', -(RV(a[0]) + RV(a[1]) + RV(a[2])) / 2)
        T.append(vmul(e, vdiv(A, 24)))
        for i in range(3):
            j, m = others[i]
            b = P(conj(q[i]), conj(q[i]), q[j], q[m])
            T.append(vmul(e, vadd(vsub(vdiv(A, 24), vdiv(b, cx(9))), vdiv(vadd(P(b, b), P(2, a[j], a[m], b)), cx(vmul(A, 27))))))
        return T
    k2 = [x * x for x in k]
    Th2 = RV(sym.sqrt((k2[0] * k2[1] + k2[0] * k2[2] + k2[1] * k2[2]) / 3))
    x = [y / Th2 for y in k2]
    S = x[0] * x[1] * x[2]; Th4 = Th2 * Th2; Th6 = Th4 * Th2
    Z = ((2 * x[1] + 2 * x[2] - x[0]) * RV(a[0]) + (2 * x[2] + 2 * x[0] - x[1]) * RV(a[1]) + (2 * x[0] + 2 * x[1] - x[2]) * RV(a[2])) / (6 * Th2)
    e = -S * U('exp', -Z) / Th4
    f, g = [], []
    for i in range(3):
        j, m = others[i]
        dq = vdiv(vsub(q[j], q[m]), q[i])
        f.append(vadd((x[j] + x[m]) / 2, vdiv(vmul(x[j] - x[m], dq), cx(6))))
        g.append(vadd(x[j] * x[m], vdiv(vmul((x[m] - x[j]) * x[i], dq), cx(3))))
    fc, gc = [conj(y) for y in f], [conj(y) for y in g]
    T.append(vmul(e, vdiv(P(A, fc[0], fc[0], fc[1], fc[1], fc[2], fc[2]), cx(24 * Th6))))
    for i in range(3):
        j, m = others[i]
        b = P(conj(q[i]), conj(q[i]), q[j], q[m])
        one = vdiv(P(A, f[i], f[i], fc[j], fc[j], fc[m], fc[m]), cx(24 * Th6))
        two_ = vdiv(P(b, f[i], fc[j], fc[m], gc[i]), cx(9 * Th4))
        three = vdiv(vadd(P(b, b, gc[i], gc[i]), P(2 * x[j] * x[m], a[j], a[m], b, fc[j], fc[m])), cx(vmul(A, 27) * Th2))
        T.append(vmul(e, vadd(vsub(one, two_), three)))
    return T

def p23_T3(ctx, general):
    tc = mods(); cls = tc.GGGCorrelation; F = fname(cls._calculateT)
    ctx.fns.add(F)
    s = scalar('s'); tx, ty = z3.Real('tx'), z3.Real('ty'); t = SArr((), Cx(tx, ty)); ks = [z3.Real('k%d' % i) if general is True else z3.RealVal(general[i - 1] if general else 1) for i in (1, 2, 3)]
    def go():
        st = state(); st.assume(s.v > 0); st.assume(ty != 0)
        if general:
            for x in ks: st.assume(x > 0)
            return cls._calculateT(s, t, *[SArr((), x) for x in ks])
        return cls._calculateT(s, t, 1., 1, 1)
    for j, (st, (k, r)) in enumerate(run(go)):
        if k == 'raise': ctx.undecided('_calculateT', 'raises %r' % (r,)); continue
        eq1 = general and sym.prove(list(st.pc), z3.And(*[x == 1 for x in ks]), timeout=1.0, axioms=False).status == 'proved'
        want = doc_T3(s.v, t.v, None if not general or eq1 else ks)
        for i, (w, o) in enumerate(zip(want, r)):
            v = cx(o.v); w = cx(w)
            for p in ('re', 'im'): ctx.prove('path %d: T%d %s' % (j, i, p), st.pc, RV(getattr(v, p)) == RV(getattr(w, p)), fn=F)
        if general and not eq1:
            for i, w in enumerate(doc_T3(s.v, t.v, None)):
                for p in ('re', 'im'):
                    e = z3.substitute(RV(getattr(cx(r[i].v), p)), *[(x, z3.RealVal(1)) for x in ks])
                    ctx.prove('path %d: the general T%d %s at equal radii is the formula for equal radii' % (j, i, p), [s.v > 0, ty != 0], z3.simplify(e) == RV(getattr(cx(w), p)), fn=F)

def p23_map3(ctx, bt, kk, Rgiven, part=0, parts=1):
    """calculateMap3 over the contract of _calculateT (any complex T0..T3 that depend on s, t, k1, k2, k3)"""
    tc = mods(); cls = tc.GGGCorrelation; F = fname(cls.calculateMap3)
    ctx.fns.add(F)
    fn = lambda n: z3.Function(n, z3.IntSort(), z3.RealSort())
    B3 = z3.RealSort()
    def TF(i, p, ks): return z3.Function('T%d%s' % (i, p), z3.IntSort(), B3, B3, B3, B3)(axis('sum_b'), *[RV(x) for x in ks])
    def go():
        st = state(); args = []
        Y.SYMPI[0] = False; c, _ = corr3('GGG', bt, 'd'); Y.SYMPI[0] = True
        c.__class__ = type('GGGX', (cls,), dict(_calculateT=staticmethod(
            lambda s, t, a, b, d: (args.append((s, t)), tuple(SArr(s.axes, Cx(idx(TF(i, 'r', [lift(x) for x in (a, b, d)]), ('sum_b', s.axes[1])), idx(TF(i, 'i', [lift(x) for x in (a, b, d)]), ('sum_b', s.axes[1])))) for i in range(4)))[1])))
        ro = c._ro
        for n in ('bin_size', 'ubin_size', 'vbin_size'): setattr(ro, n, scalar(n)); st.assume(scalar(n).v > 0)
        ro.rnom1d = SArr.new('rnom1d', ('i',))
        if bt == 'LogSAS': ro._phi_units = scalar('phi_units'); st.assume(scalar('phi_units').v > 0)
        for i in range(4): c.__dict__['_vargam%d' % i] = SArr.new('var%d' % i, ('b',))
        R = SArr.new('R', ('i',)) if Rgiven else None
        for q in ('b', 'sum_b'):
            for n in ('meand1', 'meand2', 'meand3'): st.assume(fn('d.' + n)(axis(q)) > 0)
        st.assume(fn('R' if Rgiven else 'rnom1d')(axis('i')) > 0)
        kw = {} if kk is None else dict(k2=SArr((), z3.Real('k2')), k3=SArr((), z3.Real('k3')))
        return c.calculateMap3(R=R, **kw), args
    go = with_mark(go)
    R = fn('R' if Rgiven else 'rnom1d')(axis('i'))
    v = lambda n: fn(n)(axis('sum_b'))
    BS, UB, VB, PI = z3.Real('bin_size'), z3.Real('ubin_size'), z3.Real('vbin_size'), sym.PI
    d1, d2, d3 = [v('d.meand%d' % i) / R for i in (1, 2, 3)]
    s = d2
    n_ok = 0
    for j, (st, (k, r)) in enumerate(run(go)):
        if k == 'raise': ctx.undecided('calculateMap3', 'raises %r' % (r,)); continue
        n_ok += 1
        r, args = r
        pc = list(st.pc) + [M != 0]
        if bt == 'LogRUV':
            u, w = v('d.meanu'), v('d.meanv')
            tx = d3 * (u * (1 - w * w) / 2 - z3.If(w >= 0, w, -w))
            bad = z3.Or(tx <= -d3, tx >= d3)
            ty = RV(sym.sqrt(d3 * d3 - tx * tx)) 
            T_t = Cx(tx, z3.If(w > 0, -ty, ty))
            jac = d3 * d3 * d1 / ty
            area = UB * VB
            pc.append(z3.Not(bad))         # invalid triangles: separately
            if ctx.prove('path %d: the transverse component is positive' % j, pc, ty > 0, fn=F): pc.append(ty > 0)
        else:
            ph = v('d.meanu') * z3.Real('phi_units'); T_t = Cx(d3 * U('cos', ph), d3 * U('sin', ph))
            jac = d3 * d3; area = BS * UB
        wt = s * s * BS * jac * area / (2 * PI)
        ks = (1, 1, 1) if kk is None else (z3.RealVal(1), z3.Real('k2'), z3.Real('k3'))
        equal = kk is None or sym.prove(list(st.pc), z3.And(z3.Real('k2') == 1, z3.Real('k3') == 1), timeout=1.0, axioms=False).status == 'proved'
        def TT(i, kp): return Cx(TF(i, 'r', kp), TF(i, 'i', kp))
        g = [Cx(v('d._z%d' % (2 * i + 1)), v('d._z%d' % (2 * i + 2))) for i in range(4)]
        # natural components with the conjugate on the first, second, third aperture
        if equal: kone = [lift(1.), lift(1), lift(1)] if kk is None else [lift(1.), z3.Real('k2'), z3.Real('k3')]
        N = 6 if bt == 'LogRUV' else 2
        acc = {n: Cx(0, 0) for n in ('mmm', 0, 1, 2)}; co = [Cx(0, 0)] * 4
        if bt == 'LogRUV': perms = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
        else: perms = [(0, 1, 2), (0, 2, 1)]
        for pm in perms:
            kp = [ks[x] for x in pm] if not equal else kone
            t0 = [TT(i, kp) for i in range(4)]
            acc['mmm'] = acc['mmm'] + t0[0] * g[0]; co[0] = co[0] + t0[0]
            for i in range(3): acc[pm[i]] = acc[pm[i]] + t0[i + 1] * g[i + 1]; co[i + 1] = co[i + 1] + t0[i + 1]
        m, c1, c2, c3 = acc['mmm'], acc[0], acc[1], acc[2]
        neg_ = lambda z: Cx(0, 0) - z
        want = [('map3', (c1 + c2 + c3 + m).re), ('mapmapmx', (c1 + c2 + neg_(c3) + m).im), ('mapmxmap', (c1 + neg_(c2) + c3 + m).im), ('mxmapmap', (neg_(c1) + c2 + c3 + m).im),
                ('mxmxmap', (c1 + c2 + neg_(c3) + neg_(m)).re), ('mxmapmx', (c1 + neg_(c2) + c3 + neg_(m)).re), ('mapmxmx', (neg_(c1) + c2 + c3 + neg_(m)).re), ('mx3', (c1 + c2 + c3 + neg_(m)).im)]
        for q, (sa, ta) in enumerate(args):
            if q % parts != part: continue
            b = sa.axes[1]
            ctx.prove('path %d: call %d of _calculateT: s is the second side in units of R' % (j, q), pc, idx(RV(sa.v), (b, 'sum_b')) == s, fn=F)
            for p in ('re', 'im'): ctx.prove('path %d: call %d of _calculateT: t is the third side as a vector (%s)' % (j, q, p), pc, idx(RV(getattr(cx(ta.v), p)), (b, 'sum_b')) == getattr(T_t, p), fn=F)
        # at equal radii the three apertures are interchangeable: only the sums over the position of the conjugate are compared
        out = dict(zip([n for n, _ in want] + ['var'], r))
        if equal and bt == 'LogSAS': pass
        for q, (n, w_) in enumerate(want):
            if q % parts != part: continue
            ctx.prove('path %d: %s' % (j, n), pc, RV(out[n].v) == M * RV(w_) * wt / 4, fn=F)
        cov = z3.Sum(*[RV(co[i].norm()) * v('var%d' % i) for i in range(4)]) * wt * wt / 16
        if part == parts - 1: ctx.prove('path %d: variance' % j, pc, RV(out['var'].v) == M * cov, fn=F)
        if bt == 'LogRUV' and part == 0:
            pc2 = list(st.pc) + [bad, M != 0]
            for n, _ in want: ctx.prove('path %d: %s: impossible triangles do not contribute' % (j, n), pc2, RV(out[n].v) == 0, fn=F)
    ctx.record('a value is returned', n_ok > 0, fn=F)
