"""P17 / P18: contracts of the estimators with randoms and of the patch-based covariance machinery, on the real Python code"""
from specs.pyobj import *
import itertools

def sc(n): return scalar(n)
def fam(tp, name, three=False):
    c, names = corr3(tp, 'LogRUV', name) if three else corr2(tp, name)
    return c, names

def p17_nn(ctx, three, have):
    """calculateXi / calculateZeta without patches; have = the cross counts supplied"""
    tp = 'NNN' if three else 'NN'
    wname = 'weightr' if three else 'weight'
    lam = z3.Real('lam')
    def go():
        st = state()
        objs = {k: fam(tp, k, three)[0] for k in ('dd', 'rr') + have}
        for k, o in objs.items(): o._mean_weight = lambda k=k: sc('meanw_' + k)      # only enters the variance estimate
        d = objs['dd']
        if three: d.data_shape = SShape(('b',))
        kw = {dict(rr='rrr', dr='drr', rd='rdd')[k] if three else k: objs[k] for k in objs if k != 'dd'}
        f = (lambda q: q.calculateZeta(**kw)) if three else (lambda q: q.calculateXi(**kw))
        try: xi, var = f(d)
        except ValueError as e: return ('err', e)
        # the same with one random catalog's counts and total scaled
        out = []
        for s in kw.values():
            st.assume(lam > 0)
            t, w = s.tot, s.__dict__[wname]
            s.__dict__[wname] = w * sc('lam'); s.tot = t * sc('lam')
            d2 = fam(tp, 'dd', three)[0]; d2._mean_weight = d._mean_weight
            if three: d2.data_shape = SShape(('b',))
            xi2, var2 = f(d2)
            s.tot, s.__dict__[wname] = t, w
            out.append((xi2, var2))
        return ('ok', d, xi, var, out, list(kw), objs)
    W = lambda k: RV(SArr.new('%s.%s' % (k, wname), ('b',)).v)
    T = lambda k: z3.Real(k + '.tot')
    for j, (st, (k, r)) in enumerate(run(go)):
        if k == 'raise': ctx.undecided('estimator', 'raises %r' % (r,)); continue
        f = 'treecorr:%s.%s' % (tp + 'Correlation', 'calculateZeta' if three else 'calculateXi'); ctx.fns.add(f)
        zero = z3.Or(*[T(q) == 0 for q in ('rr',) + have])
        if r[0] == 'err': ctx.prove('an error is raised only for an empty random total', st.pc, zero, fn=f); continue
        _, d, xi, var, out, kws, objs = r
        ctx.prove('no estimate is formed from an empty random total', st.pc, z3.Not(zero), fn=f)
        n = lambda q: W(q) * T('dd') / T(q)
        rr = n('rr')
        if three: num = W('dd') - rr if not have else W('dd') - n('rd') + n('dr') - rr
        elif not have: num = W('dd') - rr
        elif len(have) == 1: num = W('dd') - 2 * n(have[0]) + rr
        else: num = W('dd') - n('dr') - n('rd') + rr
        live = [W('rr') != 0, T('dd') != 0]
        ctx.prove('the estimate is the documented combination of normalised counts', st.pc + live, RV(xi.v) == num / rr, fn=f)
        ctx.prove('the stored estimate is the returned one', st.pc, z3.And(RV((d.zeta if three else d.xi).v) == RV(xi.v), RV((d.varzeta if three else d.varxi).v) == RV(var.v)), fn=f)
        for q in kws:
            pass
        for q, o in objs.items():
            ctx.prove('the counts of %s are left alone' % q, st.pc, z3.And(RV(o.__dict__[wname].v) == W(q), RV(lift(o.tot)) == T(q)), fn=f)
        for q, (xi2, var2) in zip(kws, out):
            ctx.prove('scaling the counts of %s leaves the estimate alone' % q, st.pc + live, RV(xi2.v) == RV(xi.v), fn=f)

def p17_comp(ctx, tp):
    """NK and complex fields: the compensated estimate"""
    z = tp != 'NK'
    def go(withr):
        def g():
            d, _ = fam(tp, 'd'); r, _ = fam(tp, 'r')
            for q, n in ((d, 'd'), (r, 'r')):
                q.xi = q.raw_xi if n == 'd' else SArr.new('r.xi', ('b',))
                if z: q.xi_im = q.raw_xi_im if n == 'd' else SArr.new('r.xi_im', ('b',))
                q._raw_varxi = SArr.new(n + '.rawvar', ('b',)); q._varxi = SArr.new(n + '.var', ('b',))
            a = {'r' + tp[1].lower(): r} if withr else {}
            return d, d.calculateXi(**a)
        return g
    for withr in (True, False):
        for st, (k, r) in run(go(withr)):
            if k == 'raise': ctx.undecided('compensated', 'raises %r' % (r,)); continue
            d, out = r
            f = fname(type(d).calculateXi); ctx.fns.add(f)
            S = lambda n: RV(SArr.new(n, ('b',)).v)
            sub = (lambda n: S(n)) if withr else (lambda n: z3.RealVal(0))
            want = [('xi', S('d._xi1') - sub('r.xi'))] + ([('xi_im', S('d._xi2') - sub('r.xi_im'))] if z else []) + [('varxi', S('d.rawvar') + sub('r.var'))]
            ctx.record('one array per component is returned', len(out) == len(want), fn=f)
            for (n, w), o in zip(want, out):
                ctx.prove('%s %s' % (n, 'is data minus random' if withr else 'without random is the raw value'), st.pc, RV(o.v) == w, fn=f)
                ctx.prove('%s is stored' % n, st.pc, RV(getattr(d, n).v) == w, fn=f)
            for i in (1, 2):
                if i == 1 or z: ctx.prove('the raw component %d is left alone' % i, st.pc, RV(getattr(d, '_xi%d' % i).v) == S('d._xi%d' % i), fn=f)

# ---------------------------------------------------------------- P18
class Stub: pass

def npsym(st, n):
    v = [z3.Int('np%d' % (i + 1)) for i in range(n)]
    for x in v: st.assume(x >= 1)
    m = z3.Int('npmax')
    for x in v: st.assume(z3.Or(x == m, x == 1))
    st.assume(z3.Or(*[x == m for x in v])); st.assume(m >= 2)
    return v, m

def p18_leaveout(ctx, three, kind):
    """jackknife / sample pair lists, for one generic stored pair and one generic realisation"""
    n = 3 if three else 2
    tc = mods()
    cls = tc.KKKCorrelation if three else tc.KKCorrelation
    def go():
        st = state(); RANGES.clear()
        v, m = npsym(st, n)
        c = Stub.__new__(type('S', (cls,), {'__init__': lambda s: None}))
        c = cls.__new__(cls)
        for i in range(n): c.__dict__['npatch%d' % (i + 1)] = SArr((), v[i])
        keys = []
        def elem():
            k = [st.new('k', 'I') for _ in range(n)]
            for q, x in zip(k, v): st.assume(z3.And(q >= 0, q < x))
            keys.append(k)
            return tuple(SArr((), q) for q in k)
        c.results = SIter(elem)
        rows = getattr(c, '_%s_pairs' % kind)()
        out = []
        for row in rows: out.append([tuple(lift(q) for q in p) for p in row])
        return v, m, keys, list(RANGES), out, c
    for j, (st, (k, r)) in enumerate(run(go)):
        f = 'treecorr:%s._%s_pairs' % (cls.__name__, kind); ctx.fns.add(f)
        if k == 'raise': ctx.undecided('pair list', 'raises %r' % (r,)); continue
        v, m, keys, rng, out, c = r
        if len(out) != 1 or len(keys) != 1 or len(rng) != 1: ctx.undecided('pair list', 'not a plain selection: %d rows, %d passes' % (len(out), len(keys))); continue
        i, bound = rng[0]; key = keys[0]; got = out[0]
        ctx.prove('path %d: one realisation per patch' % j, st.pc, RV(bound) == z3.ToReal(m), fn=f)
        if kind == 'jackknife': keep = z3.And(*[z3.Or(x == 1, q != i) for q, x in zip(key, v)])
        else:                      # the first catalog with patches decides
            keep = key[-1] == i
            for q, x in reversed(list(zip(key, v))[:-1]): keep = z3.If(x != 1, q == i, keep)
        if got:
            ctx.record('path %d: the pair itself is kept, once' % j, len(got) == 1, fn=f)
            ctx.prove('path %d: a kept pair is the stored one' % j, st.pc, z3.And(*[RV(a) == RV(b) for a, b in zip(got[0], key)]), fn=f)
            ctx.prove('path %d: only pairs of the realisation are kept' % j, st.pc, keep, fn=f)
        else: ctx.prove('path %d: no pair of the realisation is dropped' % j, st.pc, z3.Not(keep), fn=f)

def p18_boot(ctx, three, kind, pattern):
    """marked / bootstrap pair lists: with generic draws, each loop over the draws yields one generic draw; the family of
    emitted pairs is compared with the definition"""
    n = 3 if three else 2
    tc = mods()
    cls = tc.KKKCorrelation if three else tc.KKCorrelation
    ok = z3.Function('ok', *([z3.IntSort()] * n + [z3.BoolSort()]))
    class OK:
        def __getitem__(self, k): return SArr((), ok(*[toint(lift(q)) for q in k]))
    def go():
        st = state(); RANGES.clear()
        m = z3.Int('npmax'); st.assume(m >= 2)
        v = [m if p else z3.IntVal(1) for p in pattern]
        c = cls.__new__(cls)
        for i in range(n): c.__dict__['npatch%d' % (i + 1)] = SArr((), m) if pattern[i] else 1
        c.__dict__['_ok'] = OK()
        c.results = {}
        draws = []
        def elem():
            d = st.new('draw', 'I'); st.assume(z3.And(d >= 0, d < m)); draws.append(d); return SArr((), d)
        rows = getattr(c, '_%s_pairs' % kind)(SIter(elem))
        emit = []
        for p in rows: emit.append((len(st.pc), tuple(lift(q) for q in p), list(draws), [x[0] for x in RANGES]))
        return emit, draws, list(RANGES), list(st.pc)
    fams = {}
    f = 'treecorr:%s._%s_pairs' % (cls.__name__, kind); ctx.fns.add(f)
    paths = []
    for j, (st, (k, r)) in enumerate(run(go)):
        if k == 'raise': ctx.undecided('pair list', 'raises %r' % (r,)); continue
        paths.append((list(st.pc), r))
    # every emitted tuple: its components are draws (or free range indices, or 0), it is present in the table, and the
    # set of distinct draws it uses determines the family
    act = [i for i in range(n) if pattern[i]]
    for j, (pc, (emit, draws, rngs, _)) in enumerate(paths):
        for (_, t, ds, rs) in emit:
            terms = [toint(x) if not isinstance(x, int) else z3.IntVal(x) for x in t]
            ctx.prove('path %d: an emitted pair is in the results' % j, pc, ok(*terms), fn=f)
            for i in range(n):
                if not pattern[i]: ctx.prove('path %d: the unpatched catalog has index 0' % j, pc, terms[i] == 0, fn=f)
            if kind == 'marked':
                ctx.record('path %d: the first patched index is a draw' % j, any(terms[act[0]].eq(d) for d in ds), fn=f)
                for i in act[1:]: ctx.record('path %d: the other indices run over all patches' % j, any(terms[i].eq(x[0]) for x in rngs), fn=f)
            else:
                ctx.record('path %d: every patched index is a draw' % j, all(any(terms[i].eq(d) for d in ds) for i in act), fn=f)
                for a, b in itertools.combinations(act, 2):
                    if not terms[a].eq(terms[b]): ctx.prove('path %d: independent draws give different patches' % j, pc, terms[a] != terms[b], fn=f)
    # completeness: a family that is not emitted on a path is excluded by its definition there
    if kind == 'bootstrap':
        want = set()
        for part in set(tuple(p) for p in itertools.product(range(len(act)), repeat=len(act))):
            canon = []; mp = {}
            for q in part: canon.append(mp.setdefault(q, len(mp)))
            want.add(tuple(canon))
    else: want = {tuple(range(len(act)))}
    seen = {}
    for pc, (emit, draws, rngs, _) in paths:
        cnt = {}
        for (_, t, ds, rs) in emit:
            terms = [toint(x) if not isinstance(x, int) else z3.IntVal(x) for x in t]
            mp = {}; canon = tuple(mp.setdefault(terms[i].sexpr(), len(mp)) for i in act)
            cnt[canon] = cnt.get(canon, 0) + 1
        for c_, k_ in cnt.items(): seen[c_] = max(seen.get(c_, 0), k_)
    ctx.record('each family of index coincidences is emitted exactly once', seen == {w: 1 for w in want}, fn=f)
    if seen != {w: 1 for w in want}: print('families', seen, want)

def p18_cov(ctx, which):
    """_cov_*: the documented quadratic form in the design matrix"""
    tc = mods()
    import treecorr.corr2base as B
    fn = getattr(B, '_cov_' + which)
    for cplx in (False, True):
        def go():
            v = SArr.new('v', ('p', 'x'), 'C' if cplx else 'R'); w = SArr.new('w', ('p',))
            old = B.__dict__['_design_' + which]
            B.__dict__['_design_' + which] = lambda corrs, func, comm=None: (v.copy(), w.copy())
            try: C = fn([None], None, None)
            finally: B.__dict__['_design_' + which] = old
            return C
        for j, (st, (k, C)) in enumerate(run(go)):
            f = fname(fn); ctx.fns.add(f)
            P = z3.ToReal(z3.Int('len_p'))
            if k == 'raise':
                # only: some realisation has no weight
                ctx.record('%s raises only for an empty realisation' % which, which == 'sample' and isinstance(C, RuntimeError), fn=f); continue
            CUR[0] = st
            v = SArr.new('v', ('p', 'x'), 'C' if cplx else 'R'); w = SArr.new('w', ('p',))
            d = v - np.mean(v, axis=0)
            fac = {'jackknife': 1 - 1 / P, 'sample': 1 / (P - 1), 'bootstrap': 1 / (P - 1), 'marked': 1 / (P - 1)}[which]
            if which == 'sample': a = (w / np.sum(w))[:, None] * np.conjugate(d)
            else: a = np.conjugate(d)
            want = np.dot(np.transpose(a), d) * SArr((), fac)
            st.assume(z3.Int('len_p') >= 2)
            st.assume(RV(np.sum(w).v) != 0)
            gv, wv = Cx.of(C.v), Cx.of(want.v)
            ctx.record('%s covariance is a matrix over the data vector' % which, [a.rstrip("'") for a in C.axes] == ['x', 'x'], fn=f)
            ctx.prove('%s covariance is the documented quadratic form (real part)' % which, st.pc, RV(gv.re) == RV(wv.re), fn=f)
            if cplx: ctx.prove('%s covariance is the documented quadratic form (imaginary part)' % which, st.pc, RV(gv.im) == RV(wv.im), fn=f)

def p18_rows(ctx):
    """_make_cov_design_matrix_core: each row is func of the correlations recomputed from that row's pairs, on copies"""
    tc = mods()
    import treecorr.corr2base as B
    f = fname(B._make_cov_design_matrix_core); ctx.fns.add(f)
    class Corr:
        log = None
        def __init__(s, n): s.n, s.state, s.iscopy = n, None, False; s.logger = type('L', (), {'error': lambda *a: None})(); s.bad = []
        def copy(s): c = Corr(s.n); c.state, c.iscopy = s.state, True; return c
        def _calculate_xi_from_pairs(s, p):
            if not s.iscopy: s.bad.append(p)
            s.state = tuple(p)
        def _clear(s): 
            if not s.iscopy: s.bad.append('clear')
            s.state = 'clear'
        def getStat(s): return np.array([hash((s.n, s.state, i)) % 1009 for i in range(3)], dtype=float)
        def getWeight(s): return np.array([hash((s.n, s.state, 'w', i)) % 1013 for i in range(2)], dtype=float)
    plists = [[(1, 1)], [(0, 0), (0, 1)], [], [(2, 2), (2, 2)]]
    plist = [(iter(a), iter(b)) for a, b in zip(plists, plists[1:] + plists[:1])]
    for nc in (1, 2):
        for size in (1, 2, 3):
            tv = tw = 0
            for rank in range(size):
                cs = [Corr(i) for i in range(nc)]
                v, w = B._make_cov_design_matrix_core(cs, [tuple(iter(plists[(r + i) % 4]) for i in range(nc)) for r in range(4)], None, 'x', rank, size)
                ctx.record('the original correlations are left alone', all(not c.bad and c.state is None for c in cs), fn=f)
                tv = tv + v; tw = tw + w
            exp = []; ew = []
            for r in range(4):
                cc = []
                for i in range(nc):
                    c = Corr(i); p = plists[(r + i) % 4]; c.state = tuple(p) if p else 'clear'; cc.append(c)
                exp.append(np.concatenate([c.getStat() for c in cc])); ew.append(sum(c.getWeight().sum() for c in cc))
            ctx.record('rows are the statistics of their own pairs, each computed by one process (%d correlations, %d processes)' % (nc, size), np.array_equal(tv, exp) and np.allclose(tw, ew), fn=f)

def p18_diag(ctx, tp):
    """cov and cov_diag return the estimated matrix / its diagonal, and the variances are that diagonal"""
    def go():
        c, names = corr2(tp, 'a')
        c._ro._nbins = SArr((), z3.Int('len_b'))
        C = SArr.new('C', ('b', "b'")); calls = []
        c.estimate_cov = lambda m, **k: (calls.append(m), C)[1]
        c._var_num = scalar('vn'); state().assume(z3.Real('vn') != 0)
        return c, C, c.cov, c.cov_diag, calls, (c.varxi if tp != 'NN' else None)
    for st, (k, r) in run(go):
        if k == 'raise': ctx.undecided('cov', 'raises %r' % (r,)); continue
        c, C, cov, cd, calls, vx = r
        f = 'treecorr.corr2base:Corr2.cov_diag'; ctx.fns |= {f, 'treecorr.corr2base:Corr2.cov'}
        dg = z3.substitute(C.v, (axis("b'"), axis('b')))
        ctx.prove('cov is the estimated matrix', st.pc, RV(cov.v) == C.v, fn=f)
        ctx.prove('cov_diag is its diagonal', st.pc, RV(cd.v) == dg, fn=f)
        ctx.record('estimated once, with the configured method', calls == [c.var_method], fn=f)
        if vx is not None: ctx.prove('the variance is that diagonal', st.pc, RV(vx.v) == dg, fn=f)

# ---- recomputation of the statistic from the kept pairs
PAIRS2 = {'leave one out': [(0, 0), (0, 2), (2, 0), (2, 2)], 'first patch only': [(0, 0), (0, 1), (0, 2)], 'bootstrap': [(0, 0), (2, 2), (2, 2), (0, 2), (0, 2), (2, 0), (2, 0)]}
def full(n, npv): return list(itertools.product(*[range(npv[i]) for i in range(n)]))
class Rec:
    """an object whose _sum is replaced by its contract (P05): it records what it adds and then holds fresh totals"""
def summed(o, name, tp, log):
    three = len(tp) == 3
    wname = 'weightr' if three else 'weight'
    def _sum(others):
        log.append((name, list(others)))
        o.__dict__[wname] = SArr.new(name + '.S.w', ('b',))
        if hasattr(o, 'tot'): o.tot = scalar(name + '.S.tot')
        for i in (1, 2):
            if type(o.__dict__.get('_xi%d' % i)) is SArr: o.__dict__['_xi%d' % i] = SArr.new(name + '.S.xi%d' % i, ('b',))
        if hasattr(o, 'raw_xi'): o.xi = o.raw_xi
        if hasattr(o, 'raw_xi_im'): o.xi_im = o.raw_xi_im
    o._sum = _sum
    o._finalize = lambda: log.append((name, 'finalize'))
    if tp in ('NK', 'NZ', 'NG', 'NV', 'NT', 'NQ') and name == 'r':
        orig = o._calculate_xi_from_pairs
    return o
class Res:
    def __init__(s, tag, key): s.tag, s.key, s.tot = tag, key, scalar('%s.tot%s' % (tag, ''.join(map(str, key))))
    def __repr__(s): return s.tag + str(s.key)

def p18_counts(ctx, three, have, cfg, pl, dims=None):
    """NN / NNN: the realisation's estimate uses, for every count, exactly the kept pairs (mapped to the random's own patches)"""
    tp = 'NNN' if three else 'NN'; n = 3 if three else 2
    pairs = PAIRS2[pl]
    if three: pairs = [p + (q,) for p in pairs for q in ((p[1],) if pl == 'first patch only' else (p[0], p[1]))]
    dims = tuple(dims or (3,) * n)                      # which of the data catalogs have patches
    pairs = [tuple(x if d > 1 else 0 for x, d in zip(p, dims)) for p in pairs]
    if dims != (3,) * n and pl != 'bootstrap': pairs = sorted(set(pairs))
    def go():
        log = []
        objs = {}
        for k in ('dd', 'rr') + have:
            o, _ = fam(tp, k, three); npv = list(dims)
            if k == 'dr' and cfg == 'unpatched': npv = [dims[0]] + [1] * (n - 1)
            if k == 'rd' and cfg == 'unpatched': npv = [1] + list(dims[1:])
            if k == 'rr' and cfg == 'unpatched': npv = [1] * n
            for i in range(n): o.__dict__['npatch%d' % (i + 1)] = npv[i]
            keys = full(n, npv)
            if k == 'rr': keys = [] if cfg == 'unpatched' else [q for q in keys if list(q) == sorted(q) or dims != (3,) * n]      # an auto-correlation
            if k == 'dr' and cfg != 'unpatched': keys = [q for q in keys if q != (2,) + (0,) * (n - 1)]       # a pair without contributions
            o.results = {q: Res(k, q) for q in keys}
            objs[k] = summed(o, k, tp, log)
        d = objs['dd']
        nm = dict(rr='_rrr', dr='_drr', rd='_rdd') if three else dict(rr='_rr', dr='_dr', rd='_rd')
        for k in ('rr', 'dr', 'rd'): d.__dict__[nm[k]] = objs.get(k)
        d._calculate_xi_from_pairs(list(pairs))
        return d, objs, log
    wn = 'weightr' if three else 'weight'
    for j, (st, (k, r)) in enumerate(run(go)):
        cls = load_treecorr().NNNCorrelation if three else load_treecorr().NNCorrelation
        f = fname(cls._calculate_xi_from_pairs); ctx.fns.add(f)
        if k == 'raise': ctx.undecided('realisation', 'raises %r' % (r,)); continue
        d, objs, log = r
        got = {q: [x.key for x in l] for q, l in log if l != 'finalize'}
        cons = lambda q: all(x.tag == q for _, l in log if _ == q and l != 'finalize' for x in l)
        use = [i for i in range(n) if dims[i] != 1]
        diag = lambda p: len({p[i] for i in use}) == 1      # within one patch of every catalog that has patches
        want = {'dd': pairs}
        if cfg == 'unpatched':
            if 'dr' in have: want['dr'] = [(p[0],) + (0,) * (n - 1) for p in pairs if diag(p)]
            if 'rd' in have and dims[0] == 1: want['rd'] = list(pairs)
            elif 'rd' in have:
                if three: want['rd'] = [(0, p[1], p[2]) for p in pairs if p[0] == p[1] or p[0] == p[2]]
                else: want['rd'] = [(0, p[1]) for p in pairs if diag(p)]
        else:
            for q in ('rr',) + have: want[q] = [p for p in pairs if p in objs[q].results]
        for q in want:
            ctx.record('the %s sum is over exactly the kept pairs' % q, sorted(got.get(q, [])) == sorted(want[q]) and cons(q), fn=f)
        ctx.record('nothing else is summed', set(got) == set(want), fn=f)
        ctx.record('the data sums are normalised', ('dd', 'finalize') in log, fn=f)
        W = lambda q: RV(SArr.new(q + '.S.w', ('b',)).v) if q in want else RV(SArr.new('%s.%s' % (q, wn), ('b',)).v)
        T = lambda q: z3.Real(q + '.S.tot') if q in want else z3.Real(q + '.tot')
        if cfg == 'unpatched':
            CUR[0] = st
            rt = (lambda p: z3.Real('dd.tot%s' % ''.join(map(str, p))))
            root = lambda x: RV(vpow(x, {1: lift(1.), 2: Fraction(1, 2), 3: lift(1. / 3.)}[len(use)]))
            af = z3.Sum([root(rt(p)) for p in pairs if diag(p)]) / z3.Sum([root(rt(p)) for p in objs['dd'].results if diag(p)])
            ddt = z3.Sum([rt(p) for p in objs['dd'].results]) * af
        else: ddt = T('dd')
        nrm = lambda q: W(q) * ddt / T(q)
        rr = nrm('rr')
        if three: num = W('dd') - rr if not have else W('dd') - nrm('rd') + nrm('dr') - rr
        elif not have: num = W('dd') - rr
        elif len(have) == 1: num = W('dd') - 2 * nrm(have[0]) + rr
        else: num = W('dd') - nrm('dr') - nrm('rd') + rr
        xi = (d.zeta if three else d.xi).v
        ctx.prove('the realisation is the documented combination of its own counts', st.pc + [rr != 0] + [T(q) != 0 for q in ('rr',) + have], RV(xi) == num / rr, fn=f)

def p18_comp(ctx, tp, cfg, pl):
    pairs = PAIRS2[pl]; z = tp != 'NK'; key = '_rk' if not z else '_rz'
    def go():
        log = []
        d, _ = fam(tp, 'd'); r, _ = fam(tp, 'r')
        d.npatch1 = d.npatch2 = 3; r.npatch1, r.npatch2 = (1 if cfg == 'unpatched' else 3), 3
        d.results = {q: Res('d', q) for q in full(2, (3, 3))}
        r.results = {q: Res('r', q) for q in full(2, (r.npatch1, 3)) if q != (0, 2) or cfg == 'unpatched'}
        for o, n_ in ((d, 'd'), (r, 'r')): summed(o, n_, tp, log)
        d.__dict__[key] = r; r.__dict__[key] = None
        d._calculate_xi_from_pairs(list(pairs))
        return d, r, log
    for j, (st, (k, r)) in enumerate(run(go)):
        cls = getattr(load_treecorr(), tp + 'Correlation')
        f = fname(cls._calculate_xi_from_pairs); ctx.fns.add(f)
        if k == 'raise': ctx.undecided('realisation', 'raises %r' % (r,)); continue
        d, rr, log = r
        got = {q: [(x.tag, x.key) for x in l] for q, l in log if l != 'finalize'}
        wr = [(0, p[1]) for p in pairs if p[0] == p[1]] if cfg == 'unpatched' else [p for p in pairs if p in rr.results]
        ctx.record('the data sum is over exactly the kept pairs', sorted(got.get('d', [])) == sorted(('d', p) for p in pairs), fn=f)
        ctx.record('the random sum is over exactly the kept pairs', sorted(got.get('r', [])) == sorted(('r', p) for p in wr), fn=f)
        ctx.record('both are normalised', ('d', 'finalize') in log and ('r', 'finalize') in log, fn=f)
        S = lambda n_: RV(SArr.new(n_, ('b',)).v)
        ctx.prove('xi of the realisation is data minus random', st.pc, RV(d.xi.v) == S('d.S.xi1') - S('r.S.xi1'), fn=f)
        if z: ctx.prove('xi_im of the realisation is data minus random', st.pc, RV(d.xi_im.v) == S('d.S.xi2') - S('r.S.xi2'), fn=f)

def p18_plain(ctx, tp, bt='Log'):
    three = len(tp) == 3
    def go():
        log = []
        d, _ = corr3(tp, bt, 'd') if three else corr2(tp, 'd', bt)
        n = 3 if three else 2
        d.results = {q: Res('d', q) for q in full(n, (2,) * n)}
        summed(d, 'd', tp, log)
        ps = [q for q in d.results if q[0] == 1] * 2
        d._calculate_xi_from_pairs(list(ps))
        return d, log, ps
    for st, (k, r) in run(go):
        cls = getattr(load_treecorr(), tp + 'Correlation')
        f = fname(cls._calculate_xi_from_pairs); ctx.fns.add(f)
        if k == 'raise': ctx.undecided('realisation', 'raises %r' % (r,)); continue
        d, log, ps = r
        ctx.record('%s: the kept pairs are summed once each as often as listed, then normalised' % tp, len(log) == 2 and log[1] == ('d', 'finalize') and sorted(x.key for x in log[0][1]) == sorted(ps), fn=f)
