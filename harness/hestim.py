"""P16-P18: finalised values, estimators with randoms, and patch-based covariances, against direct numpy recomputation from
raw sums of the individual patches"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import *
from harness.hfield import TYPES, SPIN, fields
T3 = ['NNN', 'KKK', 'GGG']
def comps(c):
    return [n for n in ('_xi1', '_xi2', '_xi3', '_xi4') + tuple('_z%d' % i for i in range(1, 9)) if isinstance(getattr(c, n, None), np.ndarray) and getattr(c, n).size]
def snap(c):
    d = {n: getattr(c, n).copy() for n in comps(c)}
    for n in ('meanr', 'meanlogr', 'weight', 'npairs', 'meand1', 'meanlogd1', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3', 'meanu', 'meanv', 'weightr', 'weighti', 'ntri'):
        a = getattr(c, n, None)
        if isinstance(a, np.ndarray) and a.size: d[n] = a.copy()
    return d
def cat(rng, n, letter, coords, patch=None, box=1., w=True):
    kw, v = fields(rng, n, letter)
    if w: kw['w'] = rng.uniform(0.2, 2, n)
    if patch is not None: kw['patch'] = patch
    if coords == 'flat': return treecorr.Catalog(x=rng.uniform(0, box, n), y=rng.uniform(0, box, n), **kw)
    return treecorr.Catalog(ra=rng.uniform(0, box, n), dec=rng.uniform(-box / 2, box / 2, n), ra_units='rad', dec_units='rad', **kw)

def norm(h):
    rng = h.rng
    for t in range(60 if TIER == 'quick' else 2000):
        if h.time_up: return
        tp = (TYPES + T3)[rng.integers(len(TYPES) + 3)]
        three = len(tp) == 3
        coords = ('flat', 'sph')[rng.integers(2)]
        n = int(rng.integers(3, 12 if three else 30))
        u = ['', 'arcmin', 'deg', 'rad'][rng.integers(1, 4)] if coords == 'sph' else ''
        uf = {'': 1., 'rad': 1., 'arcmin': np.pi / 180 / 60, 'deg': np.pi / 180}[u]
        kw = dict(min_sep=0.05 / uf, max_sep=1.2 / uf, nbins=int(rng.integers(2, 5)))
        if u: kw['sep_units'] = u
        metric = 'Euclidean'
        pu = 1.
        if three:
            bt = ['LogRUV', 'LogSAS', 'LogMultipole'][rng.integers(3)]
            kw.update(bin_type=bt)
            if bt == 'LogRUV': kw.update(nubins=2, nvbins=2)
            if bt == 'LogSAS': kw.update(nphi_bins=3, phi_units='deg'); pu = np.pi / 180
            if bt == 'LogMultipole': kw.update(max_n=2)
        elif coords == 'sph' and rng.integers(2): metric = 'Arc'
        cl = getattr(treecorr, tp + 'Correlation')
        c = cl(**kw, metric=metric)
        auto = tp[0] == tp[-1]
        c1 = cat(rng, n, tp[0], coords); c2 = c1 if auto else cat(rng, n, tp[1], coords)
        vs = [float(x) for x in rng.uniform(0.1, 2, len(tp.replace('N', '')))]
        h.case('norm/%s/%s/%s/%s/%d' % (tp, coords, metric, kw.get('bin_type', ''), t), kw=kw, n=n, vs=vs)
        (c.process_auto(c1) if auto else c.process_cross(c1, c2))
        old = snap(c)
        c.finalize(*vs)
        new = snap(c)
        wn = 'weightr' if three else 'weight'
        w = old[wn]; nz = w != 0
        mult = three and bt == 'LogMultipole'
        S = (lambda a: np.broadcast_to(a[:, :, c.max_n][:, :, None], a.shape)) if mult else (lambda a: a)
        h.close(new[wn], w, '%s:weight changed' % tp)
        cn = 'ntri' if three else 'npairs'
        h.close(new[cn], S(old[cn]), '%s:count changed' % tp)
        for m in comps(c):
            if mult: h.close(new[m], old[m], '%s:%s' % (tp, m))
            else: h.close(new[m][nz], old[m][nz] / w[nz], '%s:%s' % (tp, m)); h.close(new[m][~nz], old[m][~nz], '%s:%s empty' % (tp, m))
        W = S(w); NZ = W != 0
        sph = coords == 'sph' and metric == 'Euclidean'
        for m in ['meanr'] if not three else (['meand2', 'meand3'] if mult else ['meand1', 'meand2', 'meand3']):
            l = m.replace('mean', 'meanlog')
            x = S(old[m])[NZ] / W[NZ]; y = S(old[l])[NZ] / W[NZ]
            if sph: x = 2 * np.arcsin(x / 2); y = np.log(2 * np.arcsin(np.exp(y) / 2))
            h.close(new[m][NZ], x / uf, '%s:%s' % (tp, m)); h.close(new[l][NZ], y - np.log(uf), '%s:%s' % (tp, l))
        if not three: h.close(new['meanr'][~NZ], c.rnom[~NZ], tp + ':meanr empty'); h.close(new['meanlogr'][~NZ], c.logr[~NZ], tp + ':meanlogr empty')
        elif bt == 'LogSAS':
            h.close(new['meanu'][~NZ], c.phi[~NZ] / pu, tp + ':meanphi empty')
            if not sph: h.close(new['meanu'][NZ], old['meanu'][NZ] / W[NZ] / pu, tp + ':meanphi')
        elif bt == 'LogRUV':
            for m, nm in (('meanu', c.u), ('meanv', c.v)): h.close(new[m][~NZ], nm[~NZ], tp + ':%s empty' % m); h.close(new[m][NZ], old[m][NZ] / W[NZ], tp + ':' + m)
        if tp not in ('NN', 'NNN'):
            num = np.prod(vs) * (2 if tp[0] in SPIN and not three else 1)
            if three: num *= (4 if tp == 'GGG' else 1) * (1 if bt == 'LogRUV' else 2)
            aw = np.hypot(old['weightr'], old['weighti']) if mult else np.abs(w) if three else w
            with np.errstate(all='ignore'): ex = np.where(aw != 0, num / aw, 0)
            for vn in ('varxi', 'varxip', 'varxim', 'varzeta', 'vargam0', 'vargam1', 'vargam2', 'vargam3'):
                v = getattr(c, vn, None)
                if v is not None: h.close(v, ex, '%s:%s' % (tp, vn))

def estim(h):
    rng = h.rng
    for t in range(25 if TIER == 'quick' else 800):
        if h.time_up: return
        three = rng.integers(4) == 0
        n, m = (int(rng.integers(4, 10)), int(rng.integers(4, 12))) if three else (int(rng.integers(5, 40)), int(rng.integers(5, 60)))
        D, R = cat(rng, n, 'N', 'flat'), cat(rng, m, 'N', 'flat')
        D2, R2 = cat(rng, n, 'N', 'flat'), cat(rng, m, 'N', 'flat')
        kw = dict(min_sep=0.05, max_sep=1., nbins=3)
        P = lambda *a: (lambda c: (c.process(*a), c)[1])(treecorr.NNCorrelation(**kw))
        h.case('estim/%d/%d/%d' % (three, n, m))
        if three:
            kw.update(bin_type='LogSAS', nphi_bins=2)
            Q = lambda *a, **k: (lambda c: (c.process(*a, **k), c)[1])(treecorr.NNNCorrelation(**kw))
            ddd, rrr, drr, rdd = Q(D), Q(R), Q(D, R, ordered=False), Q(R, D, ordered=False)
            f = lambda o: o.weight / o.tot * ddd.tot
            for both in (False, True):
                z, v = ddd.calculateZeta(rrr=rrr, **(dict(drr=drr, rdd=rdd) if both else {}))
                num = f(ddd) - f(rrr) if not both else f(ddd) - f(rdd) + f(drr) - f(rrr)
                ok = rrr.weight != 0
                h.close(z[ok], num[ok] / f(rrr)[ok], 'zeta both=%d' % both)
        else:
            auto = rng.integers(2)
            dd, rr, dr, rd = (P(D), P(R), P(D, R), P(R, D)) if auto else (P(D, D2), P(R, R2), P(D, R2), P(R, D2))
            f = lambda o: o.weight / o.tot
            ok = rr.weight != 0
            for o, s in ((dd, D), (rr, R)):
                tt = s.w.sum() ** 2 / 2 if auto else None
                if auto: h.close(o.tot, tt, 'tot auto')
            if not auto: h.close(dd.tot, D.w.sum() * D2.w.sum(), 'tot cross'); h.close(rd.tot, R.w.sum() * D2.w.sum(), 'tot rd')
            for k in ({}, dict(dr=dr), dict(rd=rd), dict(dr=dr, rd=rd)):
                x, v = dd.calculateXi(rr=rr, **k)
                num = f(dd) - f(rr) if not k else f(dd) + f(rr) - sum(f(o) for o in k.values()) * (2 if len(k) == 1 else 1)
                h.close(x[ok], num[ok] / f(rr)[ok], 'xi %s' % sorted(k))
        tp = ['NK', 'NZ', 'NV', 'NG', 'NT', 'NQ'][rng.integers(6)]
        F = cat(rng, n, tp[1], 'flat')
        kw = dict(min_sep=0.05, max_sep=1., nbins=3)
        a, b = getattr(treecorr, tp + 'Correlation')(**kw), getattr(treecorr, tp + 'Correlation')(**kw)
        a.process(D, F); b.process(R, F)
        bx = [b._xi1.copy()] + ([b._xi2.copy()] if tp != 'NK' else []); ax = [a._xi1.copy()] + ([a._xi2.copy()] if tp != 'NK' else [])
        va, vb = np.array(a.raw_varxi), np.array(b.varxi)
        out = a.calculateXi(**{'r' + tp[1].lower(): b})
        for i, o in enumerate(out[:-1]): h.close(o, ax[i] - bx[i], '%s compensated %d' % (tp, i))
        h.close(out[-1], va + vb, '%s compensated variance' % tp)

# ---- patches
def draws(seed, npatch, nboot):
    r = np.random.default_rng(seed)
    return [r.choice(np.arange(npatch), size=npatch, replace=True) for _ in range(nboot)]
def mult(method, keys, n1, n2, q):
    """multiplicity of each stored pair in realisation q (an omitted/selected patch or a list of draws)"""
    out = {}
    m = np.bincount(q, minlength=max(n1, n2)) if not np.isscalar(q) else None
    for (i, j) in keys:
        if method == 'jackknife': out[i, j] = int((n1 == 1 or i != q) and (n2 == 1 or j != q))
        elif method == 'sample': out[i, j] = int(i == q if n1 != 1 else j == q)
        elif method == 'marked_bootstrap': out[i, j] = m[i] if n1 != 1 else m[j]
        else: out[i, j] = m[i] if n2 == 1 else m[j] if n1 == 1 else m[i] if i == j else m[i] * m[j]
    return out
def cover(method, A, w, n):
    d = A - A.mean(0)
    if method == 'jackknife': return (1 - 1. / n) * d.T @ d
    if method == 'sample': return (d.T * (w / w.sum())) @ d / (n - 1)
    return d.T @ d / (n - 1)

def patches(h):
    rng = h.rng
    for t in range(16 if TIER == 'quick' else 400):
        if h.time_up: return
        npatch = int(rng.integers(2, 6))
        tp = ['NN', 'NK', 'NG', 'NZ', 'KK', 'KG', 'GG', 'VV', 'NN', 'NT', 'KQ'][rng.integers(11)]
        auto = tp[0] == tp[1] and rng.integers(2)
        cfgp = (True, True) if auto else [(True, True), (True, False), (False, True)][rng.integers(3)]
        n = int(rng.integers(4 * npatch, 12 * npatch))
        def mk(letter, p, nn):
            pt = (np.concatenate([np.arange(npatch), rng.integers(npatch, size=nn - npatch)]) if p else None)
            return cat(rng, nn, letter, 'flat', patch=pt)
        c1 = mk(tp[0], cfgp[0], n); c2 = c1 if auto else mk(tp[1], cfgp[1], n)
        if tp == 'NN': cfgp = (True, True) if auto else cfgp
        kw = dict(min_sep=0.03, max_sep=2., nbins=2, bin_slop=0, angle_slop=0, brute=True)
        nboot = 8
        cl = getattr(treecorr, tp + 'Correlation')
        n1, n2 = (npatch if cfgp[0] else 1), (npatch if cfgp[1] else 1)
        seed = int(rng.integers(1 << 30))
        def parts(a, b, same, cls=cl):
            """raw sums of each pair of patches, straight from single-patch catalogs"""
            pa = a.get_patches(); pb = pa if same else b.get_patches(); out = {}
            for i, x in enumerate(pa):
                for j, y in enumerate(pb):
                    if same and j < i: continue
                    c = cls(**kw)
                    c.process_auto(x) if same and i == j else c.process_cross(x, y)
                    out[i, j] = c
            return out
        def run(a, b, same, cls=cl):
            c = cls(**kw, num_bootstrap=nboot, rng=np.random.default_rng(seed)); c.process(a) if same else c.process(a, b); return c
        C = run(c1, c2, auto); P = parts(c1, c2, auto)
        rand = tp[0] == 'N' and (tp == 'NN' or rng.integers(2))
        RR = None
        if rand:
            rp = cfgp
            R1 = mk('N', cfgp[0], 2 * n)
            if tp == 'NN':
                R2 = R1 if auto else mk('N', cfgp[1], 2 * n)
                L = {'rr': (R1, R2, auto), 'dr': (c1, R2, False), 'rd': (R1, c2, False)}
                use = [k for k in L if k == 'rr' or rng.integers(2)]
                if not auto and not all(cfgp): use = ['rr'] if rng.integers(2) else use
            else: L = {'r' + tp[1].lower(): (R1, c2, False)}; use = list(L)
            RO = {k: run(*L[k]) for k in use}; RP = {k: parts(*L[k]) for k in use}
        h.case('cov/%s/auto=%d/%s/%d/rand=%d' % (tp, auto, cfgp, npatch, rand), n=n, seed=seed)
        if rand: C.calculateXi(**RO)
        names = comps(C)
        def stat(m, Pm=P, nm=None):
            nm = names if nm is None else nm
            W = sum(k * Pm[q].weight for q, k in m.items()); tot = sum(k * Pm[q].tot for q, k in m.items()) if tp == 'NN' else None
            with np.errstate(all='ignore'): return [np.where(W != 0, sum(k * getattr(Pm[q], x) for q, k in m.items()) / W, 0) for x in nm], W, tot
        for method in ('jackknife', 'sample', 'marked_bootstrap', 'bootstrap'):
            C._rng = np.random.default_rng(seed)
            if method == 'sample' and auto and tp == 'NN': pass
            try: A, w = C.build_cov_design_matrix(method)
            except Exception as e: h.fail('%s raises %s' % (method, type(e).__name__), why=str(e)[:200]); continue
            C._rng = np.random.default_rng(seed)
            qs = range(npatch) if method in ('jackknife', 'sample') else draws(seed, npatch, nboot)
            rows = []; ws = []; bad = False
            keys = list(P)
            for q in qs:
                m = mult(method, keys, n1, n2, q)
                xs, W, tot = stat(m)
                if tp == 'NN':
                    F = {'dd': W / tot if tot else None}
                    for k in use:
                        mk_ = mult(method, list(RP[k]), n1, n2, q)
                        # an auto count seen as a cross count stores both orders; the kept pairs are those the data keep
                        Wk = sum(v * RP[k][i].weight for i, v in mk_.items()); Tk = sum(v * RP[k][i].tot for i, v in mk_.items())
                        F[k] = Wk / Tk if Tk else None
                    if any(v is None for v in F.values()): bad = True; rows.append(None); continue
                    oth = [F[k] for k in use if k != 'rr']
                    num = F['dd'] - F['rr'] if not oth else F['dd'] + F['rr'] - sum(oth) * (2 if len(oth) == 1 else 1)
                    with np.errstate(all='ignore'): rows.append(np.where(F['rr'] != 0, num / F['rr'], 0)); rrz = F['rr'] == 0
                    if rrz.any(): bad = True
                    ws.append(None)
                else:
                    x = [a.copy() for a in xs]
                    if rand:
                        y, _, _ = stat(mult(method, list(RP[use[0]]), n1, n2, q), RP[use[0]])
                        x = [a - b for a, b in zip(x, y)]
                    pick = [0] if tp[0] not in SPIN else [0, 2]
                    rows.append(np.concatenate([x[i] for i in pick])); ws.append(W.sum() * len(pick))
            if tp == 'NN' and method == 'sample' and auto and 'dr' in use or (tp == 'NN' and auto and method in ('marked_bootstrap',) and len(use) > 1): pass
            if bad: continue
            rows = np.array(rows)
            h.close(A, rows, '%s:%s design matrix' % (tp, method), rtol=1e-5, atol=1e-5 * max(1, np.abs(rows).max()))
            if tp != 'NN': h.close(w, np.array(ws), '%s:%s row weights' % (tp, method), rtol=1e-5)
            C._rng = np.random.default_rng(seed)
            try: cov = C.estimate_cov(method)
            except RuntimeError: continue
            h.close(cov, cover(method, A, w, len(A)), '%s:%s covariance' % (tp, method), rtol=1e-8, atol=1e-12)
            h.close(cov, cov.T, 'symmetric', rtol=1e-10, atol=1e-14)
            h.check(np.linalg.eigvalsh(cov).min() > -1e-9 * max(1e-12, np.abs(cov).max()), 'positive semi-definite')
            C._rng = np.random.default_rng(seed)
            fc = lambda cs: np.concatenate([getattr(cs, 'xi_im' if hasattr(cs, 'xi_im') else 'weight' if tp != 'NN' else 'xi') * 2. for _ in range(2)])
            A2, _ = C.build_cov_design_matrix(method, func=fc)
            if hasattr(C, 'xi_im'):
                r2 = []
                for q in qs:
                    xs, W, _ = stat(mult(method, keys, n1, n2, q)); v = xs[1]
                    if rand: v = v - stat(mult(method, list(RP[use[0]]), n1, n2, q), RP[use[0]])[0][1]
                    r2.append(np.concatenate([2 * v, 2 * v]))
                h.close(A2, np.array(r2), '%s:%s user function of xi_im' % (tp, method), rtol=1e-5, atol=2e-5 * max(1, np.abs(np.array(r2)).max()))
        # several correlations together
        C2 = run(c1, c2, auto)
        if not rand:
            cov = treecorr.estimate_multi_cov([C, C2], 'jackknife'); one = C.estimate_cov('jackknife')
            k = len(one)
            h.close(cov, np.block([[one, one], [one, one]]), 'joint covariance', rtol=1e-6, atol=1e-9 * np.abs(one).max())

def patches3(h):
    rng = h.rng
    for t in range(3 if TIER == 'quick' else 40):
        if h.time_up: return
        npatch = int(rng.integers(2, 4)); n = int(rng.integers(3 * npatch, 4 * npatch + 1))
        pt = np.concatenate([np.arange(npatch), rng.integers(npatch, size=n - npatch)])
        c1 = cat(rng, n, 'K', 'flat', patch=pt)
        kw = dict(min_sep=0.05, max_sep=2., nbins=2, nphi_bins=2, bin_type='LogSAS', bin_slop=0, angle_slop=0)
        C = treecorr.KKKCorrelation(**kw); C.process(c1, algo='triangle', patch_method='global')
        h.case('cov3/%d/%d' % (npatch, n))
        A, w = C.build_cov_design_matrix('jackknife')
        rows = []
        for i in range(npatch):
            s = treecorr.KKKCorrelation(**kw)
            k = pt != i
            s.process(treecorr.Catalog(x=c1.x[k], y=c1.y[k], k=c1.k[k], w=c1.w[k]), algo='triangle'); rows.append(s.zeta.ravel())
        h.close(A, np.array(rows), 'KKK jackknife', rtol=1e-5, atol=1e-5)
        C._rng = np.random.default_rng(3); B, w = C.build_cov_design_matrix('bootstrap')
        h.check(np.isfinite(B).all(), 'KKK bootstrap finite')

if __name__ == '__main__':
    h = Harness(bound='at most 60 points per catalog, 2-5 patches', quick_s=60, thorough_s=900)
    {'P16': lambda: h.run(norm), 'P17': lambda: h.run(estim), 'P18': lambda: h.run(patches, patches3)}[h.args[0]]()
