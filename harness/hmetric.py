"""P06: distance of a pair (meanr of a two-point correlation of single-object catalogs) and line-of-sight cuts against the documented formulas."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import *

def true(metric, p, q, per, coords):
    if coords == 'sphere': p, q = sph(p), sph(q)
    d = q - p; L = (p + q) / 2
    if metric == 'Euclidean': return np.linalg.norm(d)
    if metric == 'Periodic':
        d = d - per[:len(d)] * np.round(d / per[:len(d)]); return np.linalg.norm(d)
    if metric == 'Arc':
        u, v = sph(p), sph(q); return 2 * np.arctan2(np.linalg.norm(u - v), np.linalg.norm(u + v))
    if metric in ('Rperp', 'FisherRperp'):
        par = d @ L / np.linalg.norm(L); return np.sqrt(max(0, d @ d - par * par))
    if metric == 'Rlens': return np.linalg.norm(np.cross(p, q)) / np.linalg.norm(q)
    if metric == 'OldRperp': return np.sqrt(max(0, d @ d - (np.linalg.norm(p) - np.linalg.norm(q))**2))
def tpar(metric, p, q):
    if metric == 'OldRperp': return np.linalg.norm(q) - np.linalg.norm(p)
    d = q - p; L = (p + q) / 2
    return d @ L / np.linalg.norm(L)
CONF = [('Euclidean', 'flat'), ('Euclidean', '3d'), ('Euclidean', 'sphere'), ('Arc', 'sphere'), ('Arc', 'spherer'), ('Periodic', 'flat'), ('Periodic', '3d'),
        ('Rperp', '3d'), ('Rperp', 'spherer'), ('Rlens', '3d'), ('OldRperp', '3d')]
def pt(rng, coords):
    n = 2 if coords == 'flat' else 3
    v = rng.normal(size=n)
    if rng.integers(3) == 0: v[rng.integers(n)] = 0.
    if rng.integers(6) == 0: v = np.eye(n)[rng.integers(n)] * rng.choice([-1, 1])
    return v * 10.**rng.uniform(-1, 1)
def pairs(h):
    rng = h.rng
    while not h.time_up:
        metric, coords = CONF[rng.integers(len(CONF))]
        p, q = pt(rng, coords), pt(rng, coords)
        if rng.integers(3) == 0: q = p + rng.normal(size=len(p)) * 10.**rng.uniform(-4, 0)
        per = rng.uniform(0.5, 5, 3)
        kw = dict(metric=metric)
        if metric == 'Periodic':
            kw.update(xperiod=per[0], yperiod=per[1])
            if coords == '3d': kw.update(zperiod=per[2])
            if rng.integers(2): q = q + per[:len(q)] * rng.integers(-3, 4, len(q))
        r = true(metric, p, q, per, coords)
        sc = max(np.abs(p).max(), np.abs(q).max(), 1)
        if not r > 1e-3 * sc: continue
        if coords == 'sphere' and r > (1.9999 if metric == 'Euclidean' else 3.1415): continue
        if metric == 'Arc' and r > 3.1415: continue
        lo, hi = r * rng.uniform(0.3, 0.9), r * rng.uniform(1.1, 3)
        h.case((metric, coords, h.n), p=p, q=q, per=per)
        cp, cq = make_cat(coords, p[None]), make_cat(coords, q[None])
        for a, b, nm in ((cp, cq, ''), (cq, cp, ' swapped')):
            if metric == 'Rlens' and nm: continue
            g = treecorr.NNCorrelation(min_sep=lo, max_sep=hi, nbins=1, **kw); g.process(a, b)
            if h.check(g.npairs[0] == 1, 'pair lost%s: %s' % (nm, metric), r=r, lo=lo, hi=hi):
                h.close(g.meanr[0], 2 * np.arcsin(r / 2) if (metric, coords) == ('Euclidean', 'sphere') else r, 'distance%s: %s' % (nm, metric), rtol=1e-6, atol=1e-7 * sc)
        if metric in ('Rperp', 'OldRperp', 'Rlens', 'Euclidean') and coords in ('3d', 'spherer'):
            par = tpar(metric, p, q)
            tol = 1e-6 * sc
            for e in rng.uniform(-2, 2, 3) * max(abs(par), 0.1):
                if abs(par - e) < tol: continue
                g = treecorr.NNCorrelation(min_sep=lo, max_sep=hi, nbins=1, min_rpar=e, **kw); g.process(cp, cq)
                h.check(g.npairs[0] == (par >= e), 'min_rpar: ' + metric, par=par, cut=e)
                g = treecorr.NNCorrelation(min_sep=lo, max_sep=hi, nbins=1, max_rpar=e, **kw); g.process(cp, cq)
                h.check(g.npairs[0] == (par <= e), 'max_rpar: ' + metric, par=par, cut=e)
def sets(h):
    """catalogs with brute=True: every pair binned by its own distance and cut"""
    rng = h.rng
    for _ in range(60 if TIER == 'quick' else 600):
        metric, coords = CONF[rng.integers(len(CONF))]
        n1, n2 = rng.integers(2, 25, 2)
        p, q = np.array([pt(rng, coords) for _ in range(n1)]), np.array([pt(rng, coords) for _ in range(n2)])
        per = rng.uniform(0.5, 5, 3); kw = dict(metric=metric)
        if metric == 'Periodic':
            kw.update(xperiod=per[0], yperiod=per[1])
            if coords == '3d': kw.update(zperiod=per[2])
        if coords in ('3d', 'spherer') and metric not in ('Arc', 'Periodic') and rng.integers(2):
            c = np.sort(rng.normal(size=2) * 2); kw.update(min_rpar=c[0], max_rpar=c[1])
        if metric != 'Rlens' and rng.integers(2): q, cq = p, None
        else: cq = make_cat(coords, q)
        cp = make_cat(coords, p)
        mn, mx, nb = 0.05, rng.uniform(1, 8), 5
        if metric == 'Arc': mx = min(mx, 3)
        h.case((metric, coords, cq is None, len(kw)), p=p, q=q, kw=kw)
        g = treecorr.NNCorrelation(min_sep=mn, max_sep=mx, nbins=nb, brute=True, **kw); g.process(cp, cq)
        want = np.zeros(nb); near = np.zeros(nb, bool)
        for i in range(len(p)):
            for j in range(len(q)):
                if cq is None and i == j: continue
                r = true(metric, p[i], q[j], per, coords)
                if not r > 0: continue
                k = np.log(r / mn) / np.log(mx / mn) * nb
                if abs(k - round(k)) < 1e-6 and -1 < k < nb + 1: near[:] = True
                if 'min_rpar' in kw:
                    t = tpar(metric, p[i], q[j])
                    if min(abs(t - kw['min_rpar']), abs(t - kw['max_rpar'])) < 1e-7: near[:] = True
                    if not kw['min_rpar'] <= t <= kw['max_rpar']: continue
                if 0 <= k < nb: want[int(k)] += 1
        if cq is None and 'min_rpar' in kw: want = None      # the order of a pair in an auto-correlation is not defined
        elif cq is None: want /= 2
        if want is not None and not near.any(): h.close(g.npairs, want, 'brute npairs: ' + metric)
if __name__ == '__main__':
    Harness(bound='random single pairs and catalogs of up to 25 objects, seeded', quick_s=40, thorough_s=600).run(sets, pairs)
