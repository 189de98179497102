"""P01/P02/P03: two-point counts against brute force with independent distance and binning definitions."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import *

def dist(metric, p, q, coords, period=None):
    a, b = p[:, None, :], q[None, :, :]
    if metric == 'Periodic':
        d = b - a
        L = np.array(period[:p.shape[1]])
        d = d - L * np.round(d / L)
        return np.sqrt((d**2).sum(-1))
    if metric == 'Arc':
        u, v = sph(a), sph(b)
        return 2 * np.arctan2(np.linalg.norm(u - v, axis=-1), np.linalg.norm(u + v, axis=-1))
    if coords == 'sphere': a, b = sph(a), sph(b)
    return np.sqrt(((a - b)**2).sum(-1))

def bins(bt, r, d, mn, mx, nb, bs):
    """bin index of each pair, or -1; closeness of the pair to any edge (relative)"""
    if bt == 'TwoD':
        n = nb; k = np.floor((d + mx) / bs).astype(int)
        ok = (np.abs(d) < mx).all(-1) & (r >= mn) & (r > 0)
        e = (d + mx) / bs
        near = np.min(np.abs(e - np.round(e)), axis=-1) < 1e-9
        if mn > 0: near |= np.abs(r / mn - 1) < 1e-9
        return np.where(ok, k[..., 1] * n + k[..., 0], -1), near
    if bt == 'Linear': e = (r - mn) / bs
    else: e = np.log(np.maximum(r, 1e-300) / mn) / bs
    k = np.floor(e).astype(int)
    near = (np.abs(e - np.round(e)) < 1e-8) & (e > -0.5) & (e < nb + 0.5)
    return np.where((k >= 0) & (k < nb), k, -1), near

def points(rng, coords, n, box):
    dim = 2 if coords == 'flat' else 3
    kind = rng.integers(5)
    if kind == 0: p = rng.uniform(-box, box, (n, dim))
    elif kind == 1:
        c = rng.uniform(-box, box, (max(1, n // 6), dim)); p = c[rng.integers(len(c), size=n)] + rng.normal(size=(n, dim)) * box * 10.**rng.uniform(-4, -0.5)
    elif kind == 2: p = rng.normal(size=(n, dim)) * box * np.array([1, 0.01, 0.3])[:dim]
    elif kind == 3:
        p = rng.uniform(-box, box, (n, dim)); m = n // 2; p[:m] = p[rng.integers(m, n, size=m)] if m else p[:m]
    else: p = box * rng.uniform(0.3, 1) * sph(rng.normal(size=(n, dim))) * (1 + rng.normal(size=(n, 1)) * 10.**rng.uniform(-6, -1))
    if coords != 'flat': p = p + (np.abs(p).sum(1) == 0)[:, None] * 0.1
    return p

CONF = [('Log', 'Euclidean', c) for c in ('flat', '3d', 'sphere', 'spherer')] + [('Linear', 'Euclidean', c) for c in ('flat', '3d', 'sphere')] + \
       [(b, 'Arc', c) for b in ('Log', 'Linear') for c in ('sphere', 'spherer')] + [(b, 'Periodic', c) for b in ('Log', 'Linear') for c in ('flat', '3d')] + \
       [('TwoD', 'Euclidean', 'flat')] * 3

def setup(rng, bt, metric, coords):
    box = 1. if coords == 'sphere' else 10.**rng.uniform(-1, 2)
    n1, n2 = int(rng.integers(2, 60)), int(rng.integers(1, 60))
    p, q = points(rng, coords, n1, box), points(rng, coords, n2, box)
    if rng.integers(4) == 0: q = q + rng.uniform(-3, 3, q.shape[1]) * box
    kw = dict(bin_type=bt, metric=metric)
    per = None
    if metric == 'Periodic':
        per = rng.uniform(1.5, 4, 3) * box; kw.update(xperiod=per[0], yperiod=per[1])
        if coords == '3d': kw.update(zperiod=per[2])
        # any images of the same points are the same points
        if rng.integers(2): p = p + per[:p.shape[1]] * rng.integers(-3, 4, p.shape)
    r = dist(metric, p, q, coords, per)
    scale = np.median(r[r > 0]) if (r > 0).any() else box
    if metric == 'Periodic': scale = min(scale, per.min() / 4)
    nb = int(rng.integers(1, 12))
    if bt == 'TwoD':
        mx = scale * rng.uniform(0.2, 2); mn = 0. if rng.integers(3) else mx * rng.uniform(0.05, 0.9)
        nb = int(rng.integers(1, 8)); kw.update(max_sep=mx, min_sep=mn, nbins=nb); bs = 2 * mx / nb
    elif bt == 'Linear':
        mn = scale * rng.uniform(0.05, 1.); mx = mn + scale * rng.uniform(0.05, 1.5); bs = (mx - mn) / nb
        kw.update(min_sep=mn, max_sep=mx, nbins=nb)
    else:
        mn = scale * 10.**rng.uniform(-2, 0.2); mx = mn * np.exp(rng.uniform(0.05, 3)); bs = np.log(mx / mn) / nb
        kw.update(min_sep=mn, max_sep=mx, nbins=nb)
    if metric == 'Arc': 
        mx0 = kw['max_sep']
        if mx0 > 3.1: s = 3.1 / mx0; kw['max_sep'] *= s; kw['min_sep'] *= s; mn *= s; mx *= s; bs = bs * s if bt == 'Linear' else bs
    if metric == 'Periodic':
        pass
    return p, q, per, kw, mn, mx, nb, bs

def w_of(rng, n):
    k = rng.integers(3)
    if k == 0: return np.ones(n)
    w = rng.integers(1, 24, n) / 8.
    if k == 2: w[rng.random(n) < 0.3] = 0
    if not (w > 0).any(): w[0] = 1
    return w

def compare(h, bt, metric, coords, kw, p, q, w1, w2, per, mn, mx, nb, bs, what, tie=False):
    r = dist(metric, p, q, coords, per)
    d = (q[None] - p[:, None]) if bt == 'TwoD' else None
    k, near = bins(bt, r, d, mn, mx, nb, bs)
    auto = p is q
    iu = np.triu(np.ones(r.shape, bool), 1) if auto and bt != 'TwoD' else (~np.eye(len(p), dtype=bool) if auto else np.ones(r.shape, bool))
    live = (w1[:, None] != 0) & (w2[None] != 0) & iu
    if not tie and (near & live).any(): return False
    nbt = nb * nb if bt == 'TwoD' else nb
    m = live & (k >= 0)
    N = np.bincount(k[m], minlength=nbt).astype(float); W = np.bincount(k[m], weights=(w1[:, None] * w2[None])[m], minlength=nbt)
    if auto and bt == 'TwoD': pass
    c1 = make_cat(coords, p, w=w1)
    nn = treecorr.NNCorrelation(**kw)
    if auto: nn.process(c1)
    else: nn.process(c1, make_cat(coords, q, w=w2))
    got, gw = nn.npairs.ravel(), nn.weight.ravel()
    if kw.get('bin_slop') == 0:
        if not np.array_equal(got, N) or not np.allclose(gw, W, rtol=1e-9, atol=1e-9):
            h.fail('counts:%s:%s:%s:%s' % (what, bt, metric, coords), kw=kw, p=p.tolist(), q=None if auto else q.tolist(), w1=w1, w2=w2, per=per, got=got, expected=N, gotw=gw, expectedw=W)
    else:
        # not exact: every pair well inside the range has to be counted somewhere, nothing well outside may be
        tol = kw['bin_slop'] * bs * (1 if bt == 'Log' else 0) + 1e-9
        ad = kw['bin_slop'] * bs if bt != 'Log' else 0.
        ang = kw.get('angle_slop', 0.1)
        f = tol if bt == 'Log' else 0.
        if bt == 'TwoD':
            e = np.abs(d).max(-1) if not auto else np.abs(d).max(-1)
            inn = (e < mx - ad * 1.5 - 1e-9) & (r > mn + ad * 1.5) & (r > 0)
            out = (e > mx + ad * 1.5 + 1e-9) | (r < mn - ad * 1.5)
        else:
            inn = (r > mn * (1 + f) / (1 - f) + 1.5 * ad) & (r < mx * (1 - f) - 1.5 * ad)
            out = (r < mn * (1 - f) / (1 + f) - 1.5 * ad) | (r > mx * (1 + f) / (1 - f) + 1.5 * ad)
        lo, hi = (live & inn).sum(), (live & ~out).sum()
        if not (lo <= got.sum() <= hi):
            h.fail('range:%s:%s:%s:%s' % (what, bt, metric, coords), kw=kw, p=p.tolist(), q=None if auto else q.tolist(), w1=w1, w2=w2, per=per, got=got, lower=lo, upper=hi)
    return True

def random_cases(h):
    rng = h.rng
    i = 0
    while not h.time_up or i < 2 * len(CONF):
        bt, metric, coords = CONF[i % len(CONF)]; i += 1
        p, q, per, kw, mn, mx, nb, bs = setup(rng, bt, metric, coords)
        kw['bin_slop'] = 0 if rng.integers(5) else float(rng.uniform(0.05, 1.2))
        if bt == 'Log' and kw['bin_slop'] * bs > 0.35: kw['bin_slop'] = 0.3 / bs
        if rng.integers(2): kw['angle_slop'] = float(rng.uniform(0.01, 0.6) if bt == 'Log' else 10.**rng.uniform(-1, 1))
        mt = int(rng.integers(0, 5)); kw.update(min_top=int(rng.integers(0, mt + 1)), max_top=mt)
        if rng.integers(3) == 0: kw['brute'] = [False, 1, 2][rng.integers(3)]
        w1, w2 = w_of(rng, len(p)), w_of(rng, len(q))
        h.case('%s/%s/%s/%s' % (bt, metric, coords, 'exact' if kw['bin_slop'] == 0 else 'slop'), kw=kw, n=[len(p), len(q)], i=i)
        compare(h, bt, metric, coords, kw, p, q, w1, w2, per, mn, mx, nb, bs, 'cross')
        compare(h, bt, metric, coords, kw, p, p, w1, w1, per, mn, mx, nb, bs, 'auto')

def tie_cases(h):
    """separations exactly on bin edges (exactly representable numbers): bins are half open [lo, hi)"""
    rng = h.rng
    for i in range(300 if TIER == 'quick' else 6000):
        n = 2; m = int(rng.integers(1, 3))  # means of two are exact in binary
        two = rng.integers(2)
        p = rng.integers(0, 16, (n, 2)).astype(float) * [1, two]; q = rng.integers(0, 16, (m, 2)).astype(float) * [1, two]
        bt = ['Linear', 'TwoD', 'Linear', 'Log'][i % 4]
        kw = dict(bin_type=bt, bin_slop=0, min_top=0, max_top=int(rng.integers(0, 3)))
        if bt == 'Linear': mn, bs, nb = float(rng.integers(1, 5)), float(2**rng.integers(0, 3)), int(rng.integers(1, 6)); mx = mn + nb * bs; kw.update(min_sep=mn, nbins=nb, max_sep=mx, angle_slop=10.)
        elif bt == 'TwoD': mn, nb, bs = 0., int(rng.integers(1, 6)), float(2**rng.integers(1, 4)); mx = nb * bs / 2; kw.update(max_sep=mx, nbins=nb, min_sep=0., angle_slop=10.)
        else: n, m = int(rng.integers(2, 14)), int(rng.integers(1, 14)); p, q = p[:1].repeat(1, 0), q; mn, nb = float(rng.integers(1, 6)), 1; mx = mn * 2; bs = np.log(2.); kw.update(min_sep=mn, max_sep=mx, nbins=1)
        h.case('tie/%s' % bt, kw=kw, p=p.tolist(), q=q.tolist())
        w1, w2 = np.ones(n), np.ones(m)
        if bt == 'Log':
            # only the end points are exact
            r = dist('Euclidean', p, q, 'flat'); k = np.where((r >= mn) & (r < mx), 0, -1)
            for a, b, auto in ((p, q, 0), (p, p, 1)):
                r = np.hypot(a[:, None, 0] - b[None, :, 0], a[:, None, 1] - b[None, :, 1]); ok = (r >= mn) & (r < mx)
                if auto: ok &= np.triu(np.ones_like(ok), 1)
                nn = treecorr.NNCorrelation(**kw); c = make_cat('flat', a, w=np.ones(len(a)))
                nn.process(c) if auto else nn.process(c, make_cat('flat', b, w=np.ones(len(b))))
                h.check(nn.npairs[0] == ok.sum(), 'tie:Log:%s' % ('auto' if auto else 'cross'), got=nn.npairs, expected=int(ok.sum()), p=p.tolist(), q=q.tolist(), kw=kw)
            continue
        compare(h, bt, 'Euclidean', 'flat', kw, p, q, w1, w2, None, mn, mx, nb, bs, 'tie-cross', tie=True)
        compare(h, bt, 'Euclidean', 'flat', kw, p, p, w1, w1, None, mn, mx, nb, bs, 'tie-auto', tie=True)

if __name__ == '__main__':
    h = Harness(bound='random and lattice catalogs of at most 60 objects; every bin type, Euclidean/Arc/Periodic, all coordinate systems; bin_slop 0 exact, >0 range only', quick_s=50)
    h.run(tie_cases, random_cases)
