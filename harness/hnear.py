"""P08/P09: neighbour queries and leaf lists of real fields against direct distances"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import *

def some(rng, coords, n):
    s = 10 ** rng.uniform(-2, 2)
    p = rng.normal(size=(n, 3)) * s
    if rng.integers(2): p[rng.integers(n, size=n // 3)] = p[rng.integers(n)]          # coincident objects
    if rng.integers(3) == 0: p = np.round(p / s * 3) / 3 * s
    if coords == 'flat': p[:, 2] = 0
    if coords == 'sphere':
        p[:, 2] += s * rng.uniform(-3, 3); p[(p ** 2).sum(1) == 0] = [1., 0, 0]; p = sph(p)
    return p

LET = 'NKZVGTQ'
def build(rng, coords, p, tiny=True):
    n = len(p)
    w = rng.uniform(0.5, 2, n) * (rng.uniform(size=n) > 0.2)
    if not w.any(): w[0] = 1
    l = LET[rng.integers(len(LET))]; v = rng.normal(size=(2, n))
    kw = {} if l == 'N' else dict(k=v[0]) if l == 'K' else {l.lower() + '1': v[0], l.lower() + '2': v[1]}
    if rng.integers(2): kw['wpos'] = rng.uniform(0.1, 2, n)
    cat = make_cat({'sphere': 'sphere'}.get(coords, coords), p, w=w, keep_zero_weight=True, **kw)
    fk = dict(split_method=['mean', 'median', 'middle', 'random'][rng.integers(4)], brute=bool(rng.integers(5) == 0))
    if rng.integers(2): fk.update(min_top=int(rng.integers(0, 4)), max_top=int(rng.integers(0, 6)))
    if rng.integers(3) == 0: fk['max_size'] = float(np.ptp(p) * rng.uniform(0, 1) + 1e-9)
    if tiny and rng.integers(3) == 0: fk['min_size'] = float(np.ptp(p) * 10 ** rng.uniform(-3, 0))
    return cat, getattr(cat, 'get%sField' % l)(**fk), l, fk

def query(h, coords, cat, f, p, q, sep, id):
    if coords == 'flat': a = (q[0], q[1], sep); kw = {}
    elif coords == '3d': a = (q[0], q[1], q[2], sep); kw = {}
    else:
        ra, dec = radec(q[None])
        # chord -> angle
        a = (ra[0], dec[0], 2 * np.arcsin(min(sep / 2, 1))); kw = dict(ra_units='rad', dec_units='rad', sep_units='rad')
    d = np.sqrt(((p - q) ** 2).sum(1))
    c, g = f.count_near(*a, **kw), f.get_near(*a, **kw)
    tol = 3e-7 * (sep + d.max()) + 1e-12 * np.abs(p).max()
    lo, hi = set(np.where(d <= sep - tol)[0]), set(np.where(d <= sep + tol)[0])
    h.check(len(g) == c or lo != hi and len(lo) <= c <= len(hi), id + ': count is not the length of the list', count=c, listed=g, sep=sep, point=q)
    h.check(len(set(g.tolist())) == len(g) and lo <= set(g.tolist()) <= hi, id + ': wrong objects listed', listed=g, missing=sorted(lo - set(g.tolist())), extra=sorted(set(g.tolist()) - hi), sep=sep, point=q)

def near(h):
    rng = h.rng
    while not h.time_up:
        coords = ['flat', '3d', 'sphere'][rng.integers(3)]
        p = some(rng, coords, int(rng.integers(1, 40)))
        cat, f, l, fk = build(rng, coords, p)
        h.case((coords, l, fk['split_method'], len(p)), p=p, field=fk)
        for _ in range(6):
            q = p[rng.integers(len(p))] + (rng.normal(size=3) * np.ptp(p) * 10 ** rng.uniform(-3, 0.3) if rng.integers(2) else 0)
            if coords == 'flat': q[2] = 0
            if coords == 'sphere': q = sph(q)
            d = np.sqrt(((p - q) ** 2).sum(1))
            sep = float(d[rng.integers(len(p))] * (1 + (0 if rng.integers(2) else rng.normal() * 1e-8))) if rng.integers(2) else float(d.max() * rng.uniform(0, 1.2))
            if coords == 'sphere': sep = min(sep, 2.)
            query(h, coords, cat, f, p, q, sep, 'query')

def collinear(h):
    """the separation falls between the distance of the farthest object and the rounded size of its cell"""
    rng = h.rng
    for i in range(300):
        if h.time_up: return
        a = rng.uniform(0.5, 1.5); s = float(np.float32(a)); D = a * rng.uniform(2, 5)
        cat = treecorr.Catalog(x=[0, 2 * a], y=[0, 0]); f = cat.getNField(min_top=0, max_top=0)
        h.case(('collinear', i % 10), a=a, D=D)
        sep = D + (a + s) / 2
        c, g = f.count_near(a - D, 0, sep), f.get_near(a - D, 0, sep)
        h.check(c == len(g) == len(set(g.tolist()) & {0, 1}), 'rounded cell size: listed objects', count=c, listed=g, sep=sep)

def leaves(h):
    """every object appears in exactly one leaf: a query of the whole field lists each once; totals of the top-level sums"""
    rng = h.rng
    while not h.time_up:
        coords = ['flat', '3d', 'sphere'][rng.integers(3)]
        p = some(rng, coords, int(rng.integers(1, 60)))
        cat, f, l, fk = build(rng, coords, p)
        h.case((coords, l, fk['split_method'], 'leaves'), p=p, field=fk)
        if coords == 'sphere': a = (0., 0., np.pi); kw = dict(ra_units='rad', dec_units='rad', sep_units='rad')
        else: a = tuple(p[0][:2 if coords == 'flat' else 3]) + (10 * np.ptp(p) + 1,); kw = {}
        g = f.get_near(*a, **kw)
        h.check(sorted(g.tolist()) == list(range(len(p))), 'leaves: every object once', listed=g)
        h.check(f.ntot == len(p), 'number of objects', got=f.ntot)
        # total weight and field: a single point far away (or a wide bin) sees only the totals
        tc = cat
        big = 1e6 * (np.abs(p).max() + 1e-9)
        if coords == 'flat' and l in 'NK':
            o = treecorr.Catalog(x=[big], y=[0.])
            if l == 'N':
                nn = treecorr.NNCorrelation(min_sep=big / 2, max_sep=big * 2, nbins=1, bin_slop=1.); nn.process_cross(o, cat)
                h.close(nn.weight, [cat.w.sum()], 'total weight', rtol=1e-6)
            else:
                nk = treecorr.NKCorrelation(min_sep=big / 2, max_sep=big * 2, nbins=1, bin_slop=1.); nk.process_cross(o, cat)
                h.close(nk.raw_xi, [(cat.w * cat.k).sum()], 'total field', rtol=1e-5, atol=1e-5 * np.abs(cat.w * cat.k).sum())
if __name__ == '__main__':
    m = sys.argv[2]
    Harness(bound='random catalogs of up to 60 objects with coincident and regular positions, seeded', quick_s=40, thorough_s=600).run(*({'P08': [leaves], 'P09': [collinear, near]}[m]))
