"""P19 bounded: patched against unpatched results; contracts of _trivially_zero and _make_expanded_patch on random patches."""
from common import *
import itertools, pickle
h = Harness('2pt: <= 160 objects, 3pt: <= 40 objects, <= 8 patches, <= 4 processes', 75, 900)
rng = h.rng

def points(coords, n, kind, sc):
    """cartesian positions and a patch number for each object"""
    k = rng.integers(2, 8)
    if kind == 'clusters':
        cen = rng.normal(0, 1, (k, 3)); cen[:, 2] = np.abs(cen[:, 2]) if coords in ('sphere', 'spherer') else cen[:, 2]
        if coords in ('sphere', 'spherer'): cen /= np.linalg.norm(cen, axis=1)[:, None]
        p = rng.integers(0, k, n); pos = cen[p] + rng.normal(0, rng.choice([.01, .05, .2]), (n, 3))
    elif kind == 'uneven':
        k = 2; p = (rng.uniform(0, 1, n) < .25).astype(int)
        pos = rng.normal(0, .8, (n, 3)); pos[:, 2] = np.abs(pos[:, 2]) + .3
        pos[p == 1] = np.array([.8, .3, .5]) + rng.normal(0, .02, ((p == 1).sum(), 3))
    else:
        pos = rng.uniform(0, 1, (n, 3)); p = (pos[:, 0] * k).astype(int)
    if coords in ('sphere', 'spherer') and kind == 'strips': pos -= .5; pos[:, 2] += .8
    if coords == 'spherer': pos = pos * rng.uniform(.7, 1.3, n)[:, None]
    _, p = np.unique(p, return_inverse=True)
    return (pos * (sc if coords != 'sphere' else 1)), p

def field_kw(tp, n, coords):
    d = dict(w=rng.uniform(.5, 2, n))
    if rng.uniform() < .3: d['w'][rng.integers(0, n, n // 5)] = 0
    for l in tp:
        if l == 'K': d['k'] = rng.normal(size=n)
        for L, a in (('G', 'g'), ('V', 'v'), ('Z', 'z'), ('T', 't'), ('Q', 'q')):
            if l == L: d[a + '1'] = rng.normal(size=n); d[a + '2'] = rng.normal(size=n)
    return d

class Comm:
    def __init__(self, rank, size, box): self.rank, self.size, self.box = rank, size, box
    def Get_rank(self): return self.rank
    def Get_size(self): return self.size
    def send(self, o, dest): self.box.append((self.rank, dest, pickle.loads(pickle.dumps(o))))
    def recv(self, source):
        for q, (s, d, o) in enumerate(self.box):
            if s == source and d == self.rank: del self.box[q]; return o
        raise RuntimeError('nothing to receive from %d' % source)
    def Barrier(self): pass
def with_comm(mk, size, go):
    box = []; out = None
    for r in list(range(1, size)) + [0]:
        o = mk(); go(o, Comm(r, size, box)); out = o
    h.check(not box, 'comm:messages left')
    return out

def arrays(o):
    L = ['weight', 'npairs'] if hasattr(o, 'npairs') else ['weight', 'ntri']
    d = {k: getattr(o, k) for k in L if hasattr(o, k)}
    d.update({k: v for k, v in o.__dict__.items() if k.startswith(('_xi', '_z')) and isinstance(v, np.ndarray) and v.size and k[-1].isdigit()})
    return d

METR = dict(flat=['Euclidean', 'Periodic'], sphere=['Euclidean', 'Arc'], spherer=['Euclidean', 'Arc', 'Rperp', 'Rlens', 'OldRperp'], **{'3d': ['Euclidean', 'Periodic', 'Arc', 'Rperp', 'Rlens', 'OldRperp']})
def two(h):
    while not h.time_up and (h.n < 1 or time.time() - h.t0 < h.budget * .5):
        coords = rng.choice(['flat', '3d', 'sphere', 'spherer']); metric = str(rng.choice(METR[coords]))
        tp = str(rng.choice(['NN', 'NN', 'NN', 'KK', 'GG', 'NG', 'KV', 'NK'])) if coords != '3d' else str(rng.choice(['NN', 'NN', 'KK', 'NK']))
        if 'V' in tp and coords != 'flat': tp = 'NG'
        auto = tp[0] == tp[1] and metric != 'Rlens' and rng.uniform() < .5
        kind = str(rng.choice(['clusters', 'strips', 'uneven'])); n = int(rng.integers(40, 160))
        sc = float(rng.choice([1, 1, 1e-3, 500]))
        if coords == 'sphere' or metric == 'Arc': unit_ = 1.
        else: unit_ = sc
        bt = str(rng.choice(['Log', 'Linear', 'TwoD'])) if metric == 'Euclidean' and coords == 'flat' else str(rng.choice(['Log', 'Linear']))
        mx = float(rng.choice([.02, .05, .1, .3])); q = dict(max_sep=mx * unit_, nbins=3, bin_type=bt, bin_slop=0, metric=metric, verbose=0)
        if bt != 'TwoD': q['min_sep'] = mx * unit_ * float(rng.choice([.02, .3]))
        if metric == 'Periodic': q['period'] = unit_
        if tp != 'NN' or rng.uniform() < .4: q['brute'] = True      # otherwise the spin fields of a cell are averaged
        pos, p = points(coords, n, kind, sc)
        if metric == 'Periodic': pos = np.mod(pos, unit_)
        pos2, p2 = points(coords, n, kind, sc)
        same_ = not auto and rng.uniform() < .5
        if metric == 'Periodic': pos2 = np.mod(pos2, unit_)
        a1, a2 = field_kw(tp[:1] if not auto else tp, n, coords), field_kw(tp[1:], n, coords)
        m = min(p.max(), p2.max()) + 1
        who = str(rng.choice(['both', 'first', 'second']))
        if not auto and who == 'both': p, p2 = p % m, p2 % m
        local = rng.uniform() < .4 and (auto or who != 'second' )
        low, size = bool(rng.uniform() < .3), int(rng.choice([0, 0, 0, 1, 2, 3, 4]))
        h.case((coords, metric, tp, auto, kind, bt, who, local, bool(size)), n=n, sc=sc, q=q, low=low, size=size, seed=SEED, patch=p)
        C = lambda P, A, pt=None: make_cat(coords, P, **A, **({} if pt is None else dict(patch=pt)))
        cls = getattr(treecorr, tp + 'Correlation'); mk = lambda: cls(**q)
        u = mk()
        if auto: u.process(C(pos, a1))
        else: u.process(C(pos, a1), C(pos2, a2))
        def go(o, comm):
            kw = dict(patch_method='local' if local else 'global', low_mem=low)
            if comm is not None: kw['comm'] = comm
            if auto: o.process(C(pos, a1, p), **kw)
            else: o.process(C(pos, a1, p if who != 'second' else None), C(pos2, a2, p2 if who != 'first' else None), **kw)
        if size: o = with_comm(mk, size, go)
        else: o = mk(); go(o, None)
        f = 2. if local and auto and bt != 'TwoD' else 1.
        A, B = arrays(u), arrays(o)
        for k in A:
            if k == '_xi2' and auto: continue      # its sign depends on the order within each pair
            g = f if k in ('weight', 'npairs') else 1
            s = 1
            h.close(B[k], g * A[k], '%s:%s' % ('local' if local else 'global', k if not k.startswith('_') else 'xi'), rtol=1e-6, atol=1e-7 * s + 1e-12)
        if hasattr(u, 'tot'): h.close(o.tot, f * u.tot, ('local' if local else 'global') + ':tot', rtol=1e-9)
        # the stored results add up to the totals
        if len(o.results): h.close(sum(getattr(r, 'npairs') for r in o.results.values()), o.npairs, 'sum of the stored results')

def three(h):
    t0 = time.time(); b = h.budget * .3
    while time.time() - t0 < b:
        coords = rng.choice(['flat', '3d', 'sphere', 'spherer']); metric = str(rng.choice([m for m in METR[coords] if m in ('Euclidean', 'Arc', 'Periodic')]))
        bt = str(rng.choice(['LogRUV', 'LogSAS', 'LogMultipole']))
        if metric == 'Periodic' and (bt == 'LogMultipole' or coords == '3d'): metric = 'Euclidean'      # no orientation of a triangle in a periodic volume
        tp = 'NNN' if coords in ('3d', 'spherer') or rng.uniform() < .6 else str(rng.choice(['KKK', 'GGG'])) if bt != 'x' else 'NNN'
        nl = int(rng.choice([1, 1, 2, 3])); kind = str(rng.choice(['clusters', 'strips', 'uneven'])); n = int(rng.integers(15, 40)); sc = float(rng.choice([1, 1e-3, 300]))
        u_ = 1. if coords == 'sphere' or metric == 'Arc' else sc
        mx = float(rng.choice([.1, .2, .4] if metric != 'Periodic' else [.05, .1, .2])); q = dict(min_sep=mx * u_ * .1, max_sep=mx * u_, nbins=2, bin_type=bt, bin_slop=0, angle_slop=0, metric=metric, verbose=0)
        if bt == 'LogRUV': q.update(nubins=2, nvbins=2)
        if bt == 'LogSAS': q.update(nphi_bins=3)
        if bt == 'LogMultipole': q.update(max_n=3)
        if metric == 'Periodic': q['period'] = u_
        if tp != 'NNN' or bt == 'LogMultipole' or rng.uniform() < .4: q['brute'] = True
        P = []
        for _ in range(nl):
            x, p = points(coords, n, kind, sc)
            if metric == 'Periodic': x = np.mod(x, u_)
            P.append([x, p, field_kw(tp[:1], n, coords)])
        m = min(p.max() for _, p, _ in P) + 1
        for c in P: c[1] = c[1] % m
        ordered = True if nl == 1 else bool(rng.uniform() < .5)
        local = bt == 'LogMultipole' or rng.uniform() < .4
        low, size = bool(rng.uniform() < .3), int(rng.choice([0, 0, 0, 2, 3]))
        unp = set() if nl == 1 or rng.uniform() < .6 else {int(rng.integers(1, nl))}
        h.case(('3', coords, metric, bt, tp, nl, kind, ordered, local, bool(size), len(unp)), n=n, sc=sc, q=q, low=low, size=size, unpatched=sorted(unp))
        C = lambda c, pt: make_cat(coords, c[0], **c[2], **(dict(patch=c[1]) if pt else {}))
        cls = getattr(treecorr, tp + 'Correlation'); mk = lambda: cls(**q)
        kw = dict(ordered=ordered) if nl > 1 else {}
        if bt != 'LogMultipole': kw['algo'] = 'triangle'
        u = mk(); u.process(*[C(c, False) for c in P], **kw)
        def go(o, comm):
            k = dict(kw, patch_method='local' if local else 'global', low_mem=low)
            if comm is not None: k['comm'] = comm
            o.process(*[C(c, q_ not in unp) for q_, c in enumerate(P)], **k)
        if size: o = with_comm(mk, size, go)
        else: o = mk(); go(o, None)
        A, B = arrays(u), arrays(o); g = 'local' if local else 'global'
        for k in A:
            s = max(np.abs(A[k]).max(), np.abs(A['ntri']).max(), 1)
            if k.startswith('_'): s = 1
            if os.environ.get('HDUMP') and k == 'ntri' and not np.allclose(A[k], B[k]): pickle.dump((P, q, kw, local, A[k], B[k]), open(os.environ['HDUMP'], 'wb'))
            h.close(B[k], A[k], '3pt:%s:%s' % (g, k if not k.startswith('_') else 'zeta'), rtol=1e-5, atol=1e-6 * s)
        if hasattr(u, 'tot'): h.close(o.tot, u.tot, '3pt:%s:tot' % g, rtol=1e-9)

def mdist(metric, coords, a, b, per):
    d = a[:, None] - b[None]
    if metric == 'Periodic': d = d - per * np.round(d / per)
    r = np.sqrt((d**2).sum(-1))
    if metric == 'Arc':
        ua, ub = sph(a), sph(b); return 2 * np.arcsin(np.clip(np.sqrt(((ua[:, None] - ub[None])**2).sum(-1)) / 2, 0, 1))
    return r
def direct(h):
    """skipping and trimming only remove what is out of range"""
    t0 = time.time(); b = h.budget * .18
    while time.time() - t0 < b:
        coords = str(rng.choice(['flat', '3d', 'sphere', 'spherer'])); metric = str(rng.choice([m for m in METR[coords] if m in ('Euclidean', 'Arc', 'Periodic')]))
        P = []; sc = float(rng.choice([1, 1e-3, 300])) if coords != 'sphere' else 1.
        u_ = 1. if coords == 'sphere' or metric == 'Arc' else sc
        for _ in range(3):
            cen = np.abs(rng.normal(0, 1, 3)); cen /= np.linalg.norm(cen)
            x = cen + rng.normal(0, 1, (int(rng.integers(1, 8)), 3)) * float(rng.choice([0, .02, .1, .3]))
            if coords == 'spherer': x *= rng.uniform(.7, 1.3, len(x))[:, None]
            if metric == 'Periodic': x = np.mod(x, 1)
            if coords == 'flat': x[:, 2] = 0
            if coords == 'sphere': x = sph(x)
            P.append(x * sc)
        cats = [make_cat(coords, x) for x in P]
        mx = float(rng.choice([.01, .1, .3, .6])) * u_
        per = dict(period=u_) if metric == 'Periodic' else {}
        bt = str(rng.choice(['Log', 'Linear', 'TwoD'])) if coords == 'flat' and metric != 'Periodic' else 'Log'
        o = treecorr.NNCorrelation(max_sep=mx, nbins=3, bin_type=bt, metric=metric, **({} if bt == 'TwoD' else dict(min_sep=mx / 20)), **per)
        o._set_metric(metric, cats[0].coords, cats[1].coords)
        h.case(('direct', coords, metric, bt, u_, mx / u_), P=P[0], Q=P[1])
        d = [mdist(metric, coords, P[a], P[c], u_) for a, c in ((0, 1), (0, 2), (1, 2))]
        lim = mx * (np.sqrt(2) if bt == 'TwoD' else 1) * (1 - 1e-9)
        if bt == 'TwoD':
            z = P[0][:, None] - P[1][None]; z = z - u_ * np.round(z / u_) if metric == 'Periodic' else z
            inr = (np.abs(z[..., :2]).max(-1) < mx * (1 - 1e-9)).any()
        else: inr = (d[0] < lim).any()
        if inr: h.check(not o._trivially_zero(cats[0], cats[1]), '2pt skip of patches with a pair in range', dist=d[0].min())
        o3 = treecorr.NNNCorrelation(min_sep=mx / 20, max_sep=mx, nbins=2, bin_type=str(rng.choice(['LogRUV', 'LogSAS'])), metric=metric, **per)
        o3._set_metric(metric, *[c.coords for c in cats])
        cnt = 0
        for i, j, k in itertools.product(*[range(len(x)) for x in P]):
            s = sorted((d[0][i, j], d[1][i, k], d[2][j, k]))
            if s[1] < mx * (1 - 1e-9): cnt += 1; break       # two sides in range: needed by LogRUV (d2) and LogSAS (d2, d3)
        if cnt: h.check(not o3._trivially_zero(*cats), '3pt skip of patches with a triangle in range')
        for obj in (o, o3):
            e = obj._make_expanded_patch(cats[0], [cats[1], cats[2]], metric, False)
            L = mx * (np.sqrt(2) if obj is o and bt == 'TwoD' else 1) * (1 - 1e-9)
            want = (d[0].min(0) < L).sum() + (d[1].min(0) < L).sum()
            have = np.stack([e.x, e.y, e.z if e.z is not None else 0 * e.x], 1)
            got = (mdist(metric, coords, P[0], have, u_).min(0) < L).sum()
            h.check(got == want, 'objects near a patch are kept', got=int(got), want=int(want))
            h.close(e._sumw, cats[1].sumw + cats[2].sumw, 'the trimmed catalog keeps the total weight')

if __name__ == "__main__": h.run(direct, two, three)
