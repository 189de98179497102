"""P05: totals do not depend on threads, on the division of the work into objects, or on copying"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import *
from harness.hfield import fields, points, TYPES
import pickle
T3 = ['NNN', 'KKK', 'GGG']
ACC2 = ['npairs', 'weight', 'meanr', 'meanlogr', 'xi', 'xi_im', 'xip', 'xip_im', 'xim', 'xim_im', 'tot']
ACC3 = ['ntri', 'weightr', 'weighti', 'meand1', 'meand2', 'meand3', 'meanlogd1', 'meanlogd2', 'meanlogd3', 'meanu', 'meanv', 'zeta', 'gam0', 'gam1', 'gam2', 'gam3', 'tot'] + ['_z%d' % i for i in range(1, 9)]
def get(c):
    out = {}
    for m in (ACC3 if hasattr(c, 'ntri') else ACC2):
        try: a = getattr(c, m, None)
        except Exception: continue
        if m == 'meanv' and c.bin_type != 'LogRUV': continue      # scratch in the other binnings
        if a is not None and np.size(a): out[m] = np.array(a).copy()
    return out
def cmp(h, a, b, id, scale=1.):
    for m in a:
        if m not in b: h.fail(id + ':missing ' + m); continue
        s = max(10., 3 * np.abs(a[m]).max() if a[m].size else 1)
        h.close(b[m], a[m], id + ':' + m, rtol=1e-6, atol=3e-6 * s)
def cats(h, tp, coords, n):
    """catalogs of equal length for the letters of tp"""
    out = []
    for l in tp:
        p = points(h.rng, coords, n, 1.); kw, v = fields(h.rng, n, l)
        out.append((p, dict(kw, w=h.rng.uniform(0.2, 2, n))))
    return out
def sub(c, idx, coords): return make_cat(coords, c[0][idx], **{k: v[idx] for k, v in c[1].items()})

def two(h):
    i = 0
    while not h.time_up and i < (90 if TIER == 'quick' else 900):
        tp = TYPES[i % len(TYPES)]; i += 1
        coords = ('flat', '3d', 'sphere')[h.rng.integers(3)]; bt = ('Log', 'Linear', 'TwoD')[h.rng.integers(3 if coords == 'flat' else 2)]
        n = int(h.rng.integers(8, 60)); a, b = cats(h, tp, coords, n)
        kw = dict(bin_type=bt, bin_slop=0, angle_slop=0); kw.update(dict(max_sep=1.5, nbins=3) if bt == 'TwoD' else dict(min_sep=0.05, max_sep=1.9, nbins=4))
        cls = getattr(treecorr, tp + 'Correlation'); al = np.arange(n)
        auto = tp[0] == tp[1] and h.rng.integers(2)
        h.case('%s/%s/%s/%d/%d' % (tp, coords, bt, n, auto), kw=kw)
        A, B = sub(a, al, coords), sub(b, al, coords)
        res = []
        for th in (1, 3, 8):
            c = cls(**kw)
            if auto: c._process_auto(A, num_threads=th) if not hasattr(c, 'process_auto') else c.process_auto(A, num_threads=th)
            else: c.process_cross(A, B, num_threads=th)
            res.append(get(c))
        # on duplicated points or other splits the traversal is the same: only the division over threads differs
        if auto:
            for r in res: r.pop('xip_im', None)
        cmp(h, res[0], res[1], 'threads3:' + tp); cmp(h, res[0], res[2], 'threads8:' + tp)
        # division into objects: rows of the second catalog
        lab = h.rng.integers(0, 3, n); parts = [np.flatnonzero(lab == j) for j in range(3)]; parts = [p for p in parts if len(p)]
        if auto: continue
        tot = cls(**kw); ps = []
        for p in parts:
            c = cls(**kw); c.process_cross(A, sub(b, p, coords)); ps.append(c); 
        for c in ps: tot += c
        cmp(h, res[0], get(tot), 'iadd:' + tp)
        t2 = cls(**kw); t2._sum(ps); cmp(h, res[0], get(t2), '_sum:' + tp)
        one = cls(**kw)
        for p in parts: one.process_cross(A, sub(b, p, coords))
        cmp(h, res[0], get(one), 'accumulate:' + tp)
        cp = tot.copy(); before = get(tot)
        cmp(h, before, get(cp), 'copy:' + tp); cmp(h, before, get(pickle.loads(pickle.dumps(tot))), 'pickle:' + tp)
        cp.process_cross(A, B)
        cmp(h, before, get(tot), 'copy independent:' + tp); cmp(h, {m: 2 * v for m, v in before.items()}, get(cp), 'copy continues:' + tp)
        tot.clear(); 
        for m, v in get(tot).items(): h.check(not np.any(v), 'clear:%s:%s' % (tp, m))
        tot.process_cross(A, B); cmp(h, before, get(tot), 'reuse after clear:' + tp)

def three(h):
    i = 0
    while not h.time_up and i < (36 if TIER == 'quick' else 300):
        tp = T3[i % 3]; bt = ('LogRUV', 'LogSAS', 'LogMultipole')[(i // 3) % 3]; i += 1
        coords = ('flat', '3d', 'sphere')[h.rng.integers(3)]
        n = int(h.rng.integers(6, 18)); a, b, d = cats(h, tp, coords, n)
        kw = dict(bin_type=bt, bin_slop=0, angle_slop=0, min_sep=0.05, max_sep=1.9, nbins=3)
        kw.update(dict(nubins=2, nvbins=2) if bt == 'LogRUV' else dict(nphi_bins=3) if bt == 'LogSAS' else dict(max_n=3))
        cls = getattr(treecorr, tp + 'Correlation'); al = np.arange(n)
        h.case('%s/%s/%s/%d' % (tp, coords, bt, n), kw=kw)
        A, B, D = sub(a, al, coords), sub(b, al, coords), sub(d, al, coords)
        for mode in ('auto', 'cross12', 'cross'):
            def proc(c, A, B, D, th=2):
                if mode == 'auto': c.process_auto(A, num_threads=th)
                elif mode == 'cross12': c.process_cross12(A, B, num_threads=th, ordered=True)
                else: c.process_cross(A, B, D, num_threads=th, ordered=True)
            res = []
            for th in (1, 8):
                c = cls(**kw); proc(c, A, B, D, th); res.append(get(c))
            if mode != 'auto' or bt == 'LogRUV': cmp(h, res[0], res[1], 'threads:%s:%s:%s' % (tp, bt, mode))
            else: cmp(h, {m: res[0][m] for m in ('ntri',)}, res[1], 'threads:%s:%s:%s' % (tp, bt, mode))
            if mode != 'cross': continue
            lab = h.rng.integers(0, 3, n); parts = [p for p in (np.flatnonzero(lab == j) for j in range(3)) if len(p)]
            ps = []
            for p in parts: c = cls(**kw); proc(c, sub(a, p, coords), B, D); ps.append(c)
            tot = cls(**kw)
            for c in ps: tot += c
            cmp(h, res[0], get(tot), 'iadd:%s:%s' % (tp, bt))
            t2 = cls(**kw); t2._sum(ps); cmp(h, res[0], get(t2), '_sum:%s:%s' % (tp, bt))
            cp = tot.copy(); before = get(tot)
            cmp(h, before, get(cp), 'copy:' + tp); cmp(h, before, get(pickle.loads(pickle.dumps(tot))), 'pickle:' + tp)
            proc(cp, A, B, D); cmp(h, before, get(tot), 'copy independent:' + tp); cmp(h, {m: 2 * v for m, v in before.items()}, get(cp), 'copy continues:' + tp)
            tot.clear()
            for m, v in get(tot).items(): h.check(not np.any(v), 'clear:%s:%s' % (tp, m))

if __name__ == '__main__':
    h = Harness(bound='at most 60 points (18 for three-point), 1/3/8 threads, up to 3 partial objects', quick_s=70, thorough_s=900)
    h.run(two, three)
