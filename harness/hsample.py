"""P10: sample_pairs on random catalogs against the directly enumerated pairs in range"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import *
from harness.hnear import some

def sample(h):
    rng = h.rng
    while not h.time_up:
        coords = ['flat', '3d', 'sphere'][rng.integers(3)]
        n1, n2 = int(rng.integers(1, 15)), int(rng.integers(1, 15))
        p = some(rng, coords, n1 + n2); p1, p2 = p[:n1], p[n1:]
        w1, w2 = rng.uniform(0.5, 2, n1), rng.uniform(0.5, 2, n2)
        same = bool(rng.integers(2))
        c1 = make_cat(coords, p1, w=w1); c2 = c1 if same else make_cat(coords, p2, w=w2)
        if same: p2 = p1
        d = np.sqrt(((p1[:, None] - p2[None]) ** 2).sum(-1))
        pos = np.unique(d[d > 0])
        if len(pos) == 0: continue
        bt = ['Log', 'Linear'][rng.integers(2)]
        lo, hi = np.sort(rng.choice(np.concatenate([pos * 0.999, pos * 1.001]), 2))
        if rng.integers(2): lo, hi = pos[0] * 0.9, pos[-1] * 1.1
        if hi <= lo * 1.0001: continue
        # brute: exact ranges and separations.  Otherwise bin_slop=0: exact ranges, separations of cells
        brute = bool(rng.integers(2))
        kw = dict(min_sep=pos[0] * rng.uniform(0.3, 1), max_sep=pos[-1] * rng.uniform(1.01, 2), nbins=int(rng.integers(1, 8)), bin_type=bt, bin_slop=0, brute=brute, rng=np.random.default_rng(int(rng.integers(1 << 30))))
        if coords == 'sphere': kw['sep_units'] = 'rad'; 
        if kw['max_sep'] <= kw['min_sep']: continue
        nn = treecorr.NNCorrelation(**kw)
        ok = (d >= lo) & (d < hi); tot = int(ok.sum())
        n = int(rng.integers(1, max(2, 2 * tot))) if rng.integers(4) else max(tot, 1)
        if rng.integers(3) == 0: nn2 = treecorr.NNCorrelation(**dict(kw, bin_slop=1, brute=False)); nn2.process(c1, c2)    # leaves a coarse field in the cache
        h.case((coords, bt, brute, same), p1=p1, p2=p2, n=n, lo=lo, hi=hi, cfg={k: v for k, v in kw.items() if k != 'rng'})
        for rep in range(3):
            i1, i2, sep = nn.sample_pairs(n, c1, c2, min_sep=lo, max_sep=hi)
            h.check(len(i1) == len(i2) == len(sep) == min(n, tot), 'number of pairs', got=len(i1), want=min(n, tot), tot=tot)
            pr = set(zip(i1.tolist(), i2.tolist()))
            h.check(len(pr) == len(i1), 'no pair twice', i1=i1, i2=i2)
            val = all(0 <= a < n1 and 0 <= b < len(p2) for a, b in pr)
            h.check(val, 'valid indices', i1=i1, i2=i2)
            if not val: continue
            dd = d[i1, i2]
            h.check(bool(np.all((dd >= lo * (1 - 1e-9)) & (dd < hi * (1 + 1e-9)))), 'inside the range', dist=dd)
            if brute: h.close(sep, dd, 'reported separation', rtol=1e-6)

if __name__ == '__main__':
    Harness(bound='random catalogs of up to 14 x 14 objects, seeded', quick_s=40, thorough_s=600).run(sample)
