"""P15: bin layouts of the real constructors against an independent description of the layout, and the bin that the compiled
code puts a pair at a given separation into"""
import sys, os, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import *
U = dict(arcsec=math.pi / 180 / 3600, arcmin=math.pi / 180 / 60, deg=math.pi / 180, hours=math.pi / 12, rad=1., none=1.)
def pick(r, xs): return xs[int(r.integers(len(xs)))]
def given(r, mn, mx, bs, n, sets): return pick(r, sets)

def two(h):
    r = h.rng
    for t in range(400 if TIER == 'quick' else 20000):
        if h.time_up: return
        bt = pick(r, ['Log', 'Linear', 'TwoD']); u = pick(r, list(U)); uf = U[u]
        n = int(r.integers(1, 12)); mn = 10 ** r.uniform(-2, 1) / uf * 0.01; 
        if bt == 'Log': bs = r.uniform(0.01, 0.9); mx = mn * math.exp(n * bs)
        elif bt == 'Linear': bs = r.uniform(0.1, 2) * mn; mx = mn + n * bs
        else: mx = mn; bs = 2 * mx / n; mn = 0.
        full = dict(min_sep=mn, max_sep=mx, bin_size=bs, nbins=n)
        keys = pick(r, [('min_sep', 'max_sep', 'bin_size'), ('min_sep', 'max_sep', 'nbins'), ('min_sep', 'nbins', 'bin_size'), ('max_sep', 'nbins', 'bin_size')] if bt != 'TwoD'
                    else [('max_sep', 'bin_size'), ('max_sep', 'nbins'), ('nbins', 'bin_size')])
        kw = {k: full[k] for k in keys}
        if 'nbins' not in keys: kw['bin_size'] = bs * (1 + r.uniform(1e-6, 0.9 / n))   # rounds up to n bins
        ns = max(1, math.ceil((n / (kw['bin_size'] / bs)) * (1 - 1e-12))) if 'nbins' not in keys else n
        if ns != n:
            n = ns; bs = (math.log(mx / mn) if bt == 'Log' else mx - mn if bt == 'Linear' else 2 * mx) / n
        if u != 'none': kw['sep_units'] = u
        slop = pick(r, [None, 0., 0.5, 1.])
        if slop is not None: kw['bin_slop'] = slop
        h.case('%s/%s/%s/%s' % (bt, u, '+'.join(keys), slop), **kw, n=n)
        c = treecorr.NNCorrelation(bin_type=bt, **kw)
        h.check(c.nbins == n and isinstance(c.nbins, int), 'nbins', got=c.nbins)
        for q, w in (('min_sep', mn), ('max_sep', mx), ('bin_size', bs)): h.close(getattr(c, q), w, q, rtol=1e-9, atol=1e-12 * mx)
        h.close(c._min_sep, mn * uf, '_min_sep', atol=0 if mn else 1e-300); h.close(c._max_sep, mx * uf, '_max_sep')
        k = np.arange(n); nat = 1. if bt == 'Log' else uf
        h.close(c._bin_size, bs * nat, '_bin_size'); 
        lo = math.log(mn) + k * bs if bt == 'Log' else mn + k * bs
        if bt == 'TwoD':
            g = -mx + (k + .5) * bs; X, Y = np.meshgrid(g, g)
            for q, w in (('dxnom', X), ('dynom', Y), ('left_edges', X - bs / 2), ('right_edges', X + bs / 2), ('bottom_edges', Y - bs / 2), ('top_edges', Y + bs / 2), ('rnom', np.hypot(X, Y))):
                h.close(getattr(c, q), w, q, rtol=1e-8, atol=1e-10 * mx)
            with np.errstate(divide='ignore'): L = np.log(c.rnom)
            h.close(np.exp(c.logr), c.rnom, 'logr'); good = 0.1
        else:
            f = np.exp if bt == 'Log' else lambda x: x
            for q, w in (('left_edges', f(lo)), ('right_edges', f(lo + bs)), ('rnom', f(lo + bs / 2)), ('logr', np.log(f(lo + bs / 2)))): h.close(getattr(c, q), w, q, rtol=1e-8, atol=1e-9)
            good = 0.1 / bs if bt == 'Log' else 0.1 * (mn + bs / 2) / bs
        ws = slop if slop is not None else min(good, 1.)
        h.close(c.bin_slop, ws, 'bin_slop', rtol=1e-8); h.close(c.b, ws * bs * nat, 'b', rtol=1e-8)
        # the compiled object: one pair, just inside or outside an edge
        if bt != 'TwoD' and mx * uf < 3 and mn > 0:
            i = int(r.integers(-1, n + 1)); fr = pick(r, [1e-4, 1 - 1e-4, r.uniform(0.01, 0.99)])
            s = (math.exp(math.log(mn) + (i + fr) * bs) if bt == 'Log' else mn + (i + fr) * bs) * uf
            if 0 < s < 3:
                if u == 'none': a = treecorr.Catalog(x=[0.], y=[0.]); b = treecorr.Catalog(x=[s * .6], y=[s * .8])
                else:
                    s2 = s; a = treecorr.Catalog(ra=[0.], dec=[0.], ra_units='rad', dec_units='rad'); b = treecorr.Catalog(ra=[2 * math.asin(s / 2)] if s < 2 else [0.], dec=[0.], ra_units='rad', dec_units='rad')
                if u == 'none' or s < 2:
                    c.process_cross(a, b); w = np.zeros(n); 
                    if 0 <= i < n: w[i] = 1
                    h.close(c.npairs, w, 'bin of a pair', sep=s / uf)
        elif bt == 'TwoD':
            i, j = int(r.integers(0, n)), int(r.integers(0, n)); x, y = (-mx + (i + .5 + r.uniform(-.49, .49)) * bs) * uf, (-mx + (j + .5 + r.uniform(-.49, .49)) * bs) * uf
            if abs(x) > 1e-6 * mx * uf or abs(y) > 1e-6 * mx * uf:
                c.process_cross(treecorr.Catalog(x=[0.], y=[0.]), treecorr.Catalog(x=[x], y=[y])) if True else 0
                w = np.zeros((n, n)); w[j, i] = 1; h.close(c.npairs, w, 'bin of a pair')

def three(h):
    r = h.rng
    for t in range(300 if TIER == 'quick' else 20000):
        if h.time_up: return
        bt = pick(r, ['LogRUV', 'LogSAS', 'LogMultipole']); u = pick(r, list(U)); uf = U[u]
        n = int(r.integers(1, 6)); mn = 10 ** r.uniform(-2, 1) / uf * 0.01; bs = r.uniform(0.02, 0.9); mx = mn * math.exp(n * bs)
        full = dict(min_sep=mn, max_sep=mx, bin_size=bs, nbins=n)
        keys = pick(r, [('min_sep', 'max_sep', 'bin_size'), ('min_sep', 'max_sep', 'nbins'), ('min_sep', 'nbins', 'bin_size'), ('max_sep', 'nbins', 'bin_size')])
        kw = {k: full[k] for k in keys}
        if u != 'none': kw['sep_units'] = u
        nominal = bs
        if 'nbins' not in keys:
            kw['bin_size'] = nominal = bs * (1 + r.uniform(1e-6, 0.5 / n)); n = max(1, math.ceil(math.log(mx / mn) / nominal)); bs = math.log(mx / mn) / n
        def rng1(name, top, uni=1.):
            """one of the ranges u, |v|, phi: some of min, max, size, n given -> (min, max, n) in natural units"""
            g = {q for q in ('min', 'max', 'size', 'n') if r.random() < .5}
            if g == {'size', 'n'}: g.add(pick(r, ['min', 'max']))   # which end stays at its default is not documented
            if len(g) == 4: g.discard(pick(r, ['min', 'max', 'size', 'n']))
            lo = r.uniform(0, .4) * top if 'min' in g else 0.; hi = r.uniform(.6, 1) * top if 'max' in g else top
            m = int(r.integers(1, 6)); size = r.uniform(.05, .4)
            key = dict(min='min_' + name, max='max_' + name, size=name + 'bin_size', n='n%sbins' % name) if name != 'phi' else dict(min='min_phi', max='max_phi', size='phi_bin_size', n='nphi_bins')
            if 'min' in g: kw[key['min']] = lo / uni
            if 'max' in g: kw[key['max']] = hi / uni
            if 'size' in g: kw[key['size']] = size
            if 'n' in g:
                kw[key['n']] = m
                if 'size' in g:
                    if 'max' not in g: hi = min(lo + m * size, top)
                    elif 'min' not in g: lo = max(hi - m * size, 0.)
            else: m = int(math.ceil((hi - lo - 1e-10) / (size if 'size' in g else nominal)))
            return lo, hi, m
        sh = []
        if bt == 'LogRUV': sh = [rng1('u', 1.), rng1('v', 1.)]
        elif bt == 'LogSAS':
            pu = pick(r, ['none', 'deg', 'rad', 'arcmin'])
            if pu != 'none': kw['phi_units'] = pu
            sh = [rng1('phi', math.pi, U[pu])]
        else: kw['max_n'] = mxn = int(r.integers(0, 8))
        h.case('%s/%s/%s/%d' % (bt, u, '+'.join(keys), len(kw)), **kw)
        c = treecorr.NNNCorrelation(bin_type=bt, **kw)
        h.check(c.nbins == n, 'nbins', got=c.nbins, want=n)
        if c.nbins != n: continue
        for q, w in (('min_sep', mn), ('max_sep', mx), ('bin_size', bs), ('_min_sep', mn * uf), ('_max_sep', mx * uf)): h.close(getattr(c, q), w, q)
        lr = math.log(mn) + (np.arange(n) + .5) * bs
        def axis(lo, hi, m): return lo + (np.arange(m) + .5) * (hi - lo) / m
        ro = c._ro
        for (lo, hi, m), names in zip(sh, (('min_u', 'max_u', 'nubins', 'ubin_size'), ('min_v', 'max_v', 'nvbins', 'vbin_size'))):
            for q, w in zip(names, (lo, hi, m, (hi - lo) / m)): h.close(getattr(ro, q), w, '%s %s' % (bt, q), rtol=1e-8, atol=1e-9)
        if bt == 'LogRUV' and ro.nubins == sh[0][2] and ro.nvbins == sh[1][2]:
            v = axis(*sh[1]); grid = np.meshgrid(lr, axis(*sh[0]), np.concatenate([-v[::-1], v]), indexing='ij')
            for q, w in (('logr', grid[0]), ('u', grid[1]), ('v', grid[2]), ('rnom', np.exp(grid[0]))): h.close(getattr(c, q), w, q, rtol=1e-7, atol=1e-8)
        elif bt == 'LogSAS' and ro.nubins == sh[0][2]:
            grid = np.meshgrid(lr, lr, axis(*sh[0]), indexing='ij')
            for q, w in (('logd2', grid[0]), ('logd3', grid[1]), ('phi', grid[2]), ('d2nom', np.exp(grid[0])), ('d3nom', np.exp(grid[1]))): h.close(getattr(c, q), w, q, rtol=1e-7, atol=1e-8)
        elif bt == 'LogMultipole':
            grid = np.meshgrid(lr, lr, np.arange(-mxn, mxn + 1), indexing='ij')
            for q, w in (('logd2', grid[0]), ('logd3', grid[1]), ('n', grid[2])): h.close(getattr(c, q), w, q, rtol=1e-7, atol=1e-8)

if __name__ == '__main__':
    h = Harness(bound='random parameter sets, at most 12 bins per axis', quick_s=60, thorough_s=600)
    h.run(two, three)
