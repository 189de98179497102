"""P23: aperture statistics against direct sums of the documented formulae, for random contents of the correlations"""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import *
import itertools

def Ts(form, s):
    if form == 'Crittenden':
        e = np.exp(-s * s / 4)
        return (s**4 - 16 * s**2 + 32) / 128 * e, s**4 / 128 * e, s**2 * (12 - s**2) / 128 * e
    if s >= 2: return 0., 0., 0.
    ac, sq = np.arccos(s / 2), np.sqrt(4 - s * s)
    return (12 / (5 * np.pi) * (2 - 15 * s**2) * ac + s * sq * (120 + 2320 * s**2 - 754 * s**4 + 132 * s**6 - 9 * s**8) / (100 * np.pi),
            3 / (70 * np.pi) * s**3 * (4 - s * s)**3.5,
            18 / np.pi * s**2 * ac - 3 / (40 * np.pi) * s**3 * sq * (196 - 74 * s**2 + 14 * s**4 - s**6))
def S(s):
    sp = (4 * np.arccos(s / 2) - s * np.sqrt(4 - s * s)) / np.pi if s < 2 else 0.
    sm = (s * np.sqrt(4 - s * s) * (6 - s * s) - 8 * (3 - s * s) * np.arcsin(s / 2)) / (np.pi * s**4) if s < 2 else 4 * (s * s - 3) / s**4
    return sp, sm

def dmap(gg, R, form):
    out = []
    for r in R:
        a = np.zeros(5)
        for i in range(len(gg.meanr)):
            s = gg.meanr[i] / r; tp, tm, _ = Ts(form, s); h = gg.bin_size * s * s / 2
            xp, xm = complex(gg.xip[i], gg.xip_im[i]), complex(gg.xim[i], gg.xim_im[i])
            A, B = h * (tp * xp + tm * xm), h * (tp * xp - tm * xm)
            a += [A.real, A.imag, B.real, B.imag, h * h * (tp * tp * gg.varxip[i] + tm * tm * gg.varxim[i])]
        out.append(a)
    return np.array(out).T
def dgam(gg, R, eb):
    out = []
    for r in R:
        a = np.zeros(5)
        for i in range(len(gg.meanr)):
            s = gg.meanr[i] / r; sp, sm = S(s); h = gg.bin_size * s * s / 2
            a += [2 * h * sp * gg.xip[i], (2 * h * sp)**2 * gg.varxip[i], h * (sp * gg.xip[i] + sm * gg.xim[i]), h * (sp * gg.xip[i] - sm * gg.xim[i]),
                  h * h * (sp * sp * gg.varxip[i] + sm * sm * gg.varxim[i])]
        out.append(a)
    return np.array(out).T[:5 if eb else 2]
def dnm(ng, R, form, rg):
    z = 0 if rg is None else 1
    xi = ng.raw_xi - (rg.xi if z else 0); xim = ng.raw_xi_im - (rg.xi_im if z else 0); var = ng.raw_varxi + (rg.varxi if z else 0)
    out = []
    for r in R:
        a = np.zeros(3)
        for i in range(len(xi)):
            s = ng.meanr[i] / r; h = ng.bin_size * s * s * Ts(form, s)[2]
            a += [h * xi[i], h * xim[i], h * h * var[i]]
        out.append(a)
    return np.array(out).T
def dnap(dd, xi, var, R, form):
    out = []
    for r in R:
        a = np.zeros(2)
        for i in range(len(xi)):
            s = dd.meanr[i] / r; h = dd.bin_size * s * s * Ts(form, s)[0]
            a += [h * xi[i], h * h * var[i]]
        out.append(a)
    return np.array(out).T

def T3(s, t, k):
    """SKL eqs. 62-69 (at equal radii they are JBJ's 51 and 52)"""
    q = [(s + t) / 3, (s + t) / 3 - t, (s + t) / 3 - s]
    k2 = np.array(k, float)**2
    Th2 = np.sqrt((k2[0] * k2[1] + k2[1] * k2[2] + k2[0] * k2[2]) / 3)
    x = k2 / Th2; a = np.abs(q)**2
    Z = sum((2 * x[(i + 1) % 3] + 2 * x[(i + 2) % 3] - x[i]) * a[i] for i in range(3)) / (6 * Th2)
    e = -np.prod(x) * np.exp(-Z) / Th2**2
    f, g = [], []
    for i in range(3):
        j, m = (i + 1) % 3, (i + 2) % 3
        f.append((x[j] + x[m]) / 2 + (x[j] - x[m]) * (q[j] - q[m]) / (6 * q[i]))
        g.append(x[j] * x[m] + (x[m] - x[j]) * x[i] * (q[j] - q[m]) / (3 * q[i]))
    f, g = np.array(f), np.array(g)
    A = np.prod(a); fc = f.conj()
    T = [e * A * np.prod(fc**2) / (24 * Th2**3)]
    for i in range(3):
        j, m = (i + 1) % 3, (i + 2) % 3
        b = q[i].conjugate()**2 * q[j] * q[m]; gc = g[i].conjugate()
        T.append(e * (A * f[i]**2 * fc[j]**2 * fc[m]**2 / (24 * Th2**3) - b * f[i] * fc[j] * fc[m] * gc / (9 * Th2**2)
                      + (b * b * gc * gc + 2 * x[j] * x[m] * a[j] * a[m] * b * fc[j] * fc[m]) / (A * 27 * Th2)))
    return T
def dmap3(c, R, k2, k3):
    out = []
    ks = (1., k2, k3)
    ruv = c.bin_type == 'LogRUV'
    perms = list(itertools.permutations(range(3))) if ruv else [(0, 1, 2), (0, 2, 1)]
    G = [x.ravel() for x in (c.gam0, c.gam1, c.gam2, c.gam3)]; V = [x.ravel() for x in (c.vargam0, c.vargam1, c.vargam2, c.vargam3)]
    for r in R:
        m = 0; cc = [0, 0, 0]; var = 0.
        for i in range(c.meand2.size):
            s = c.meand2.ravel()[i] / r; d3 = c.meand3.ravel()[i] / r; d1 = c.meand1.ravel()[i] / r
            if ruv:
                u, v = c.meanu.ravel()[i], c.meanv.ravel()[i]
                tx = d3 * (u * (1 - v * v) / 2 - abs(v))
                if abs(tx) >= d3: continue
                ty = np.sqrt(d3 * d3 - tx * tx)
                t = complex(tx, -ty if v > 0 else ty)
                w = d3 * d3 * d1 / ty * c.ubin_size * c.vbin_size
            else:
                ph = c.meanphi.ravel()[i] * c._phi_units
                t = d3 * complex(np.cos(ph), np.sin(ph)); w = d3 * d3 * c.bin_size * c.phi_bin_size
            w *= s * s * c.bin_size / (2 * np.pi)
            co = np.zeros(4, complex)
            for pm in perms:
                T = w * np.array(T3(complex(s), t, [ks[x] for x in pm])); co += T
                m += T[0] * G[0][i]
                for q in range(3): cc[pm[q]] += T[q + 1] * G[q + 1][i]
            var += sum(abs(co[q])**2 * V[q][i] for q in range(4))
        if ruv or True:
            a, b, d = cc
            out.append([(m + a + b + d).real, (m + a + b - d).imag, (m + a - b + d).imag, (m - a + b + d).imag,
                        (-m + a + b - d).real, (-m + a - b + d).real, (-m - a + b + d).real, (-m + a + b + d).imag, var / 4])
    return np.array(out).T / 4

def two(h):
    rng = h.rng
    nb = int(rng.integers(3, 9))
    kw = dict(min_sep=float(rng.uniform(0.5, 2)), max_sep=float(rng.uniform(20, 60)), nbins=nb)
    form = ('Crittenden', 'Schneider')[rng.integers(2)]
    how = rng.integers(3)            # the form given in the call, in the constructor, or (Crittenden) nowhere
    a = {}
    if how == 1: kw['m2_uform'] = form
    elif how == 0 or form == 'Schneider': a['m2_uform'] = form
    R = [None, rng.uniform(0.3, 80, int(rng.integers(1, 5)))][rng.integers(2)]
    def fill(c, *ns):
        c.meanr = c.rnom * rng.uniform(0.95, 1.05, nb); c.meanlogr = np.log(c.meanr); c.weight = rng.uniform(1, 5, nb); c.npairs = c.weight * 2
        for n in ns: setattr(c, n, rng.normal(size=nb) if 'var' not in n else rng.uniform(0.1, 1, nb))
        return c
    h.case((form, int(how), R is None), kw=kw, R=R, a=a)
    gg = treecorr.GGCorrelation(**kw); fill(gg, '_xi1', '_xi2', '_xi3', '_xi4', '_varxip', '_varxim')
    Rv = gg.rnom if R is None else np.asarray(R)
    m = dmap(gg, Rv, form)
    h.close(np.array(gg.calculateMapSq(R=R, **a)), m, 'calculateMapSq', rtol=1e-8)
    g = dgam(gg, Rv, True)
    h.close(np.array(gg.calculateGamSq(R=R, eb=True)), g, 'calculateGamSq eb', rtol=1e-6, atol=1e-8)
    h.close(np.array(gg.calculateGamSq(R=R)), g[:2], 'calculateGamSq', rtol=1e-8)
    # density and density-shear, with finalized contents
    ng = treecorr.NGCorrelation(**kw); fill(ng, '_raw_xi1', '_raw_xi2'); 
    ng = treecorr.NGCorrelation(**kw); rg = treecorr.NGCorrelation(**kw)
    x = rng.uniform(0, 40, (3, 40))
    A = treecorr.Catalog(x=x[0], y=x[1], w=rng.uniform(0.5, 2, 40)); B = treecorr.Catalog(x=rng.uniform(0, 40, 40), y=rng.uniform(0, 40, 40), g1=rng.normal(size=40), g2=rng.normal(size=40), w=rng.uniform(0.5, 2, 40))
    C = treecorr.Catalog(x=rng.uniform(0, 40, 60), y=rng.uniform(0, 40, 60))
    ng.process(A, B); rg.process(C, B)
    userg = rng.integers(2)
    h.close(np.array(ng.calculateNMap(R=R, rg=rg if userg else None, **a)), dnm(ng, Rv, form, rg if userg else None), 'calculateNMap', rtol=1e-8)
    dd = treecorr.NNCorrelation(**kw); rr = treecorr.NNCorrelation(**kw); dr = treecorr.NNCorrelation(**kw)
    dd.process(A); rr.process(C); dr.process(A, C)
    if not (np.all(rr.weight > 0) and np.all(dr.weight > 0) and np.all(dd.weight > 0)): return
    f = dd.tot / rr.tot; fd = dd.tot / dr.tot
    usedr = rng.integers(2)
    xi = (dd.weight - 2 * fd * dr.weight + f * rr.weight) / (f * rr.weight) if usedr else dd.weight / (f * rr.weight) - 1
    got = dd.calculateNapSq(rr=rr, dr=dr if usedr else None, R=R, **a)
    x2, v2 = dd.calculateXi(rr=rr, dr=dr if usedr else None)
    n = dnap(dd, xi, v2, Rv, form)
    h.close(np.array(got), n, 'calculateNapSq', rtol=1e-8)
    tmp = tempfile.mkdtemp()
    try:
        ap = {k: 12 for k in ('precision',)}
        fn = os.path.join(tmp, 'o.out')
        rd = lambda: np.genfromtxt(fn, names=True, skip_header=0, deletechars='')
        def cols(want, id):
            with open(fn) as fh: head = [l for l in fh if l.startswith('#')]
            names = head[-1].lstrip('#').split()
            d = np.loadtxt(fn, ndmin=2)
            h.check(names == [k for k, _ in want], id + ' column names', got=names)
            for i, (k, v) in enumerate(want):
                if i < d.shape[1]: h.close(d[:, i], np.asarray(v, float), id + ' column ' + k, rtol=1e-6, atol=1e-9)
        gg.writeMapSq(fn, R=R, **a, **ap)
        cols([('R', Rv), ('Mapsq', m[0]), ('Mxsq', m[2]), ('MMxa', m[1]), ('MMxb', -m[3]), ('sig_map', np.sqrt(m[4])), ('Gamsq', g[0]), ('sig_gam', np.sqrt(g[1]))], 'writeMapSq')
        q = dnm(ng, Rv, form, rg if userg else None)
        ng.writeNMap(fn, R=R, rg=rg if userg else None, **a, **ap)
        cols([('R', Rv), ('NMap', q[0]), ('NMx', q[1]), ('sig_nmap', np.sqrt(q[2]))], 'writeNMap')
        with np.errstate(all='ignore'):
            ng.writeNorm(fn, gg=gg, dd=dd, rr=rr, dr=dr if usedr else None, R=R, rg=rg if userg else None, **a, **ap)
            r1 = q[0]**2 / (n[0] * m[0]); v1 = r1**2 * (4 * q[2] / q[0]**2 + n[1] / n[0]**2 + m[4] / m[0]**2)
            r2 = n[0] / m[0]; v2_ = r2**2 * (n[1] / n[0]**2 + m[4] / m[0]**2)
        cols([('R', Rv), ('NMap', q[0]), ('NMx', q[1]), ('sig_nmap', np.sqrt(q[2])), ('Napsq', n[0]), ('sig_napsq', np.sqrt(n[1])), ('Mapsq', m[0]), ('sig_mapsq', np.sqrt(m[4])),
              ('NMap_norm', r1), ('sig_norm', np.sqrt(v1)), ('Nsq_Mapsq', r2), ('sig_nn_mm', np.sqrt(v2_))], 'writeNorm') if np.all(np.abs(m[0]) > 1e-12) and np.all(n[0] != 0) and np.all(q[0] != 0) else None
    finally: shutil.rmtree(tmp)

def three(h):
    rng = h.rng
    bt = ('LogRUV', 'LogSAS')[rng.integers(2)]
    kw = dict(bin_type=bt, min_sep=float(rng.uniform(0.5, 2)), max_sep=float(rng.uniform(5, 20)), nbins=int(rng.integers(2, 4)))
    if bt == 'LogRUV': kw.update(nubins=int(rng.integers(2, 4)), nvbins=int(rng.integers(2, 4)), min_u=0.1, max_u=0.9, min_v=0.1, max_v=0.8)
    else: kw.update(nphi_bins=int(rng.integers(2, 5)), phi_units=('rad', 'deg')[rng.integers(2)])
    if bt == 'LogSAS': kw.update(min_phi=0.2, max_phi=2.9) if kw['phi_units'] == 'rad' else kw.update(min_phi=12., max_phi=170.)
    k2, k3 = [(1, 1), (1, 1.), (2, 1), (1, 3), (1.3, 0.6), (2, 2)][rng.integers(6)]
    R = [None, rng.uniform(0.5, 10, int(rng.integers(1, 4)))][rng.integers(2)]
    h.case((bt, k2, k3, R is None), kw=kw, R=R)
    c = treecorr.GGGCorrelation(**kw)
    sh = c.data_shape; n = int(np.prod(sh))
    nz = lambda: rng.uniform(0.98, 1.02, sh)
    if bt == 'LogRUV':
        u = np.broadcast_to(c.u, sh) * nz(); v = np.broadcast_to(c.v, sh) * nz()
        d2 = c.rnom * nz(); d3 = u * d2; d1 = d2 + np.abs(v) * d3
        c.meanu, c.meanv = u.copy(), v.copy()
    else:
        ph = c.phi * c._phi_units * nz(); d2 = c.d2nom * nz(); d3 = c.d3nom * nz(); d1 = np.sqrt(d2**2 + d3**2 - 2 * d2 * d3 * np.cos(ph))
        c.meanu = ph / c._phi_units
    c.meand1, c.meand2, c.meand3 = d1, d2, d3
    for i in range(1, 9): setattr(c, '_z%d' % i, rng.normal(size=sh))
    for i in range(4): setattr(c, '_vargam%d' % i, rng.uniform(0.1, 1, sh))
    Rv = c.rnom1d if R is None else R
    w = dmap3(c, Rv, k2, k3)
    got = np.array(c.calculateMap3(R=R, k2=k2, k3=k3))
    sc = np.abs(w).max() + 1e-300
    for i, nm in enumerate(('map3', 'mapmapmx', 'mapmxmap', 'mxmapmap', 'mxmxmap', 'mxmapmx', 'mapmxmx', 'mx3', 'var')):
        h.close(got[i], w[i], 'calculateMap3 ' + nm, rtol=1e-7, atol=1e-9 * sc)
    if k2 == 1 and k3 == 1:
        tmp = tempfile.mkdtemp()
        try:
            fn = os.path.join(tmp, 'o.out'); c.writeMap3(fn, R=R, precision=12); d = np.loadtxt(fn, ndmin=2)
            for i, x in enumerate((Rv, w[0], w[1], w[4], w[7], np.sqrt(w[8]))): h.close(d[:, i], x, 'writeMap3 column %d' % i, rtol=1e-6, atol=1e-9 * sc)
        finally: shutil.rmtree(tmp)

if __name__ == '__main__':
    h = Harness('random contents of the correlations, random radii; 60 cases', 40, 600)
    def go(h):
        for t in range(60 if TIER == 'quick' else 3000):
            if h.time_up: break
            (two if t % 3 else three)(h)
    h.run(go)
