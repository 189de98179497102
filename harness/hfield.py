"""P04/P07: raw sums of every two-point correlation against direct sums over pairs, with independent definitions of the
direction of one point as seen from another (local west/north frame on the sky, plain x/y in flat coordinates)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import *
from harness.h2pt import bins, points

SPIN = dict(Z=0, V=1, G=2, T=3, Q=4)
TYPES = ['NN', 'NK', 'NZ', 'NV', 'NG', 'NT', 'NQ', 'KK', 'KZ', 'KV', 'KG', 'KT', 'KQ', 'ZZ', 'VV', 'GG', 'TT', 'QQ']

def frame(p):
    """unit vectors (x, y) of the local tangent frame used for spin components: x towards west, y towards north"""
    ra, dec = radec(p)
    e = np.stack([-np.sin(ra), np.cos(ra), 0 * ra], -1)
    n = np.stack([-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec)], -1)
    return -e, n

def seen_from(p, q, coords):
    """complex direction, in the frame of each p_i, of the great circle (or straight line) towards each q_j (unit modulus)"""
    if coords == 'flat': d = (q[None, :, :] - p[:, None, :]); z = d[..., 0] + 1j * d[..., 1]
    else:
        u, v = sph(p), sph(q); x, y = frame(p)
        d = v[None] - u[:, None]
        z = (d * x[:, None]).sum(-1) + 1j * (d * y[:, None]).sum(-1)
    with np.errstate(all='ignore'): return np.where(np.abs(z) > 0, z / np.abs(z), 0)

def fields(rng, n, letter, scale=1.):
    v = rng.normal(size=(2, n)) * scale + rng.normal(size=(2, 1))
    if letter == 'N': return {}, None
    if letter == 'K': return dict(k=v[0]), v[0]
    l = letter.lower()
    return {l + '1': v[0], l + '2': v[1]}, v[0] + 1j * v[1]

def raw(corr, names):
    return {m: np.array(getattr(corr, m)).ravel().copy() for m in names if getattr(corr, m, None) is not None and np.size(getattr(corr, m))}

def expect(tp, p, q, v1, v2, w1, w2, coords, k, r, nb, auto, twod):
    """dict of raw sums over pairs with bin index k (or -1)"""
    n1, n2 = len(p), len(q)
    a, b = tp
    ph1 = seen_from(p, q, coords)                 # at point 1, towards point 2
    ph2 = -seen_from(q, p, coords).T              # at point 2, away from point 1 (same line, same sense)
    W = w1[:, None] * w2[None, :]
    A = np.ones(n1) if v1 is None else v1; B = np.ones(n2) if v2 is None else v2
    s1, s2 = SPIN.get(a, 0), SPIN.get(b, 0)
    A = A[:, None] * np.conj(ph1) ** s1 if s1 else A[:, None] + 0 * W
    B = B[None, :] * np.conj(ph2) ** s2 if s2 else B[None, :] + 0 * W
    out = dict(npairs=np.ones((n1, n2)), weight=W, meanr=W * r, meanlogr=W * np.log(np.where(r > 0, r, 1)))
    if a in SPIN: P, M = W * A * np.conj(B), W * A * B; out.update(xip=P.real, xip_im=P.imag, xim=M.real, xim_im=M.imag)
    elif b in SPIN:
        Z = W * A * B * (-1 if b == 'G' else 1); out.update(xi=Z.real, xi_im=Z.imag)
    elif b == 'K': out['xi'] = (W * A * B).real
    use = (k >= 0)
    if auto: use &= np.triu(np.ones((n1, n2), bool), 1)
    res = {m: np.bincount(k[use], weights=x[use], minlength=nb) for m, x in out.items()}
    if auto and twod:
        kk = k.T[use]                              # mirrored displacement
        for m, x in out.items():
            use2 = kk >= 0
            res[m] = res[m] + np.bincount(kk[use2], weights=x[use][use2], minlength=nb)
    return res

def one(h, tp, coords, bt, auto, metric='Euclidean'):
    rng = h.rng
    box = 1.
    n1, n2 = int(rng.integers(2, 30)), int(rng.integers(1, 30))
    p, q = points(rng, coords, n1, box), points(rng, coords, n2, box)
    if coords != 'flat':
        p = p + (np.hypot(p[:, 0], p[:, 1]) < 1e-6)[:, None] * np.array([0.01, 0, 0]); q = q + (np.hypot(q[:, 0], q[:, 1]) < 1e-6)[:, None] * np.array([0.01, 0, 0])
        if coords == 'sphere': p, q = sph(p), sph(q)
    same = auto and tp[0] == tp[1]
    w1 = rng.uniform(0.1, 2, n1) * rng.choice([1., 1., 1., -0.5], n1); w2 = rng.uniform(0.1, 2, n2)
    kw1, v1 = fields(rng, n1, tp[0]); kw2, v2 = fields(rng, n2, tp[1])
    if same: q, w2, v2 = p, w1, v1
    kw = dict(bin_type=bt, metric=metric, bin_slop=0, angle_slop=0)
    if bt == 'TwoD': mx, nb = box * rng.uniform(0.5, 1.5), int(rng.integers(1, 6)); kw.update(max_sep=mx, nbins=nb); mn, bs = 0., 2 * mx / nb
    else:
        mn = box * rng.uniform(0.01, 0.3); mx = mn * rng.uniform(3, 20); nb = int(rng.integers(1, 7)); kw.update(min_sep=mn, max_sep=mx, nbins=nb)
        bs = (mx - mn) / nb if bt == 'Linear' else np.log(mx / mn) / nb
    cls = getattr(treecorr, tp + 'Correlation')
    c1 = make_cat(coords, p, w=w1, **kw1); c2 = c1 if same else make_cat(coords, q, w=w2, **kw2)
    d = q[None, :, :] - p[:, None, :]
    r = np.sqrt(((sph(q)[None] - sph(p)[:, None]) if coords == 'sphere' else d).__pow__(2).sum(-1))
    if coords == 'sphere': mn_, mx_ = (2 * np.sin(min(x, np.pi) / 2) for x in (mn, mx))
    if coords == 'sphere':
        ang = 2 * np.arcsin(np.clip(r / 2, 0, 1)); kw.update(metric='Arc'); rr = ang
    else: rr = r
    k, near = bins(bt, rr, d, mn, mx, nb, bs)
    k = np.where(rr > 0, k, -1)
    if near.any(): return
    size = nb * nb if bt == 'TwoD' else nb
    for brute in (True, False):
        corr = cls(**kw, brute=True) if brute else cls(**kw)
        h.case('%s/%s/%s/%s/%s/%s' % (tp, coords, bt, 'auto' if same else 'cross', brute, n1), p=p, q=q, w1=w1, w2=w2, v1=v1, v2=v2, kw=kw)
        if same: corr.process_auto(c1)
        else: corr.process_cross(c1, c2)
        ex = expect(tp, p, q, v1, v2, w1, w2, coords, k, rr, size, same, bt == 'TwoD')
        got = raw(corr, ex)
        for m in ex:
            if same and m == 'xip_im': continue        # sign depends on which member of an unordered pair comes first
            if m not in got: h.fail('missing:%s:%s' % (tp, m)); continue
            # cells store weights and fields in single precision
            sc = 4 * (np.abs(w1).sum() * np.abs(w2).sum()) * (1 if m in ('weight', 'npairs') else max(1., np.nanmax(np.abs(rr)), np.abs(np.log(np.maximum(rr[rr > 0], 1e-9))).max() if (rr > 0).any() else 1) if m.startswith('mean')
                 else (1 if v1 is None else np.abs(v1).max()) * (1 if v2 is None else np.abs(v2).max()))
            h.close(got[m], ex[m], '%s:%s' % (tp, m), rtol=1e-6, atol=1.5e-7 * sc)

def main(h):
    kinds = [('flat', b) for b in ('Log', 'Linear', 'TwoD', 'TwoD')] + [('sphere', 'Log'), ('sphere', 'Linear'), ('3d', 'Log'), ('3d', 'Linear')]
    i = 0
    while not h.time_up:
        for tp in TYPES:
            c, b = kinds[h.rng.integers(len(kinds))]
            one(h, tp, c, b, tp[0] == tp[1] and h.rng.integers(2) == 0)
        i += 1
        if i >= (60 if TIER == 'quick' else 1500): break

def rotation(h):
    """rigid rotations of the sky change nothing; the flat result is the small-angle limit"""
    rng = h.rng
    for t in range(20 if TIER == 'quick' else 200):
        if h.time_up: return
        from scipy.stats import special_ortho_group
        R = special_ortho_group.rvs(3, random_state=int(rng.integers(1 << 30)))
        tp = TYPES[rng.integers(3, len(TYPES))]
        n = int(rng.integers(3, 25)); coords = ('sphere', '3d')[rng.integers(2)]
        p, q = sph(rng.normal(size=(n, 3)) * [1, 1, 0.5]), sph(rng.normal(size=(n, 3)) * [1, 1, 0.5])
        if coords == '3d': p *= rng.uniform(0.5, 2, (n, 1)); q *= rng.uniform(0.5, 2, (n, 1))
        P, Q = p @ R.T, q @ R.T
        res = []
        kw1, v1 = fields(rng, n, tp[0]); kw2, v2 = fields(rng, n, tp[1])
        def rot(v, let, a, A):
            if v is None: return {}
            if let == 'K': return dict(k=v)
            s = SPIN[let]
            # angle of the old west direction in the new frame
            x, y = frame(a); X, Y = frame(A)
            xr = x @ R.T
            z = ((xr * X).sum(-1) + 1j * (xr * Y).sum(-1)) ** s * v
            return {let.lower() + '1': z.real, let.lower() + '2': z.imag}
        h.case('rot/%s/%s/%d' % (tp, coords, n), p=p, q=q, R=R)
        for a, b, k1, k2 in ((p, q, kw1, kw2), (P, Q, rot(v1, tp[0], p, P), rot(v2, tp[1], q, Q))):
            corr = getattr(treecorr, tp + 'Correlation')(min_sep=0.05, max_sep=4., nbins=1, bin_slop=0, angle_slop=0, metric='Arc' if coords == 'sphere' else 'Euclidean')
            corr.process_cross(make_cat(coords, a, **k1), make_cat(coords, b, **k2))
            res.append(np.concatenate([getattr(corr, m).ravel() for m in ('xi', 'xi_im', 'xip', 'xip_im', 'xim', 'xim_im') if getattr(corr, m, None) is not None and np.size(getattr(corr, m))]))
        h.close(res[0], res[1], 'rotation:%s' % tp, rtol=1e-5, atol=3e-5 * n)

def cells(h):
    """a field that is coherent on the sky (pointing to a far point) averages to modulus one over a cell; periodic boxes"""
    rng = h.rng
    for t in range(6):
        dec0, coords = (1.5, 0.2, -1.45, 0.9, 0., 1.52)[t], ('sphere', '3d')[t % 2]
        ra, dec = np.array([0., 0.3]), np.array([dec0, dec0]); far = unit(0.1, 0.5 if dec0 > 0.7 or dec0 < -1 else 1.2)[None]
        p = unit(ra, dec); lens = far
        z = -seen_from(p, lens, 'sphere')[:, 0]
        h.case('cells/%s/%d' % (coords, t), p=p, far=far)
        for tp, s in (('NV', 1), ('NG', 2), ('NT', 3), ('NQ', 4), ('NZ', 0)):
            l = tp[1].lower(); f = z ** s
            for brute in (True, False):
                corr = getattr(treecorr, tp + 'Correlation')(min_sep=0.1, max_sep=4., nbins=1, **(dict(brute=True) if brute else dict(bin_slop=100., angle_slop=100., min_top=0, max_top=0)))
                corr.process(make_cat(coords, lens), make_cat(coords, p, **{l + '1': f.real, l + '2': f.imag}))
                v = complex(corr.xi[0], corr.xi_im[0]); want = (-1. if l == 'g' else 1.) * np.mean(f * np.conj(z) ** s)
                if brute: h.close(abs(v - want), 0., 'single:%s' % tp, atol=1e-5)
                elif coords == 'sphere' or True: h.close(abs(v), 1., 'transport:coherent' if s else 'transport:scalar', atol=3e-3)
    for t in range(4):
        n = 6; L = 1.
        p, q = rng.uniform(0, L, (n, 2)), rng.uniform(0, L, (n, 2))
        if t == 0: p, q = np.array([[0.05, 0.5]]), np.array([[0.95, 0.45]])
        d = q[None] - p[:, None]; d = d - L * np.round(d / L); r = np.hypot(d[..., 0], d[..., 1]); ph = (d[..., 0] + 1j * d[..., 1]) / r
        kw, v = fields(rng, len(q), 'G')
        h.case('periodic/%d' % t, p=p, q=q)
        corr = treecorr.NGCorrelation(min_sep=0.01, max_sep=0.45, nbins=1, metric='Periodic', period=L, brute=True)
        corr.process_cross(make_cat('flat', p), make_cat('flat', q, **kw))
        k = (r >= 0.01) & (r < 0.45)
        z = -(v[None] * np.conj(ph) ** 2)[k].sum()
        h.close([corr.xi[0], corr.xi_im[0]], [z.real, z.imag], 'periodic:direction', atol=1e-5)

if __name__ == '__main__':
    h = Harness(bound='at most 30 points per catalog, bin_slop=0 and angle_slop=0, Euclidean/Arc', quick_s=60, thorough_s=900)
    if h.args and h.args[0] == 'P07': h.run(cells, rotation, main)
    else: h.run(main)
