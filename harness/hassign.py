"""P14: patch assignment by the tree, by Catalog and by selecting single patches, against direct distances"""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.common import *
from harness.hnear import some, build

def centers_for(rng, coords, p, npatch):
    """random centres, sometimes on a grid with the objects (exact ties) or on objects"""
    k = rng.integers(4)
    if k == 0: c = p[rng.integers(len(p), size=npatch)].copy()
    elif k == 1: c = rng.normal(size=(npatch, 3)) * (np.ptp(p) + 1e-3)
    elif k == 2: c = np.round(p[rng.integers(len(p), size=npatch)]) + rng.integers(-1, 2, size=(npatch, 3))
    else: c = p[rng.integers(len(p), size=npatch)] + rng.normal(size=(npatch, 3)) * np.ptp(p) * 0.1
    if coords == 'sphere':
        n = np.sqrt((c ** 2).sum(1)); c[n == 0] = [1., 0, 0]; n[n == 0] = 1; c = c / n[:, None]
    return np.ascontiguousarray(c[:, :2] if coords == 'flat' else c)

def dist(coords, p, c):
    P = p[:, :2] if coords == 'flat' else p
    return np.sqrt(((P[:, None] - c[None]) ** 2).sum(2))

def nearest(h, coords, p, c, patch, id, **d):
    D = dist(coords, p, c); tol = 3e-7 * (D.max() + np.ptp(p)) * (1 if 'tree' in id else 1e-7)
    if not h.check(patch.shape == (len(p),) and ((patch >= 0) & (patch < len(c))).all(), id + ': a patch for every object', patch=patch, **d): return
    got = D[np.arange(len(p)), patch]; bad = np.where(got > D.min(1) + tol)[0]
    h.check(len(bad) == 0, id + ': nearest centre', object=bad[:1], got=got[bad[:1]], best=D.min(1)[bad[:1]], centers=c, **d)

def tree(h):
    rng = h.rng; stop = h.budget / 3
    while time.time() - h.t0 < stop:
        coords = ['flat', '3d', 'sphere'][rng.integers(3)]
        p = some(rng, coords, int(rng.integers(1, 300))); np_ = int(rng.integers(1, 12))
        cat, f, l, fk = build(rng, coords, p, tiny=False)
        c = centers_for(rng, coords, p, np_)
        h.case((coords, l, fk['split_method'], np_), p=p, field=fk)
        nearest(h, coords, p, c, f.kmeans_assign_patches(c), 'tree')
        if rng.integers(3) == 0:      # a view of a larger array, other number types
            big = np.full((np_, 6), 9.); big[:, ::2][:, :c.shape[1]] = c
            nearest(h, coords, p, c, f.kmeans_assign_patches(big[:, ::2][:, :c.shape[1]]), 'tree, strided centres')

def catalog(h):
    rng = h.rng; stop = 2 * h.budget / 3
    while time.time() - h.t0 < stop:
        coords = ['flat', '3d', 'sphere'][rng.integers(3)]
        p = some(rng, coords, int(rng.integers(1, 80))); np_ = int(rng.integers(1, 7))
        c = centers_for(rng, coords, p, np_)
        w = rng.uniform(0.5, 2, len(p))
        kw = dict(w=w, k=np.arange(len(p)) * 1., keep_zero_weight=True)
        h.case((coords, np_, 'catalog'), p=p, centers=c)
        cat = make_cat(coords, p, patch_centers=c, **kw)
        nearest(h, coords, p, c, cat.patch, 'catalog') if np_ > 1 or cat.patch is not None else None
        pp = cat.patch if cat.patch is not None else np.zeros(len(p), int)
        members = []
        for i in range(np_):
            if (pp == i).sum() == 0 and np.sum(dist(coords, p, c).argmin(1) == i) == 0 and rng.integers(2): continue   # an empty catalog is refused
            try: one = make_cat(coords, p, patch_centers=c, patch=i, **kw)
            except Exception: members.append([]); continue
            members.append(sorted(one.k.astype(int).tolist()))
        for i, m in enumerate(members[:np_] if len(members) == np_ else []):
            h.check(m == np.where(pp == i)[0].tolist(), 'selecting a patch gives its members', patch=i, got=m, expected=np.where(pp == i)[0])
        flat = sorted(x for m in members for x in m)
        h.check(len(set(flat)) == len(flat), 'no object is selected by two patches', twice=[x for x in set(flat) if flat.count(x) > 1])
        got = cat.get_patches()
        if np_ > 1: h.check({x.patch: sorted(x.k.astype(int).tolist()) for x in got} == {int(i): np.where(pp == i)[0].tolist() for i in set(pp)}, 'get_patches partitions the catalog', got={x.patch: x.k for x in got}, expected=pp)

def kmeans(h):
    rng = h.rng; d = tempfile.mkdtemp(prefix='hassign')
    try:
        while not h.time_up:
            coords = ['flat', '3d', 'sphere'][rng.integers(3)]
            p = some(rng, coords, int(rng.integers(12, 120))); np_ = int(rng.integers(2, 8))
            h.case((coords, np_, 'kmeans'), p=p)
            init = ['tree', 'random', 'kmeans++'][rng.integers(3)]; alt = bool(rng.integers(2))
            if len(np.unique(p, axis=0)) < 2 * np_: continue
            try: cat = make_cat(coords, p, npatch=np_, kmeans_init=init, kmeans_alt=alt, rng=np.random.default_rng(int(rng.integers(1 << 30))))
            except RuntimeError: continue     # kmeans++ ran out of distinct objects
            c = cat._centers
            if coords == "sphere" and (abs((c ** 2).sum(1) - 1) > 1e-6).any(): continue     # an empty patch keeps no centre on the sphere
            if not h.check(np.isfinite(c).all(), 'kmeans: finite centres', centers=c, init=init, alt=alt): continue
            nearest(h, coords, p, c, cat.patch, 'kmeans tree', init=init, alt=alt)
            f = os.path.join(d, 'cen.txt'); cat.write_patch_centers(f)
            other = make_cat(coords, p, patch_centers=f)
            nearest(h, coords, p, other._centers, other.patch, 'centres from a file')
            h.close(other._centers, cat.patch_centers, 'centres written and read back', rtol=1e-12)
    finally: shutil.rmtree(d)

def files(h):
    rng = h.rng; d = tempfile.mkdtemp(prefix='hassign')
    try:
        for it in range(60):
            coords = ['flat', '3d', 'sphere'][rng.integers(3)]
            n = int(rng.integers(5, 60)); p = rng.normal(size=(n, 3)); 
            if coords == 'flat': p[:, 2] = 0
            if coords == 'sphere': p = sph(p)
            np_ = int(rng.integers(1, 6)); c = centers_for(rng, coords, p, np_)
            ext = ['.fits', '.hdf5', '.dat'][rng.integers(3)]; f = os.path.join(d, 'cat%d%s' % (it, ext))
            base = make_cat(coords, p, k=np.arange(n) * 1.); base.write(f)
            kw = dict(k_col='k') if ext != '.dat' else {}
            if coords == 'sphere': kw.update(ra_col='ra', dec_col='dec', ra_units='rad', dec_units='rad') if ext != '.dat' else kw.update(ra_col=1, dec_col=2, k_col=3, ra_units='rad', dec_units='rad')
            elif coords == 'flat': kw.update(x_col='x', y_col='y') if ext != '.dat' else kw.update(x_col=1, y_col=2, k_col=3)
            else: kw.update(x_col='x', y_col='y', z_col='z') if ext != '.dat' else kw.update(x_col=1, y_col=2, z_col=3, k_col=4)
            sel = {}
            if rng.integers(2): sel['first_row'] = int(rng.integers(1, 4))
            if rng.integers(2): sel['last_row'] = int(rng.integers(4, n + 1))
            if rng.integers(2): sel['every_nth'] = int(rng.integers(1, 4))
            rows = np.arange(sel.get('first_row', 1) - 1, sel.get('last_row', n), sel.get('every_nth', 1))
            h.case((coords, np_, ext, sorted(sel)), n=n, rows=sel, centers=c)
            whole = treecorr.Catalog(f, patch_centers=c, **kw, **sel)
            h.check(np.allclose(whole.k, rows), 'file: selected rows', got=whole.k, rows=rows)
            pp = dist(coords, p[rows], c).argmin(1)
            h.check(np.array_equal(whole.patch, pp), 'file: nearest centre', got=whole.patch, expected=pp)
            for i in range(np_):
                one = treecorr.Catalog(f, patch_centers=c, patch=i, **kw, **sel)
                if not (pp == i).any(): continue
                h.check(np.allclose(one.k, rows[pp == i]), 'file: one patch', patch=i, got=one.k, expected=rows[pp == i])
                h.check(np.allclose(one.x if coords != 'sphere' else one.ra, whole.x[pp == i] if coords != 'sphere' else whole.ra[pp == i]), 'file: positions of one patch', patch=i)
    finally: shutil.rmtree(d)

if __name__ == '__main__':
    Harness(bound='random and regular catalogs of up to 300 objects with up to 12 centres, ties included, seeded', quick_s=45, thorough_s=900).run(files, tree, catalog, kmeans)
