"""Common part of the bounded harnesses: they run the real treecorr of /repo (Python sources in place, C++ rebuilt this
run) against independent brute-force definitions.  Labelled bounded, never counted as proved."""
import sys, os, json, time, traceback, warnings, importlib.util
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import numpy as np
SO = os.environ.get('TC_SO')
if SO:
    spec = importlib.util.spec_from_file_location('treecorr._treecorr', SO)
    mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
    sys.modules['treecorr._treecorr'] = mod
warnings.simplefilter('ignore')
import logging; logging.disable(logging.CRITICAL)
import treecorr
if SO: treecorr._treecorr = mod
assert os.path.dirname(os.path.dirname(os.path.abspath(treecorr.__file__))) == os.path.abspath(REPO), treecorr.__file__
treecorr.set_max_omp_threads(int(os.environ.get('TC_THREADS', '2')))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')

def short(x):
    if isinstance(x, np.ndarray): return np.array2string(x, precision=6, threshold=24)
    if isinstance(x, dict): return {str(k): short(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [short(v) for v in x][:24]
    if isinstance(x, (int, float, str, bool)) or x is None: return x
    return str(x)[:300]

class Harness:
    def __init__(self, bound='', quick_s=60, thorough_s=900):
        self.out = sys.argv[1]
        self.args = sys.argv[2:]
        self.bound = bound
        self.t0 = time.time()
        self.budget = quick_s if TIER == 'quick' else thorough_s
        self.n = 0; self.keys = set(); self.failures = []; self.samples = []; self.err = None
        self.rng = np.random.default_rng(SEED * 1000003 + sum(map(ord, os.path.basename(sys.argv[0]))))
        self.current = None
    @property
    def time_up(self): return time.time() - self.t0 > self.budget
    def case(self, key, **detail):
        """start a case; what follows belongs to it"""
        self.current = dict(key=str(key), **{k: short(v) for k, v in detail.items()})
        self.keys.add(str(key)); self.n += 1
        if len(self.samples) < 3: self.samples.append(json.dumps(self.current)[:400])
        with open(self.out + '.cur', 'w') as f: json.dump(dict(self.current, t=time.time()), f)
    def fail(self, id, **detail):
        if sum(f['id'] == id for f in self.failures) < 3 and len(self.failures) < 30:
            self.failures.append(dict(id=id, case=self.current, **{k: short(v) for k, v in detail.items()}))
    def check(self, cond, id, **detail):
        if not cond: self.fail(id, **detail)
        return bool(cond)
    def close(self, a, b, id, rtol=1e-9, atol=1e-11, **detail):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape: self.fail(id, why='shape %s vs %s' % (a.shape, b.shape), **detail); return False
        ok = np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not ok:
            d = np.abs(a - b); i = np.unravel_index(np.nanargmax(np.where(np.isfinite(d), d, np.inf)), d.shape) if d.size else ()
            self.fail(id, got=a[i], expected=b[i], index=[int(x) for x in i], **detail)
        return ok
    def run(self, *fns):
        """run the case generators; an exception whose deepest Python frame is in /repo is a failure of the real code"""
        for f in fns:
            try: f(self)
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)
                deep = [fr for fr in tb if os.path.abspath(fr.filename).startswith(os.path.abspath(REPO) + '/')]
                last = tb[-1].filename
                inrepo = bool(deep) and not (os.path.abspath(last).startswith(os.path.dirname(os.path.abspath(__file__))))
                txt = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1200:]
                if inrepo and not isinstance(e, KeyboardInterrupt):
                    self.fail('exception:%s:%s' % (f.__name__, type(e).__name__), trace=txt)
                else:
                    self.err = (self.err or '') + 'harness problem in %s: %s' % (f.__name__, txt)
        d = dict(evaluations=self.n, distinct=len(self.keys), bound=self.bound, samples=self.samples, failures=self.failures)
        if self.err: d['error'] = self.err[-2500:]
        json.dump(d, open(self.out, 'w'), default=str)
        if os.environ.get('HVERBOSE'): print(json.dumps(d, indent=1, default=str)[:4000], 'time', round(time.time() - self.t0, 1))

# ---------------------------------------------------------------- geometry helpers (independent definitions)
def sph(v):
    v = np.asarray(v, float); r = np.linalg.norm(v, axis=-1, keepdims=True)
    return v / r
def radec(v):
    v = sph(v); return np.arctan2(v[..., 1], v[..., 0]), np.arcsin(np.clip(v[..., 2], -1, 1))
def unit(ra, dec): return np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], -1)

def make_cat(coords, pos, **kw):
    """catalog from cartesian positions"""
    if coords == 'flat': return treecorr.Catalog(x=pos[:, 0], y=pos[:, 1], **kw)
    if coords == '3d': return treecorr.Catalog(x=pos[:, 0], y=pos[:, 1], z=pos[:, 2], **kw)
    ra, dec = radec(pos)
    if coords == 'sphere': return treecorr.Catalog(ra=ra, dec=dec, ra_units='rad', dec_units='rad', **kw)
    if coords == 'spherer': return treecorr.Catalog(ra=ra, dec=dec, r=np.linalg.norm(pos, axis=1), ra_units='rad', dec_units='rad', **kw)
    raise ValueError(coords)
