"""P19: contracts of the single-combination methods (process_auto, process_cross, process_cross12) and of process(): the
real methods run on recording catalogs and a recording compiled object; sums of weights are symbolic."""
from specs.pyobj import *

class RecField:
    nTopLevelNodes = 1
    def __init__(self, data): self.data = data
class RecCat:
    coords, name = 'flat', ''
    def __init__(self, nm): self.nm = nm; self.sumw = scalar('w_' + nm); self.log = []
    def __getattr__(self, n):
        if n.startswith('get') and n.endswith('Field'):
            def g(**kw): state().ev.append(('field', self.nm, n[3:-5], kw)); return RecField(('data', self.nm, n[3:-5]))
            return g
        raise AttributeError(n)
class RecCorr:
    def __getattr__(self, n):
        def g(*a): state().ev.append((n,) + a)
        return g

def p19_wrap(ctx, tp, kind, bt, ordered=None, brute=False):
    three = len(tp) == 3
    o, names = corr3(tp, bt, 'x') if three else corr2(tp, 'x', bt)
    cls = type(o)
    cls.corr = RecCorr()
    fn = fname(getattr(cls, kind)); ctx.fns.add(fn)
    def go():
        st = state(); st.ev = []
        c, _ = corr3(tp, bt, 'x', brute=brute) if three else corr2(tp, 'x', bt, brute=brute)
        cats = [RecCat('c%d' % k) for k in range(1, {'process_auto': 2, 'process_cross12': 3}.get(kind, 4 if three else 3))]
        old = vals(c, names)
        getattr(c, kind)(*cats, metric='Euclidean', **({} if ordered is None else dict(ordered=ordered)))
        return c, old
    for st, (k, r) in run(go):
        if k == 'raise': ctx.undecided(kind, 'raises %r' % (r,)); continue
        c, old = r
        ncat = {'process_auto': 1, 'process_cross12': 2}.get(kind, 3 if three else 2)
        letters = [c._letter1, c._letter2] + ([c._letter3] if three else [])
        want = {('c%d' % (q + 1), letters[q]) for q in range(ncat)}
        f = [e for e in st.ev if e[0] == 'field']
        ctx.record('the trees are those of the given catalogs', {(e[1], e[2]) for e in f} == want, fn=fn, note=str(f)[:200])
        calls = [e for e in st.ev if e[0].startswith('process')]
        name = {'process_auto': 'processAuto', 'process_cross12': 'processCross12', 'process_cross': 'processCross'}[kind]
        ok = len(calls) == 1 and calls[0][0] == name and list(calls[0][1:1+ncat]) == [('data', 'c%d' % (q + 1), letters[q]) for q in range(ncat)]
        ctx.record('the compiled traversal runs once on these trees in this order', ok, fn=fn, note=str(calls)[:200])
        rest = list(calls[0][1+ncat:]) if calls else []
        if ordered is not None:
            exp = (3 if ordered is True else int(ordered)) if kind == 'process_cross' else int(bool(ordered))
            ctx.record('the vertex order is passed on', bool(rest) and rest.pop(0) == exp, fn=fn)
        ctx.record('with the metric in use', len(rest) == 2 and rest[1] == c._metric, fn=fn)
        mn, mx = c._get_minmax_size()
        for q in range(ncat):
            for e in f:
                if e[1] != 'c%d' % (q + 1): continue
                kw = dict(e[3])
                b = bool(brute) if ncat == 1 else (brute is True or (type(brute) is int and brute == q + 1))
                ctx.record('tree %d is built with the limits of this object' % (q + 1), same(lift(kw.get('min_size')), lift(mn)) and same(lift(kw.get('max_size')), lift(mx)) and kw.get('split_method') == c.split_method
                           and kw.get('min_top') == c.min_top and kw.get('max_top') == c.max_top and bool(kw.get('brute')) == b and kw.get('coords') in (None, c.coords), fn=fn, note=str(kw)[:300])
        w = [z3.Real('w_c%d' % (q + 1)) for q in range(ncat)]
        if 'tot' in c.__dict__:
            t = {('process_auto', 2): lambda: w[0] * w[0] / (1 if bt == 'TwoD' else 2), ('process_cross', 2): lambda: w[0] * w[1], ('process_auto', 3): lambda: w[0] * w[0] * w[0] / 6,
                 ('process_cross12', 3): lambda: w[0] * w[1] * w[1] / 2, ('process_cross', 3): lambda: w[0] * w[1] * w[2]}[kind, len(tp)]()
            ctx.prove('the total number of combinations grows by the product of the weights', st.pc, RV(lift(c.tot)) == RV(old['tot']) + t, fn=fn)
        new = vals(c, names)
        for m in names: ctx.prove('%s is left to the compiled traversal' % m, st.pc, RV(new[m]) == RV(old[m]), fn=fn)

class GCat:
    coords, name, npatch, _single_patch = 'flat', '', 1, None
    def __init__(self, nm): self.nm = nm
    def get_patches(self, low_mem=False): state().ev.append(('patches', self.nm, low_mem)); return ['patches of ' + self.nm]

def p19_process(ctx, tp, bt):
    """process(): clears (unless told not to), splits the catalogs and hands all of them to exactly one _process_all_ method"""
    three = len(tp) == 3
    o, names = corr3(tp, bt, 'x') if three else corr2(tp, 'x', bt)
    cls = type(o); fn = fname(cls.process); ctx.fns.add(fn)
    rec = lambda nm: (lambda self, *a, **k: state().ev.append((nm, a, k)))
    for m in ('_process_all_auto', '_process_all_cross', '_process_all_cross12', 'clear', 'finalize'):
        if hasattr(cls, m): setattr(cls, m, rec(m))
    for m in ('_calculateVar1', '_calculateVar2', '_calculateVar3'):
        if hasattr(cls, m): setattr(cls, m, lambda self, *a, **k: 1.0)
    import itertools
    for n, init, fin, pm, low in itertools.product((1, 2, 3) if three else (1, 2), (True, False), (True, False), ('local', 'global'), (True, False)):
        if n == 1 and not three and o._letter1 != o._letter2: continue
        if bt == 'LogMultipole' and pm == 'global': continue
        for aslist in (False, True):
            for ordered in ((True, False) if three and n > 1 else (None,)):
                def go():
                    st = state(); st.ev = []
                    c, _ = corr3(tp, bt, 'x') if three else corr2(tp, 'x', bt)
                    cats = [GCat('c%d' % q) for q in range(1, n + 1)]
                    a = [[x] for x in cats] if aslist else cats
                    kw = dict(ordered=ordered) if ordered is not None else {}
                    if three and bt == 'LogSAS': kw['algo'] = 'triangle'
                    c.process(*a, metric='Euclidean', num_threads=5, comm='COMM', low_mem=low, initialize=init, finalize=fin, patch_method=pm, **kw)
                    return a
                nm = '%d catalogs%s initialize=%s finalize=%s %s low_mem=%s%s: ' % (n, ' as lists' if aslist else '', init, fin, pm, low, '' if ordered is None else ' ordered=%s' % ordered)
                for st, (k, r) in run(go):
                    if k == 'raise': ctx.undecided(nm, 'raises %r' % (r,)); continue
                    lists = list(r) if aslist else [['patches of c%d' % q] for q in range(1, n + 1)]
                    pr = [e for e in st.ev if e[0].startswith('_process')]
                    name = '_process_all_auto' if n == 1 else '_process_all_cross12' if three and n == 2 else '_process_all_cross'
                    import inspect
                    got = dict(pr[0][2]) if pr else {}
                    base = {'_process_all_auto': ['cat1'], '_process_all_cross12': ['cat1', 'cat2', 'metric', 'ordered'], '_process_all_cross': ['cat1', 'cat2'] + (['cat3', 'metric', 'ordered'] if three else [])}[name]
                    order = base + [x for x in ('metric', 'num_threads', 'comm', 'low_mem', 'local') if x not in base]
                    if pr: got.update(zip(order, pr[0][1]))
                    want = dict(metric='Euclidean', num_threads=5, comm='COMM', low_mem=low, local=pm == 'local'); want.update({'cat%d' % (q + 1): x for q, x in enumerate(lists)})
                    if ordered is not None: want['ordered'] = ordered
                    ctx.record(nm + 'everything is handed to the right method once', len(pr) == 1 and pr[0][0] == name and got == want, fn=fn, note=str(pr)[:200])
                    ev = [e[0] for e in st.ev]
                    ctx.record(nm + 'earlier sums are cleared exactly when initialize is set', (ev.count('clear') >= 1 and ev.index('clear') < ev.index(name)) if init else 'clear' not in ev, fn=fn)
                    ctx.record(nm + 'finalize is called exactly when asked for', ev.count('finalize') == int(fin) and (not fin or ev.index('finalize') > ev.index(name)), fn=fn)
                    ctx.record(nm + 'low_mem reaches the splitting', all(e[2] == low for e in st.ev if e[0] == 'patches'), fn=fn)
