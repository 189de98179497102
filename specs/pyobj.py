"""symbolic instances of the Python correlation objects: constructed by the real constructors, their data arrays and the
read-only values replaced by symbolic arrays over one generic bin"""
import sys
import z3
from engine.pysym import *
T2 = ['NN', 'NK', 'NZ', 'NV', 'NG', 'NT', 'NQ', 'KK', 'KZ', 'KV', 'KG', 'KT', 'KQ', 'ZZ', 'VV', 'GG', 'TT', 'QQ']
T3 = ['NNN', 'KKK', 'GGG']
BT3 = ['LogRUV', 'LogSAS', 'LogMultipole']

def mods():
    tc = load_treecorr()
    import treecorr.corr2base, treecorr.corr3base
    ms = [m for n, m in sys.modules.items() if n.startswith('treecorr.') and n.endswith(('correlation', 'corr2base', 'corr3base', 'util'))]
    patch_mods(*ms)
    return tc

def acc2(c):
    out = ['meanr', 'meanlogr', 'weight', 'npairs']
    for i in (1, 2, 3, 4):
        a = c.__dict__.get('_xi%d' % i)
        if a is not None and np.size(a): out.append('_xi%d' % i)
    return out
def acc3(c):
    out = ['meand1', 'meanlogd1', 'meand2', 'meanlogd2', 'meand3', 'meanlogd3', 'meanu', 'weightr', 'ntri']
    if c.bin_type == 'LogRUV': out.append('meanv')
    if c.bin_type == 'LogMultipole': out.append('weighti')
    for i in range(1, 9):
        a = c.__dict__.get('_z%d' % i)
        if a is not None and np.size(a): out.append('_z%d' % i)
    return out

def corr2(tp, name, bin_type='Log', **kw):
    tc = mods()
    k = dict(min_sep=1., max_sep=100., nbins=3, bin_type=bin_type); k.update(kw)
    if bin_type == 'TwoD': k.pop('min_sep')
    c = getattr(tc, tp + 'Correlation')(**k)
    names = acc2(c)
    ro = c._ro
    for m in names: c.__dict__[m] = SArr.new('%s.%s' % (name, m), ('b',))
    c.sym_axes = ('b',)
    for m in ('rnom', 'logr', 'left_edges', 'right_edges'): setattr(ro, m, SArr.new('%s.%s' % ('ro', m), ('b',)))
    if hasattr(c, 'tot'): c.tot = scalar(name + '.tot')
    c.coords, c.metric = 'flat', 'Euclidean'
    return c, names

def corr3(tp, bt, name, shaped=False, **kw):
    tc = mods()
    k = dict(min_sep=1., max_sep=100., nbins=3, bin_type=bt)
    if bt == 'LogRUV': k.update(nubins=2, nvbins=2)
    elif bt == 'LogSAS': k.update(nphi_bins=3)
    else: k.update(max_n=2)
    k.update(kw)
    c = getattr(tc, tp + 'Correlation')(**k)
    names = acc3(c)
    ax = ('i', 'j', 'n') if bt == 'LogMultipole' and shaped else ('b',)
    c.sym_axes = ax
    for m in names: c.__dict__[m] = SArr.new('%s.%s' % (name, m), ax)
    if shaped:
        c.data_shape = SShape(ax)
        for m in ('rnom', 'logr', 'u', 'v', 'd2nom', 'logd2', 'd3nom', 'logd3', 'phi'):
            if m in c._ro.__dict__: setattr(c._ro, m, SArr.new('ro.' + m, ax))
        if bt == 'LogMultipole': c._ro.nubins = scalar('max_n', 'I')
    if hasattr(c, 'tot'): c.tot = scalar(name + '.tot')
    c.coords, c.metric = 'flat', 'Euclidean'
    return c, names

def vals(c, names, mask=False):
    d = {m: getattr(c, m).v for m in names}
    if 'tot' in c.__dict__: d['tot'] = lift(c.tot)
    return d

def p05_py(ctx, tp, bt):
    three = len(tp) == 3
    mk = (lambda n: corr3(tp, bt, n)) if three else (lambda n: corr2(tp, n, bt))
    cnt = 'ntri' if three else 'npairs'
    c0, names = mk('a'); cls = type(c0)
    def inv(d): return [z3.Implies(RV(d[cnt]) == 0, z3.And(*[RV(d[m]) == 0 for m in names]))]
    ctx.fns |= {fname(getattr(cls, f)) for f in ('_clear', '__iadd__', 'copy') if hasattr(cls, f)} | ({fname(cls._sum)} if hasattr(cls, '_sum') else set())
    # clear
    for st, (k, r) in run(lambda: (lambda c: (c._clear(), c)[1])(mk('a')[0])):
        if k == 'raise': ctx.undecided('_clear', 'raises %r' % (r,)); continue
        for m, v in vals(r, names).items(): ctx.prove('_clear: %s is zero' % m, st.pc, RV(v) == 0, fn=fname(cls._clear))
    # +=
    def iadd():
        a, b = mk('a')[0], mk('b')[0]
        old, ob = vals(a, names), vals(b, names)
        for h in inv(ob): state().assume(h)
        r = a; r += b
        return r is a, a, b, old, ob
    for j, (st, (k, r)) in enumerate(run(iadd)):
        if k == 'raise': ctx.undecided('+=', 'raises %r' % (r,)); continue
        isa, a, b, old, ob = r
        ctx.record('path %d: += returns the object' % j, isa)
        for m, v in vals(a, names).items():
            if m == 'tot' and not (st.pc and True): pass
            ctx.prove('path %d: += adds %s' % (j, m), st.pc, RV(v) == RV(old[m]) + RV(ob[m]), fn=fname(cls.__iadd__))
        for m, v in vals(b, names).items(): ctx.prove('path %d: += leaves the other %s alone' % (j, m), st.pc, RV(v) == RV(ob[m]), fn=fname(cls.__iadd__))
    # copy
    def copy():
        a = mk('a')[0]; old = vals(a, names); b = a.copy()
        sep = all(getattr(b, m) is not getattr(a, m) and getattr(getattr(b, m), 'parent', None) is None for m in names)
        nv = vals(b, names)
        return sep, old, nv, type(b) is type(a) and set(b.__dict__) == set(a.__dict__) 
    for st, (k, r) in run(copy):
        if k == 'raise': ctx.undecided('copy', 'raises %r' % (r,)); continue
        ctx.record('copy has its own arrays and all attributes', r[0] and r[3], fn=fname(cls.copy))
        for m in r[1]: ctx.prove('copy: %s' % m, st.pc, RV(r[1][m]) == RV(r[2][m]), fn=fname(cls.copy))
    # _sum of 1..3 partial results
    for n in (1, 2, 3):
        def summ():
            a = mk('a')[0]; os_ = [mk('o%d' % i)[0] for i in range(n)]
            ov = [vals(o, names) for o in os_]
            for d in ov:
                for h in inv(d): state().assume(h)
            a._sum(os_)
            return a, ov, [vals(o, names) for o in os_]
        for j, (st, (k, r)) in enumerate(run(summ)):
            if k == 'raise': ctx.undecided('_sum', 'raises %r' % (r,)); continue
            a, ov, nv = r
            for m, v in vals(a, names).items():
                ctx.prove('path %d: _sum of %d: %s' % (j, n, m), st.pc, RV(v) == z3.Sum([RV(d[m]) for d in ov] + [z3.RealVal(0)]), fn=fname(cls._sum))
            for d, e in zip(ov, nv):
                for m in d: ctx.prove('path %d: _sum of %d leaves its arguments alone' % (j, n), st.pc, RV(d[m]) == RV(e[m]), fn=fname(cls._sum))
