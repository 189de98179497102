"""P04 (what a cell pair adds to its bin) and P05 (clear / copy / merge) for the two-point accumulators."""
import re
import z3
from engine.cxx.interp import *
from engine.sym import *
from specs.tree2 import prog, named_args

Rl, It = z3.Real, z3.Int
N_, K_, G_, Z_, V_, T_, Q_ = range(7)
D2s = [(0, d) for d in range(7)] + [(1, d) for d in range(1, 7)] + [(d, d) for d in range(2, 7)]
NAME = 'NKGZVTQ'
ACC = ('_meanr', '_meanlogr', '_weight', '_npairs')

def arr(E, o, m):
    """the array behind a double* member (lazily created)"""
    v = o.f.get(m)
    if v is None:
        t = (E.p.fields(o.rec) or {}).get(m)
        v = E.lazy_field(o, m, t); o.f[m] = v
    return v.a if isinstance(v, ElemPtr) else v

def members(P, D1, D2):
    rec = 'Corr2<%d, %d>' % (D1, D2)
    fs = P.fields(rec)
    xrec = norm_t(fs['_xi'])
    xs = [m for m, t in P.fields(xrec).items() if norm_t(t).startswith('double')]
    own = [m for m, t in fs.items() if norm_t(t) in ('double*', 'double *')]
    return rec, xrec, xs, own

def cellvals(E, c, D, C):
    """(w, n, weighted value) of a cell, through its own accessors"""
    P = E.p
    def g(nm, o, recs):
        f = [x for r in recs for x in P.find('^' + re.escape(r) + '::' + nm + '$')]
        if not f: raise Unsupported('accessor %s of %s' % (nm, o.rec))
        r = E.call(f[0], o, []); r = r.get() if isinstance(r, Loc) else r
        return r.to if isinstance(r, Ptr) else r
    cr = ['Cell<%d, %d>' % (D, C), 'BaseCell<%d>' % C]
    dr = ['CellData<%d, %d>' % (D, C)] + P.bases('CellData<%d, %d>' % (D, C))
    w, n = RV(g('getW', c, cr)), z3.ToReal(IV(g('getN', c, cr)))
    if D == N_: return w, n, None
    d = g('getData', c, cr)
    v = g({K_: 'getWK', Z_: 'getWZ'}.get(D, 'getWG'), d, dr)
    return w, n, Cx.of(v)

def p04_finish(ctx, paths, D1, D2, R, C):
    P = prog(paths)
    f = P.one(r'^Corr2<%d, %d>::finishProcess<%d, %d>$' % (D1, D2, R, C))
    rec, xrec, xs, own = members(P, D1, D2)
    N = f['name']
    k, k2, x = It('k'), It('k2'), It('x')
    n = It('this._nbins')
    base = [n >= 1, k >= 0, k < n, x >= 0, x < n]
    if R: base += [k2 >= 0, k2 < n]
    ph = {1: Cx(Rl('ph1.re'), Rl('ph1.im')), 2: Cx(Rl('ph2.re'), Rl('ph2.im'))}
    r, logr, rsq = Rl('r'), Rl('logr'), Rl('rsq')
    def go(st):
        E = Engine(P, st=st)
        this = Rec(rec, 'this', True)
        c1, c2 = Rec('Cell<%d, %d>' % (D1, C), 'c1', True), Rec('Cell<%d, %d>' % (D2, C), 'c2', True)
        vals = [cellvals(E, c1, D1, C), cellvals(E, c2, D2, C)]
        pr = []
        def project(E, e, o, a):
            pr.append([getattr(v.get() if isinstance(v, Loc) else v, 'name', None) for v in a[:2]] + [len(a)])
            if len(a) == 3: a[2].set(Cx.of(a[2].get()) * ph[2])
            else:
                a[2].set(Cx.of(a[2].get()) * ph[1]); a[3].set(Cx.of(a[3].get()) * ph[2])
        E.contracts = [(re.compile(r'^ProjectHelper<\d>::Project'), project)]
        E.run(f, this, named_args(f, c1=TempLoc(c1), c2=TempLoc(c2), rsq=rsq, r=r, logr=logr, k=k, k2=k2))
        ctx.fns |= E.used; ctx.assumed |= {'ProjectHelper::Project multiplies each spin field by its own unit phase (P07)'}
        out = {}
        for m in own:
            a = arr(E, this, m); out[m] = (a.base(x), a.read(x))
        X = this.f['_xi'] if '_xi' in this.f else E.lazy_field(this, '_xi', xrec)
        for m in xs:
            a = arr(E, X, m); out[m] = (a.base(x), a.read(x))
        return out, pr, vals
    for j, (st, (out, pr, vals)) in enumerate(explore(go, base)):
        pc = base + st.pc
        for o, fm, opc in st.obls: ctx.prove('path %d: %s' % (j, o), base + opc, fm, fn=N)
        (W1, N1, v1), (W2, N2, v2) = vals
        spin1, spin2 = D1 >= 2, D2 >= 2
        if spin1 and spin2:
            v1, v2 = v1 * ph[1], v2 * ph[2]
            want = {'xip': (v1 * v2.conj()).re, 'xip_im': (v1 * v2.conj()).im, 'xim': (v1 * v2).re, 'xim_im': (v1 * v2).im}
            okp = pr == [['c1', 'c2', 4]]
        elif spin2 and D2 != Z_:
            left = v1 if D1 == K_ else Cx(W1, Fraction(0))
            z = left * (v2 * ph[2])
            if D2 == G_: z = -z
            want = {'xi': z.re, 'xi_im': z.im}; okp = pr == [['c1', 'c2', 3]]
        elif D2 == Z_:
            z = (v1 if D1 == K_ else Cx(W1, Fraction(0))) * v2
            want = {'xi': z.re, 'xi_im': z.im}; okp = pr == [] 
        elif D2 == K_:
            want = {'xi': ((v1 if D1 == K_ else Cx(W1, Fraction(0))) * v2).re}; okp = pr == []
        else: want = {}; okp = pr == []
        ctx.record('path %d: spin fields are rotated to the line joining the two cells, in this order' % j, okp, fn=N, note=str(pr))
        ww = W1 * W2
        want.update(_npairs=N1 * N2, _weight=ww, _meanr=ww * r, _meanlogr=ww * logr)
        ctx.record('path %d: components accumulated' % j, set(want) == set(out), fn=N, note='%s vs %s' % (sorted(want), sorted(out)))
        for m in sorted(out):
            old, new = out[m]
            c = RV(want.get(m, 0))
            e = z3.If(x == k, c, z3.RealVal(0))
            if R: e = e + z3.If(x == k2, c, z3.RealVal(0))
            ctx.prove('path %d: %s gets exactly its contribution, other bins nothing' % (j, m), pc, RV(new) == RV(old) + e, fn=N)
    ctx.sat('reach', base)

def p05_corr2(ctx, paths, D1, D2): p05(ctx, paths, 'Corr2<%d, %d>' % (D1, D2), '_xi', '_nbins', 'BaseCorr2', ACC, ())
ACC3 = ('_meand1', '_meanlogd1', '_meand2', '_meanlogd2', '_meand3', '_meanlogd3', '_meanu', '_meanv', '_weight', '_weight_im', '_ntri')
def p05_corr3(ctx, paths, D, cplx):
    """three-point accumulators; cplx: with the imaginary parts used by the multipole binning"""
    p05(ctx, paths, 'Corr3<%d, %d, %d>' % (D, D, D), '_zeta', '_ntot', 'BaseCorr3', ACC3, () if cplx else ('_weight_im', 'zeta_im') if D < 2 else ('_weight_im',))

def p05(ctx, paths, rec, xf, nb, base_rec, acc, absent):
    P = prog(paths)
    fs = P.fields(rec); xrec = norm_t(fs[xf])
    xs_all = [m for m, t in P.fields(xrec).items() if norm_t(t).startswith('double')]
    own_all = [m for m, t in fs.items() if norm_t(t) in ('double*', 'double *')]
    ctx.record('%s: per-bin accumulators' % rec, set(own_all) == set(acc), note=str(own_all))
    own, xs = [m for m in own_all if m not in absent], [m for m in xs_all if m not in absent]
    x, n = It('x'), It('this.' + nb)
    base = [n >= 0]
    hascx = 'is_complex' in P.fields(xrec)
    def mk(E, name, lazy=True):
        o = Rec(rec, name, lazy)
        if lazy:
            o.f[nb] = n
            X = Rec(xrec, name + '.' + xf, True); o.f[xf] = X
            if hascx: X.f['is_complex'] = 'zeta_im' not in absent
            for m in absent: (X.f if m in xs_all else o.f)[m] = NULL
        else: E._subobjects(o, rec)
        return o
    def comps(E, o):
        return dict([(m, arr(E, o, m)) for m in own] + [(m, arr(E, o.f[xf], m)) for m in xs])
    for op in ('clear', 'operator+=', 'operator=', 'addData'):
        f = P.find(r'^%s::%s$' % (re.escape(rec), re.escape(op)))
        if op == 'operator=': f = [g for g in f if norm_t(g['params'][0]['t']) == rec]
        if len(f) != 1: ctx.undecided('%s::%s' % (rec, op), '%d functions' % len(f)); continue
        f = f[0]; N = f['name']
        def go(st):
            E = Engine(P, st=st)
            a, b = mk(E, 'this'), mk(E, 'rhs')
            E.run(f, a, [TempLoc(b)] if f['params'] else [])
            ctx.fns |= E.used
            return E, a, b, comps(E, a), comps(E, b)
        for j, (st, (E, a, b, ca, cb)) in enumerate(explore(go, base)):
            pc = base + st.pc
            for m in ca:
                inr = [x >= 0, x < n]
                old, new, rh = ca[m].base(x), ca[m].read(x), cb[m].base(x)
                if op == 'clear': goal = RV(new) == 0
                elif op == 'operator=': goal = RV(new) == RV(rh)
                else: goal = RV(new) == RV(old) + RV(rh)
                ctx.prove('%s: %s in every bin' % (op, m), pc + inr, goal, fn=N)
                ctx.prove('%s: %s nowhere else' % (op, m), pc + [z3.Or(x < 0, x >= n)], RV(new) == RV(old), fn=N)
                if op != 'clear': ctx.prove('%s: source %s unchanged' % (op, m), pc, RV(cb[m].read(x)) == RV(cb[m].base(x)), fn=N)
    # copy constructor (thread copies): fresh storage for every component, all zero or all equal to the source
    f = [g for g in P.find(r'^%s::%s$' % (re.escape(rec), rec.split('<')[0])) if len(g['params']) == 2]
    if len(f) != 1: ctx.undecided('copy constructor of ' + rec, '%d' % len(f)); return
    f = f[0]; N = f['name'] + '(copy)'
    for copy in (True, False):
        def go(st):
            E = Engine(P, st=st)
            b = mk(E, 'rhs'); cb = comps(E, b)
            a = mk(E, 'new', False)
            E.run(f, a, [TempLoc(b), copy])
            ctx.fns |= E.used
            return E, a, b, {m: (a.f.get(m) or a.f[xf].f.get(m)) for m in own + xs}, cb
        for j, (st, (E, a, b, ca, cb)) in enumerate(explore(go, base)):
            pc = base + st.pc
            ids = [id(v.a) for v in ca.values() if isinstance(v, ElemPtr)]
            ctx.record('copy(%s): separate fresh storage for each component' % copy, len(ids) == len(own + xs) == len(set(ids)) and not set(ids) & {id(v) for v in cb.values()}, fn=N)
            for m, v in ca.items():
                if not isinstance(v, ElemPtr): continue
                if v.a.size is not None: ctx.prove('copy(%s): %s has room for every bin' % (copy, m), pc, IV(v.a.size) == n, fn=N)
                ctx.prove('copy(%s): %s' % (copy, m), pc + [x >= 0, x < n], RV(v.a.read(x)) == (RV(cb[m].base(x)) if copy else 0), fn=N)
            ctx.record('copy(%s): owns its storage' % copy, a.f.get('_owns_data') is True, fn=N)
            scalars(ctx, E, a, b, base_rec, pc, 'copy(%s)' % copy, N, skip=() if copy else ('_coords',))
    g = P.find(r'^%s::duplicate$' % re.escape(rec))
    if len(g) != 1: ctx.undecided('duplicate of ' + rec, '%d functions' % len(g)); return
    g = g[0]
    def go(st):
        E = Engine(P, st=st); seen = []
        E.contracts = [(re.compile(r'^ctor:Corr[23]<'), lambda E, e, t, a: seen.append(a) or Rec(t, 'dup')), (re.compile('make_shared'), lambda E, e, o, a: seen.append(a) or Ptr(Rec(rec, 'dup')))]
        r = E.run(g, Rec(rec, 'this', True), [])
        ctx.fns |= E.used
        return r, seen
    for st, (r, seen) in explore(go, base):
        v = [q.get() if isinstance(q, Loc) else q for q in seen[0]] if len(seen) == 1 else []
        ctx.record('duplicate() makes one empty copy of this', isinstance(r, Ptr) and len(v) == 2 and getattr(v[0], 'name', None) == 'this' and v[1] in (False, 0), fn=g['name'], note=str(seen)[:200])

def scalars(ctx, E, a, b, base, pc, tag, N, skip=()):
    """every data member of the base class is reproduced"""
    P = E.p
    for m, t in sorted((P.fields(base) or {}).items()):
        if not m or m in skip: continue
        t = norm_t(t)
        v = a.f.get(m, UNDEF)
        if v is UNDEF: ctx.record('%s: %s::%s is copied' % (tag, base, m), False, fn=N, note='left uninitialised'); continue
        w = FieldLoc(E, b, m, t).get()
        if isnum(v) or is_z(v):
            ctx.prove('%s: %s::%s is copied' % (tag, base, m), pc, (v == w) if is_z(v) or is_z(w) else z3.BoolVal(v == w), fn=N)
        else: ctx.record('%s: %s::%s is copied' % (tag, base, m), v is w, fn=N)
