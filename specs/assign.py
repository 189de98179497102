"""P14: patch assignment (KMeans.cpp: FindCellsInPatches, AssignPatches, QuickAssign, SelectPatch, KMeansAssign; catalog.py, field.py).

FindCellsInPatches keeps, for every object X of the cell, every nearest centre of X among the first ncand candidates (triangle inequality
with the cell radius of P08), leaves the set of the first ncand entries as it was, and runs its functor once for the cell, with the nearest
centre of each of its objects, or descends into both children.  X, its nearest centre m and an entry v of the candidates are arbitrary."""
import os, re, z3
from engine.cxx.interp import *
from engine.sym import *
from specs.tree2 import prog, named_args, Rl, It
from specs.cells import val, XYZ, field_path
from specs.sampler import Log, q, cut, counter, modified
from specs.near import child

I, R = z3.IntSort(), z3.RealSort()
dX, IN = z3.Function('dX', I, R), z3.Function('inertia', I, R)
D2, X2 = z3.Function('sqC', I, R), z3.Function('sqX', I, R)      # their squares
s, NP, m, v, n0 = Rl('size'), It('npatch'), It('m'), It('v'), It('n0')

class Centres(Arr):
    """const vector of positions: coordinates are functions of the index"""
    def __init__(self, name, C, E):
        Arr.__init__(self, name, 'Position<%d>' % C, E); self.C = C
        self.F = {k: z3.Function('%s.%s' % (name, k), I, R) for k in 'xyz'}
    def readobj(self, i):
        r = Rec('Position<%d>' % self.C, '%s[%s]' % (self.name, simp(i)), False)
        for k in XYZ(self.C): r.f['_' + k] = self.F[k](IV(i))
        if self.C != 1: r.f.update(_normsq=Fraction(0), _norm=Fraction(0))
        return r

def apps(ts, only=''):
    """integer argument terms of the array functions in ts"""
    out = {}
    seen = set()
    st = [t for t in ts if is_z(t)]
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and z3.is_int(t.arg(0)) and t.decl().name().startswith(only): out.setdefault(simp(t.arg(0)).get_id(), simp(t.arg(0)))
            st += t.children()
    return list(out.values())

def split(f):
    return [y for x in f.children() for y in split(x)] if z3.is_and(f) else [f]

def close_hyps(hyps, goal, extra=(), axioms=None, rounds=2):
    """quantifier-free instances of the hypotheses at the index terms of the problem"""
    hs = [y for x in hyps if is_z(x) for y in split(x)]
    qf = [h for h in hs if not z3.is_quantifier(h)]; qs = [h for h in hs if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1]
    done, inst = set(), []
    for r in range(rounds):
        new = [t for t in apps(qf + inst + [goal]) + list(extra) if t.get_id() not in done][:40]
        for t in new:
            done.add(t.get_id())
            inst += [simp(z3.substitute_vars(h.body(), t)) for h in qs]
            if axioms: inst += axioms(t)
    return qf + inst

def cellmeta(E, C):
    c = Rec('BaseCell<%d>' % C, 'cell', True); c.f['_size'] = s
    return c

dC = lambda t: SQRT(D2(t))
def lin(t): return [D2(t) >= 0, X2(t) >= 0, IN(t) >= 0, z3.Implies(s == 0, X2(t) == D2(t)), INTINV(z3.ToReal(t)) == t]
def geom(t):
    return lin(t) + [dC(t) >= 0, dX(t) >= 0, dX(t) - dC(t) <= s, dC(t) - dX(t) <= s, dC(t) * dC(t) == D2(t), dX(t) * dX(t) == X2(t)]

def lemmas(b, inert):
    if not inert: return [z3.Implies(X2(m) <= X2(b), dC(m) <= dC(b) + 2 * s), z3.Implies(X2(m) <= X2(b), D2(m) <= (dC(b) + 2 * s) * (dC(b) + 2 * s))]
    return [z3.Implies(dC(m) >= s, (dC(m) - s) * (dC(m) - s) + IN(m) <= (dC(b) + s) * (dC(b) + s) + IN(b)), (dC(b) + s) * (dC(b) + s) + IN(b) >= 0]
def find(ctx, paths, C, F, inert):
    P = prog(paths)
    f = [g for g in P.find(r'^FindCellsInPatches<%d, %s<%d>>$' % (C, F, C)) if any('BaseCell' in p['t'] and '*' in p['t'] and 'vector' not in p['t'] for p in g['params'])][0]; N = f['name']
    PI = [p['name'] for p in f['params']]
    score = lambda k: X2(k) + (IN(k) if inert else 0)
    alt = lambda k: D2(k) + (IN(k) if inert else 0)
    base = [n0 >= 1, n0 <= NP, s >= 0, m >= 0, m < NP, z3.Bool('cell._left.null') == (s == 0)]
    def go(st):
        L = Log(); E = Engine(P, st=st); L.geo = []; cnt = [0]
        cell = cellmeta(E, C)
        pos = val(field_path(E, cell, '_data', '_pos'))
        if C != 1: pos.f.update(_normsq=Fraction(0), _norm=Fraction(0))
        cen = Rec('std::vector', 'centers', False); cen.f.update(a=Centres('centers', C, E), n=NP)
        pat, sav = E.vec('patches', 'long', NP), E.vec('saved', 'double', NP); sav.f['a'].hav = True
        P_, S_ = pat.f['a'], sav.f['a']
        ine = E.vec('inertia', 'double', NP)
        fun = Rec('%s<%d>' % (F, C), 'f', True)
        rd = lambda x: IV(P_.read(x)); p00 = P_.clone()
        wm, wv = [It('wm0')], [It('wv0')]
        def hold(): return [('candidates are centres', q(1, lambda x: z3.Implies(z3.And(0 <= x, x < NP), z3.And(rd(x) >= 0, rd(x) < NP))))]
        def where(w, n, t):
            """t is among the first n entries; when assumed, a new witness, when proved, some likely places"""
            return z3.Or(*[z3.And(c >= 0, c < n, rd(c) == t) for c in w])
        for nm_, fm in hold(): E.st.assume(fm)
        E.st.assume(where(wm, n0, m)); E.st.assume(where(wv, n0, v))
        E.st.assume(z3.ForAll([z3.Int('q!0')], z3.Implies(z3.And(0 <= z3.Int('q!0'), z3.Int('q!0') < NP), score(m) <= score(z3.Int('q!0')))))
        def normsq(E, e, o, a):
            o = val(o); cs = [RV(o.f['_' + k]) for k in XYZ(C)]
            ix = apps(cs, 'centers.')
            if len(ix) != 1: raise Unsupported('distance of %s' % cs)
            k = ix[0]; cp = [RV(FieldLoc(E, pos, '_' + x, 'double').get()) for x in XYZ(C)]
            for x, c, d in zip(XYZ(C), cp, cs):
                b = cen.f['a'].F[x](k)
                if not (z3.simplify(d - (c - b)).eq(z3.RealVal(0)) or z3.simplify(d - (b - c)).eq(z3.RealVal(0))): L.add(E, 'a distance from the centre of the cell', z3.Or(d == c - b, d == b - c))
            return D2(k)
        def rec(E, e, o, a):
            A = dict(zip(PI, a)); nc = IV(val(A['ncand']))
            nm_ = 'recursion'
            L.note('rec', child(cell, A['cell']) or str((A['cell'], cell.f)), val(A['centers']) is cen and val(A['patches']) is pat and val(A['saved_dsq']) is sav and val(A['f']) is fun and (val(A['inertia']) is ine if inert else not isinstance(val(A['inertia']), Rec)))
            L.add(E, nm_ + ': never into a leaf', s != 0)
            L.add(E, nm_ + ': at least one candidate, within those given', z3.And(nc >= 1, nc <= n0))
            L.add(E, nm_ + ': a nearest centre is among the candidates', where(wm + extra(), nc, m))
            L.add(E, nm_ + ': the candidates are centres', hold()[0][1])
            # contract of the call: the same set of the first nc entries, others untouched
            old = P_.clone(); g = z3.Int('gi!%d' % next(E.st.fresh))
            for A_ in (P_, S_):
                so = I if A_ is P_ else R
                H = z3.Function('hav!%d' % next(E.st.fresh), I, so)
                A_.writes.append(('map', None, None, g, [(z3.BoolVal(True), H(g))])); E.st.journal.append(('hav', A_))
            nm1, nv1 = E.st.new('wit', 'I'), E.st.new('wit', 'I')
            ro = lambda x: IV(old.read(x))
            E.st.assume(q(1, lambda x: z3.Implies(z3.And(x >= nc, x < NP), rd(x) == ro(x)))); E.st.assume(hold()[0][1])
            for w, t, w1 in ((wm, m, nm1), (wv, v, nv1)):
                # wherever t was: at a place below nc it stays below nc, elsewhere it is untouched
                c0 = w + extra()
                E.st.assume(z3.Implies(z3.Or(*[z3.And(c >= 0, c < nc, ro(c) == t) for c in c0]), z3.And(w1 >= 0, w1 < nc, rd(w1) == t)))
                w.append(w1)
        def run(E, e, o, a):
            L.note('run', val(o) is fun and val(a[1]) is cell)
            k = IV(val(a[0])); L.add(E, 'run: with a centre', z3.And(k >= 0, k < NP)); L.add(E, 'run: a nearest centre of the object', score(k) <= score(m))
        role, ex = {}, []
        def extra(): return [IV(0)] + ex
        def loop(E, st_, fr, cond, inc, body):
            cnt[0] += 1; nm_ = 'loop %d' % cnt[0]
            vs, fs, arrs, br = modified(E, fr, cond, inc, body, L)
            if br: raise Unsupported('break in a loop over the candidates')
            cur = {d: fr.vars[d] for d in vs}
            p0 = rd(0)
            for d, x in list(cur.items()):
                if d in role: continue
                t = RV(x) if is_z(x) or isinstance(x, (int, Fraction)) else None
                if t is None: raise Unsupported('loop modifies %s' % d)
                if proved(E, t == RV(p0)): role[d] = 'best'
                elif proved(E, t == alt(p0)): role[d] = 'min'
            nd = named(fr, 'ncand')
            if not role or 'best' not in role.values(): raise Unsupported('roles of the variables %s' % cur)
            best = [d for d in role if role[d] == 'best'][0]; mn = [d for d in role if role[d] == 'min'][0]
            cand = lambda: IV(fr.vars[nd]) if nd is not None else n0
            others = [d for d in vs if d not in (best, mn, nd)]
            if len(others) != 1: raise Unsupported('variables of the loop %s' % others)
            j = others[0]; J = lambda: IV(fr.vars[j])
            w0, w1 = E.st.new('wit', 'I'), E.st.new('wit', 'I')
            elim = nd in vs
            if not elim:
                def facts():
                    b, mi = RV(fr.vars[best]), RV(fr.vars[mn])
                    return [('the counter', z3.And(J() >= 0, J() <= n0)), ('the best is the first', z3.And(b == RV(rd(0)))), ('its distance', mi == alt(rd(0)))] + hold() + [
                        ('saved distances', q(1, lambda x: z3.Implies(z3.And(0 <= x, x < J()), RV(S_.read(x)) == D2(rd(x))))), ('the first is saved', RV(S_.read(0)) == D2(rd(0))),
                        ('the best so far', q(1, lambda x: z3.Implies(z3.And(0 <= x, x < J()), mi <= alt(rd(x))))),
                        ('nothing else is touched', q(1, lambda x: z3.Implies(z3.And(x >= n0, x < NP), rd(x) == IV(p00.read(x)))))]
            else:
                E.st.assume(z3.BoolVal(True))
                fixed = [alt(m)]
                L.add(E, nm_ + ': the best of all', RV(fr.vars[mn]) <= alt(m))
                def facts():
                    b = RV(fr.vars[best])
                    return [('the counter', z3.And(J() >= 0, J() < cand())), ('the candidates left', z3.And(cand() >= 1, cand() <= n0)), ('the best is the first', b == RV(rd(0)))] + hold() + [
                        ('saved distances', q(1, lambda x: z3.Implies(z3.And(0 <= x, x <= J()), RV(S_.read(x)) == D2(rd(x))))),
                        ('nothing else is touched', q(1, lambda x: z3.Implies(z3.And(x >= n0, x < NP), rd(x) == IV(p00.read(x)))))]
            def inv():
                k = [J(), J() + 1, J() - 1, cand(), cand() - 1, IV(0)]
                return facts() + [('a nearest centre is a candidate', where([w0] if L.asm else wm + ex + [w0] + k, cand(), m)), ('the same set of entries', where([w1] if L.asm else wv + ex + [w1] + k, n0, v))]
            def step(stage, how):
                if stage == 'pre' and elim: L.geo.append(rd(0))
            cut(E, st_, fr, cond, inc, body, L, nm_, inv, None, step)
            ex.extend([w0, w1])
            if not L.mute and not elim: ex.append(IV(0))
        def named(fr, base_):
            ds = [d for d, x in fr.vars.items() if d == ncd[0]]
            return ds[0] if ds else None
        def proved(E, f_):
            f_ = simp(f_)
            if z3.is_true(f_): return True
            if z3.is_false(f_): return False
            sv = z3.Solver(); sv.set('timeout', 500)
            sv.add(*close_hyps(list(E.st.assume_list) + list(E.st.pc), f_), z3.Not(f_)); return sv.check() == z3.unsat
        ncd = [f['params'][PI.index('ncand')].get('d', f['params'][PI.index('ncand')].get('id'))]
        E.contracts = [(re.compile(r'^Position<[12]>::normSq$'), normsq), (re.compile(r'^FindCellsInPatches<'), rec), (re.compile(r'^%s<%d>::run$' % (F, C)), run)]
        E.inv = {(r'^FindCellsInPatches', None): loop}
        E.run(f, None, named_args(f, dict(f=fun), centers=cen, cell=Ptr(cell), patches=pat, ncand=n0, saved_dsq=sav, inertia=Ptr(ine) if inert else NULL))
        ctx.fns |= E.used
        L.add(E, 'the same set of candidates', where(wv + extra() + ex, n0, v)); L.add(E, 'the candidates are centres', hold()[0][1])
        L.add(E, 'nothing else is touched', q(1, lambda x: z3.Implies(z3.And(x >= n0, x < NP), rd(x) == IV(p00.read(x)))))
        return L
    done, keep = set(), []
    for j, (st, L) in enumerate(explore(go, base)):
        nm = 'path %d' % j
        runs, recs = [x for x in L.ev if x[0] == 'run'], [x for x in L.ev if x[0] == 'rec']
        if runs: ctx.record(nm + ': the whole cell, once', len(runs) == 1 and not recs and runs[0][1], fn=N, note=str(L.ev))
        else:
            ctx.record(nm + ': both children', sorted(x[1] or '?' for x in recs) == ['_left', '_right'], fn=N, note=str(recs))
            ctx.record(nm + ': same data', all(x[2] for x in recs), fn=N, note=str(recs))
        def lem(t, ex=lambda t, b: []): return lin(t) + [f for b in L.geo for f in lemmas(b, inert) + ex(m, b)]
        discharge(ctx, L, base, N, nm, (lin, lem, lambda t: lem(t, lambda t, b: geom(m) + geom(b))), done, keep)
    a, b = It('a'), It('b')
    for k, f_ in enumerate(lemmas(b, inert)): ctx.prove('triangle inequality, lemma %d' % k, [s >= 0, score(m) <= score(b)] + geom(m) + geom(b), f_, fn=N)

def discharge(ctx, L, base, N, nm, tries, done, keep):
    """tries: axioms at the index terms, from the cheapest"""
    for what, pc, g in L.ob:
        for g1 in split(g) if is_z(g) else [g]:
            if not is_z(g1): g1 = z3.BoolVal(bool(g1))
            if z3.is_quantifier(g1) and g1.is_forall():
                cs = [z3.Int('sk!%d' % k) for k in range(g1.num_vars())]; g1 = z3.substitute_vars(g1.body(), *reversed(cs))
            key = (what, g1.get_id(), frozenset(h.get_id() for h in pc if is_z(h)))
            if key in done: continue
            done.add(key); keep.append((g1, pc))
            for k, ax in enumerate(tries):
                hy = close_hyps(base + pc, g1, axioms=ax)
                if k < len(tries) - 1:
                    sv = z3.Solver(); sv.set('timeout', 4000); sv.add(*hy, z3.Not(g1))
                    if sv.check() == z3.unsat: ctx.prove('%s: %s' % (nm, what), hy, g1, fn=N); break
                else: ctx.prove('%s: %s' % (nm, what), hy, g1, fn=N)

# ---------------------------------------------------------------- the functor, the drivers
def same_addr(a, b): return val(a) is b

def run_(ctx, paths, C):
    """AssignPatches::run writes the patch number for every object of the cell: recursion to both children, or the object(s) of the leaf"""
    P = prog(paths); f = P.one(r'^AssignPatches<%d>::run$' % C); N = f['name']
    pn, n = It('patch_num'), It('n')
    def go(st):
        E = Engine(P, st=st); cell = cellmeta(E, C); log = []; ncell = It('ncell')
        out = Arr('patches', 'long', E); this = Rec('AssignPatches<%d>' % C, 'this', True); this.f.update(patches=ElemPtr(out, 0), n=n)
        def rec(E, e, o, a): log.append(('rec', val(o) is this, IV(val(a[0])), child(cell, a[1])))
        def loop(E, s_, fr, cond, inc, body):
            lv = E.loop_var(cond, inc, fr)
            if not lv: raise Unsupported('loop without counter')
            d, bx, op = lv; lo, hi = fr.vars[d], E.rv(bx, fr)
            g = z3.Int('gi!%d' % next(E.st.fresh))
            def it():
                k0 = len(out.writes); E._iter(fr, d, g, body); return out.writes[k0:]
            log.append(('loop', g, lo, hi, op, E.subexplore_r(it, [IV(lo) <= g, g < IV(hi)], fr, d)))
        E.contracts = [(re.compile(r'^AssignPatches<%d>::run$' % C), rec), (re.compile(r'^BaseCell<\d>::getN$'), lambda E, e, o, a: ncell)]; E.inv = {(r'^AssignPatches', None): loop}
        E.run(f, this, named_args(f, patch_num=pn, cell=Ptr(cell)))
        ctx.fns |= E.used
        return E, cell, log, list(out.writes)
    ncell = It('ncell')
    base = [z3.Bool('cell._left.null') == (s == 0), s >= 0, ncell >= 1, z3.Implies(ncell == 1, s == 0)]
    for j, (st, (E, cell, log, ws)) in enumerate(explore(go, base)):
        nm = 'path %d' % j; pc = base + st.pc
        recs, loops = [x for x in log if x[0] == 'rec'], [x for x in log if x[0] == 'loop']
        if recs:
            ctx.record(nm + ': both children and nothing else', sorted(x[3] or '?' for x in recs) == ['_left', '_right'] and all(x[1] for x in recs) and not loops and not ws, fn=N, note=str(log))
            for x in recs: ctx.prove(nm + ': the same patch', pc, x[2] == pn, fn=N)
        elif loops:
            ctx.record(nm + ': one loop', len(loops) == 1 and not ws, fn=N)
            _, g, lo, hi, op, res = loops[0]
            lst = val(field_path(E, cell, '_listinfo', 'indices'))
            ctx.prove(nm + ': a leaf with several objects', pc, z3.And(s == 0, ncell != 1), fn=N)
            ctx.prove(nm + ': the whole list', pc, z3.And(IV(lo) == 0, IV(hi) == IV(lst.f['n'])), fn=N); ctx.record(nm + ': up to the end', op in ('<', '!='), fn=N)
            for pcx, w in res:
                ctx.record(nm + ': one object per pass', len(w) == 1 and w[0][0] == 'at', fn=N, note=str(w)[:200])
                if len(w) == 1 and w[0][0] == 'at': ctx.prove(nm + ': the object of the pass', pc + pcx, z3.And(IV(w[0][1]) == IV(lst.f['a'].read(g)), IV(w[0][2]) == pn), fn=N)
        else:
            ctx.record(nm + ': one object', len(ws) == 1 and ws[0][0] == 'at', fn=N, note=str(ws)[:200])
            if len(ws) == 1 and ws[0][0] == 'at': ctx.prove(nm + ': the object of the cell', pc, z3.And(ncell == 1, IV(ws[0][1]) == IV(field_path(E, cell, '_info', 'index')), IV(ws[0][2]) == pn), fn=N)
        ctx.sat(nm + ' reach', pc)

def top(ctx, paths, C, F):
    """every top-level cell once, with all centres as candidates at the start; the set of candidates stays the same from cell to cell"""
    P = prog(paths)
    fs = P.find(r'^FindCellsInPatches<%d, %s<%d>>$' % (C, F, C))
    f = [g for g in fs if any(p['name'] == 'cells' for p in g['params'])][0]; N = f['name']
    sub = [g for g in fs if g is not f][0]; PI = [p['name'] for p in sub['params']]
    nt = It('ntop')
    def go(st):
        L = Log(); E = Engine(P, st=st); L.info = []
        cen = Rec('std::vector', 'centers', False); cen.f.update(a=Centres('centers', C, E), n=NP)
        cells = E.vec('cells', 'const BaseCell<%d> *' % C, nt); fun = Rec('%s<%d>' % (F, C), 'f', True); pt = [None]
        def held(w):
            A = pt[0]; rd = lambda x: IV(A.read(x))
            return [('candidates are centres', q(1, lambda x: z3.Implies(z3.And(0 <= x, x < NP), z3.And(rd(x) >= 0, rd(x) < NP)))), ('every centre is a candidate', z3.Or(*[z3.And(c >= 0, c < NP, rd(c) == m) for c in w]))]
        def rec(E, e, o, a):
            A = dict(zip(PI, a)); pat = val(A['patches'])
            L.note('call', val(A['centers']) is cen, getattr(val(A['cell']), 'name', None), val(A['f']) is fun or getattr(val(A['f']), 'src', None) is fun or isinstance(val(A['f']), Rec) and val(A['f']).rec == fun.rec, not isinstance(val(A['inertia']), Rec))
            pt[0] = pat.f['a']
            L.add(E, 'all candidates', z3.And(IV(val(A['ncand'])) == NP, IV(pat.f['n']) == NP))
            for n_, fm in held([m] + wits): L.add(E, n_, fm)
            L.add(E, 'room for the distances', IV(val(A['saved_dsq']).f['n']) >= NP)
            H = z3.Function('hav!%d' % next(E.st.fresh), I, I); g = z3.Int('gi!%d' % next(E.st.fresh))
            pt[0].writes.append(('map', None, None, g, [(z3.BoolVal(True), H(g))])); E.st.journal.append(('hav', pt[0]))
            w = E.st.new('wit', 'I'); wits.append(w)
            for n_, fm in held([w]): E.st.assume(fm)
        wits = []
        def loop(E, s_, fr, cond, inc, body):
            vs, fs_, arrs, br = modified(E, fr, cond, inc, body, L)
            pats = [v for v in fr.vars.values() if isinstance(v, Rec) and v.rec == 'std::vector' and v.f['a'].et == 'long']
            calls = [x for x in L.ev if x[0] == 'call']
            cv = counter(cond, fr)
            if not cv or len(pats) != 1: raise Unsupported('loop over the cells')
            pt[0] = pats[0].f['a']
            L.mute += 1; before = len(L.ev); probe = []
            def one():
                n_ = len(probe_ev); E.ex(body, fr); return len(probe_ev) > n_
            probe_ev = pev; 
            res = E.subexplore_r(one, [], fr, None); L.mute -= 1
            if not any(r for pc_, r in res): return E.summarise(s_, fr, cond, inc, body)
            L.add(E, 'starts with the first cell', IV(fr.vars[cv[0]]) == 0); L.add(E, 'up to the last', IV(E.rv(cv[1], fr)) == nt)
            w0 = E.st.new('wit', 'I'); 
            def inv(): return [('the counter', z3.And(IV(fr.vars[cv[0]]) >= 0, IV(fr.vars[cv[0]]) <= nt))] + held([w0] if L.asm else [m, w0] + wits)
            mem = {}
            def step(stage, how):
                if stage == 'pre': mem.update(k=IV(fr.vars[cv[0]]), n=len(pev))
                elif stage == 'post':
                    new = pev[mem['n']:]; nm_ = 'cells[%s]' % simp(mem['k'])
                    ctx.record('one call for each cell', len(new) == 1 and new[0][1] == nm_ and new[0][0] and new[0][2] and new[0][3] and how != 'break', fn=N, note='%s %s' % (new, nm_))
                elif stage == 'inc': L.add(E, 'one after the other', IV(fr.vars[cv[0]]) == mem['k'] + 1)
            cut(E, s_, fr, cond, inc, body, L, 'cells', inv, None, step); L.info.append('cells')
        pev = []
        def rec2(E, e, o, a):
            A = dict(zip(PI, a))
            pev.append((val(A['centers']) is cen, getattr(val(A['cell']), 'name', None), isinstance(val(A['f']), Rec) and val(A['f']).rec == fun.rec, not isinstance(val(A['inertia']), Rec)))
            return rec(E, e, o, a)
        E.contracts = [(re.compile(r'^FindCellsInPatches<'), rec2)]; E.inv = {(r'^FindCellsInPatches', None): loop}
        E.run(f, None, named_args(f, dict(f=fun), centers=cen, cells=cells, inertia=NULL))
        ctx.fns |= E.used
        return L
    base = [m >= 0, m < NP, NP >= 1, nt >= 0]
    done, keep = set(), []
    for j, (st, L) in enumerate(explore(go, base)):
        ctx.record('path %d: a loop over the cells' % j, L.info == ['cells'], fn=N, note=str(L.info))
        discharge(ctx, L, base, N, 'path %d' % j, (None,), done, keep)

def quick(ctx, paths, dim):
    """QuickAssign: the first centre of least distance; SelectPatch: the objects it assigns to the patch"""
    P = prog(paths); f = P.one('^QuickAssign$'); N = f['name']
    n = It('n'); D = z3.Function('D', I, I, R)
    XS = [z3.Function(a, I, R) for a in 'xyz'[:dim]]; CE = z3.Function('cen', I, R)
    dist = lambda i, k: sum([(XS[c](i) - CE(dim * k + c)) * (XS[c](i) - CE(dim * k + c)) for c in range(dim)], z3.RealVal(0))
    def go(st):
        L = Log(); E = Engine(P, st=st); L.info = []
        def pyarr(nm_, et, size):
            r = Rec('pyarray', nm_, False); r.f['a'] = Arr(nm_, et, E); r.f['n'] = size; return r
        arrs = dict(cenp=pyarr('cen', 'double', NP * dim), xp=pyarr('x', 'double', n), yp=pyarr('y', 'double', n), zp=pyarr('z', 'double', n if dim == 3 else IV(0)), pp=pyarr('pp', 'long', n))
        out = arrs['pp'].f['a']; out.out = True
        data = lambda E, e, o, a: ElemPtr(val(o).f['a'], 0)
        size = lambda E, e, o, a: val(o).f['n']
        outer, depth = [], [0]
        def loop(E, s_, fr, cond, inc, body):
            cv = counter(cond, fr)
            if not cv: raise Unsupported('loop without counter')
            if depth[0] == 0:
                depth[0] += 1; d = cv[0]; outer[:] = [d]
                L.add(E, 'starts with the first object', IV(fr.vars[d]) == 0); L.add(E, 'up to the last', IV(E.rv(cv[1], fr)) == n)
                mem = {}
                def inv(): return [('the counter', z3.And(IV(fr.vars[d]) >= 0, IV(fr.vars[d]) <= n))]
                def step(stage, how):
                    if stage == 'pre': mem.update(i=IV(fr.vars[d]), w=len(out.writes))
                    elif stage == 'post':
                        w = out.writes[mem['w']:]
                        L.add(E, 'one entry for each object', z3.BoolVal(len(w) == 1 and w[0][0] == 'at' and how is None or how == 'continue' and len(w) == 1))
                        if len(w) == 1 and w[0][0] == 'at':
                            b = IV(w[0][2]); L.add(E, 'in its place', IV(w[0][1]) == mem['i']); L.add(E, 'a centre', z3.And(b >= 0, b < NP))
                            L.add(E, 'no centre is nearer', q(1, lambda k: z3.Implies(z3.And(0 <= k, k < NP), D(mem['i'], b) <= D(mem['i'], k))))
                            L.add(E, 'the first of the nearest', q(1, lambda k: z3.Implies(z3.And(0 <= k, k < b), D(mem['i'], b) < D(mem['i'], k))))
                    elif stage == 'inc': L.add(E, 'one after the other', IV(fr.vars[d]) == mem['i'] + 1)
                try: return cut(E, s_, fr, cond, inc, body, L, 'objects', inv, None, step)
                finally: depth[0] -= 1; L.info.append('objects')
            d = cv[0]; i = IV(fr.vars[outer[0]])
            vs, fs, ars, br = modified(E, fr, cond, inc, body, L)
            rest = [x for x in vs if x != d]
            best = [x for x in rest if not isreal(fr.vars[x])]; mn = [x for x in rest if isreal(fr.vars[x])]
            if len(best) != 1 or len(mn) != 1: raise Unsupported('variables of the search %s' % rest)
            B, M, K = (lambda: IV(fr.vars[best[0]])), (lambda: RV(fr.vars[mn[0]])), (lambda: IV(fr.vars[d]))
            L.add(E, 'up to the last centre', IV(E.rv(cv[1], fr)) == NP)
            def inv(): return [('the counter', z3.And(K() >= 0, K() <= NP)), ('a centre', z3.And(B() >= 0, B() < NP)), ('its distance', M() == D(i, B())),
                    ('the best so far', q(1, lambda k: z3.Implies(z3.And(0 <= k, k < K()), D(i, B()) <= D(i, k)))), ('the first of them', q(1, lambda k: z3.Implies(z3.And(0 <= k, k < B()), D(i, B()) < D(i, k))))]
            mem = {}
            def step(stage, how):
                if stage == 'pre': mem['k'] = K()
                elif stage == 'inc': L.add(E, 'every centre in turn', K() == mem['k'] + 1)
            cut(E, s_, fr, cond, inc, body, L, 'centres', inv, None, step)
        E.contracts = [(re.compile(r'::size(<.*>)?$'), size), (re.compile(r'::(mutable_)?data(<.*>)?$'), data)]; E.inv = {('^QuickAssign$', None): loop}
        E.run(f, None, named_args(f, npatch=NP, **arrs))
        ctx.fns |= E.used
        return L
    base = [NP >= 1, n >= 1]
    done, keep = set(), []
    for j, (st, L) in enumerate(explore(go, base)):
        nm = '%dd path %d' % (dim, j)
        ctx.record(nm + ': a loop over the objects', L.info == ['objects'], fn=N, note=str(L.info))
        # the definition of D at the index terms in use
        for what, pc, g in L.ob:
            for g1 in split(g) if is_z(g) else [g]:
                if z3.is_quantifier(g1) and g1.is_forall():
                    cs = [z3.Int('sk!%d' % k) for k in range(g1.num_vars())]; g1 = z3.substitute_vars(g1.body(), *reversed(cs))
                key = (what, g1.get_id(), frozenset(h.get_id() for h in pc if is_z(h)))
                if key in done: continue
                done.add(key); keep.append((g1, pc))
                hy = close2(base + pc, g1, D, dist)
                ctx.prove('%s: %s' % (nm, what), hy, g1, fn=N)

def close2(hyps, goal, D, dist):
    """instances at the second arguments of D, and its definition there (coordinates as opaque reals)"""
    hs = [y for x in hyps if is_z(x) for y in split(x)]
    qf = [h for h in hs if not z3.is_quantifier(h)]; qs = [h for h in hs if z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1]
    inst, done = [], set()
    for r in range(2):
        tt = {}
        for t in subterms_all(qf + inst + [goal]):
            if t.decl().name() == 'D': tt[t.arg(1).get_id()] = t.arg(1)
            elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0 and z3.is_int(t): tt[t.get_id()] = t
        new = [t for k, t in tt.items() if k not in done] + ([IV(0)] if r == 0 else [])
        for t in new: done.add(t.get_id()); inst += [z3.substitute_vars(h.body(), t) for h in qs]
    defs = []
    for t in subterms_all(qf + inst + [goal]):
        if t.decl().name() == 'D': defs.append(t == dist(t.arg(0), t.arg(1)))
    return qf + inst + list({d.get_id(): d for d in defs}.values())

def subterms_all(ts):
    out, seen, st = [], set(), [t for t in ts if is_z(t)]
    while st:
        t = st.pop()
        if t.get_id() in seen or z3.is_quantifier(t) or not z3.is_app(t): continue
        seen.add(t.get_id()); out.append(t); st += t.children()
    return out

def select(ctx, paths):
    """SelectPatch marks exactly the objects which QuickAssign gives to the patch"""
    P = prog(paths); f = P.one('^SelectPatch$'); N = f['name']
    n, pa = It('n'), It('patch'); A = z3.Function('assigned', I, I)
    def go(st):
        E = Engine(P, st=st); log = []
        def pyarr(nm_, et, size):
            r = Rec('pyarray', nm_, False); r.f['a'] = Arr(nm_, et, E); r.f['n'] = size; return r
        arrs = dict(cenp=pyarr('cen', 'double', It('ncen')), xp=pyarr('x', 'double', n), yp=pyarr('y', 'double', n), zp=pyarr('z', 'double', It('nz')), usep=pyarr('use', 'long', n))
        def qa(E, e, o, a):
            vs = [val(x) for x in a]
            log.append(all(x is arrs[k] for x, k in zip([vs[0]] + vs[2:5], ('cenp', 'xp', 'yp', 'zp'))))
            log.append(IV(vs[1])); out = vs[5].f['a']; g = z3.Int('gi!%d' % next(E.st.fresh))
            out.writes.append(('map', None, None, g, [(z3.BoolVal(True), A(g))])); E.st.journal.append(('hav', out))
        E.contracts = [(re.compile('^QuickAssign$'), qa), (re.compile(r'::size(<.*>)?$'), lambda E, e, o, a: val(o).f['n']), (re.compile(r'::(mutable_)?data(<.*>)?$'), lambda E, e, o, a: ElemPtr(val(o).f['a'], 0))]
        E.run(f, None, named_args(f, patch=pa, npatch=NP, **arrs))
        ctx.fns |= E.used
        return IV(arrs['usep'].f['a'].read(It('k'))), log
    k = It('k')
    for j, (st, (r, log)) in enumerate(explore(go, [n >= 1, NP >= 1, k >= 0, k < n])):
        nm = 'path %d' % j; pc = st.pc + list(st.assume_list)
        if not log: ctx.undecided(nm, 'does not use QuickAssign', fn=N); continue
        ctx.record(nm + ': the same objects and centres', len(log) == 2 and log[0], fn=N)
        ctx.prove(nm + ': all centres', pc, log[1] == NP, fn=N)
        ctx.prove(nm + ': the objects of the patch and no other', pc, (r != 0) == (A(k) == pa), fn=N)

def driver(ctx, paths, C):
    """KMeansAssign: centres as given, all top-level cells, the patch array of the caller"""
    P = prog(paths); dim = 2 if C == 1 else 3
    f = P.one(r'^KMeansAssign1<%d>$' % C); N = f['name']; n = It('n')
    def go(st):
        E = Engine(P, st=st); log = []
        cells = E.vec('cells', 'const BaseCell<%d> *' % C, It('ntop')); cells0 = cells.f['a']; field = Rec('BaseField<%d>' % C, 'field', True)
        out, cin = Arr('patches', 'long', E), Arr('cin', 'double', E)
        def rdc(E, e, o, a): log.append(('read', val(a[0]), a[1].a is cin and a[1].i == 0, IV(val(a[2])))); val(a[0]).f['filled'] = True
        def findc(E, e, o, a):
            fun = val(a[2]); log.append(('find', val(a[0]).f.get('filled') is True, IV(val(a[0]).f['n']), val(a[1]).f['a'].name == cells0.name and not val(a[1]).f['a'].writes, val(a[1]).f['n'],
                                         getattr(fun.f.get('patches'), 'a', None) is out and fun.f['patches'].i == 0, IV(fun.f['n']), fun.rec, len(a) < 4 or not isinstance(val(a[3]), Rec)))
        E.contracts = [(re.compile(r'^ReadCenters<'), rdc), (re.compile(r'^FindCellsInPatches<'), findc), (re.compile(r'^BaseField<%d>::getCells$' % C), lambda E, e, o, a: cells)]
        E.run(f, None, named_args(f, field=field, pycenters=ElemPtr(cin, 0), npatch=NP, patches=ElemPtr(out, 0), n=n))
        ctx.fns |= E.used
        return log
    for j, (st, log) in enumerate(explore(go, [NP >= 1, n >= 1])):
        nm = 'C=%d path %d' % (C, j)
        ctx.record(nm + ': reads the centres, then assigns', [x[0] for x in log] == ['read', 'find'] and log[0][2] and log[1][1], fn=N, note=str(log)[:300])
        if [x[0] for x in log] != ['read', 'find']: continue
        ctx.prove(nm + ': all centres', st.pc, z3.And(log[0][3] == NP, log[1][2] == NP), fn=N)
        x = log[1]
        ctx.record(nm + ': all top-level cells', x[3] and IV(x[4]).eq(It('ntop')), fn=N); ctx.record(nm + ': into the given array', x[5] and x[7] == 'AssignPatches<%d>' % C, fn=N); ctx.record(nm + ': by distance alone', x[8], fn=N)
        ctx.prove(nm + ': its size', st.pc, x[6] == n, fn=N)
    f = P.one(r'^ReadCenters<%d>$' % C); N = f['name']
    def go(st):
        E = Engine(P, st=st); log = []
        cen = E.vec('centers', 'Position<%d>' % C, NP); cin = Arr('cin', 'double', E); ptr = 'pycenters'
        pd = [p['d'] for p in f['params'] if p['name'] == ptr][0]
        def loop(E, s_, fr, cond, inc, body):
            cv = counter(cond, fr)
            if not cv: raise Unsupported('loop without counter')
            d = cv[0]; lo, hi = fr.vars[d], E.rv(cv[1], fr); g = z3.Int('g')
            from specs.sampler import set_var
            p0 = fr.vars.get(pd); moved = isinstance(p0, ElemPtr)
            def it():
                set_var(E, fr, d, g)
                if moved and advances: set_var(E, fr, pd, ElemPtr(p0.a, arith('+', p0.i, dim * g)))
                E.ex(body, fr); el = cen.f['a'].cells.get(str(simp(g)))
                if inc is not None: E.effect(inc, fr)
                q_ = fr.vars.get(pd)
                return [RV(val(el).f['_' + k]) for k in XYZ(C)] if el is not None else None, IV(fr.vars[d]), q_.i if isinstance(q_, ElemPtr) else None
            advances = False
            r0 = E.subexplore_r(it, [], fr, None)
            advances = any(x[2] is not None and not z3.is_true(simp(IV(x[2]) == IV(p0.i))) for pc, x in r0) if moved else False
            log.append((IV(lo), IV(hi), g, advances, E.subexplore_r(it, [g >= 0, g < NP], fr, None)))
        E.inv = {(r'^ReadCenters', None): loop}
        E.contracts = [(re.compile(r'^Position<3>::normalize$'), lambda E, e, o, a: None)]
        E.run(f, None, named_args(f, centers=cen, pycenters=ElemPtr(cin, 0), npatch=NP))
        ctx.fns |= E.used
        return log
    IN_ = z3.Function('cin', I, R)
    for j, (st, log) in enumerate(explore(go, [NP >= 1])):
        nm = 'C=%d path %d' % (C, j)
        if len(log) != 1: ctx.undecided(nm, 'loops of ReadCenters', fn=N); continue
        lo, hi, g, adv, res = log[0]
        ctx.prove(nm + ': every centre', st.pc, z3.And(lo == 0, hi == NP), fn=N)
        for pc, (xs, nx, off) in res:
            if xs is None: ctx.record(nm + ': a centre in each pass', False, fn=N); continue
            ctx.prove(nm + ': one after the other', pc, nx == g + 1, fn=N)
            if adv: ctx.prove(nm + ': its coordinates next', pc, IV(off) == dim * (g + 1), fn=N)
            for k, x in enumerate(xs): ctx.prove(nm + ': coordinate %d' % k, pc, x == IN_(dim * g + k), fn=N)

def python(ctx):
    import numpy as np
    from engine.pysym import fname, load_treecorr
    tc = load_treecorr()
    import treecorr.field as F, treecorr.catalog as M
    class Tag:
        def __init__(self, nm): self.nm = nm
    for shape in ((3, 2), (4, 3), (1, 3)):
        for strided in (False, True):
            cen = np.arange(shape[0] * shape[1] * 4.).reshape(shape[0] * 2, -1)[::2, ::2] if strided else np.arange(1. * shape[0] * shape[1]).reshape(shape)
            log = []
            class Data:
                def KMeansAssign(s, c, n, p): log.append((c.copy(), c.flags.c_contiguous, c.dtype, n, p)); p[:] = np.arange(len(p)) + 7
            class Fd(tc.field.NField):
                data = Data()
                def __init__(s): s.ntot = 9
            N = fname(F.Field.kmeans_assign_patches); ctx.fns.add(N); nm = 'kmeans_assign_patches%s%s' % (shape, ' strided' if strided else '')
            try: r = Fd().kmeans_assign_patches(cen)
            except Exception as e: ctx.undecided(nm, 'raises %r' % e); continue
            ok = len(log) == 1 and np.array_equal(log[0][0], cen) and log[0][1] and log[0][3] == shape[0] and log[0][4].dtype == int and len(log[0][4]) == 9
            ctx.record(nm + ': all centres in memory order, one entry for each object', ok, fn=N, note=str(log)[:300])
            ctx.record(nm + ': returns what was assigned', np.array_equal(r, np.arange(9) + 7), fn=N)
            for z in ((None,) if shape[1] == 2 else (Tag('z'),)):
                c = tc.Catalog.__new__(tc.Catalog); c.config = {}; c._loaded = True
                c.__dict__.update(_x=Tag('x'), _y=Tag('y'), _z=z, _ra=None, _dec=None, _r=None, _w=np.ones(9), _centers=cen, _npatch=shape[0], _patch=None, _single_patch=None)
                log2 = []
                saved = M._treecorr, M.set_omp_threads, tc.Catalog.ntot
                class T:
                    def QuickAssign(s, c_, n, x, y, zz, p): log2.append(('q', c_.copy(), c_.flags.c_contiguous, n, x, y, zz, p)); p[:] = np.arange(9) % 2
                    def SelectPatch(s, i, c_, n, x, y, zz, p): log2.append(('s', c_.copy(), c_.flags.c_contiguous, n, x, y, zz, p, i)); p[:] = np.arange(9) % 3 == 0
                M._treecorr = T(); M.set_omp_threads = lambda *a, **k: None
                tc.Catalog.ntot = property(lambda s: 9); c.load = lambda *a: None
                try:
                    use = c._get_patch_index(2); c._assign_patches(); pt = c._patch
                    c._patch = np.array([2, 0, 2, 1]); use2 = c._get_patch_index(2); c._patch = None; c._centers = None; use3 = c._get_patch_index(2)
                except Exception as e: ctx.undecided(nm + ' catalog', 'raises %r' % e); continue
                finally: M._treecorr, M.set_omp_threads, tc.Catalog.ntot = saved
                for q, g in zip(log2, ('_get_patch_index', '_assign_patches')):
                    N = fname(getattr(M.Catalog, g)); ctx.fns.add(N)
                    ok = np.array_equal(q[1], cen) and q[2] and q[3] == shape[0] and q[4] is c._x and q[5] is c._y and (q[6] is c._z if z is not None else len(q[6]) == 0) and len(q[7]) == 9 and q[7].dtype == int
                    ctx.record(nm + ' %s: the centres in memory order and the positions of the catalog' % g, ok, fn=N, note=str(q)[:300])
                ctx.record(nm + ': one call each', [q[0] for q in log2] == ['s', 'q'] and log2[0][8] == 2, fn=N)
                ctx.record(nm + ': the objects marked', np.array_equal(use, [0, 3, 6]) and np.array_equal(pt, np.arange(9) % 2), fn=N)
                ctx.record(nm + ': the objects with the number', np.array_equal(use2, [0, 2]) and use3 == slice(None), fn=N)
    # a single patch keeps exactly the rows of the index in every column
    import inspect
    N = fname(M.Catalog.select); ctx.fns.add(N)
    cols = [q for q in ('_x', '_y', '_z', '_ra', '_dec', '_r', '_w', '_wpos', '_k', '_z1', '_z2', '_v1', '_v2', '_g1', '_g2', '_t1', '_t2', '_q1', '_q2', '_patch')]
    for miss in [None] + cols:
        c = tc.Catalog.__new__(tc.Catalog)
        for k, q in enumerate(cols): c.__dict__[q] = None if q == miss else np.arange(5) + 10 * k
        try: c.select(np.array([1, 4]))
        except Exception as e: ctx.undecided('select', 'raises %r' % e); continue
        ctx.record('select without %s: the same rows of every column' % miss, all((c.__dict__[q] is None) if q == miss else np.array_equal(c.__dict__[q], np.array([1, 4]) + 10 * k) for k, q in enumerate(cols)), fn=N)
