"""P09: neighbour queries (Field.cpp: CountNear, GetNear, countNear, getNear; field.py).

CountNear(cell) = number of objects of the cell within sep; GetNear(cell) appends exactly their indices.  Both by induction over the tree:
each exit returns nothing (then no object of the cell is in range), everything (then all are), or the two children."""
import re, z3
from engine.cxx.interp import *
from engine.sym import *
from specs.tree2 import prog, named_args, Rl, It
from specs.cells import val, XYZ, cell_n, sym_sat, field_path
sep, dm, m = Rl('sep'), Rl('dm'), Rl('delta')

def parts(E, cell, pos, C):
    c = val(field_path(E, cell, '_data', '_pos'))
    d2 = sum([(RV(FieldLoc(E, c, '_' + k, 'double').get()) - RV(FieldLoc(E, pos, '_' + k, 'double').get())) ** 2 if False else
              (RV(FieldLoc(E, c, '_' + k, 'double').get()) - RV(FieldLoc(E, pos, '_' + k, 'double').get())) * (RV(FieldLoc(E, c, '_' + k, 'double').get()) - RV(FieldLoc(E, pos, '_' + k, 'double').get())) for k in XYZ(C)], z3.RealVal(0))
    return d2, RV(FieldLoc(E, cell, '_size', 'float').get())

def tri(d2, s, d):
    """any object of the cell: |m - centre| = delta <= s (P08), d = |centre - point|, dm = |m - point|"""
    return [d >= 0, d * d == d2, s >= 0, m >= 0, m <= s, dm >= 0, dm >= d - m, dm <= d + m, sep >= 0, d2 >= 0]

def start(E, C):
    cell = Rec('BaseCell<%d>' % C, 'cell', True); pos = Rec('Position<%d>' % C, 'p', True)
    if C != 1: pos.f.update(_normsq=Fraction(0), _norm=Fraction(0))
    return cell, pos

def child(c, o):
    o = val(o)
    return next((k for k in ('_left', '_right') if isinstance(c.f.get(k), Ptr) and c.f[k].to is o), None)

def count(ctx, paths, C):
    P = prog(paths); f = P.one(r'^CountNear<%d>$' % C); N = f['name']
    def go(st):
        E = Engine(P, st=st); cell, pos = start(E, C); log = []
        def rec(E, e, o, a):
            log.append((child(cell, a[0]), val(a[1]) is pos, RV(val(a[2])), RV(val(a[3])))); return It('cnt%s' % log[-1][0])
        E.contracts = [(re.compile(r'^CountNear<%d>$' % C), rec)]
        r = IV(val(E.run(f, None, [cell, pos, sep, sep * sep])))
        d2, s = parts(E, cell, pos, C); n = IV(cell_n(E, cell)); ctx.fns |= E.used
        return r, d2, s, n, log
    d = Rl('d')
    for j, (st, (r, d2, s, n, log)) in enumerate(explore(go, [sep >= 0])):
        nm = 'path %d' % j; pc = st.pc + tri(d2, s, d) + [n >= 1]
        if log:
            ctx.record(nm + ': both children', sorted(x[0] or '?' for x in log) == ['_left', '_right'], fn=N, note=str(log))
            ctx.record(nm + ': same point', all(x[1] for x in log), fn=N)
            for x in log: ctx.prove(nm + ': same separation', pc, z3.And(x[2] == sep, x[3] == sep * sep), fn=N)
            ctx.prove(nm + ': sum of the children', pc, r == It('cnt_left') + It('cnt_right'), fn=N)
            ctx.prove(nm + ': never descends into a leaf', pc, s != 0, fn=N)
        else:
            ctx.prove(nm + ': none or all', pc, z3.Or(r == 0, r == n), fn=N)
            ctx.prove(nm + ': none only if none is in range', pc + [r == 0], dm > sep, fn=N)
            ctx.prove(nm + ': all only if all are in range', pc + [r == n], dm <= sep, fn=N)
        ctx.sat(nm + ' reach', pc)

def get(ctx, paths, C):
    P = prog(paths); f = P.one(r'^GetNear<%d>$' % C); N = f['name']
    k0, n0 = It('k0'), It('navail'); rem = It('count')       # count = CountNear of this cell, by its contract
    def go(st):
        E = Engine(P, st=st); cell, pos = start(E, C); log = []
        kl = TempLoc(k0); out = Arr('indices', 'long', E)
        def rec(E, e, o, a):
            who = child(cell, a[0]); kk = a[5]
            log.append(('rec', who, val(a[1]) is pos, RV(val(a[2])), RV(val(a[3])), getattr(a[4], "a", None) is out, IV(kk.get()), IV(val(a[6]))))
            kk.set(simp(IV(kk.get()) + It('cnt%s' % who)))
        def allidx(E, e, o, a): return E.vec('all', 'long', It('nall')) if val(o) is cell else E.vec('other', 'long', It('nother'))
        def loop(E, s, fr, cond, inc, body):
            st = E.st; lv = E.loop_var(cond, inc, fr)
            if not lv: raise Unsupported('loop without counter')
            dd, bexpr, op = lv; lo, hi = fr.vars[dd], E.rv(bexpr, fr)
            if op == '<=': hi = arith('+', hi, 1)
            g = z3.Int('gi!%d' % next(st.fresh)); k1 = kl.get()
            def it():
                n1 = len(out.writes); kl.set(simp(IV(k1) + g - IV(lo)))
                E._iter(fr, dd, g, body)
                w = out.writes[n1:]; r = (w, IV(kl.get())); kl.set(k1)
                return r
            res = E.subexplore_r(it, [IV(lo) <= g, g < IV(hi)], fr, dd)
            log.append(('loop', g, lo, hi, IV(k1), res)); kl.set(simp(IV(k1) + IV(hi) - IV(lo)))
        E.contracts = [(re.compile(r'^GetNear<%d>$' % C), rec), (re.compile(r'^BaseCell<%d>::getAllIndices$' % C), allidx)]
        E.inv = {(r'^GetNear', None): loop}
        E.run(f, None, [cell, pos, sep, sep * sep, ElemPtr(out, 0), kl, n0])
        d2, s = parts(E, cell, pos, C); n = IV(cell_n(E, cell)); ctx.fns |= E.used
        return E, cell, d2, s, n, log, IV(kl.get()), list(out.writes)
    d = Rl('d')
    base = [sep >= 0, k0 >= 0, rem >= 0, k0 + rem <= n0]
    for j, (st, (E, cell, d2, s, n, log, k, ws)) in enumerate(explore(go, base)):
        nm = 'path %d' % j
        # the caller provides room for every object in range: all of them when all are in range
        pc = base + st.pc + tri(d2, s, d) + [n >= 1, rem <= n, It('nall') == n, z3.Implies(d + s <= sep, rem == n)]
        recs = [x for x in log if x[0] == 'rec']; loops = [x for x in log if x[0] == 'loop']
        if recs:
            ctx.record(nm + ': both children', sorted(x[1] or '?' for x in recs) == ['_left', '_right'] and not ws and not loops, fn=N, note=str(recs))
            ctx.record(nm + ': same point', all(x[2] for x in recs), fn=N)
            for i, x in enumerate(recs):
                ctx.prove(nm + ': same separation', pc, z3.And(x[3] == sep, x[4] == sep * sep), fn=N)
                ctx.prove(nm + ': appends after the previous child', pc, z3.And(x[6] == (k0 if i == 0 else k0 + It('cnt%s' % recs[0][1])), x[7] == n0), fn=N)
            ctx.prove(nm + ': never descends into a leaf', pc, s != 0, fn=N)
            continue
        if not ws and not loops:
            ctx.prove(nm + ': nothing listed', pc, z3.And(k == k0, dm > sep), fn=N)
            continue
        if loops:
            ctx.record(nm + ': one loop', len(loops) == 1 and not [w for w in ws if w[0] == 'at'], fn=N)
            _, g, lo, hi, k1, res = loops[0]
            ctx.prove(nm + ': everything is in range', pc, dm <= sep, fn=N)
            for pcx, (w, kk) in res:
                hyp = pc + pcx + [IV(lo) <= g, g < IV(hi)]
                ctx.record(nm + ': one index per pass', len(w) == 1 and w[0][0] == 'at', fn=N, note=str(w)[:200])
                if len(w) != 1: continue
                ctx.prove(nm + ': consecutive places', hyp, z3.And(IV(w[0][1]) == k0 + g - IV(lo), kk == k0 + g - IV(lo) + 1), fn=N)
                mm = re.match(r'^(.+?)\((.*)\)$', str(w[0][2]))
                ind = mm.group(1) if mm else ''
                ctx.prove(nm + ': entry of the list', hyp, IV(w[0][2]) == z3.Function(ind or 'x', z3.IntSort(), z3.IntSort())(g), fn=N)
                listn = 'cell._listinfo.indices' ; ok = ind == 'all' or ind.endswith('indices')
                ctx.record(nm + ': the list of this cell', ok, fn=N, note=ind)
                # the list of a leaf with several objects has n entries (P08); getAllIndices returns one entry per object (P08)
                size = It('nall') if ind == 'all' else None
                ctx.prove(nm + ': the whole list', pc + ([size == n] if size is not None else []), z3.And(IV(lo) == 0, IV(hi) == n), fn=N)
                if size is None: ctx.prove(nm + ': only for a leaf with several objects', pc, z3.And(s == 0, n != 1), fn=N)
            ctx.prove(nm + ': counts them', pc + [It('nall') == n], k == k0 + n, fn=N)
            continue
        ctx.record(nm + ': one index', len(ws) == 1 and ws[0][0] == 'at', fn=N)
        ctx.prove(nm + ': a single object in range', pc, z3.And(n == 1, dm <= sep, k == k0 + 1, IV(ws[0][1]) == k0), fn=N)
        ctx.prove(nm + ': its index', pc, IV(ws[0][2]) == IV(field_path(E, cell, '_info', 'index')), fn=N)
        ctx.sat(nm + ' reach', pc)

def drivers(ctx, paths, C):
    """countNear adds up CountNear of every top-level cell; getNear lists them one after the other"""
    P = prog(paths)
    for name in ('countNear', 'getNear'):
        f = P.one(r'^BaseField<%d>::%s$' % (C, name)); N = f['name']
        x, y, z, n = Rl('x'), Rl('y'), Rl('z'), It('nind')
        if C == 3: pre = [x * x + y * y + z * z == 1]
        else: pre = []
        def go(st):
            E = Engine(P, st=st); log = []
            this = Rec('Field<0, %d>' % C, 'this', True); this.f['_cells'] = E.vec('cells', 'BaseCell<%d> *' % C, It('ntop'))
            built = []
            kl = []
            out = Arr('indices', 'long', E)
            def ck(E, e, o, a):
                p = val(a[1]); pv = [RV(FieldLoc(E, p, '_' + q, 'double').get()) for q in XYZ(C)]
                cell = val(a[0]); tag = cell.name
                cnt = It('CNT!' + tag)
                log.append(('call', tag, pv, RV(val(a[2])), RV(val(a[3])), IV(a[5].get()) if len(a) > 6 else None, (getattr(a[4], 'a', None) is out ) if len(a) > 6 else None, IV(val(a[6])) if len(a) > 6 else None))
                if len(a) > 6: a[5].set(simp(IV(a[5].get()) + cnt)); return None
                return cnt
            def loop(E, s, fr, cond, inc, body):
                st = E.st; lv = E.loop_var(cond, inc, fr)
                if not lv: raise Unsupported('loop without counter')
                dd, bexpr, op = lv; lo, hi = fr.vars[dd], E.rv(bexpr, fr)
                if op == '<=': hi = arith('+', hi, 1)
                g = z3.Int('gi!%d' % next(st.fresh))
                acc = [k for k, v in fr.vars.items() if k != dd and (v == 0 if isinstance(v, int) and not isinstance(v, bool) else False)]
                log.append(('loop', lo, hi, g)); n1 = len(log)
                run = It('run')
                def it():
                    for k in acc: fr.vars[k] = run
                    E._iter(fr, dd, g, body)
                    r = {k: fr.vars[k] for k in acc}
                    return r
                res = E.subexplore_r(it, [IV(lo) <= g, g < IV(hi)], fr, dd)
                log.append(('res', res, g))
                for k in acc: fr.vars[k] = It('total')
            E.contracts = [(re.compile(r'^(Count|Get)Near<%d>$' % C), ck), (re.compile(r'::BuildCells$'), lambda E, e, o, a: built.append(1))]
            E.inv = {(r'Near$', None): loop}
            r = E.run(f, this, [x, y, z, sep] + ([ElemPtr(out, 0), n] if name == 'getNear' else []))
            ctx.fns |= E.used
            return log, built, r
        for j, (st, (log, built, r)) in enumerate(explore(go, pre)):
            nm = '%s path %d' % (name, j); pc = pre + st.pc
            ctx.record(nm + ': the tree is built', len(built) >= 1, fn=N)
            lp = [q for q in log if q[0] == 'loop']; cs = [q for q in log if q[0] == 'call']; rs = [q for q in log if q[0] == 'res']
            ctx.record(nm + ': one loop, one query per cell', len(lp) == 1 and len(cs) >= 1, fn=N, note='%d %d' % (len(lp), len(cs)))
            if len(lp) != 1: continue
            ctx.prove(nm + ': every top-level cell', pc, z3.And(IV(lp[0][1]) == 0, IV(lp[0][2]) == It('ntop')), fn=N)
            for q in cs:
                ctx.record(nm + ': the cell of this pass', q[1] == 'cells[%s]' % lp[0][3], fn=N, note=q[1])
                ctx.prove(nm + ': the requested point', pc, z3.And(*[a == b for a, b in zip(q[2], (x, y, z))]), fn=N)
                ctx.prove(nm + ': the requested separation', pc, z3.And(q[3] == sep, q[4] == sep * sep), fn=N)
                if name == 'getNear': ctx.prove(nm + ': all of the space', pc, q[7] == n, fn=N); ctx.record(nm + ': the output array', bool(q[6]), fn=N); ctx.prove(nm + ': appends to the running position', pc, q[5] == It('run'), fn=N)
            for pcx, accs in rs[0][1]:
                tag = 'cells[%s]' % lp[0][3]
                ctx.prove(nm + ': the running count grows by the count of the cell', pc + pcx, z3.Or(*[IV(v) == It('run') + It('CNT!' + tag) for v in accs.values()]) if accs else z3.BoolVal(False), fn=N)
            if val(r) is None: ctx.record(nm + ': returns the total', False, fn=N)
            else: ctx.prove(nm + ': returns the total', pc, IV(val(r)) == It('total'), fn=N)

# ---------------------------------------------------------------- field.py
def python(ctx):
    import numpy as np
    from engine.pysym import scalar, SArr, run, fname, load_treecorr, patch_mods, state, FUN
    tc = load_treecorr()
    import treecorr.field as F
    patch_mods(F)
    class Ind:
        """an index list: the objects satisfying all conditions"""
        def __init__(self, conds=()): self.conds = list(conds)
        def __getitem__(self, b): return Ind(self.conds + [b])
        def __array_function__(self, f, types, a, kw): return self if f is np.sort else NotImplemented
    class Col:
        def __init__(self, n): self.n = n
        def __getitem__(self, i): return SArr(('m',), z3.Real(self.n))
    class Cat: x, y, z = Col('mx'), Col('my'), Col('mz')
    class Fd(tc.field.NField):
        def __init__(self): pass
        cat = Cat()
    args = [scalar(q) for q in ('x', 'y', 'z', 'sep')]
    x, y, z, ss = [z3.Real(q) for q in ('x', 'y', 'z', 'sep')]; ms = z3.Real('min_size')
    mx, my, mz, cd = z3.Real('mx'), z3.Real('my'), z3.Real('mz'), z3.Real('cd')   # cd: distance of the object from the centre of its leaf
    for coords in (tc._treecorr.Flat, tc._treecorr.ThreeD, tc._treecorr.Sphere):
        for which in ('get_near', 'count_near'):
            def go():
                log = []
                f = Fd(); f._coords = coords; f.min_size = scalar('min_size'); state().assume(ms >= 0); state().assume(ss >= 0)
                f._get_near = lambda *a: (log.append(('get',) + a), Ind())[1]
                f._count_near = lambda *a: (log.append(('count',) + a), 'COUNT')[1]
                saved = F.parse_xyzsep, F.__dict__.get('len'); F.parse_xyzsep = lambda a, k, c: (log.append(('parse', a, k, c)), tuple(args))[1]
                F.len = lambda o: ('LEN', o) if isinstance(o, Ind) else saved[1](o)
                try: r = getattr(f, which)('POS', sep='SEP')
                finally: F.parse_xyzsep, F.len = saved
                return r, log
            N = fname(getattr(F.Field, which)); ctx.fns.add(N)
            for j, (st, (k, r)) in enumerate(run(go)):
                nm = '%s/%s path %d' % (which, coords, j)
                if k == 'raise': ctx.undecided(nm, 'raises %r' % (r,)); continue
                r, log = r; pc = st.pc
                p = [q for q in log if q[0] == 'parse']
                ctx.record(nm + ': the arguments are parsed for these coordinates', all(q[1:] == (('POS',), {'sep': 'SEP'}, coords) for q in p) and len(p) >= 1, fn=N)
                q = [q for q in log if q[0] in ('get', 'count')]
                ctx.record(nm + ': one query', len(q) == 1, fn=N, note=str(q)[:100])
                if len(q) != 1: continue
                ctx.prove(nm + ': at the requested point', pc, z3.And(RV(q[0][1].v) == x, RV(q[0][2].v) == y, RV(q[0][3].v) == z), fn=N)
                s1 = RV(q[0][4].v)
                if q[0][0] == 'count':
                    ctx.record(nm + ': the count is returned', r == 'COUNT' and which == 'count_near', fn=N)
                    ctx.prove(nm + ': exact tree, requested separation', pc, z3.And(ms == 0, s1 == ss), fn=N); continue
                if which == 'count_near':
                    ctx.record(nm + ': length of the list', isinstance(r, tuple) and r[0] == 'LEN', fn=N)
                    if not isinstance(r, tuple): continue
                    r = r[1]
                # an object is in the raw list iff the centre of its leaf is within s1; the leaf has size <= min_size
                flat = coords == tc._treecorr.Flat
                d2 = (mx - x) * (mx - x) + (my - y) * (my - y) + (z3.RealVal(0) if flat else (mz - z) * (mz - z))
                leaf = [cd >= 0, cd <= ms, dm >= 0, dm * dm == d2]; cc = z3.Real('cc')
                leaf += [cc >= 0, cc <= dm + cd, dm <= cc + cd]     # cc: distance of the leaf centre
                ok = z3.And(cc <= s1, *[BV(c.v) if isinstance(c, SArr) else z3.BoolVal(bool(c)) for c in r.conds])
                ctx.prove(nm + ': listed only if within the separation', pc + leaf, z3.Implies(ok, dm <= ss), fn=N)
                ctx.prove(nm + ': every object within the separation is listed', pc + leaf, z3.Implies(dm < ss, ok), fn=N)
    # _get_near, _count_near
    NT = 9
    def go2(which):
        log = []
        f = Fd(); f.ntot = NT
        class D:
            def countNear(s, *a): log.append(('count', a)); return 7
            def getNear(s, *a): log.append(('get', a)); a[4][:5] = range(10, 15); return 5
        f.data = D()
        return getattr(f, which)(*args), log
    for which in ('_get_near', '_count_near'):
        N = fname(getattr(F.Field, which)); ctx.fns.add(N)
        for j, (st, (k, r)) in enumerate(run(lambda: go2(which))):
            if k == 'raise': ctx.undecided(which, 'raises %r' % (r,)); continue
            r, log = r
            q = [b for a, b in log if a == which[1:-5]]
            ctx.record(which + ': one query', len(q) == 1, fn=N)
            ctx.record(which + ': always for the same point and separation', all(len(b) >= 4 and all(u is v for u, v in zip(b[:4], args)) for a, b in log), fn=N)
            if len(q) != 1: continue
            if which == '_count_near': ctx.record(which + ': returns the count', r == 7, fn=N); continue
            # the number counted is not a bound of the number listed for objects within rounding of the separation
            ctx.record(which + ': room for every object', q[0][4].ndim == 1 and q[0][4].shape[0] >= NT and q[0][4].dtype == int, fn=N, note=str(q[0][4].shape))
            ctx.record(which + ': returns exactly the filled entries', isinstance(r, np.ndarray) and r.tolist() == [10, 11, 12, 13, 14], fn=N)
