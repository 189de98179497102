"""P08: the cell tree (Cell.cpp, Field.cpp).

Induction over the recursion of BuildCell/SetupTopLevelCells: every function is checked against the contracts of its callees.
  summary(data, lo, hi): data holds n = hi-lo, w = sum of w, position = sum(pos wpos)/sum(wpos) (first position if that sum is 0;
      unit sphere in spherical coordinates), field = sum of the (transported) fields (P07) over the entries lo..hi-1
  sizesq >= |centre - pos_j|^2 for every j in [lo,hi)
  SplitData: permutes the entries of [lo,hi) only and returns mid with lo < mid < hi."""
import re, z3
from engine.cxx.interp import *
from engine.sym import *
import engine.sym as sym
from specs.tree2 import prog, named_args, Rl, It
Fn = Fraction
def val(v):
    v = v.get() if isinstance(v, Loc) else v
    return v.to if isinstance(v, Ptr) else v
XYZ = lambda C: 'xyz'[:2 if C == 1 else 3]
def vdata(E, C, name='vdata'): return E.vec(name, 'std::pair<BaseCellData<%d> *, WPosLeafInfo>' % C)
START, END = It('start'), It('end')

# ---------------------------------------------------------------- sums
def totals(ctx, nm, st, quants, names, fn):
    """match every summarised loop with a quantity of the entries; returns (facts, dict quantity -> TOT function)"""
    facts, fs = [], {q: z3.Function('TOT_' + q, z3.IntSort(), z3.IntSort(), z3.RealSort()) for q in quants}
    for S, (gen, term, lo, hi) in st.ghost.get('sums', {}).items():
        el = '%s[%s]' % (names, gen)
        hyp = [z3.Not(z3.Bool(el + '.first.null'))]
        for q, f in quants.items():
            if sym.prove(hyp, RV(term) == f(el), 3).status == 'proved': facts.append(z3.Real(S) == fs[q](IV(lo), IV(hi))); break
        else: ctx.undecided('%s: loop sum %s' % (nm, S), 'does not match a known quantity: %s' % str(term)[:150])
    for q, f in quants.items():
        T = fs[q]
        facts += [z3.Implies(START < END, T(START, END) == f('%s[start]' % names) + T(START + 1, END)), T(END, END) == 0, T(START, START) == 0,
                  z3.Implies(START < END, T(START, END) == T(START, END - 1) + f('%s[%s]' % (names, simp(END - 1))))]
    return facts, fs

def cell_data(ctx, paths, C):
    """BaseCellData(vdata, start, end)"""
    P = prog(paths)
    f = next(x for x in P.find(r'^BaseCellData<%d>::BaseCellData$' % C) if len(x['params']) == 3); N = f['name']
    def go(st):
        E = Engine(P, st=st)
        if C == 3: E.contracts = [(re.compile(r'^Position<3>::normalize$'), norm)]
        o = Rec('BaseCellData<%d>' % C, 'this', True)
        v = vdata(E, C)
        E.run(f, o, [v, START, END]); ctx.fns |= E.used
        pos = o.f['_pos']
        return [RV(FieldLoc(E, pos, '_' + k, 'double').get()) for k in XYZ(C)], RV(o.f['_w']), IV(o.f['_n']), [RV(pos.f.get(k, Fn(0))) for k in (('_normsq', '_norm') if C != 1 else ('_normsq',))], st.ghost.get('nz')
    def norm(E, e, o, a):
        o = val(o); old = [RV(FieldLoc(E, o, '_' + k, 'double').get()) for k in 'xyz']
        E.st.ghost['nz'] = old
        for k in 'xyz': FieldLoc(E, o, '_' + k, 'double').set(Rl('unit.' + k))
        FieldLoc(E, o, '_normsq', 'double').set(Fn(0)); FieldLoc(E, o, '_norm', 'double').set(Fn(0))
    base = [START < END, START >= 0]
    quants = {'w': lambda el: Rl(el + '.first._w'), 'wp': lambda el: Rl(el + '.second.wpos')}
    for k in XYZ(C): quants['p' + k] = lambda el, k=k: Rl(el + '.first._pos._' + k) * Rl(el + '.second.wpos')
    first = ['vdata[start].first._pos._' + k for k in XYZ(C)]
    for j, (st, (pos, w, n, cache, nz)) in enumerate(explore(go, base)):
        nm = 'path %d' % j
        facts, T = totals(ctx, nm, st, quants, 'vdata', N)
        pc = base + st.pc + facts
        t = {q: T[q](START, END) for q in T}
        ctx.prove(nm + ': number of objects', pc, n == END - START, fn=N)
        ctx.prove(nm + ': total weight', pc, w == t['w'], fn=N)
        old = nz if C == 3 and nz is not None else pos
        if C == 3:
            ctx.prove(nm + ': on the unit sphere', pc, z3.Or(z3.BoolVal(nz is not None and all(str(x) == 'unit.' + k for x, k in zip(pos, 'xyz'))), t['wp'] == 0), fn=N)
        ctx.prove(nm + ': weighted mean position', pc + [t['wp'] != 0], z3.And(*[old[i] * t['wp'] == t['p' + k] for i, k in enumerate(XYZ(C))]), fn=N)
        ctx.prove(nm + ': a position of one of the objects if the weights vanish', pc + [t['wp'] == 0], z3.And(*[old[i] == Rl(first[i]) for i in range(len(old))]), fn=N)
        ctx.sat(nm + ' reach', pc)
    ctx.assumed.add('Position<3>::normalize scales to the unit sphere (P07)')

def pre_obls(ctx, st, base, N, skip=('no null',)):
    for o, fm, opc in st.obls:
        if not any(s in o for s in skip): ctx.prove(o, base + opc, fm, fn=N)

# ---------------------------------------------------------------- loops with an invariant
def scalars(E, fr): return {d: v for d, v in fr.vars.items() if is_z(v) or isinstance(v, (int, Fraction)) and not isinstance(v, bool)}

def inv_loop(log, inv, havoc=None):
    """for/while loop cut by an invariant inv(E, fr, i) -> [(name, formula)] where i is the value of the loop counter;
    modified scalars (found by one symbolic execution of the body) are havoced, other writes must be allowed by `havoc`"""
    def h(E, s, fr, cond, inc, body):
        st = E.st
        lv = E.loop_var(cond, inc, fr)
        if not lv: raise Unsupported('loop without counter')
        d, bexpr, op = lv
        lo = fr.vars[d]; hi = E.rv(bexpr, fr); E.loopkeys = set(fr.vars)
        if op == '<=': hi = arith('+', hi, 1)
        st.events.append(('range', lo, hi))
        for nm, fm in inv(E, fr, lo): log.append((nm + ' on entry', list(st.pc), fm))
        g = z3.Int('li!%d' % next(st.fresh))
        rng = [IV(lo) <= g, g < IV(hi)]
        res = E.subexplore(lambda: E._iter(fr, d, g, body), rng, fr, d)
        mod, recs = set(), []
        for pc, ws, rd, ev in res:
            for w in ws:
                if w[0] == 'var' and w[1] is fr: mod.add(w[2])
                elif w[0] == 'field' and havoc and havoc(w): recs.append((w[1], w[2]))
                elif w[0] == 'arr' and havoc and havoc(w): pass
                else: raise Unsupported('loop writes %s' % (w[2] if len(w) > 2 else w[0],))
        saved = {m: fr.vars[m] for m in mod}
        def hav():
            for m in mod: fr.vars[m] = st.new('hv', 'R' if isreal(saved[m]) else 'I')
            for o, m in recs: o.f[m] = st.new('hv', 'R')
        hav()
        assumed = [fm for nm, fm in inv(E, fr, g)]
        entry = {m: fr.vars[m] for m in mod}
        outs = []
        def it():
            E._iter(fr, d, g, body)
            return [(nm, fm) for nm, fm in inv(E, fr, g + 1)]
        res = E.subexplore_r(it, rng + assumed, fr, d)
        for pc, fs in res:
            for nm, fm in fs: log.append((nm + ' preserved', list(st.pc) + rng + assumed + pc, fm))
        hav()
        end = simp(ite(cmp('<', lo, hi), hi, lo)) if op != '!=' else hi
        fr.vars[d] = end
        for nm, fm in inv(E, fr, end): st.assume(fm)
    return h

def size_sq(ctx, paths, C):
    """CalculateSizeSq: at least the squared distance of every member from the centre"""
    P = prog(paths)
    f = P.one(r'^CalculateSizeSq<%d>$' % C); N = f['name']
    j = It('jj'); dev = z3.Function('dev', z3.IntSort(), z3.RealSort())
    base = [START >= 0, START <= END, j >= START, j < END]
    def go(st):
        log = []
        def inv(E, fr, i):
            v = [x for k, x in fr.vars.items() if k in E.loopkeys and isreal(x) and not isinstance(x, Rec) and not isinstance(x, Loc)]
            v = RV(v[0]) if len(v) == 1 else None
            if v is None: raise Unsupported('running maximum not recognised')
            return [('not negative', v >= 0), ('at least every earlier deviation', z3.Implies(j < IV(i), v >= dev(j)))]
        E = Engine(P, st=st, invariants={(r'CalculateSizeSq', None): inv_loop(log, inv)})
        cen = Rec('Position<%d>' % C, 'cen', True)
        r = E.run(f, None, [cen, vdata(E, C), START, END]); ctx.fns |= E.used
        return RV(val(r)), log
    def devf(el): return sum([(Rl('cen._' + k) - Rl(el + '.first._pos._' + k)) * (Rl('cen._' + k) - Rl(el + '.first._pos._' + k)) for k in XYZ(C)], z3.RealVal(0))
    n = 0
    for k, (st, (r, log)) in enumerate(explore(go, base)):
        for nm, pc, fm in log:
            n += 1
            gs = {str(t) for x in pc + [fm] if is_z(x) for t in subterms([x]) if z3.is_const(t) and str(t).startswith('li!')}
            defs = [dev(z3.Int(g)) == devf('vdata[%s]' % g) for g in gs] + [z3.Not(z3.Bool('vdata[%s].first.null' % g)) for g in gs]
            ctx.prove('path %d: %s' % (k, nm), base + pc + defs, fm, fn=N)
        for e in st.events:
            if e[0] == 'range': ctx.prove('path %d: the loop runs over all members' % k, base + st.pc, z3.And(IV(e[1]) == START, IV(e[2]) == END), fn=N)
        ctx.prove('path %d: at least every deviation' % k, base + st.pc, z3.And(r >= dev(j), r >= 0), fn=N)
    ctx.record('a loop with the invariant', n > 0, fn=N)

# ---------------------------------------------------------------- splitting
def split_core(ctx, paths, C, SM):
    P = prog(paths)
    f = P.one(r'^SplitDataCore<%d, %d>::run$' % (C, SM)); N = f['name']
    base = [START >= 0, END - START > 1]
    def go(st):
        log = []
        def algo(E, e, o, a):
            its = [val(x) for x in a if isinstance(val(x), Rec) and val(x).rec == 'iter']
            log.append((e['name'].split('<')[0], [IV(x.f['i']) for x in its]))
            if 'partition' in e['name']:
                m = E.st.new('part', 'I'); E.st.assume(z3.And(m >= IV(its[0].f['i']), m <= IV(its[-1].f['i'])))
                r = its[0].copy(); r.f['i'] = m; return r
        def rnd(E, e, o, a):
            lo, hi = [IV(val(x)) for x in a]; log.append(('random', [lo, hi])); m = E.st.new('rnd', 'I')
            # result in [lo,hi] if lo <= hi, else hi (or lo); see select_random
            E.st.assume(z3.If(lo <= hi, z3.And(m >= lo, m <= hi), z3.Or(m == lo, m == hi))); return m
        E = Engine(P, st=st, contracts=[(re.compile(r'^std::(partition|stable_partition|nth_element|sort|partial_sort|stable_sort)'), algo), (re.compile(r'^select_random$'), rnd)])
        b = Rec('Bounds<%d>' % C, 'b', True)
        mp = Rec('Position<%d>' % C, 'mp', True)
        r = E.run(f, None, named_args(f, vdata=vdata(E, C), start=START, end=END, meanpos=mp, b=b, split=It('split'))); ctx.fns |= E.used
        return IV(val(r)), log
    for j, (st, (mid, log)) in enumerate(explore(go, base)):
        nm = 'path %d' % j; pc = base + st.pc
        for a, its in log:
            if a == 'random': continue
            ctx.prove(nm + ': %s only touches the entries of the cell' % a, pc, z3.And(*[z3.And(x >= START, x <= END) for x in its]), fn=N)
        if SM in (1, 3): ctx.prove(nm + ': strictly inside', pc, z3.And(mid > START, mid < END), fn=N)
        else: ctx.prove(nm + ': inside', pc, z3.And(mid >= START, mid <= END), fn=N)
    ctx.assumed.add('std::partition, std::nth_element permute the entries of the range they are given; partition returns an iterator in it')
    ctx.sat('reach', base)

def select_random(ctx, paths):
    P = prog(paths)
    f = P.one(r'^select_random$'); N = f['name']
    lo, hi, u = It('lo'), It('hi'), Rl('u')
    def go(st):
        E = Engine(P, st=st, contracts=[(re.compile(r'^urand$'), lambda E, e, o, a: u)])
        r = IV(val(E.run(f, None, [lo, hi]))); ctx.fns |= E.used
        return r
    base = [lo >= 0, u >= 0, u <= 1, lo <= hi + 1]
    for j, (st, r) in enumerate(explore(go, base)):
        pc = base + st.pc
        ctx.prove('path %d: between the limits' % j, pc + [lo <= hi], z3.And(r >= lo, r <= hi), fn=N)
        ctx.prove('path %d: one of the limits when they are exchanged' % j, pc + [lo > hi], z3.Or(r == lo, r == hi), fn=N)
    ctx.sat('reach', base)

def split_data(ctx, paths, C, SM):
    P = prog(paths)
    f = P.one(r'^SplitData<%d, %d>$' % (C, SM)); N = f['name']
    base = [START >= 0, END - START > 1]
    def go(st):
        log = []
        def core(E, e, o, a):
            s, t = IV(val(a[1])), IV(val(a[2])); m = E.st.new('mid', 'I')
            log.append(('core', s, t, val(a[0]))); E.st.assume(z3.And(m >= s, m <= t) if SM in (0, 2) else z3.And(m > s, m < t)); return m
        def med(E, e, o, a):
            s, t = IV(val(a[1])), IV(val(a[2])); m = E.st.new('med', 'I')
            log.append(('median', s, t, val(a[0]))); E.st.assume(z3.And(m > s, m < t)); return m
        E = Engine(P, st=st, contracts=[(re.compile(r'^SplitDataCore<%d, \d>::run$' % C), core), (re.compile(r'^SplitData<%d, \d>$' % C), med)],
                   invariants={(r'^SplitData', None): inv_loop([], lambda E, fr, i: [], havoc=lambda w: w[0] == 'field' and isinstance(w[1], Rec) and w[1].rec.startswith('Bounds'))})
        v = vdata(E, C)
        r = E.run(f, None, named_args(f, vdata=v, start=START, end=END, meanpos=Rec('Position<%d>' % C, 'mp', True))); ctx.fns |= E.used
        return IV(val(r)), log, v
    for j, (st, (mid, log, v)) in enumerate(explore(go, base)):
        nm = 'path %d' % j; pc = base + st.pc
        ctx.record(nm + ': at least one split', len(log) >= 1, fn=N)
        for k, s, t, w in log:
            ctx.prove(nm + ': %s on the range of the cell' % k, pc, z3.And(s == START, t == END), fn=N)
            ctx.record(nm + ': on the same entries', w is v, fn=N)
        ctx.prove(nm + ': strictly inside', pc, z3.And(mid > START, mid < END), fn=N)
    ctx.sat('reach', base)

# ---------------------------------------------------------------- building the tree
class Log: pass
def data_contracts(L, D, C):
    """constructor of CellData over a range, finishAverages, CalculateSizeSq"""
    def bcd(E, e, o, a):
        v, s, t = val(a[0]), IV(val(a[1])), IV(val(a[2]))
        pos, w = val(a[3]), a[4]
        for k in XYZ(C): FieldLoc(E, pos, '_' + k, 'double').set(E.st.new('cen' + k, 'R'))
        for k in (('_normsq', '_norm') if C != 1 else ('_normsq',)): FieldLoc(E, pos, k, 'double').set(Fn(0))
        w.set(E.st.new('cw', 'R'))
        L.data.append((pos, v, s, t))
    def fin(E, e, o, a):
        o = val(o); L.fin.append((o, val(a[0]), IV(val(a[1])), IV(val(a[2]))))
    def size(E, e, o, a):
        r = E.st.new('sizesq', 'R'); E.st.assume(r >= 0)
        L.size.append((r, val(a[0]), val(a[1]), IV(val(a[2])), IV(val(a[3])))); return r
    def split(E, e, o, a):
        s, t = IV(val(a[1])), IV(val(a[2])); m = E.st.new('mid', 'I')
        L.split.append((s, t, val(a[0]))); E.st.obls.append(('more than one object to split', t - s > 1, list(E.st.pc))) if hasattr(E.st, 'obls') else None
        E.st.assume(z3.And(m > s, m < t)); return m
    return [(re.compile(r'^BuildCellData<%d>$' % C), bcd), (re.compile(r'^CellData<%d, %d>::finishAverages$' % (D, C)), fin),
            (re.compile(r'^CalculateSizeSq<%d>$' % C), size), (re.compile(r'^SplitData<%d, \d>$' % C), split)]
def new_log():
    L = Log(); L.data, L.fin, L.size, L.split, L.rec = [], [], [], [], []; return L
def datapos(E, d, C): return E.call(E.p.find(r'^BaseCellData<%d>::getPos$' % C)[0], d, [])

def summarised(ctx, nm, pc, L, E, d, v, C, D, N, need_fin=True):
    """d was built over [start,end) of v with its averages finished"""
    p = val(d.f.get('_pos'))
    hit = [x for x in L.data if x[0] is p]
    ctx.record(nm + ': the data were computed from the entries', len(hit) == 1 and hit[0][1] is v, fn=N)
    if hit: ctx.prove(nm + ': over the whole range of the cell', pc, z3.And(hit[0][2] == START, hit[0][3] == END), fn=N)
    ctx.prove(nm + ': number of objects', pc, IV(d.f['_n']) == END - START, fn=N)
    if need_fin and D > 0:
        fn = [x for x in L.fin if x[0] is d]
        ctx.record(nm + ': field averages finished', len(fn) == 1 and fn[0][1] is v, fn=N)
        if fn: ctx.prove(nm + ': field averages over the whole range', pc, z3.And(fn[0][2] == START, fn[0][3] == END), fn=N)

def build_cell(ctx, paths, D, C, SM):
    P = prog(paths)
    f = P.one(r'^BuildCell<%d, %d, %d>$' % (D, C, SM)); N = f['name']
    msq, sq0, brute = Rl('minsizesq'), Rl('sizesq0'), z3.Bool('brute')
    base = [START >= 0, START < END, msq >= 0, sq0 >= 0, z3.Real('INF') > 1]
    for given in (False, True):
        def go(st):
            L = new_log()
            def rec(E, e, o, a):
                c = Rec('Cell<%d, %d>' % (D, C), 'sub%d' % len(L.rec), True)
                vals = [val(x) for x in a]
                nn = (lambda x: x is None or isinstance(x, Ptr) and x.to is None)
                L.rec.append((c, vals[0], vals[1], vals[2], IV(vals[3]), IV(vals[4]), nn(a[5].get() if isinstance(a[5], Loc) else a[5]) if len(a) > 5 else True)); return Ptr(c, False)
            E = Engine(P, st=st, contracts=[])
            E.contracts = data_contracts(L, D, C) + [(re.compile(r'^BuildCell<%d, %d, %d>$' % (D, C, SM)), rec)]
            v = vdata(E, C)
            d = Rec('CellData<%d, %d>' % (D, C), 'data', True)
            c = E.run(f, None, named_args(f, vdata=v, minsizesq=msq, brute=brute, start=START, end=END, data=Ptr(d, False) if given else NULL, sizesq=sq0))
            ctx.fns |= E.used
            return E, L, v, d, val(c)
        for j, (st, (E, L, v, d, c)) in enumerate(explore(go, base)):
            nm = 'data %s, path %d' % ('given' if given else 'missing', j); pc = base + st.pc
            pre_obls(ctx, st, base, N)
            if not isinstance(c, Rec): ctx.record(nm + ': returns a cell', False, fn=N); continue
            data = val(c.f['_data']); left = c.f['_left']
            leaf = isinstance(left, Ptr) and left.to is None
            single = not sym_sat(pc + [END - START > 1])
            size = RV(c.f['_size'])
            if single:
                ctx.record(nm + ': one object: a leaf', leaf and not L.rec, fn=N)
                ctx.prove(nm + ': one object: size 0', pc, size == 0, fn=N)
                if given: ctx.record(nm + ': one object: keeps the data', data is d, fn=N)
                else:
                    ctx.record(nm + ': one object: its own data', isinstance(data, Rec) and data.name == 'vdata[start].first', fn=N, note=repr(data))
                    e0 = v.f['a'].cells.get('start')
                    fp = e0.f.get('first') if e0 is not None else None
                    ctx.record(nm + ': one object: the entry gives up ownership', isinstance(fp, Ptr) and fp.to is None, fn=N)
                ii = field_path(E, c, '_info', 'index')
                ctx.record(nm + ': one object: its index', str(ii) == 'vdata[start].second.index', fn=N, note=str(ii))
                continue
            if given: ctx.record(nm + ': keeps the data', data is d, fn=N); ssq = sq0
            else:
                summarised(ctx, nm, pc, L, E, data, v, C, D, N)
                hit = [x for x in L.size if x[1] is val(data.f['_pos'])]
                ctx.record(nm + ': size about the centre of the cell', len(hit) == 1 and hit[0][2] is v, fn=N)
                if len(hit) != 1: continue
                ctx.prove(nm + ': size over all members', pc, z3.And(hit[0][3] == START, hit[0][4] == END), fn=N); ssq = hit[0][0]
            if L.rec:
                ctx.prove(nm + ': divided only if larger than the minimum size', pc, ssq > msq, fn=N)
                ctx.record(nm + ': two children', len(L.rec) == 2 and val(left) is L.rec[0][0] or len(L.rec) == 2 and val(left) is L.rec[1][0], fn=N)
                if len(L.rec) != 2: continue
                rt = val(field_path(E, c, '_right'))
                ctx.record(nm + ': both children are attached', {id(val(left)), id(rt)} == {id(L.rec[0][0]), id(L.rec[1][0])}, fn=N)
                a, b = L.rec
                ctx.prove(nm + ': the children partition the members', pc, z3.Or(z3.And(a[4] == START, a[5] == b[4], b[5] == END, a[4] < a[5], b[4] < b[5]), z3.And(b[4] == START, b[5] == a[4], a[5] == END, a[4] < a[5], b[4] < b[5])), fn=N)
                for k, r in enumerate(L.rec):
                    ctx.record(nm + ': child %d: same entries, own data' % k, r[1] is v and r[6], fn=N)
                    ctx.prove(nm + ': child %d: same minimum size and brute flag' % k, pc, z3.And(RV(r[2]) == msq, BV(r[3]) == brute), fn=N)
                ctx.record(nm + ': split once', len(L.split) == 1 and L.split[0][2] is v, fn=N)
                inf = z3.Real('INF')
                ctx.prove(nm + ': the size of a divided cell is stored as a nonzero number', pc + [inf > 1], size >= FLT_MIN, fn=N)
                ctx.prove(nm + ': size', pc + [inf > 1], z3.And(z3.Implies(z3.Not(brute), z3.And(size >= 0, size * size == ssq)), z3.Implies(brute, size == inf)), fn=N)
            else:
                ctx.record(nm + ': a leaf', leaf, fn=N)
                # sizes below the range of normal single precision numbers cannot be told from 0: such cells are leaves too
                ctx.prove(nm + ': several objects in a leaf only below the minimum size', pc, z3.Or(ssq <= msq, ssq < FLT_MIN * FLT_MIN), fn=N)
                ctx.prove(nm + ': leaf: size 0', pc, size == 0, fn=N)
                lst = val(field_path(E, c, '_listinfo', 'indices'))
                ok = isinstance(lst, Rec) and 'a' in lst.f
                ctx.record(nm + ': leaf: list of indices', ok, fn=N)
                if not ok: continue
                ctx.prove(nm + ': leaf: as many indices as objects', pc, IV(lst.f['n']) == END - START, fn=N)
                k = It('kk')
                # the generic entry is vdata[start+k]
                subs = list_elem(lst, k)
                ctx.record(nm + ': leaf: index k is that of entry start+k', subs is True, fn=N, note=str(subs)) if subs is not None else ctx.undecided(nm + ': leaf: index k is that of entry start+k', 'shape of the loop')
    ctx.sat('reach', base)

FLT_MIN = z3.RealVal(str(Fraction(2) ** -126))
def sym_sat(pc):
    s = z3.Solver(); s.set('timeout', 3000); s.add([x for x in pc if is_z(x)]); return s.check() != z3.unsat

def field_path(E, o, *ms):
    for m in ms:
        o = val(o)
        if m not in o.f:
            for x in o.f.values():
                x = val(x)
                if isinstance(x, Rec) and m in x.f: o = x; break
            else:
                t = (E.p.fields(o.rec) or {}).get(m)
                if not o.lazy or t is None: return None
                o = FieldLoc(E, o, m, t).get(); continue
        o = o.f[m]
    return o

def list_elem(lst, k):
    """the indices are written by one loop over all positions: entry i-start from entry i, for the generic i"""
    w = lst.f['a'].writes
    if len(w) != 1 or w[0][0] != 'map': return None
    _, lo, hi, gen, ps = w[0][:5]
    if len(ps) != 1: return None
    v = ps[0][1]
    m = re.match(r'^vdata\[(.*)\]\.second\.index$', str(v))
    if not m: return False
    el = m.group(1)
    off = w[0][5] if len(w[0]) > 5 else z3.IntVal(0)
    try: e = {str(simp(gen)): gen, str(simp(gen + START)): gen + START, str(simp(START + gen)): gen + START}[el]
    except KeyError: return None
    # iteration gen writes entry gen+off from vdata[e]: e = START + gen + off, and gen runs over all of them
    return not sym_sat([START < END, z3.Not(z3.And(e == START + gen + off, IV(lo) + off == 0, IV(hi) + off == END - START))])

def setup_top(ctx, paths, D, C, SM):
    """SetupTopLevelCells: one entry for the whole range, or the entries of two halves"""
    P = prog(paths)
    f = P.one(r'^SetupTopLevelCells<%d, %d, %d>$' % (D, C, SM)); N = f['name']
    mx, mn, mxt = Rl('maxsizesq'), It('mintop'), It('maxtop')
    base = [START >= 0, START < END, mx >= 0]
    n0 = It('n0')
    def go(st):
        L = new_log()
        def rec(E, e, o, a):
            L.rec.append([val(x) for x in a]); return E.st.new('sub', 'R')
        E = Engine(P, st=st)
        E.contracts = data_contracts(L, D, C) + [(re.compile(r'^SetupTopLevelCells<%d, %d, %d>$' % (D, C, SM)), rec)]
        v = vdata(E, C)
        tops = [E.vec('top_' + k, t, n0) for k, t in (('data', 'BaseCellData<%d> *' % C), ('sizesq', 'double'), ('start', 'unsigned long'), ('end', 'unsigned long'))]
        r = E.run(f, None, named_args(f, celldata=v, maxsizesq=mx, start=START, end=END, mintop=mn, maxtop=mxt, top_data=tops[0], top_sizesq=tops[1], top_start=tops[2], top_end=tops[3]))
        ctx.fns |= E.used
        return E, L, v, tops, r
    for j, (st, (E, L, v, tops, r)) in enumerate(explore(go, base)):
        nm = 'path %d' % j; pc = base + st.pc
        pre_obls(ctx, st, base, N)
        single = not sym_sat(pc + [END - START > 1])
        ns = [IV(t.f['n']) for t in tops]
        if L.rec:
            ctx.prove(nm + ': recursion adds nothing of its own', pc, z3.And(*[n == n0 for n in ns]), fn=N)
            ctx.record(nm + ': two halves', len(L.rec) == 2, fn=N)
            if len(L.rec) != 2: continue
            nmz = [p['name'] for p in f['params']]
            a, b = [dict(zip(nmz, x)) for x in L.rec]
            ctx.prove(nm + ': the halves partition the range', pc, z3.Or(*[z3.And(IV(x['start']) == START, IV(x['end']) == IV(y['start']), IV(y['end']) == END, IV(x['start']) < IV(x['end']), IV(y['start']) < IV(y['end'])) for x, y in ((a, b), (b, a))]), fn=N)
            for x in (a, b):
                ctx.record(nm + ': same vectors', x['celldata'] is v and x['top_data'] is tops[0] and x['top_sizesq'] is tops[1] and x['top_start'] is tops[2] and x['top_end'] is tops[3], fn=N)
                ctx.prove(nm + ': the limits on the number of levels decrease', pc, z3.And(IV(x['mintop']) == mn - 1, IV(x['maxtop']) == mxt - 1, RV(x['maxsizesq']) == mx), fn=N)
            ctx.prove(nm + ': never beyond the maximum number of levels', pc, mxt > 0, fn=N)
            continue
        ctx.prove(nm + ': one entry in each list', pc, z3.And(*[n == n0 + 1 for n in ns]), fn=N)
        d = val(tops[0].f['a'].cells.get(str(simp(n0))))
        ctx.record(nm + ': the entry has data', isinstance(d, Rec), fn=N)
        if not isinstance(d, Rec): continue
        ctx.prove(nm + ': the entry has the range', pc, z3.And(IV(tops[2].f['a'].read(n0)) == START, IV(tops[3].f['a'].read(n0)) == END), fn=N)
        sq = RV(tops[1].f['a'].read(n0))
        if single:
            ctx.record(nm + ': one object: its own data', d.name == 'vdata[start].first', fn=N, note=repr(d))
            e0 = v.f['a'].cells.get('start'); fp = e0.f.get('first') if e0 is not None else None
            ctx.record(nm + ': one object: the entry gives up ownership', isinstance(fp, Ptr) and fp.to is None, fn=N)
            ctx.prove(nm + ': one object: size 0', pc, sq == 0, fn=N); continue
        summarised(ctx, nm, pc, L, E, d, v, C, D, N)
        hit = [x for x in L.size if x[1] is val(d.f['_pos'])]
        ctx.record(nm + ': size about the centre', len(hit) == 1 and hit[0][2] is v, fn=N)
        if len(hit) == 1: ctx.prove(nm + ': size over all members', pc, z3.And(hit[0][3] == START, hit[0][4] == END, sq == hit[0][0]), fn=N)
    ctx.sat('reach', base)

def do_build(ctx, paths, D, C, SM):
    """DoBuildCells: one BuildCell call per top-level entry, with the arguments of that entry"""
    P = prog(paths)
    f = P.one(r'^Field<%d, %d>::DoBuildCells<%d>$' % (D, C, SM)); N = f['name']
    j = It('jj'); nt = It('ntop'); nobj = It('nobj')
    base = [nobj >= 1, nt >= 1]
    def go(st):
        L = new_log()
        def top(E, e, o, a):
            v = [val(x) for x in a]
            L.top = v
            names = [p['name'] for p in E.p.fn[e['f']]['params']] if e.get('f') in E.p.fn else []
            L.topd = dict(zip(names, v))
            for k in ('top_data', 'top_sizesq', 'top_start', 'top_end'):
                FieldLoc(E, L.topd[k], 'n', 'int').set(nt)
                L.topd[k].f['a'].base = None if k == 'top_data' else E.vec(k, {'top_sizesq': 'double'}.get(k, 'unsigned long')).f['a'].base
                L.topd[k].f['a'].name = k
            return Rl('ignored')
        def bld(E, e, o, a):
            names = [p['name'] for p in E.p.fn[e['f']]['params']] if e.get('f') in E.p.fn else []
            c = Rec('Cell<%d, %d>' % (D, C), 'built', True)
            E.st.events.append(('built', dict(zip(names, [val(x) for x in a])), c)); L.calls.append((dict(zip(names, [val(x) for x in a])), c))
            return Ptr(c, False)
        L.calls, L.cell = [], []
        def cut(E, s, fr, cond, inc, body):
            st = E.st
            lv = E.loop_var(cond, inc, fr)
            if not lv: raise Unsupported('loop without counter')
            d, bexpr, op = lv
            lo, hi = fr.vars[d], E.rv(bexpr, fr)
            if op == '<=': hi = arith('+', hi, 1)
            g = z3.Int('gi!%d' % next(st.fresh)); n0 = len(L.calls)
            res = E.subexplore_r(lambda: (E._iter(fr, d, g, body), [(w[1].name, str(simp(w[2])) if is_z(w[2]) else str(w[2]), w[3] if len(w) > 3 else None, w[1].cells.get(w[2]) if w[0] == 'objw' else None) for w in E.st.journal if w[0] in ('objw', 'arr')])[1], [IV(lo) <= g, g < IV(hi)], fr, d)
            L.cell.append((g, lo, hi, res, L.calls[n0:]))
            return None
        E = Engine(P, st=st, invariants={(r'DoBuildCells', None): cut})
        E.contracts = [(re.compile(r'^SetupTopLevelCells<%d, %d, \d>$' % (D, C)), top), (re.compile(r'^BuildCell<%d, %d, \d>$' % (D, C)), bld)]
        this = Rec('Field<%d, %d>' % (D, C), 'this', True)
        this.f['_celldata'] = vdata(E, C, 'celldata'); this.f['_celldata'].f['n'] = nobj
        this.f['_cells'] = E.vec('cells', 'BaseCell<%d> *' % C, It('old_n'))
        E.run(f, this, []); ctx.fns |= E.used
        return E, L, this
    for k, (st, (E, L, this)) in enumerate(explore(go, base)):
        nm = 'path %d' % k; pc = base + st.pc
        t = getattr(L, 'topd', None)
        ctx.record(nm + ': the top level is set up', bool(t), fn=N)
        if not t: continue
        ctx.record(nm + ': from the entries of the field', t['celldata'] is this.f['_celldata'], fn=N)
        ctx.prove(nm + ': over all entries', pc, z3.And(IV(t['start']) == 0, IV(t['end']) == nobj), fn=N)
        mxs = Rl('this._maxsize'); mns = Rl('this._minsize')
        ctx.prove(nm + ': limits', pc, z3.And(RV(t['maxsizesq']) == mxs * mxs, IV(t['mintop']) == It('this._mintop'), IV(t['maxtop']) == It('this._maxtop')), fn=N)
        ctx.prove(nm + ': as many cells as top-level entries', pc, IV(this.f['_cells'].f['n']) == nt, fn=N)
        loops = [x for x in L.cell if x[4]]
        ctx.record(nm + ': one loop builds the cells', len(loops) == 1, fn=N)
        if len(loops) != 1: continue
        g, lo, hi, res, calls = loops[0]
        ctx.prove(nm + ': the loop runs over all top-level entries', pc, z3.And(IV(lo) == 0, IV(hi) == nt), fn=N)
        live = [x for x in calls]
        ctx.record(nm + ': one cell per entry', len(live) >= 1 and all(len([1 for c in live]) == len(res) for _ in (0,)), fn=N, note='%d calls %d paths' % (len(live), len(res)))
        for a, c in live:
            gi = z3.Int(str(g))
            ctx.record(nm + ': entries of the field', a['vdata'] is this.f['_celldata'], fn=N)
            ctx.prove(nm + ': minimum size and brute flag', pc, z3.And(RV(a['minsizesq']) == mns * mns, BV(a['brute']) == z3.Bool('this._brute')), fn=N)
            ctx.prove(nm + ': range of the entry', pc, z3.And(IV(a['start']) == IV(t['top_start'].f['a'].base(gi)), IV(a['end']) == IV(t['top_end'].f['a'].base(gi)), RV(a['sizesq']) == RV(t['top_sizesq'].f['a'].base(gi))), fn=N)
            ctx.record(nm + ': data of the entry', isinstance(a['data'], Rec) and a['data'].name == 'top_data[%s]' % g, fn=N, note=repr(a['data']))
        for pcx, ws in res:
            w = [x for x in ws if x[0] == 'cells']
            ctx.record(nm + ': stored at its own position', len(w) == 1 and w[0][1] == str(g) and val(w[0][3]) in [c for a, c in live], fn=N, note=str(w))
    ctx.sat('reach', base)

def entry_values(E, ent, D, C):
    cd, inf = val(ent.f['first']), val(ent.f['second'])
    pos = val(cd.f['_pos'])
    r = {'pos': [RV(FieldLoc(E, pos, '_' + q, 'double').get()) for q in XYZ(C)], 'w': RV(cd.f['_w']), 'n': IV(cd.f['_n']), 'wpos': RV(inf.f['wpos']), 'index': IV(inf.f['index'])}
    if D == 1: r['wk'] = RV(cd.f['_wk'])
    elif D > 1: r['wg'] = Cx.of(cd.f['_wg'])
    return r

def field_ctor(ctx, paths, D, C):
    """Field(x, y, z, d1, d2, w, wpos, nobj, ...): entry i holds the position, weight and weighted field of object i"""
    P = prog(paths)
    fs = [x for x in P.find(r'^Field<%d, %d>::Field$' % (D, C)) if len(x['params']) > 5]
    f = fs[0]; N = f['name']
    nobj = It('nobj'); base = [nobj >= 1]
    for z in ((False,) if C == 1 else (True,)):
        for wp in (False, True):
            def go(st):
                L = new_log(); L.push = []
                def cut(E, s, fr, cond, inc, body):
                    st = E.st; lv = E.loop_var(cond, inc, fr)
                    if not lv: raise Unsupported('loop without counter')
                    d, bexpr, op = lv; lo, hi = fr.vars[d], E.rv(bexpr, fr)
                    if not is_z(hi) and not is_z(lo): return None      # logging loop
                    if op == '<=': hi = arith('+', hi, 1)
                    g = z3.Int('gi!%d' % next(st.fresh)); cd = fr.this.f['_celldata']
                    n0 = cd.f['n']
                    def it():
                        cd.f['n'] = g - IV(lo)
                        E._iter(fr, d, g, body)
                        ent = cd.f['a'].cells.get(str(simp(g - IV(lo))))
                        out = (entry_values(E, ent, D, C) if isinstance(ent, Rec) else None, cd.f['n'])
                        cd.f['n'] = n0
                        return out
                    res = E.subexplore_r(it, [IV(lo) <= g, g < IV(hi)], fr, d)
                    L.push.append((g, lo, hi, res, n0)); cd.f['n'] = arith('-', hi, lo)
                    return None
                E = Engine(P, st=st, invariants={(r'^Field<.*>::Field$', None): cut})
                E.contracts = data_contracts(L, D, C) + [(re.compile(r'^urand$'), lambda E, e, o, a: E.st.new('u', 'R'))]
                this = Rec('Field<%d, %d>' % (D, C), 'this', True)
                this.f['_celldata'] = vdata(E, C, 'celldata'); this.f['_celldata'].f['n'] = 0
                def dp(n): return ElemPtr(Arr(n, 'double', E), 0)
                E.run(f, this, named_args(f, x=dp('x'), y=dp('y'), z=dp('z') if z else NULL, d1=dp('d1') if D > 0 else NULL, d2=dp('d2') if D > 1 else NULL, w=dp('w'), wpos=dp('wpos') if wp else NULL, nobj=nobj,
                      minsize=Rl('minsize'), maxsize=Rl('maxsize'), sm=It('sm'), seed=It('seed'), brute=z3.Bool('brute'), mintop=It('mintop'), maxtop=It('maxtop')))
                ctx.fns |= E.used
                return E, L, this
            for k, (st, (E, L, this)) in enumerate(explore(go, base)):
                nm = '%s path %d' % ('wpos' if wp else 'w', k); pc = base + st.pc
                lp = L.push
                ctx.record(nm + ': one loop fills the entries', len(lp) == 1, fn=N)
                if len(lp) != 1: continue
                g, lo, hi, res, n0 = lp[0]
                ctx.prove(nm + ': all objects', pc, z3.And(IV(lo) == 0, IV(hi) == nobj, IV(n0) == 0), fn=N)
                F = {n: z3.Function(n, z3.IntSort(), z3.RealSort())(g) for n in ('x', 'y', 'z', 'd1', 'd2', 'w', 'wpos')}
                for pcx, (ent, nn) in res:
                    hyp = pc + pcx + [g >= 0, g < nobj]
                    ctx.prove(nm + ': one entry per object', hyp, IV(nn) == g + 1, fn=N)
                    if ent is None: ctx.record(nm + ': the entry', False, fn=N); continue
                    want = [F['x'], F['y']] + ([F['z']] if C != 1 else [])
                    got = ent['pos']
                    if C == 3:
                        # spherical coordinates arrive as unit vectors; the constructor may scale them to unit length
                        ctx.prove(nm + ': position', hyp + [sum([q * q for q in want], z3.RealVal(0)) == 1], z3.And(*[a == b for a, b in zip(got, want)]), fn=N)
                    else: ctx.prove(nm + ': position', hyp, z3.And(*[a == b for a, b in zip(got, want)]), fn=N)
                    ctx.prove(nm + ': weight', hyp, ent['w'] == F['w'], fn=N)
                    ctx.prove(nm + ': one object', hyp, ent['n'] == 1, fn=N)
                    if D == 1: ctx.prove(nm + ': weighted value', hyp, ent['wk'] == F['w'] * F['d1'], fn=N)
                    elif D > 1:
                        zz = ent['wg']; ctx.prove(nm + ': weighted field', hyp, z3.And(RV(zz.re) == F['w'] * F['d1'], RV(zz.im) == F['w'] * F['d2']), fn=N)
                    ctx.prove(nm + ': weight of the position', hyp, ent['wpos'] == (F['wpos'] if wp else F['w']), fn=N)
                    ctx.prove(nm + ': index', hyp, ent['index'] == g, fn=N)
    ctx.sat('reach', base)

# ---------------------------------------------------------------- functions over the subtree
def walks(ctx, paths, D, C):
    """getAllLeaves, getAllIndices, countLeaves, getLeafNumber: own value in a leaf, both children in order otherwise"""
    P = prog(paths)
    def setup(st):
        E = Engine(P, st=st)
        c = Rec('Cell<%d, %d>' % (D, C), 'cell', True)
        return E, c
    def child(E, c, o):
        o = val(o)
        for k in ('_left', '_right'):
            v = c.f.get(k)
            if isinstance(v, Ptr) and v.to is o: return k
        return None
    is_leaf = z3.Bool('cell._left.null')
    for name, leafdef in (('countLeaves', 'one'), ('getAllLeaves', 'self'), ('getAllIndices', 'index')):
        f = P.one(r'^BaseCell<%d>::%s$' % (C, name)); N = f['name']
        def go(st):
            E, c = setup(st); log = []
            def rec(E, e, o, a):
                k = child(E, c, o)
                if name == 'countLeaves':
                    log.append(k); return It('cnt' + str(k))
                v = E.vec('sub' + str(k), 'long' if name == 'getAllIndices' else 'const BaseCell<%d> *' % C, It('n' + str(k))); log.append(k); return v
            def ins(E, e, o, a):
                v = val(o); its = [val(x) for x in a]
                segs = v.f.setdefault('segs', [])
                src = its[1].f['v']
                segs.append((src.f['a'].name, its[1].f['i'], its[2].f['i'], its[0].f['i'], v.f['n'], its[0].f['v'] is v))
                FieldLoc(E, v, 'n', 'int').set(arith('+', v.f['n'], arith('-', its[2].f['i'], its[1].f['i'])))
            E.contracts = [(re.compile(r'^BaseCell<%d>::%s$' % (C, name)), rec), (re.compile(r'^std::vector<.*>::insert'), ins)]
            r = val(E.run(f, c, [])); ctx.fns |= E.used
            return E, c, r, log
        seen = set()
        for j, (st, (E, c, r, log)) in enumerate(explore(go, [])):
            nm = '%s path %d' % (name, j); pc = st.pc
            leaf = not sym_sat(pc + [z3.Not(is_leaf)]); inner = not sym_sat(pc + [is_leaf])
            if leaf == inner: ctx.undecided(nm, 'leaf test not recognised'); continue
            seen.add(leaf)
            if name == 'countLeaves':
                ctx.prove(nm + (': one leaf' if leaf else ': leaves of both children'), pc, IV(r) == (1 if leaf else It('cnt_left') + It('cnt_right')), fn=N); continue
            segs = r.f.get('segs', [])
            if not leaf:
                ctx.record(nm + ': both children once', sorted(log) == ['_left', '_right'], fn=N, note=str(log))
                ok = len(segs) == 2 and sorted(s[0] for s in segs) == ['sub_left', 'sub_right']
                ctx.record(nm + ': the lists of both children', ok, fn=N, note=str(segs))
                for s in segs:
                    sz = It('n' + s[0][3:])
                    ctx.prove(nm + ': all of the list of %s, appended' % s[0][4:], pc + [sz >= 0], z3.And(IV(s[1]) == 0, IV(s[2]) == sz, IV(s[3]) == IV(s[4])), fn=N)
                continue
            n1 = val(c.f['_data']) if '_data' in c.f else None
            if name == 'getAllLeaves' or not segs:
                ctx.prove(nm + ': one entry', pc, IV(r.f['n']) == 1, fn=N)
                v = r.f['a'].read(0) if name != 'getAllLeaves' else (r.f['a'].writes or [(None,) * 4])[-1]
                if name == 'getAllIndices':
                    ctx.prove(nm + ': only for a single object', pc, IV(cell_n(E, c)) == 1, fn=N)
                    i = field_path(E, c, '_info', 'index')
                    ctx.prove(nm + ': its own index', pc, IV(v) == IV(i), fn=N)
                else:
                    w = r.f['a'].cells.get('0')
                    ctx.record(nm + ': itself', val(w) is c, fn=N, note=repr(w))
            else:
                ctx.prove(nm + ': the list of a leaf with several objects', pc, IV(cell_n(E, c)) != 1, fn=N)
                ind = val(field_path(E, c, '_listinfo', 'indices'))
                s = segs[0]
                ctx.record(nm + ': the whole list of the leaf', len(segs) == 1 and isinstance(ind, Rec) and s[0] == ind.f['a'].name, fn=N, note=str(segs))
                if isinstance(ind, Rec): ctx.prove(nm + ': from the first to the last', pc, z3.And(IV(s[1]) == 0, IV(s[2]) == IV(ind.f['n'])), fn=N)
        ctx.record(name + ': leaf and inner cell', seen == {True, False}, fn=N)

def cell_n(E, c): return E.call(E.p.find(r'^BaseCell<\d>::getN$')[0] if False else next(x for x in E.p.find(r'^BaseCell<\d>::getN$') if x['name'].startswith('BaseCell<%s>' % re.search(r'(\d)>$', c.rec).group(1))), c, [])

def sums(ctx, paths, name, D, C):
    """calculateSum...: f(own sum) for a cell treated as one point (size 0 or one object), sum over the children otherwise"""
    P = prog(paths)
    cls = 'BaseCell<%d>' % C if name == 'calculateSumWSq' else 'Cell<%d, %d>' % (D, C)
    f = next(x for x in P.find(r'^%s::%s$' % (re.escape(cls), name))); N = f['name']
    cx = name == 'calculateSumWGSq'
    def go(st):
        E = Engine(P, st=st); c = Rec('Cell<%d, %d>' % (D, C), 'cell', True); log = []
        def rec(E, e, o, a):
            o = val(o); k = next((k for k in ('_left', '_right') if isinstance(c.f.get(k), Ptr) and c.f[k].to is o), None); log.append(k)
            return Cx(Rl('S%s.re' % k), Rl('S%s.im' % k)) if cx else Rl('S%s' % k)
        E.contracts = [(re.compile(r'^(Base)?Cell<.*>::%s$' % name), rec)]
        r = E.run(f, c, []); r = r.get() if isinstance(r, Loc) else r
        n = IV(cell_n(E, c)); s = RV(FieldLoc(E, c, '_size', 'float').get())
        d = val(field_path(E, c, '_data'))
        if 'WSq' in name and 'WG' not in name: w = RV(FieldLoc(E, d, '_w', 'float').get()); own = w * w
        elif 'WKSq' in name: w = RV(FieldLoc(E, d, '_wk', 'float').get()); own = w * w
        else:
            g = Cx.of(FieldLoc(E, d, '_wg', 'std::complex<float>').get()); a, b = RV(g.re), RV(g.im)
            own = Cx(a * a - b * b, 2 * a * b) if cx else a * a + b * b
        ctx.fns |= E.used
        return r, own, n, s, log
    for j, (st, (r, own, n, s, log)) in enumerate(explore(go, [])):
        nm = '%s path %d' % (name, j); pc = st.pc
        pt = z3.Or(s == 0, n == 1)
        def eq(a, b):
            if not cx: return RV(a) == b
            a, b = Cx.of(a), Cx.of(b); return z3.And(RV(a.re) == RV(b.re), RV(a.im) == RV(b.im))
        both = Cx(Rl('S_left.re') + Rl('S_right.re'), Rl('S_left.im') + Rl('S_right.im')) if cx else Rl('S_left') + Rl('S_right')
        ctx.prove(nm + ': square of its own sum for a point', pc + [pt], eq(r, own), fn=N)
        ctx.prove(nm + ': both children otherwise', pc + [z3.Not(pt)], eq(r, both), fn=N)

def build_cells(ctx, paths, D, C):
    """BuildCells: dispatch on the split method; nothing to do when the entries have been consumed"""
    P = prog(paths)
    f = P.one(r'^Field<%d, %d>::BuildCells$' % (D, C)); N = f['name']
    def go(st):
        calls = []
        E = Engine(P, st=st)
        E.contracts = [(re.compile(r'^Field<%d, %d>::DoBuildCells<\d>$' % (D, C)), lambda E, e, o, a: calls.append(int(re.search(r'<(\d)>$', e['name'] if e['name'].endswith('>') else E.p.fn[e['f']]['name']).group(1))))]
        this = Rec('Field<%d, %d>' % (D, C), 'this', True)
        this.f['_celldata'] = vdata(E, C, 'celldata'); this.f['_celldata'].f['n'] = It('n')
        this.f['_sm'] = It('sm')
        E.run(f, this, []); ctx.fns |= E.used
        return calls
    n, sm = It('n'), It('sm'); base = [n >= 0, sm >= 0, sm <= 3]
    for j, (st, calls) in enumerate(explore(go, base)):
        nm = 'path %d' % j; pc = base + st.pc
        if not calls: ctx.prove(nm + ': nothing only without entries', pc, n == 0, fn=N)
        else:
            ctx.record(nm + ': built once', len(calls) == 1, fn=N)
            ctx.prove(nm + ': with the requested split method', pc, z3.And(n != 0, sm == calls[0]), fn=N)
    ctx.sat('reach', base + [n > 0])
