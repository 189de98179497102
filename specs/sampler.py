"""P10: pair sampling (Corr2.cpp: Sampler, SelectRandomFrom; corr2base.py: sample_pairs).

SelectRandomFrom(m, sel) fills sel with distinct numbers of [0, m).  Sampler::finishProcess keeps the invariant
    the first min(k, n) places hold distinct pairs of the k pairs seen so far, with the separation of their cells,
in its three cases; case 3 through the contract of SelectRandomFrom, the map of places and its ordered traversal."""
import re, z3
from engine.cxx.interp import *
from engine.sym import *
from specs.tree2 import prog, named_args, Rl, It
from specs.cells import val

class Log:
    def __init__(self): self.ob, self.ev, self.mute, self.mods, self.asm = [], [], 0, {}, False
    def add(self, E, nm, f):
        if not self.mute: self.ob.append((nm, list(E.st.assume_list) + list(E.st.pc), f))
    def note(self, *a):
        if not self.mute: self.ev.append(a)

def q(n, f):
    xs = [z3.Int('q!%d' % k) for k in range(n)]; return z3.ForAll(xs, f(*xs))

def modified(E, fr, cond, inc, body, L):
    """variables of the frame, fields and arrays written by one pass"""
    key = (id(body), id(inc))
    if key in L.mods: return L.mods[key]
    L.mute += 1
    before = dict(fr.vars); how = []
    def one():
        if cond is not None: E.st.assume(E.tobool(E.rv(cond, fr)))
        r = E.ex(body, fr)
        if r and r[0] == 'break': how.append(1)
        elif inc is not None: E.effect(inc, fr)
    try: res = E.subexplore(one, [], fr, None)
    finally: L.mute -= 1
    vs, fs, arrs = set(), {}, {}
    for pc, ws, rd, ev in res:
        for w in ws:
            if w[0] == 'var' and w[2] in before: vs.add(w[2])
            elif w[0] == 'field': fs[id(w[1]), w[2]] = (w[1], w[2])
            elif w[0] in ('arr', 'map'): arrs[id(w[1])] = w[1]
            elif w[0] == 'objw': raise Unsupported('loop writes array of objects')
    L.mods[key] = vs, fs, arrs, bool(how)
    return L.mods[key]

def fresh_like(E, v):
    st = E.st
    if isinstance(v, Rec) and v.rec == 'mapiter': return Rec('mapiter', None, m=v.f['m'], key=st.new('hk', 'I'), end=st.new('he', 'B'))
    if isinstance(v, z3.ArrayRef): return z3.Const('ha!%d' % next(st.fresh), v.sort())
    if isinstance(v, bool) or is_z(v) and z3.is_bool(v): return st.new('hb', 'B')
    if is_z(v) or isinstance(v, (int, Fraction)): return st.new('hv', 'R' if isreal(v) else 'I')
    raise Unsupported('loop modifies %r' % (v,))

def set_var(E, fr, d, v):
    E.st.journal.append(('var', fr, d, fr.vars.get(d, UNDEF))); fr.vars[d] = v

def assuming(L, inv):
    L.asm = True
    try: return inv()
    finally: L.asm = False

def cut(E, s, fr, cond, inc, body, L, nm, inv, brk=None, step=None, lvl=None):
    """Hoare rule for one loop: inv() -> [(name, formula)] over the current state; brk() likewise for leaving by break"""
    st = E.st
    if not L.mute:
        for n, f in inv(): L.add(E, '%s: %s at the start' % (nm, n), f)
    vs, fs, arrs, breaks = modified(E, fr, cond, inc, body, L)
    def havoc():
        for d in sorted(vs): set_var(E, fr, d, fresh_like(E, fr.vars[d]))
        for o, m in fs.values(): FieldLoc(E, o, m, '').set(fresh_like(E, o.f[m]))
        for a in arrs.values():
            if a.et not in INTS and not getattr(a, 'hav', False) or getattr(a, 'out', False): continue        # outputs are never read
            F = z3.Function('hav!%d' % next(E.st.fresh), z3.IntSort(), z3.IntSort() if a.et in INTS else z3.RealSort()); g = z3.Int('gi!%d' % next(E.st.fresh))
            w = ('map', None, None, g, [(z3.BoolVal(True), F(g))])
            a.writes.append(w); E.st.journal.append(('hav', a))
    def it():
        havoc()
        for n, f in assuming(L, inv): E.st.assume(f)
        if cond is not None: E.st.assume(E.tobool(E.rv(cond, fr)))
        if step: step('pre', None)
        r = E.ex(body, fr)
        if step: step('post', r[0] if r else None)
        if r and r[0] == 'break':
            for n, f in (brk or inv)(): L.add(E, '%s: %s at the break' % (nm, n), f)
            return 'break'
        if r and r[0] == 'return': raise Unsupported('return from a loop')
        if inc is not None: E.effect(inc, fr)
        if step: step('inc', None)
        for n, f in inv(): L.add(E, '%s: %s after a pass' % (nm, n), f)
        return 'next'
    if L.mute:
        havoc(); return
    res = E.subexplore_r(it, [], fr, None)
    havoc()
    if any(r == 'break' for pc, r in res) and st.branch(z3.Bool('brk!%d' % next(st.fresh))):
        for n, f in assuming(L, brk or inv): st.assume(f)
    else:
        for n, f in assuming(L, inv): st.assume(f)
        if cond is not None: st.assume(lnot(E.tobool(E.rv(cond, fr))))

def flush(ctx, L, base, N):
    for nm, pc, f in L.ob: ctx.prove(nm, base + pc, f, fn=N)
    L.ob = []

# ---------------------------------------------------------------- SelectRandomFrom
def select(ctx, paths):
    P = prog(paths); f = P.one(r'^SelectRandomFrom$'); N = f['name']
    m, n = It('m'), It('n'); base = [n >= 1, m >= n]
    pm, ps = [p['name'] for p in f['params']]
    def go(st):
        L = Log(); E = Engine(P, st=st); sel = E.vec('selection', 'long', n); cnt = [0]
        def ur(E, e, o, a): r = E.st.new('urd', 'R'); E.st.assume(z3.And(r >= 0, r <= 1)); return r
        def distinct(a, lo, hi): return q(2, lambda x, y: z3.Implies(z3.And(lo <= x, x < y, y < hi), IV(a.read(x)) != IV(a.read(y))))
        def ranged(a, lo, hi): return q(1, lambda x: z3.Implies(z3.And(lo <= x, x < hi), z3.And(IV(a.read(x)) >= 0, IV(a.read(x)) < m)))
        def loop(E, s, fr, cond, inc, body):
            cnt[0] += 1
            sets = [v for v in fr.vars.values() if isinstance(v, Rec) and v.rec == 'std::set']
            vecs = [v for v in fr.vars.values() if isinstance(v, Rec) and v.rec == 'std::vector' and v is not sel]
            a = sel.f['a']
            if sets:
                S = sets[0]
                def inv():
                    c, mem = IV(S.f['n']), S.f['mem']
                    return [('the count', z3.And(0 <= c, c <= n)), ('the chosen ones are in range', ranged(a, 0, c)), ('all different', distinct(a, 0, c)),
                            ('the set knows them', q(1, lambda x: z3.Implies(z3.And(0 <= x, x < c), z3.Select(mem, IV(a.read(x))))))]
                return cut(E, s, fr, cond, inc, body, L, 'loop %d' % cnt[0], inv)
            if not vecs: raise Unsupported('SelectRandomFrom: unknown loop')
            V = vecs[0].f['a']
            if not V.writes: return E.summarise(s, fr, cond, inc, body)
            lv = E.loop_var(cond, inc, fr)
            def inv(): i = IV(fr.vars[lv[0]]); return [('the counter', z3.And(0 <= i, i <= n)), ('a permutation: in range', ranged(V, 0, m)), ('a permutation: all different', distinct(V, 0, m))]
            return cut(E, s, fr, cond, inc, body, L, 'loop %d' % cnt[0], inv)
        E.contracts = [(re.compile('^urand$'), ur)]; E.inv = {(r'^SelectRandomFrom$', None): loop}
        E.run(f, None, named_args(f, **{pm: m, ps: sel}))
        ctx.fns |= E.used
        a = sel.f['a']
        L.add(E, 'the selection is in range', ranged(a, 0, n)); L.add(E, 'the selection has no repeats', distinct(a, 0, n)); L.add(E, 'the size is kept', IV(sel.f['n']) == n)
        return L
    for j, (st, L) in enumerate(explore(go, base)):
        L.ob = [('path %d: %s' % (j, a), b, c) for a, b, c in L.ob]
        flush(ctx, L, base, N)
    ctx.sat('reach', base)

# ---------------------------------------------------------------- Sampler::finishProcess
def counter(cond, fr):
    """(declaration of the loop variable, bound expression) of `x < bound`"""
    if cond is None or cond.get('k') != 'BinaryOperator' or cond['op'] not in ('<', '!='): return None
    l = cond['c'][0]
    while l['k'] == 'Cast': l = l['c'][0]
    return (l['d'], cond['c'][1]) if l['k'] == 'DeclRefExpr' and l['d'] in fr.vars else None

def finish(ctx, paths, Rv, C):
    from specs.cells import field_path, cell_n
    P = prog(paths); f = P.one(r'^Sampler::finishProcess<%d, %d>$' % (Rv, C)); N = f['name']
    n, k0, n1, n2, total = It('n'), It('k0'), It('n1'), It('n2'), z3.Int('k0') + z3.Int('n1') * z3.Int('n2')
    rsq, r = Rl('rsq'), Rl('r')
    base = [n >= 1, k0 >= 0, n1 >= 1, n2 >= 1, rsq >= 0, r >= 0, z3.Or(r == 0, r * r == rsq), n1 * n2 >= 1, n1 * n2 >= n2]
    def go(st):
        L = Log(); E = Engine(P, st=st); L.info = []
        this = Rec('Sampler', 'this', True); outs = [Arr('i1', 'long', E), Arr('i2', 'long', E), Arr('sep', 'double', E)]
        for o in outs: o.out = True
        this.f.update(_i1=ElemPtr(outs[0], 0), _i2=ElemPtr(outs[1], 0), _sep=ElemPtr(outs[2], 0), _n=n, _k=k0)
        c1, c2 = Rec('BaseCell<%d>' % C, 'c1', True), Rec('BaseCell<%d>' % C, 'c2', True)
        leafs = {id(c): E.vec('leaf%d' % (k + 1), 'const BaseCell<%d> *' % C, It('nleaf%d' % (k + 1))) for k, c in enumerate((c1, c2))}
        lv = list(leafs.values())
        def getn(E, e, o, a):
            o = val(o)
            return n1 if o is c1 else n2 if o is c2 else It('N!' + o.name)
        def ur(E, e, o, a): u = E.st.new('urd', 'R'); E.st.assume(z3.And(u >= 0, u <= 1)); return u
        def selrand(E, e, o, a):
            v = val(a[1]); L.sel = v
            L.add(E, 'drawn from all pairs so far and the new ones', IV(val(a[0])) == total); L.add(E, 'as many as wanted', IV(v.f['n']) == n); L.add(E, 'not more than there are', total >= n)
            F = z3.Function('sel!%d' % next(E.st.fresh), z3.IntSort(), z3.IntSort()); g = z3.Int('gi!%d' % next(E.st.fresh))
            v.f['a'].writes.append(('map', None, None, g, [(z3.BoolVal(True), F(g))])); E.st.journal.append(('hav', v.f['a']))
            for nm, fm in selinv(v.f['a']): E.st.assume(fm)
        def selinv(a):
            rd = lambda x: IV(a.read(x))
            return [('distinct', q(2, lambda x, y: z3.Implies(z3.And(0 <= x, x < y, y < n), rd(x) != rd(y)))), ('in range', q(1, lambda x: z3.Implies(z3.And(0 <= x, x < n), z3.And(rd(x) >= 0, rd(x) < total))))]
        E.contracts = [(re.compile(r'^BaseCell<\d>::getN$'), getn), (re.compile(r'^BaseCell<\d>::getAllLeaves$'), lambda E, e, o, a: leafs[id(val(o))]), (re.compile('^urand$'), ur), (re.compile('^SelectRandomFrom$'), selrand)]
        stack, cnt = [], [0]
        def writes(): return [list(o.writes) for o in outs]
        def find(fr, kind): return [v for v in fr.vars.values() if isinstance(v, Rec) and v.rec == kind]
        def index(k, p, qq):
            cell = val(lv[k].f['a'].read(p)); one = It('N!' + cell.name) == 1
            lst = val(field_path(E, cell, '_listinfo', 'indices'))
            return z3.If(one, IV(field_path(E, cell, '_info', 'index')), IV(lst.f['a'].read(qq)))
        def pair_ob(E, nm, place, cond, w0, w1):
            """one pass: (cond) exactly one write of the pair of this pass at `place`, otherwise none"""
            new = [b[len(a):] for a, b in zip(w0, w1)]
            if all(len(x) == 0 for x in new): L.add(E, nm + ': a pair is skipped only when it should be', z3.Not(cond) if is_z(cond) else z3.BoolVal(not cond)); return
            if not all(len(x) == 1 and x[0][0] == 'at' for x in new): L.add(E, nm + ': one entry of each list', z3.BoolVal(False)); return
            p1, q1, p2, q2 = [E.top.vars[x[0]] for x in stack]
            L.add(E, nm + ': stored only when it should be', BV(cond) if is_z(cond) else z3.BoolVal(bool(cond)))
            for x in new: L.add(E, nm + ': the place', IV(x[0][1]) == place)
            L.add(E, nm + ': inside the lists', z3.And(IV(new[0][0][1]) >= 0, IV(new[0][0][1]) < n))
            L.add(E, nm + ': first object', IV(new[0][0][2]) == index(0, p1, q1)); L.add(E, nm + ': second object', IV(new[1][0][2]) == index(1, p2, q2))
            L.add(E, nm + ': separation', z3.And(RV(new[2][0][2]) >= 0, RV(new[2][0][2]) * RV(new[2][0][2]) == rsq))
        def nest(E, s, fr, cond, inc, body, inv, brk, inner, mid=None):
            """one of the four nested loops over the pairs"""
            depth = len(stack); cv = counter(cond, fr); nm = 'level %d' % depth
            if not cv or depth > 3: raise Unsupported('nest of loops over the pairs')
            d, bx = cv; E.top = fr
            L.add(E, nm + ': starts with the first', IV(fr.vars[d]) == 0)
            stack.append((d, None)); mem = {}
            def step(stage, how):
                if stage == 'pre':
                    hi = E.rv(bx, fr); x = IV(fr.vars[d]); E.st.assume(x >= 0)
                    if depth % 2 == 0: L.add(E, nm + ': all leaves', IV(hi) == IV(lv[depth // 2].f['n']))
                    else: L.add(E, nm + ': all objects of the leaf', IV(hi) == It('N!' + val(lv[depth // 2].f['a'].read(fr.vars[stack[depth - 1][0]])).name))
                    mem.update(x=x, w=writes(), k=IV(this.f['_k']), i=cur(fr), it=(find(fr, 'mapiter') or [None])[0], cnt=cnt[0])
                elif stage == 'post':
                    if depth == 3: inner(E, mem, how, fr)
                    else:
                        L.add(E, nm + ': nothing stored outside of the innermost loop', z3.BoolVal([len(a) for a in mem['w']] == [len(a) for a in writes()]))
                        if mid and how == 'continue': mid(E, nm, mem, fr, depth, cnt[0] == mem['cnt'])
                        else: L.add(E, nm + ': one loop inside', z3.BoolVal(cnt[0] - mem['cnt'] >= 1))
                elif stage == 'inc': L.add(E, nm + ': one after the other', IV(fr.vars[d]) == mem['x'] + 1)
            try: cut(E, s, fr, cond, inc, body, L, nm, inv, brk, step)
            finally: stack.pop()
            cnt[0] += 1
        ivar = []
        def cur(fr): return IV(fr.vars[ivar[0]]) if ivar else None
        def loop(E, s, fr, cond, inc, body):
            its, maps = find(fr, 'mapiter'), find(fr, 'std::map')
            if its:
                it = lambda: find(fr, 'mapiter')[0]
                if not ivar:
                    c = [d for d, v in fr.vars.items() if (is_z(v) and z3.is_int(v) and v.eq(k0))]
                    vs, fs, arrs, breaks = modified(E, fr, None, inc, body, L)
                    c = [d for d in c if d in vs]
                    if len(c) != 1: raise Unsupported('rank of the pair %s %s %s' % (c, vs, [(d, str(v)[:20]) for d, v in fr.vars.items()]))
                    ivar.append(c[0])
                M = maps[0]; dom, vl = M.f['dom'], M.f['val']
                def inv():
                    i = cur(fr); t = it(); key, end = IV(t.f['key']), BV(t.f['end'])
                    return [('there is a next one', z3.Not(end)), ('it is not behind', z3.And(i >= k0, i <= key)), ('it is one of the chosen', z3.Select(dom, key)),
                            ('it is the first of those left', q(1, lambda x: z3.Implies(z3.And(z3.Select(dom, x), x >= i), x >= key)))]
                def inner(E, m, how, fr):
                    key = IV(m['it'].f['key'])
                    pair_ob(E, 'pass', z3.Select(vl, key), m['i'] == key, m['w'], writes())
                    if how != 'break': m['i0'] = m['i']
                def mid(E, nm, m, fr, depth, noloop):
                    L.add(E, nm + ': a row is skipped as a whole', z3.And(z3.BoolVal(depth == 1 and noloop), cur(fr) == m['i'] + n2))
                def brk(): t = it(); return [('all chosen are stored', BV(t.f['end']))]
                return nest(E, s, fr, cond, inc, body, inv, brk, inner, mid)
            if maps:
                M, a, cv = maps[0], L.sel.f['a'], counter(cond, fr)
                if not cv: raise Unsupported('loop over the selection')
                L.add(E, 'places: starts with the first', IV(fr.vars[cv[0]]) == 0); L.add(E, 'places: all of the selection', IV(E.rv(cv[1], fr)) == n)
                rd = lambda x: IV(a.read(x))
                def inv():
                    i = IV(fr.vars[cv[0]]); dom, vl = M.f['dom'], M.f['val']
                    return [('counter', z3.And(i >= 0, i <= n)), ('every new pair chosen has its place', q(1, lambda x: z3.Implies(z3.And(0 <= x, x < i, rd(x) >= k0), z3.And(z3.Select(dom, rd(x)), z3.Select(vl, rd(x)) == x)))),
                            ('only those', q(1, lambda x: z3.Implies(z3.Select(dom, x), z3.And(x >= k0, z3.Select(vl, x) >= 0, z3.Select(vl, x) < i, rd(z3.Select(vl, x)) == x)))),
                            ('the number of places', z3.And(IV(M.f['n']) >= 0, (IV(M.f['n']) == 0) == q(1, lambda x: z3.Not(z3.Select(dom, x)))))]
                return cut(E, s, fr, cond, inc, body, L, 'places', inv)
            if hasattr(L, 'sel'):
                a = L.sel.f['a']; rd = lambda x: IV(a.read(x)); cv = counter(cond, fr)
                if inc is not None and cv:
                    d = cv[0]; L.outer = d
                    L.add(E, 'own places: starts with the first free place', IV(fr.vars[d]) == k0); L.add(E, 'own places: up to the last', IV(E.rv(cv[1], fr)) == n)
                    def inv(): i = IV(fr.vars[d]); return [('counter', z3.And(i >= k0, z3.Implies(k0 <= n, i <= n)))] + selinv(a) + [('free places get new pairs', q(1, lambda x: z3.Implies(z3.And(k0 <= x, x < i, x < n), rd(x) >= k0)))]
                    return cut(E, s, fr, cond, inc, body, L, 'own places', inv)
                i = IV(fr.vars[L.outer])
                def inv(): return [('counter', z3.And(i >= k0, i < n))] + selinv(a) + [('free places get new pairs', q(1, lambda x: z3.Implies(z3.And(k0 <= x, x < i), rd(x) >= k0)))]
                return cut(E, s, fr, cond, inc, body, L, 'own places: this one', inv)
            # cases 1 and 2: every pair in turn
            def inv(): return [('seen so far', IV(this.f['_k']) >= k0)]
            def inner(E, m, how, fr):
                w = writes(); new = [b[len(a):] for a, b in zip(m['w'], w)]
                k = m['k']; room = k < n
                fits = k0 + n1 * n2 <= n
                place = IV(new[0][0][1]) if new[0] and new[0][0][0] == 'at' else k
                E.st.assume(k < total)          # the ranks of the pairs of these two cells (P08: the leaves list every object once)
                L.add(E, 'pass: a new pair goes to the next free place', z3.Implies(room, z3.And(place == k, z3.BoolVal(bool(new[0])))))
                if any(new): pair_ob(E, 'pass', place, True, m['w'], w)
                L.add(E, 'pass: one more pair seen', IV(this.f['_k']) == k + 1)
            return nest(E, s, fr, cond, inc, body, inv, None, inner)
        E.inv = {(r'finishProcess', None): loop}
        E.run(f, this, named_args(f, c1=c1, c2=c2, rsq=rsq, r=r, logr=Rl('logr'), kk=It('kk'), kk2=It('kk2')))
        ctx.fns |= E.used
        L.nests = cnt[0]
        case3 = hasattr(L, 'sel')
        if case3:
            a = L.sel.f['a']
            L.add(E, 'counts all the new pairs', IV(this.f['_k']) == total)
            if cnt[0] == 0: L.add(E, 'nothing to store: the lists are full already', k0 >= n)
        return L, case3, cnt[0]
    kinds = set()
    for j, (st, (L, case3, nn)) in enumerate(explore(go, base)):
        kinds.add((case3, nn > 0))
        ctx.record('path %d: the pairs are visited' % j, nn > 0 or case3, fn=N)
        L.ob = [('path %d: %s' % (j, a), b, c) for a, b, c in L.ob]
        flush(ctx, L, base, N)
    ctx.record('cases', (False, True) in kinds, fn=N, note=str(kinds))

def ctor(ctx, paths, B):
    """Sampler(corr, minsep, maxsep, ...): the derived separations belong to the new range, which is a whole number of bins"""
    P = prog(paths); f = next(x for x in P.find(r'^Sampler::Sampler$') if len(x['params']) > 2); N = f['name']
    lo, hi, bs, n = Rl('lo'), Rl('hi'), Rl('binsize'), It('n')
    base = [lo > 0, hi > lo, bs > 0, n >= 1] + ([UF['log'](hi) > UF['log'](lo)] if B == 0 else [])
    def go(st):
        E = Engine(P, st=st)
        b = Rec('BaseCorr2', 'corr', True); b.f.update(_bin_type=B, _binsize=bs)
        this = Rec('Sampler', 'this', True); outs = [Arr('i1', 'long', E), Arr('i2', 'long', E), Arr('sep', 'double', E)]
        E.contracts = [(re.compile(r'::getBinType$'), lambda E, e, o, a: B)]
        ps = [p['name'] for p in f['params']]
        E.run(f, this, named_args(f, **dict(zip(ps, [b, lo, hi] + [ElemPtr(o, 0) for o in outs] + [n]))))
        ctx.fns |= E.used
        g = lambda m: RV(FieldLoc(E, this, m, (P.fields('BaseCorr2') or {}).get(m)).get())
        return E, this, outs, g, b
    for j, (st, (E, this, outs, g, b)) in enumerate(explore(go, base)):
        nm = 'path %d' % j; pc = base + st.pc
        full = {0: hi, 1: hi, 2: z3.RealVal(0)}[B]
        for m, w in (('_minsep', lo), ('_maxsep', hi), ('_logminsep', UF['log'](lo)), ('_halfminsep', lo / 2), ('_minsepsq', lo * lo), ('_maxsepsq', hi * hi)):
            ctx.prove('%s: %s' % (nm, m), pc, g(m) == w, fn=N)
        if B == 2: ctx.prove(nm + ': corner of the square', pc, z3.And(g('_fullmaxsep') * g('_fullmaxsep') >= 2 * hi * hi * z3.RealVal('0.999999999'), g('_fullmaxsep') >= 0), fn=N)
        else: ctx.prove(nm + ': _fullmaxsep', pc, g('_fullmaxsep') == hi, fn=N)
        ctx.prove(nm + ': _fullmaxsepsq', pc, g('_fullmaxsepsq') == g('_fullmaxsep') * g('_fullmaxsep'), fn=N)
        rng = {0: UF['log'](hi) - UF['log'](lo), 1: hi - lo, 2: 2 * hi}[B]
        r, q = Rl('rangevalue'), g('_binsize'); mono = [UF['log'](hi) > UF['log'](lo)] if B == 0 else []
        c = -z3.ToInt(-(rng / bs)); cr = Rl('nb')
        ctx.prove(nm + ': the range is a whole number of bins', pc + mono, z3.And(c >= 1, q == rng / z3.ToReal(c)), fn=N)
        ctx.prove(nm + ': bins no larger than those of the correlation', pc + mono, q <= bs, fn=N)
        for m, o in zip(('_i1', '_i2', '_sep'), outs):
            p = this.f.get(m); ctx.record('%s: output %s' % (nm, m), isinstance(p, ElemPtr) and p.a is o and p.i == 0, fn=N)
        ctx.prove(nm + ': nothing seen yet', pc, z3.And(IV(this.f['_k']) == 0, IV(this.f['_n']) == n), fn=N)
        ctx.sat(nm + ' reach', pc)

def driver(ctx, paths, C):
    """SamplePairs: seeds, one traversal of the two fields with one thread, the sampler's own count"""
    P = prog(paths); f = P.one(r'^SamplePairs<%d>$' % C); N = f['name']
    def go(st):
        E = Engine(P, st=st); log = []
        corr = Rec('BaseCorr2', 'corr', True); f1, f2 = Rec('BaseField<%d>' % C, 'field1', True), Rec('BaseField<%d>' % C, 'field2', True)
        arrs = {k: Arr(k, t, E) for k, t in (('i1', 'long'), ('i2', 'long'), ('sep', 'double'))}
        pys = {k: Rec('pyarray', k) for k in arrs}
        def ctor_(E, e, o, a): log.append(('ctor', [val(x) for x in a], o)); return None
        def data(E, e, o, a): return ElemPtr(arrs[val(o).name], 0)
        E.contracts = [(re.compile(r'^urand$'), lambda E, e, o, a: log.append(('seed', val(a[0])))), (re.compile(r'SetOMPThreads'), lambda E, e, o, a: (log.append(('threads', val(a[0]))), It('oldthreads'))[1]),
                       (re.compile(r'^ProcessCross'), lambda E, e, o, a: log.append(('process', [val(x) for x in a]))), (re.compile(r'Sampler::Sampler'), ctor_), (re.compile(r'::getK$'), lambda E, e, o, a: (log.append(('k', val(o))), It('K'))[1]),
                       (re.compile(r'mutable_data|pybind11.*::data'), data), (re.compile(r'pybind11.*::size$'), lambda E, e, o, a: (log.append(('size', val(o).name)), It('size_' + val(o).name))[1])]
        ps = [p['name'] for p in f['params']]
        r = E.run(f, None, named_args(f, **dict(zip(ps, [corr, f1, f2, Rl('lo'), Rl('hi'), It('metric'), It('seed'), pys['i1'], pys['i2'], pys['sep']]))))
        ctx.fns |= E.used
        return log, corr, f1, f2, arrs, val(r)
    for j, (st, (log, corr, f1, f2, arrs, r)) in enumerate(explore(go, [])):
        nm = 'path %d' % j; pc = st.pc
        p = [x for x in log if x[0] == 'process']; c = [x for x in log if x[0] == 'ctor']
        ctx.record(nm + ': one traversal, one sampler', len(p) == 1 and len(c) == 1, fn=N)
        if len(p) != 1 or len(c) != 1: continue
        a = c[0][1]
        ctx.record(nm + ': sampler of this correlation', a[0] is corr, fn=N)
        ctx.prove(nm + ': its range', pc, z3.And(RV(a[1]) == Rl('lo'), RV(a[2]) == Rl('hi')), fn=N)
        ctx.record(nm + ': its outputs', all(isinstance(x, ElemPtr) and x.a is arrs[k] for x, k in zip(a[3:6], ('i1', 'i2', 'sep'))), fn=N)
        ctx.prove(nm + ': as many as there is room for', pc + [It('size_i1') == It('size_i2'), It('size_i1') == It('size_sep')], IV(a[6]) == It('size_i1'), fn=N)
        q = p[0][1]
        ctx.record(nm + ': first field, second field', q[1] is f1 and q[2] is f2, fn=N)
        ctx.prove(nm + ': metric', pc, IV(q[4]) == It('metric'), fn=N)
        i = log.index(p[0]); th = [x for x in log[:i] if x[0] == 'threads']
        ctx.record(nm + ': a single thread', bool(th) and th[-1][1] == 1, fn=N)
        ctx.prove(nm + ': returns the number of pairs seen', pc, IV(r) == It('K'), fn=N)

def python(ctx):
    import numpy as np
    from engine.pysym import scalar, run, fname, load_treecorr, patch_mods, state, lift, same
    from specs.wrappers import RecCat, vals
    from specs.estim import corr2
    tc = load_treecorr()
    import treecorr.corr2base as M
    class Cat(RecCat):
        field = None
        def __init__(s, nm, stale=None): RecCat.__init__(s, nm); s.field = stale
    class Stale: _coords = None; data = 'stale'
    for K in (0, 3, 5, 9):
        for brute in (False, True, 1, 2):
            for bt in ('Log', 'Linear'):
                def go():
                    log = []
                    c, _ = corr2("NN", "x", bt, brute=brute); c._ro._sep_units = 0.5
                    class Corr:
                        def samplePairs(s, *a):
                            log.append(a)
                            for k, x in enumerate(a[6:9]): x[:min(K, 5)] = np.arange(min(K, 5)) + 10 * k
                            return K
                    type(c).corr = Corr()
                    st = Stale(); c._set_metric('Euclidean', 'flat', 'flat'); st._coords = c._coords
                    c._rng = np.random.default_rng(3)
                    state().ev = []
                    cats = [Cat('c1', st), Cat('c2', st)]
                    return c, log, c.sample_pairs(5, cats[0], cats[1], min_sep=2., max_sep=6., metric='Euclidean'), list(state().ev)
                N = fname(M.Corr2.sample_pairs); ctx.fns.add(N)
                for j, (st, (k, r)) in enumerate(run(go)):
                    nm = '%s brute=%s found=%d' % (bt, brute, K)
                    if k == 'raise': ctx.undecided(nm, 'raises %r' % (r,)); continue
                    c, log, (i1, i2, sep), ev = r
                    ctx.record(nm + ': one sampling run', len(log) == 1, fn=N)
                    if len(log) != 1: continue
                    a = log[0]
                    ctx.record(nm + ': fields of the two catalogs, made for this object', a[0] == ('data', 'c1', 'N') and a[1] == ('data', 'c2', 'N'), fn=N, note=str(a[:2]))
                    ctx.record(nm + ': the range in internal units', tuple(a[2:4]) == (1., 3.) and a[4] == c._metric, fn=N, note=str(a[2:5]))
                    ctx.record(nm + ': room for n pairs', all(len(x) == 5 for x in a[6:9]) and a[6].dtype == int and a[7].dtype == int, fn=N)
                    m = min(K, 5)
                    ctx.record(nm + ': exactly the pairs found, separations in the units of the object', i1.tolist() == list(range(m)) and i2.tolist() == [10 + x for x in range(m)] and np.allclose(sep, (20 + np.arange(m)) * 2.) and len(sep) == m, fn=N, note='%s %s %s' % (i1, i2, sep))
                    mn, mx = c._get_minmax_size()
                    for e in [e for e in ev if e[0] == 'field']:
                        kw = e[3]; qn = int(e[1][1])
                        ctx.record(nm + ': tree %d is built with the limits of this object' % qn, same(lift(kw.get('min_size')), lift(mn)) and same(lift(kw.get('max_size')), lift(mx)) and bool(kw.get('brute')) == (brute is True or (type(brute) is int and brute == qn)) and kw.get('coords') in (None, c.coords), fn=N, note=str(kw)[:200])
