"""P19: contracts of the patch-pair machinery, on the real Python code.  A list of catalogs of unknown length is a sequence
(Seq) whose iteration yields one generic element; the loop body is executed once for that element from an arbitrary state
(accumulators, stored results), which is the induction step of the loop.  The iterators check that the loop runs on after the
generic element and that no local variable is carried from one iteration to the next."""
from specs.pyobj import *
import builtins, itertools
NAMES = {}

class LMeta(type):
    def __instancecheck__(c, x): return isinstance(x, builtins.list) or isinstance(x, Seq)
    def __call__(c, *a):
        if a and isinstance(a[0], (Seq, Enum)): return a[0]
        return builtins.list(*a)
class SymList(metaclass=LMeta): pass
def symenum(x, *a):
    if isinstance(x, Seq):
        if a and a != (0,): raise Unsupported('enumerate with a start')
        return Enum(x)
    return builtins.enumerate(x, *a)
def symrev(x): return x if isinstance(x, (Seq, Enum)) else builtins.reversed(x)
def symsorted(x, **k):
    x = builtins.list(x)
    if not any(type(y) is SArr for y in x): return builtins.sorted(x, **k)
    if k: raise Unsupported('sorted with options')
    for a in range(len(x)):
        for b in range(len(x) - 1 - a): x[b], x[b+1] = np.minimum(x[b], x[b+1]), np.maximum(x[b], x[b+1])
    return x
def symlen2(x): return x.sym_len() if isinstance(x, Seq) else symlen(x)
def symrange2(*a):
    if len(a) == 2 and any(type(x) is SArr for x in a):
        def e():
            i = z3.Int('it_range'); state().assume(z3.And(i >= toint(lift(a[0])), i < toint(lift(a[1])))); state().ranges.append((i, a)); return SArr((), i)
        return Loop(e, None)
    return symrange(*a)

class Loop:
    """one pass over a sequence of unknown length: a generic element, then the check of the loop discipline"""
    def __init__(self, elem, watch=True): self.elem, self.watch, self.n, self.done, self.cur = elem, watch, 0, False, None; state().loops.append(self)
    def __iter__(self): return self
    def __next__(self):
        if self.watch: f = sys._getframe(1)
        if self.n == 0:
            self.n = 1; self.cur = self.elem()
            if self.watch: self.snap = {k: id(v) for k, v in f.f_locals.items()}
            return self.cur
        if self.watch:
            now = f.f_locals
            state().carried += [k for k, v in self.snap.items() if k in now and id(now[k]) != v and not fresh_in_body(f, k)]
        self.done = True
        raise StopIteration
ASTS = {}
def fresh_in_body(f, var):
    """the loop whose header is being executed in frame f assigns var (at its top level) before any other use of it"""
    import ast
    fn = f.f_code.co_filename
    if fn not in ASTS: ASTS[fn] = ast.parse(open(fn).read())
    for n in ast.walk(ASTS[fn]):
        if isinstance(n, ast.For) and n.lineno <= f.f_lineno <= n.iter.end_lineno:
            names = lambda e: [x for x in ast.walk(e) if isinstance(x, ast.Name) and x.id == var]
            if names(n.target): return True
            def first(body):
                for b in body:
                    if not names(b): continue
                    if isinstance(b, ast.Assign): return not names(b.value) and any(isinstance(t, ast.Name) and t.id == var for t in b.targets)
                    if isinstance(b, ast.For): return not names(b.iter) and bool(names(b.target))
                    if isinstance(b, ast.If) and not b.orelse and not names(b.test): return only(b.body) and not any(names(c) for c in body[body.index(b)+1:])
                    return False
                return True
            only = first
            return first(n.body)
    return False
class Seq:
    def __init__(self, name, n, mk): self.name, self.n, self.mk = name, n, mk
    def __iter__(self): return Loop(self.fresh)
    def sym_len(self): return SArr((), self.n)
    def __len__(self): raise Unsupported('len of a sequence')
    def __getitem__(self, k):
        if isinstance(k, int) and k == 0: return self.mk(z3.IntVal(0))
        if isinstance(k, slice) and k.start is None and k.stop is None and k.step in (None, -1, 1): return self
        raise Unsupported('element %r of a sequence' % (k,))
    def fresh(self):
        st = state(); c = st.counts[self.name] = st.counts.get(self.name, -1) + 1
        i = z3.Int('%s_%d' % (self.name, c)); st.assume(z3.And(i >= 0, i < self.n))
        e = self.mk(i)
        for o in st.elems.get(self.name, []):
            if e._single_patch is not None: st.assume((o.ix == i) == (SPF(o.ix) == SPF(i)))
        st.elems.setdefault(self.name, []).append(e)
        return e
class Enum:
    def __init__(self, s): self.s = s
    def __iter__(self):
        def e():
            x = self.s.fresh(); return (SArr((), x.ix), x)
        return Loop(e)
    def __getitem__(self, k):
        if isinstance(k, slice) and k.start is None and k.stop is None and k.step in (None, -1, 1): return self
        raise Unsupported('element of enumerate')
SPF = z3.Function('patch_number', z3.IntSort(), z3.IntSort())
OWN = z3.Function('owner', z3.IntSort(), z3.IntSort())
RANK, SIZE = z3.Int('rank'), z3.Int('size')

class FakeCat:
    """a catalog of a list: its patch number, total weight and the number of patches; unload() may be called at any time"""
    coords, name, ntot = 'flat', '', 10
    def __init__(self, seq, ix, npatch, sp):
        self.seq, self.ix = seq, ix
        self.npatch = npatch
        self._single_patch = SArr((), SPF(ix)) if sp else None
        self.id = (seq.name, ix)
        self.sumw = SArr((), z3.Function('w_' + seq.name, z3.IntSort(), z3.RealSort())(ix))
        if sp: state().assume(z3.And(SPF(ix) >= 0, SPF(ix) < toint(npatch.v)))
    @property
    def num(self): return SPF(self.ix) if self._single_patch is not None else self.ix
    def unload(self): pass
class Expanded:
    coords, name, npatch, _single_patch = 'flat', '', 1, None
    def __init__(self, of, seq): self.id = ('near', of.id, seq.name); self.sumw = scalar('W_' + seq.name)
    def unload(self): pass
def same_id(a, b):
    if type(a) is tuple: return type(b) is tuple and len(a) == len(b) and all(same_id(x, y) for x, y in zip(a, b))
    return a.eq(b) if is_z(a) and is_z(b) else (not is_z(a) and not is_z(b) and a == b)
def tzpred(*ids):
    return z3.Bool('zero_' + '_'.join(str(i) for i in ids))

class Interval:
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi
    def __contains__(self, x):
        return state().branch(OWN(toint(lift(x))) == RANK)
@fun('arange')
def f_arange(lo, hi=None, *a, **k):
    if a or k: raise Unsupported('arange')
    if hi is None: lo, hi = 0, lo
    i = Interval(lift(lo), lift(hi)); state().intervals.append(i); return i

class SDict:
    """the stored results: nothing yet, or arbitrary previous ones for every key (present); keys are tuples of patch numbers"""
    def __init__(self, mk, present): self.mk, self.present, self.d, self.old, self.upd = mk, present, {}, {}, []
    def key(self, k): return tuple(str(z3.simplify(toint(lift(x)))) for x in k)
    def __contains__(self, k):
        q = self.key(k)
        if q in self.d: return self.d[q] is not None
        if self.present: self.old[q] = self.mk('old_' + '_'.join(q)); self.d[q] = self.old[q]
        else: self.d[q] = None
        return self.present
    def __getitem__(self, k):
        if k not in self: raise KeyError(k)
        return self.d[self.key(k)]
    def get(self, k, default=None): return self[k] if k in self else default
    def __setitem__(self, k, v):
        q = self.key(k)
        k in self
        self.d[q] = v
    def setdefault(self, k, v):
        if k not in self: self[k] = v
        return self[k]
    def pop(self, *a): raise Unsupported('results.pop')
    def keys(self): return []
    def update(self, o): self.upd.append(o)
    def __deepcopy__(self, m): return self
    def __copy__(self): return self

class FakeComm:
    def Get_size(self): return SArr((), SIZE)
    def Get_rank(self): return SArr((), RANK)
    def send(self, o, dest=None): state().ev.append(('send', o, lift(dest)))
    def recv(self, source=None):
        o = state().mk('recv'); o.results = ('results of', lift(source))
        state().ev.append(('recv', o, lift(source)))
        return o

def setup(three):
    SHADOW.update(enumerate=symenum, list=SymList, reversed=symrev, sorted=symsorted, len=symlen2, range=symrange2)
    mods()

def inv(o, names, cnt): return z3.Implies(RV(getattr(o, cnt).v) == 0, z3.And(*[RV(getattr(o, m).v) == 0 for m in names]))

class World:
    """one symbolic call of a _process_all_* method"""
    def __init__(self, tp, bt='LogRUV'):
        self.tp, self.three, self.bt = tp, len(tp) == 3, bt
        self.cnt = 'ntri' if self.three else 'npairs'
        setup(self.three)
        o, self.names = corr3(tp, bt, 'x') if self.three else corr2(tp, 'x', self.bt2()); self.cls = type(o)
        self.tot = hasattr(o, 'tot')
        self.spy()
    def bt2(self): return self.bt if self.bt in ('Log', 'Linear', 'TwoD') else 'Log'
    def mk0(self, name): return corr3(self.tp, self.bt, name)[0] if self.three else corr2(self.tp, name, self.bt2())[0]
    def mk(self, name):
        o = self.mk0(name); state().assume(inv(o, self.names, self.cnt)); state().assume(RV(getattr(o, self.cnt).v) >= 0); return o
    def spy(self):
        cls, W = self.cls, self
        def contrib(self_, kind, cats, tot, **kw):
            st = state(); n = sum(1 for e in st.ev if e[0] in ('auto', 'cross', 'cross12'))
            x = W.mk('x%d' % n)
            for m in W.names: getattr(self_, m)[:] += getattr(x, m)
            if W.tot: self_.tot = self_.tot + SArr((), tot)
            st.ev.append((kind, self_, tuple(c.id for c in cats), kw, x))
        w = lambda c: RV(c.sumw.v)
        def process_auto(self_, cat, *, metric=None, num_threads=None):
            contrib(self_, 'auto', (cat,), w(cat) * w(cat) * w(cat) / 6 if W.three else w(cat) * w(cat) / (1 if W.bt == 'TwoD' else 2), metric=metric)
        def process_cross12(self_, cat1, cat2, *, metric=None, ordered=True, num_threads=None):
            contrib(self_, 'cross12', (cat1, cat2), w(cat1) * w(cat2) * w(cat2) / 2, metric=metric, ordered=ordered)
        if self.three:
            def process_cross(self_, cat1, cat2, cat3, *, metric=None, ordered=True, num_threads=None):
                contrib(self_, 'cross', (cat1, cat2, cat3), w(cat1) * w(cat2) * w(cat3), metric=metric, ordered=ordered)
        else:
            def process_cross(self_, cat1, cat2, *, metric=None, num_threads=None):
                contrib(self_, 'cross', (cat1, cat2), w(cat1) * w(cat2), metric=metric)
        cls.process_auto, cls.process_cross = process_auto, process_cross
        if self.three: cls.process_cross12 = process_cross12
        def tz(self_, *cats):
            state().tz.append(tuple(c.id for c in cats))
            return state().branch(tzpred(*[c.id for c in cats]))
        cls._trivially_zero = tz
        cls._make_expanded_patch = lambda self_, cat1, cat2, metric, low_mem: Expanded(cat1, cat2)
    def run(self, method, nlists, comm, low_mem, local, sp, ordered=None, again=False):
        W = self
        def go():
            st = state()
            st.ev, st.tz, st.loops, st.carried, st.counts, st.elems, st.intervals, st.ranges, st.mk = [], [], [], [], {}, {}, [], [], W.mk
            s = W.mk('self'); st.old = vals(s, W.names)
            s.results = SDict(lambda n: W.mk(n), again)
            cats = []
            for q in range(nlists):
                nm = 'c%d' % (q + 1); n, npt = z3.Int('N_' + nm), z3.Int('npatch_' + nm)
                st.assume(z3.And(n >= 1, npt >= 1, z3.Or(npt == 1, n <= npt)))
                if sp: st.assume(npt > 1)      # a catalog that knows its patch number belongs to a set of several patches
                cats.append(Seq(nm, n, None))
                cats[-1].mk = lambda ix, q=q, npt=npt: FakeCat(cats[q], ix, SArr((), npt), sp)
            st.cats = cats
            eff = [z3.If(z3.Int('npatch_' + c.name) != 1, z3.Int('npatch_' + c.name), c.n) for c in cats]
            for q in range(1, 4):
                if hasattr(s, 'npatch%d' % q): setattr(s, 'npatch%d' % q, SArr((), eff[min(q, nlists) - 1]) if again else 1)
            if comm: st.assume(z3.And(SIZE >= 1, RANK >= 0, RANK < SIZE))
            a = builtins.list(cats) + [None]
            if ordered is not None: a.append(ordered)
            getattr(s, method)(*a, None, FakeComm() if comm else None, low_mem, local)
            return s
        return run(go, max_paths=3000)

def el(st, name, k):
    e = st.elems.get(name, [])
    return e[k] if k < len(e) else None

def expected(st, W, method, local, ordered):
    """[(kind, ids, condition, key, tot, ordered, tz ids)] for the generic elements of this path; None while the path visits too few loops"""
    cats = st.cats; w = lambda c: RV(c.sumw.v)
    F = z3.RealVal('1/3')
    E = []
    def add(kind, cs, cond, key, tot, o=None):
        ids = tuple(c.id for c in cs)
        tz = None if kind == 'auto' else (ids + ids[-1:] if kind == 'cross12' else ids)
        E.append(dict(kind=kind, ids=ids, cond=cond, key=key, tot=tot, ordered=o, tz=tz))
    T = z3.BoolVal(True)
    near = lambda c, s: Expanded(c, s)
    if method == '_process_all_auto' and not W.three:
        i, j = el(st, 'c1', 0), el(st, 'c1', 1)
        if local: add('cross', (i, near(i, cats[0])), T, (i.num, i.num), w(i) * RV(near(i, cats[0]).sumw.v))
        else:
            add('auto', (i,), T, (i.num, i.num), w(i) * w(i) / (1 if W.bt == 'TwoD' else 2))
            if j and W.bt == 'TwoD': add('cross', (j, i), i.num < j.num, (i.num, j.num), w(i) * w(j))
            if j: add('cross', (i, j), i.num < j.num, (i.num, j.num), w(i) * w(j))
    elif method == '_process_all_cross' and not W.three:
        i, j = el(st, 'c1', 0), el(st, 'c2', 0)
        if local: add('cross', (i, near(i, cats[1])), T, (i.num, i.num), w(i) * RV(near(i, cats[1]).sumw.v))
        else: add('cross', (i, j), T, (i.num, j.num), w(i) * w(j))
    elif method == '_process_all_auto':
        i, j, k = el(st, 'c1', 0), el(st, 'c1', 1), el(st, 'c1', 2)
        if local:
            e = near(i, cats[0]); add('cross12', (i, e), T, (i.num,) * 3, w(i) * RV(e.sumw.v) * RV(e.sumw.v) / 2 * F, 1)
        else:
            add('auto', (i,), T, (i.num,) * 3, w(i) * w(i) * w(i) / 6)
            if j:
                add('cross12', (i, j), i.num < j.num, (i.num, j.num, j.num), w(i) * w(j) * w(j) / 2, 0)
                add('cross12', (j, i), i.num < j.num, (i.num, i.num, j.num), w(j) * w(i) * w(i) / 2, 0)
            if k: add('cross', (i, j, k), z3.And(i.num < j.num, j.num < k.num), (i.num, j.num, k.num), w(i) * w(j) * w(k), 0)
    elif method == '_process_all_cross12':
        i, j, k = el(st, 'c1', 0), el(st, 'c2', 0), el(st, 'c2', 1)
        if local:
            e = near(i, cats[1]); add('cross12', (i, e), T, (i.num,) * 3, w(i) * RV(e.sumw.v) * RV(e.sumw.v) / 2 * (1 if ordered else F), 1)
            if not ordered:
                e1, e2 = near(j, cats[0]), near(j, cats[1])
                add('cross', (j, e1, e2), T, (j.num,) * 3, w(j) * RV(e1.sumw.v) * RV(e2.sumw.v) * F, 1)
        else:
            add('cross12', (i, j), T, (i.num, j.num, j.num), w(i) * w(j) * w(j) / 2, ordered)
            if k: add('cross', (i, j, k), j.num < k.num, (i.num, j.num, k.num), w(i) * w(j) * w(k), 1 if ordered else 0)
    else:
        i, j, k = el(st, 'c1', 0), el(st, 'c2', 0), el(st, 'c3', 0)
        if local:
            for n, (a, b, c) in enumerate(((i, 1, 2), (j, 0, 2), (k, 0, 1))):
                if n and ordered: break
                e1, e2 = near(a, cats[b]), near(a, cats[c])
                add('cross', (a, e1, e2), T, (a.num,) * 3, w(a) * RV(e1.sumw.v) * RV(e2.sumw.v) * (1 if ordered else F), ordered or 1)
        else: add('cross', (i, j, k), T, (i.num, j.num, k.num), w(i) * w(j) * w(k), ordered)
    return E

def proj(pc):
    """the conjuncts that speak about patch numbers, ranks and sizes only"""
    ok = ('rank', 'size', 'owner', 'patch_number', 'N_', 'npatch_', 'c1_', 'c2_', 'c3_')
    def good(e):
        seen, todo = set(), [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.decl().name().startswith(ok): return False
            todo += x.children()
        return True
    return [c for c in pc if good(c)]

def p19_all(ctx, tp, method, nl, comm, low_mem, local, sp, ordered=None, again=False, bt='LogRUV'):
    W = World(tp, bt)
    fn = fname(getattr(W.cls, method)); ctx.fns.add(fn)
    for h in ('_single_process12', '_single_process123', '_add_tot', '__iadd__', 'copy', '_clear'):
        if hasattr(W.cls, h): ctx.fns.add(fname(getattr(W.cls, h)))
    jobs = {}; npath = 0
    for st, (kind, s) in W.run(method, nl, comm, low_mem, local, sp, ordered, again):
        npath += 1
        if kind == 'raise':
            if isinstance(s, RuntimeError) and 'same patches' in str(s):       # both lists have several patches, in different numbers
                n = [z3.If(z3.Int('npatch_' + c.name) != 1, z3.Int('npatch_' + c.name), c.n) for c in st.cats]
                ctx.prove('path %d: refuses only different numbers of patches' % npath, st.pc, z3.Or(*[z3.And(n[0] != m, n[0] != 1, m != 1) for m in n[1:]]), fn=fn); continue
            ctx.undecided('path %d' % npath, 'raises %r' % (s,)); continue
        p = 'path %d: ' % npath
        calls = [e for e in st.ev if e[0] in ('auto', 'cross', 'cross12')]
        one = not st.loops                                   # no loop at all: the single unsplit catalog(s)
        if one:
            ids = tuple((c.name, z3.IntVal(0)) for c in st.cats)
            k = 'auto' if method.endswith('auto') else 'cross12' if method.endswith('12') else 'cross'
            ctx.record(p + 'unsplit catalogs are processed once', len(calls) == 1 and calls[0][0] == k and same_id(calls[0][2], ids) and calls[0][1] is s, fn=fn)
            ctx.prove(p + 'unsplit means one catalog without patches', st.pc, z3.And(*[z3.And(c.n == 1, z3.Int('npatch_' + c.name) == 1) for c in st.cats]), fn=fn)
            if ordered is not None: ctx.record(p + 'the order of the vertices is passed on', calls and calls[0][3].get('ordered') == ordered, fn=fn)
            ctx.prove(p + 'adds what was processed', st.pc, z3.And(*[RV(getattr(s, m).v) == RV(st.old[m]) + RV(getattr(calls[0][4], m).v) for m in W.names]), fn=fn)
            continue
        ctx.record(p + 'every loop runs over the whole list', all(l.done for l in st.loops), fn=fn)
        if st.carried: ctx.undecided(p + 'loop state', 'variables carried between iterations: %s' % sorted(set(st.carried)))
        E = expected(st, W, method, local, ordered)
        used = set()
        tot = RV(st.old['tot']) if W.tot else None
        add = {m: RV(st.old[m]) for m in W.names}
        for e in E:
            hit = [q for q, c in enumerate(calls) if c[0] == e['kind'] and same_id(c[2], e['ids'])]
            used |= set(hit)
            asked = e['tz'] is not None and any(same_id(t, e['tz']) for t in st.tz)
            tzv = tzpred(*e['tz']) if e['tz'] is not None else z3.BoolVal(False)
            nm = '%s %s' % (e['kind'], '/'.join('near ' + str(i[1][1]) + ' of ' + i[2] if i[0] == 'near' else str(i[1]) for i in e['ids']))
            handled = bool(hit) or asked
            jobs.setdefault(nm, (e, [], []))[1 if handled else 2].append((st, proj(st.pc)))
            ctx.record(p + nm + ' is processed at most once', len(hit) <= 1, fn=fn)
            if handled: ctx.prove(p + nm + ' only under its condition', st.pc, e['cond'], fn=fn)
            elif not comm: ctx.prove(p + nm + ' is not left out', st.pc, z3.Not(e['cond']), fn=fn)
            if asked and not hit: ctx.prove(p + nm + ' is skipped only when trivially zero', st.pc, tzv, fn=fn)
            x = calls[hit[0]][4] if hit else None
            if hit and e['ordered'] is not None:
                o = calls[hit[0]][3].get('ordered'); ctx.record(p + nm + ' with the right vertex order', o == e['ordered'], fn=fn, note='%r' % (o,))
            key = s.results.key(tuple(SArr((), k) for k in e['key']))
            # what the accumulators and the stored result must have gained
            xv = {m: RV(getattr(x, m).v) if x is not None else z3.RealVal(0) for m in W.names}
            dt = e['tot'] if handled and W.tot else z3.RealVal(0)
            for m in W.names: add[m] = add[m] + xv[m]
            if W.tot: tot = tot + dt
            e.update(key_=key, x=xv, dt=dt, handled=handled)
        ctx.record(p + 'nothing else is processed', used == set(range(len(calls))), fn=fn, note=str([(c[0], c[2]) for q, c in enumerate(calls) if q not in used])[:200])
        extra = [e for e in st.ev if e[0] in ('send', 'recv')]
        for q in extra:
            if q[0] == 'recv':
                for m in W.names: add[m] = add[m] + RV(getattr(q[1], m).v) if m in vars(W.mk0('recv')) else add[m]
                if W.tot: tot = tot + z3.Real('recv.tot')
        ctx.prove(p + 'the totals gain exactly what was processed', st.pc, z3.And(*[RV(getattr(s, m).v) == add[m] for m in W.names]), fn=fn)
        if W.tot: ctx.prove(p + 'the total number of pairs gains the product of the weights', st.pc, RV(lift(s.tot)) == tot, fn=fn)
        # stored results, by key (several combinations may share one)
        for key in {e['key_'] for e in E}:
            es = [e for e in E if e['key_'] == key]
            old = s.results.old.get(key); r = s.results.d.get(key)
            base = {m: RV(vals(old, W.names)[m]) if old is not None else z3.RealVal(0) for m in W.names}
            if old is not None:    # the object itself may have been updated in place: its original values are the constants of its name
                o2 = W.mk0('old_' + '_'.join(key)); base = {m: RV(getattr(o2, m).v) for m in W.names}
            nm = 'result %s' % (','.join(key))
            want = {m: base[m] + z3.Sum([e['x'][m] for e in es]) for m in W.names}
            if r is None:
                ctx.prove(p + nm + ' is left out only when it adds nothing', st.pc, z3.And(*[want[m] == 0 for m in W.names]), fn=fn)
                if W.tot: ctx.record(p + nm + ' is stored when it was done', not any(e['handled'] for e in es), fn=fn)
            else:
                ctx.prove(p + nm + ' gains exactly its pairs', st.pc, z3.And(*[(RV(getattr(r, m).v) if isinstance(getattr(r, m, None), SArr) else 0) == want[m] for m in W.names]), fn=fn)
                if W.tot: ctx.prove(p + nm + ' gains its share of the total number of pairs', st.pc, RV(lift(r.tot)) == (z3.Real('old_%s.tot' % '_'.join(key)) if old is not None else 0) + z3.Sum([e['dt'] for e in es]), fn=fn)
                ctx.record(p + nm + ' has its own arrays', r is not s and all(getattr(r, m) is not getattr(s, m) for m in W.names), fn=fn)
        if comm:
            for iv in st.intervals: jobs.setdefault('intervals', []).append((st, iv))
            snd = [e for e in extra if e[0] == 'send']; rcv = [e for e in extra if e[0] == 'recv']
            if snd:
                ctx.record(p + 'a worker sends its results to rank 0 once', len(snd) == 1 and not rcv and snd[0][1] is s and snd[0][2] == 0 and not s.results.upd, fn=fn)
                ctx.prove(p + 'only workers send', st.pc, RANK > 0, fn=fn)
            else:
                ctx.prove(p + 'rank 0 collects', st.pc, RANK == 0, fn=fn)
                ctx.record(p + 'rank 0 receives once from every worker', len(rcv) == 1 and len(st.ranges) == 1 and is_z(rcv[0][2]) and toint(rcv[0][2]).eq(st.ranges[0][0]) and
                           [lift(x) for x in st.ranges[0][1]][0] == 1 and SIZE.eq(lift(st.ranges[0][1][1])), fn=fn)
                ctx.record(p + 'rank 0 keeps the results of that worker', len(s.results.upd) == 1 and rcv and s.results.upd[0] is rcv[0][1].results, fn=fn)
    if not npath: ctx.undecided(method, 'no path')
    if comm: p19_jobs(ctx, fn, jobs)

def canon(l):
    d = {}
    for st, c in l:
        c = [x for x in {x.sexpr(): x for x in c}.values()]
        d[tuple(sorted(x.sexpr() for x in c))] = c
    return list(d.values())
def p19_jobs(ctx, fn, jobs):
    """every combination is done by exactly one process"""
    ivs = jobs.pop('intervals', [])
    seen = set()
    for st, iv in ivs:
        lo, hi = RV(iv.lo), RV(iv.hi)
        if (lo.sexpr(), hi.sexpr()) in seen: continue
        seen.add((lo.sexpr(), hi.sexpr()))
        at = lambda e, r: z3.substitute(e, (RANK, r))
        Z = z3.IntVal(0)
        base = [SIZE >= 1, RANK >= 0, RANK < SIZE] + [c for c in proj(st.pc) if 'rank' not in c.sexpr() and 'owner' not in c.sexpr()]
        # q = floor(n*rank/size): helper facts of real arithmetic for the quotients that occur
        ctx.prove('process ranges: the first one starts at 0', base, at(lo, Z) <= 0, fn=fn)
        ctx.prove('process ranges: each starts where the previous one ends', base, at(lo, RANK + 1) == hi, fn=fn)
        h = quot(hi, lo)
        ctx.prove('process ranges: do not run backwards', base + h, lo <= hi, fn=fn)
        for c in st.cats:
            for e in st.elems.get(c.name, [])[:1]:
                ctx.prove('process ranges: the last one ends after every patch of %s' % c.name, base, z3.ToReal(e.num) < at(hi, SIZE - 1), fn=fn)
    for nm, (e, H, N) in jobs.items():
        nums = [i for i in {x.sexpr(): x for x in e['key']}.values()]
        dom = [z3.And(OWN(i) >= 0, OWN(i) < SIZE) for i in nums]
        hs, ns = canon(H), canon(N)
        r1, r2 = z3.Ints('rank1 rank2')
        at = lambda cs, r: [z3.substitute(c, (RANK, r)) for c in cs]
        ctx.record(nm + ' is somebody\'s job', bool(hs), fn=fn)
        for a, b in itertools.product(range(len(hs)), repeat=2):
            ctx.prove('%s is not done by two processes (%d,%d)' % (nm, a, b), dom + at(hs[a], r1) + at(hs[b], r2) + [e['cond']], r1 == r2, fn=fn)
        own = [OWN(i) for i in nums]
        for cmb in itertools.product(range(len(ns)), repeat=len(own)):
            ctx.prove('%s is done by some process %s' % (nm, cmb), dom + [c for o, q in zip(own, cmb) for c in at(ns[q], o)] + [e['cond']], z3.BoolVal(False), fn=fn)

def quot(*es):
    """monotonicity facts for the quotients a/b and a'/b below floors"""
    qs = {}
    for e in es:
        todo = [e]
        while todo:
            x = todo.pop()
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV: qs[x.sexpr()] = x
            todo += x.children()
    out = []
    for a, b in itertools.permutations(qs.values(), 2):
        if a.arg(1).eq(b.arg(1)): out += [z3.Implies(z3.And(a.arg(1) > 0, a.arg(0) <= b.arg(0)), a <= b), z3.Implies(a <= b, z3.ToInt(a) <= z3.ToInt(b))]
    return out
