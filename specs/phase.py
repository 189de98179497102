"""P07: the phases that rotate spin fields (ProjectHelper.h, ParallelTransportSum in Cell.cpp).

Convention (flat): a field at p is rotated by exp(-i s phi), phi the direction of p2-p1 (two points), of the centroid (three
points).  On the sphere the local axes at p are x = west, y = north; the direction at p2 of the great circle from p1 is
    D(p1,p2) = -(west component + i north component of p1 as seen from p2) * |p1 x p2|-scale."""
import re, z3
from engine.cxx.interp import *
from engine.sym import *
import engine.sym as sym
from specs.tree2 import prog, named_args, Rl, It
from specs.metric import P3, dot, sub, add, cross
Fn = Fraction
SPIN = {3: 0, 2: 2, 4: 1, 5: 3, 6: 4}          # ZData, GData, VData, TData, QData
DN = {2: 'G', 3: 'Z', 4: 'V', 5: 'T', 6: 'Q'}

def val(v):
    v = v.get() if isinstance(v, Loc) else v
    return v.to if isinstance(v, Ptr) else v
def cpow(z, s):
    r = Cx(Fn(1), Fn(0))
    for _ in range(s): r = r * z
    return r

def expm(ctx, paths, s):
    """calculate_expmsialpha<s>(r): conj(r)^s / |r|^s for r != 0"""
    P = prog(paths)
    f = P.one(r'^calculate_expmsialpha<%d>$' % s)
    re_, im = Rl('r.re'), Rl('r.im')
    base = [z3.Or(re_ != 0, im != 0)]
    for j, (st, v) in enumerate(explore(lambda st: (lambda E: (val(E.run(f, None, [Cx(re_, im)])), E))(Engine(P, st=st)), base)):
        v, E = v; ctx.fns |= E.used; v = Cx.of(v)
        pc = base + st.pc
        n = re_ * re_ + im * im
        w = cpow(Cx(re_, -im), s)
        # v = k * conj(r)^s with k > 0, |v| = 1  (compare v with conj(r)^s/|r|^s)
        k = Rl('k'); N = w.re * w.re + w.im * w.im
        ctx.prove('path %d: points along conj(r)^%d' % (j, s), pc + [n > 0], z3.And(RV(v.re) * w.im == RV(v.im) * w.re, RV(v.re) * w.re + RV(v.im) * w.im >= 0), fn=f['name'])
        ctx.prove('path %d: unit modulus' % j, pc + [n > 0], RV(v.re) * RV(v.re) + RV(v.im) * RV(v.im) == 1, fn=f['name'])
    ctx.sat('reach', base)

def which_s(ctx, paths, D):
    P = prog(paths)
    f = P.find(r'^_expmsialpha<%d>$' % D)
    if not f: ctx.undecided('_expmsialpha<%d>' % D, 'not instantiated'); return
    f = f[0]
    def go(st):
        E = Engine(P, st=st); log = []
        def h(E, e, o, a): log.append((e['name'] if isinstance(e, dict) and 'name' in e else '', val(a[0]))); return Cx(Rl('u.re'), Rl('u.im'))
        for s in range(5):
            def hs(E, e, o, a, s=s): log.append((s, val(a[0]))); return Cx(Rl('u.re'), Rl('u.im'))
            E.contracts.append((re.compile(r'^calculate_expmsialpha<%d>$' % s), hs))
        r = val(E.run(f, None, [Cx(Rl('r.re'), Rl('r.im'))]))
        ctx.fns |= E.used
        return log, Cx.of(r)
    for st, (log, r) in explore(go, []):
        ctx.record('the spin of field type %s' % DN[D], len(log) == 1 and log[0][0] == SPIN[D] and str(Cx.of(log[0][1]).re) == 'r.re' and str(r.re) == 'u.re' and str(r.im) == 'u.im', fn=f['name'], note=str(log))

def direction(ctx, paths):
    """calculate_direction(p1,p2) on the unit sphere: the tangent at p2 of the great circle coming from p1, in (west, north) axes"""
    P = prog(paths)
    f = P.one(r'^ProjectHelper<3>::calculate_direction$')
    def go(st):
        E = Engine(P, st=st)
        r1, a = P3('p', 3); r2, b = P3('q', 3)
        v = Cx.of(val(E.run(f, None, [r1, r2]))); ctx.fns |= E.used
        return v, a, b
    for j, (st, (v, a, b)) in enumerate(explore(go, [])):
        pc = st.pc + [dot(a, a) == 1, dot(b, b) == 1]
        east = [-b[1], b[0], z3.RealVal(0)]; north = [-b[0] * b[2], -b[1] * b[2], b[0] * b[0] + b[1] * b[1]]
        ctx.prove('path %d: west component' % j, pc, RV(v.re) == dot(a, east), fn=f['name'])       # -(west) of p1 = +east of p1
        ctx.prove('path %d: north component' % j, pc, RV(v.im) == -dot(a, north), fn=f['name'])

class Log: pass
def coords_of(o): return [RV(FieldLoc(None, o, '_' + k, 'double').get() if False else o.f['_' + k]) for k in 'xyz']
def unit_contract(L):
    """normalize(): the unit vector along the old coordinates (proved by p07 normalize)"""
    def h(E, e, o, a):
        o = val(o)
        old = [RV(FieldLoc(E, o, '_' + k, 'double').get()) for k in 'xyz']; n = len(L.units)
        new = [Rl('unit%d.%s' % (n, k)) for k in 'xyz']
        for q in L.units:
            if all(x.eq(y) for x, y in zip(q[0], old)): new = q[1]
        L.units.append((old, new))
        for k, v in zip('xyz', new): FieldLoc(E, o, '_' + k, 'double').set(v)
        FieldLoc(E, o, '_normsq', 'double').set(Fn(0)); FieldLoc(E, o, '_norm', 'double').set(Fn(0))
    return [(re.compile(r'^Position<3>::normalize$'), h)]
def unit_of(L, v):
    for old, new in L.units:
        if all(x.eq(y) for x, y in zip(old, v)): return new
    return None

def normalize(ctx, paths):
    P = prog(paths)
    f = P.one(r'^Position<3>::normalize$')
    def go(st):
        E = Engine(P, st=st)
        o = Rec('Position<3>', 'o', True); o.f['_normsq'] = Fn(0); o.f['_norm'] = Fn(0)
        E.run(f, o, []); ctx.fns |= E.used
        return [RV(FieldLoc(E, o, '_' + k, 'double').get()) for k in 'xyz'], [RV(FieldLoc(E, o, k, 'double').get()) for k in ('_normsq', '_norm')]
    old = [Rl('o._' + k) for k in 'xyz']
    for j, (st, (new, cache)) in enumerate(explore(go, [])):
        pc = st.pc + [z3.Or(*[x != 0 for x in old])]
        ctx.prove('path %d: on the unit sphere' % j, pc, dot(new, new) == 1, fn=f['name'])
        c = cross(new, old)
        ctx.prove('path %d: same direction' % j, pc, z3.And(c[0] == 0, c[1] == 0, c[2] == 0, dot(new, old) > 0), fn=f['name'])
        ctx.prove('path %d: the cached norm is reset' % j, st.pc, z3.And(cache[0] == 0, cache[1] == 0), fn=f['name'])
    ctx.sat('reach', [old[0] != 0])
def setup(E, L, D, C):
    L.dirs, L.ph, L.units = [], [], []
    def hd(E, e, o, a):
        n = len(L.dirs); z = Cx(Rl('dir%d.re' % n), Rl('dir%d.im' % n))
        p = [val(x) for x in a[:2]]
        L.dirs.append(([list(x.f.get('_' + k) for k in 'xyz') for x in p], z)); return z
    def hp(E, e, o, a):
        n = len(L.ph); u = Cx(Rl('u%d.re' % n), Rl('u%d.im' % n)); L.ph.append((Cx.of(val(a[0])), u)); return u
    E.contracts = [(re.compile(r'^ProjectHelper<3>::calculate_direction$'), hd), (re.compile(r'^_expmsialpha<%d>$' % D), hp)] + (unit_contract(L) if C != 1 else [])

def cellpos(E, name, D, C):
    c = Rec('Cell<%d, %d>' % (D, C), name, True)
    return c
def pvec(name, C): return [Rl(name + '._' + k) for k in 'xyz'[:2 if C == 1 else 3]]

def is_dir(ctx, nm, pc, L, got, want, C, fn):
    """got (a complex argument of the phase) points along the direction from want[0] to want[1] as seen at want[1]"""
    a, b = want
    if C == 1:
        ctx.prove(nm + ': direction', pc, z3.And(RV(got.re) * (b[1] - a[1]) == RV(got.im) * (b[0] - a[0]), RV(got.re) * (b[0] - a[0]) + RV(got.im) * (b[1] - a[1]) >= 0,
                  (z3.And(RV(got.re) == 0, RV(got.im) == 0)) == z3.And(a[0] == b[0], a[1] == b[1])), fn=fn); return
    hit = [d for d in L.dirs if d[1].re.eq(got.re) and d[1].im.eq(got.im)] if is_z(got.re) and is_z(got.im) else []
    if not hit: ctx.record(nm + ': direction', False, fn=fn, note='argument %s' % (got.re,)); return
    same_point(ctx, nm, pc, L, hit[0][0], want, C, fn)
def base_of(L, q):
    """the vector whose direction q is (undoing repeated normalisation)"""
    n = 0
    while n < 4:
        o = next((old for old, new in L.units if all(x.eq(y) for x, y in zip(new, q))), None)
        if o is None: return q, n
        q = o; n += 1
    return q, n
def same_point(ctx, nm, pc, L, got, want, C, fn):
    """got are unit vectors along want (the points themselves are unit vectors when C == 3)"""
    for k, (q, v) in enumerate(zip(got, want)):
        q, n = base_of(L, [RV(x) for x in q])
        unit = n > 0 or (C == 3 and any(all(x.eq(y) for x, y in zip(q, w)) for w in L.points))
        ctx.record(nm + ': point %d is on the unit sphere' % (k + 1), unit, fn=fn)
        if all(x.eq(y) for x, y in zip(q, v)): ctx.record(nm + ': point %d has the right direction' % (k + 1), True, fn=fn); continue
        c = cross(q, v)
        ctx.prove(nm + ': point %d has the right direction' % (k + 1), pc + [dot(v, v) > 0], z3.And(c[0] == 0, c[1] == 0, c[2] == 0, dot(q, v) >= 0), fn=fn)

def ceq(a, b): return z3.And(RV(a.re) == RV(b.re), RV(a.im) == RV(b.im))
def sqr(a): return a * a
def find_ph(L, got, z):
    """the phase u_k with got = u_k * z (syntactically up to normal form)"""
    for arg, u in L.ph:
        w = u * z
        if sym.prove([], ceq(Cx.of(got), w), 3).status == 'proved': return arg, 1
        w = Cx(-w.re, -w.im)
        if sym.prove([], ceq(Cx.of(got), w), 3).status == 'proved': return arg, -1
    return None, 0

def unitpc(C, *vs): return [dot(v, v) == 1 for v in vs] if C == 3 else []
def pts(E, cells, D, C):
    out = []
    for c in cells:
        v = val(E.call(E.p.find(r'^BaseCell<%d>::getPos$' % C)[0], c, []))
        out.append([RV(FieldLoc(E, v, '_' + k, 'double').get()) for k in 'xyz'[:2 if C == 1 else 3]])
        v.f['_normsq'] = Fn(0); v.f['_norm'] = Fn(0)
    return out
def on_sky(L, v, C):
    """unit vectors of the points"""
    return [unit_of(L, x) or x for x in v] if C == 2 else v

def project2(ctx, paths, D1, D, C, f):
    """Project(c1, c2, z2) and ProjectWithSq: z2 is rotated by the direction from c1 at c2"""
    P = prog(paths); sq = 'WithSq' in f['name']
    def go(st):
        E = Engine(P, st=st); L = Log(); setup(E, L, D, C)
        c1, c2 = cellpos(E, 'c1', D1, C), cellpos(E, 'c2', D, C)
        v = pts(E, (c1, c2), D, C); L.points = v
        z = TempLoc(Cx(Rl('z.re'), Rl('z.im'))); q = TempLoc(Cx(Rl('q.re'), Rl('q.im')))
        E.run(f, None, [c1, c2, z] + ([q] if sq else [])); ctx.fns |= E.used
        return L, v, Cx.of(z.get()), Cx.of(q.get())
    for j, (st, (L, v, z, q)) in enumerate(explore(go, [])):
        nm = 'path %d' % j; pc = st.pc + unitpc(C, *v)
        arg, sg = find_ph(L, z, Cx(Rl('z.re'), Rl('z.im')))
        ctx.record(nm + ': the field is multiplied by one phase', arg is not None and sg == 1, fn=f['name'])
        if arg is None: continue
        is_dir(ctx, nm, pc, L, arg, (v[0], v[1]), C, f['name'])
        if sq:
            ok = any(sym.prove([], ceq(q, u * u * Cx(Rl('q.re'), Rl('q.im'))), 3).status == 'proved' for a, u in L.ph if a is arg or (a.re is arg.re))
            ctx.record(nm + ': the squared field by the phase squared', ok, fn=f['name'])

def project22(ctx, paths, D, C, f):
    """Project(c1, c2, z1, z2): both fields are rotated to the line from c1 to c2"""
    P = prog(paths)
    Z1, Z2 = Cx(Rl('y.re'), Rl('y.im')), Cx(Rl('z.re'), Rl('z.im'))
    def go(st):
        E = Engine(P, st=st); L = Log(); setup(E, L, D, C)
        c1, c2 = cellpos(E, 'c1', D, C), cellpos(E, 'c2', D, C)
        v = pts(E, (c1, c2), D, C); L.points = v
        a, b = TempLoc(Z1), TempLoc(Z2)
        E.run(f, None, [c1, c2, a, b]); ctx.fns |= E.used
        return L, v, Cx.of(a.get()), Cx.of(b.get())
    for j, (st, (L, v, a, b)) in enumerate(explore(go, [])):
        nm = 'path %d' % j; pc = st.pc + unitpc(C, *v); s = SPIN[D]
        arg, sg = find_ph(L, b, Z2)
        ctx.record(nm + ': the second field is multiplied by one phase', arg is not None and sg == 1, fn=f['name'])
        if arg is not None: is_dir(ctx, nm + ': second', pc, L, arg, (v[0], v[1]), C, f['name'])
        arg, sg = find_ph(L, a, Z1)
        ctx.record(nm + ': the first field is multiplied by one phase', arg is not None, fn=f['name'])
        if arg is None: continue
        if C == 1:
            # (-1)^s = 1 for even spins: the opposite direction is as good
            ctx.record(nm + ': sign of the first field', sg == 1, fn=f['name'])
            is_dir(ctx, nm + ': first', pc, L, arg, (v[0], v[1]), C, f['name'])
        else:
            # direction at p1 of the great circle coming from p2, turned by 180 degrees
            ctx.record(nm + ': sign of the first field', sg == (-1) ** s, fn=f['name'])
            is_dir(ctx, nm + ': first', pc, L, arg, (v[1], v[0]), C, f['name'])

def project3(ctx, paths, D, C, f):
    """Project(c1, c2, c3, z1, z2, z3): each field is rotated to the line joining its point and the centroid (even spin)"""
    P = prog(paths)
    Z = [Cx(Rl('z%d.re' % k), Rl('z%d.im' % k)) for k in (1, 2, 3)]
    ctx.record('even spin', SPIN[D] % 2 == 0, fn=f['name'])
    def go(st):
        E = Engine(P, st=st); L = Log(); setup(E, L, D, C)
        cs = [cellpos(E, 'c%d' % k, D, C) for k in (1, 2, 3)]
        v = pts(E, cs, D, C); L.points = v
        z = [TempLoc(x) for x in Z]
        E.run(f, None, cs + z); ctx.fns |= E.used
        return L, v, [Cx.of(x.get()) for x in z]
    for j, (st, (L, v, z)) in enumerate(explore(go, [])):
        pc = st.pc + unitpc(C, *v)
        for k in range(3):
            nm = 'path %d: field %d' % (j, k + 1)
            arg, sg = find_ph(L, z[k], Z[k])
            ctx.record(nm + ' is multiplied by one phase', arg is not None and sg == 1, fn=f['name'])
            if arg is None: continue
            if C == 1:
                cen = [(v[0][i] + v[1][i] + v[2][i]) / 3 for i in range(2)]
                # either sense: the spin is even
                g = Cx.of(arg); d = sub(cen, v[k])
                ctx.prove(nm + ': direction', pc, z3.And(RV(g.re) * d[1] == RV(g.im) * d[0], z3.And(RV(g.re) == 0, RV(g.im) == 0) == z3.And(d[0] == 0, d[1] == 0)), fn=f['name'])
                continue
            hit = [d for d in L.dirs if d[1].re.eq(arg.re) and d[1].im.eq(arg.im)] if is_z(arg.re) else []
            if not hit: ctx.record(nm + ': direction', False, fn=f['name']); continue
            w = on_sky(L, v, C)
            cen = [w[0][i] + w[1][i] + w[2][i] for i in range(3)]
            same_point(ctx, nm, pc, L, hit[0][0], (cen, v[k]), C, f['name'])

def projectx(ctx, paths, D, C, f):
    """ProjectX: z2 along p1-p2, z3 along p1-p3, z1 along the bisector of the two directions at p1"""
    P = prog(paths)
    Z = [Cx(Rl('z%d.re' % k), Rl('z%d.im' % k)) for k in (1, 2, 3)]
    d = [Rl('d1'), Rl('d2'), Rl('d3')]
    def go(st):
        E = Engine(P, st=st); L = Log(); setup(E, L, D, C)
        cs = [cellpos(E, 'c%d' % k, D, C) for k in (1, 2, 3)]
        v = pts(E, cs, D, C); L.points = v
        z = [TempLoc(x) for x in Z]
        E.run(f, None, cs + d + z); ctx.fns |= E.used
        return L, v, [Cx.of(x.get()) for x in z]
    for j, (st, (L, v, z)) in enumerate(explore(go, [x > 0 for x in d])):
        pc = st.pc + unitpc(C, *v) + [x > 0 for x in d]
        if C == 1: pc += [d[2] * d[2] == dot(sub(v[1], v[0]), sub(v[1], v[0])), d[1] * d[1] == dot(sub(v[2], v[0]), sub(v[2], v[0]))]
        args = []
        for k in range(3):
            nm = 'path %d: field %d' % (j, k + 1)
            arg, sg = find_ph(L, z[k], Z[k])
            ctx.record(nm + ' is multiplied by one phase', arg is not None and sg == 1, fn=f['name'])
            args.append(arg)
            if arg is None: continue
            if k: is_dir(ctx, nm, pc, L, arg, (v[0], v[k]), C, f['name'])
        if args[0] is None: continue
        a = Cx.of(args[0])
        if C == 1:
            e = [add([(v[1][i] - v[0][i]) / d[2] for i in range(2)], [(v[2][i] - v[0][i]) / d[1] for i in range(2)])][0]
            ctx.prove('path %d: field 1: bisector' % j, pc, z3.And(RV(a.re) * e[1] == RV(a.im) * e[0], RV(a.re) * e[0] + RV(a.im) * e[1] >= 0), fn=f['name'])
        else:
            # sum of the unit vectors along the directions at p1 of the circles coming from p2 and from p3 (even spin: either sense)
            ctx.record('path %d: even spin' % j, SPIN[D] % 2 == 0, fn=f['name'])
            hs = []
            for o in (1, 2):
                for dd in L.dirs:
                    if ok_point(L, dd[0][0], v[o], C) and ok_point(L, dd[0][1], v[0], C): hs.append(dd[1]); break
            if len(hs) != 2: ctx.record('path %d: field 1: directions at the first point' % j, False, fn=f['name']); continue
            n = [Rl('n%d' % k) for k in (0, 1)]
            h = [z3.And(n[k] > 0, n[k] * n[k] == hs[k].re * hs[k].re + hs[k].im * hs[k].im) for k in (0, 1)]
            sq = [sym.sqrt(x.re * x.re + x.im * x.im) for x in hs]
            e = [hs[0].re / sq[0] + hs[1].re / sq[1], hs[0].im / sq[0] + hs[1].im / sq[1]]
            nz = [z3.Or(x.re != 0, x.im != 0) for x in hs]
            ctx.prove('path %d: field 1: bisector' % j, pc + nz, z3.And(RV(a.re) == e[0], RV(a.im) == e[1]), fn=f['name'])

def ok_point(L, q, v, C):
    q, n = base_of(L, [RV(x) for x in q])
    return all(x.eq(y) for x, y in zip(q, v)) and (n > 0 or C == 3)

def expiphi(ctx, paths, C):
    """ExpIPhi(p1, p2, r): unit complex number along the direction of p2 as seen from p1 (up to a half turn on the sphere)"""
    P = prog(paths)
    f = P.one(r'^ProjectHelper<%d>::ExpIPhi$' % C)
    r = Rl('r')
    def go(st):
        E = Engine(P, st=st); L = Log(); setup(E, L, 2, C)
        r1, a = P3('p', C); r2, b = P3('q', C)
        v = Cx.of(val(E.run(f, None, [r1, r2, r]))); ctx.fns |= E.used
        return L, v, a, b
    for j, (st, (L, v, a, b)) in enumerate(explore(go, [r > 0])):
        pc = st.pc + unitpc(C, a, b) + [r > 0]; nm = 'path %d' % j
        if C == 1:
            d = sub(b, a); ctx.prove(nm + ': (p2 - p1)/r', pc, z3.And(RV(v.re) * r == d[0], RV(v.im) * r == d[1]), fn=f['name']); continue
        ctx.record(nm + ': one direction', len(L.dirs) == 1, fn=f['name'])
        if len(L.dirs) != 1: continue
        L.points = [a, b]; same_point(ctx, nm, pc, L, L.dirs[0][0], (b, a), 3, f['name'])
        z = L.dirs[0][1]; nz = [z3.Or(z.re != 0, z.im != 0)]
        ctx.prove(nm + ': along it', pc + nz, z3.And(RV(v.re) * z.im == RV(v.im) * z.re, RV(v.re) * z.re + RV(v.im) * z.im >= 0), fn=f['name'])
        ctx.prove(nm + ': unit modulus', pc + nz, RV(v.re) * RV(v.re) + RV(v.im) * RV(v.im) == 1, fn=f['name'])

def instances(paths):
    """(kind, types, C, function) of every instantiated projection"""
    P = prog(paths); out = []
    for f in P.find(r'^ProjectHelper<\d>::Project'):
        m = re.match(r'^ProjectHelper<(\d)>::(Project\w*)<([^<>]*)>$', f['name'])
        if not m: continue
        C, nm, t = int(m.group(1)), m.group(2), [int(x) for x in m.group(3).split(',')]
        n = len(f['params'])
        out.append((nm, n, t, C, f))
    return out

# ---------------------------------------------------------------- averages over a cell
def averages(ctx, paths, D, C):
    """CellData<D,C>::finishAverages: the field sum of a cell is the sum over [start,end) of the members' weighted fields, each
    transported to the cell centre along the great circle that joins them (flat: unchanged)."""
    P = prog(paths)
    f = P.one(r'^CellData<%d, %d>::finishAverages$' % (D, C))
    lo, hi = It('start'), It('end')
    def go(st):
        E = Engine(P, st=st); L = Log(); setup(E, L, D, C)
        E.contracts = [x for x in E.contracts if 'calculate_direction' not in x[0].pattern]
        o = Rec('CellData<%d, %d>' % (D, C), 'this', True)
        v = E.vec('vdata', 'std::pair<BaseCellData<%d> *, WPosLeafInfo>' % C)
        old = fieldvals(o, D)
        E.run(f, o, [v, lo, hi]); ctx.fns |= E.used
        pos = o.f.get('_pos')
        return L, fieldvals(o, D)
    base = [lo < hi, lo >= 0]
    for j, (st, (L, new)) in enumerate(explore(go, base)):
        nm = 'path %d' % j; N = f['name']
        if D == 0: ctx.record('no field', not st.journal if st.journal else True, fn=N); continue
        sums = st.ghost.get('sums', {})
        ts = [sums.get(str(x)) if is_z(x) else None for x in new]
        if not all(ts):
            if any('SUM!' in str(x) for x in new): ctx.undecided(nm + ': the field is one sum over the members of the cell', 'shape of the sum not recognised: %s' % new)
            else: ctx.record(nm + ': the field is one sum over the members of the cell', False, fn=N, note=str(new))
            continue
        for t in ts: ctx.prove(nm + ': the sum runs over all members of the cell', base + st.pc, z3.And(IV(t[2]) == lo, IV(t[3]) == hi), fn=N)
        g = ts[0][0]
        el = 'vdata[%s].first' % g
        nn = z3.Not(z3.Bool(el + '.null'))
        pc = base + st.pc + [nn, g >= lo, g < hi]
        ctx.assumed.add('the entries of vdata in [start,end) are not null (BuildCell nulls an entry only after it became a leaf, P08)')
        if D == 1:
            ctx.prove(nm + ': each member adds its weighted value', pc, RV(ts[0][1]) == Rl(el + '._wk'), fn=N); continue
        w = Cx(Rl(el + '._wg.re'), Rl(el + '._wg.im')); t = Cx(RV(ts[0][1]), RV(ts[1][1]))
        if any(x is not ts[0][0] and not x.eq(g) for x in (ts[1][0],)): ctx.record(nm + ': one loop', False, fn=N); continue
        if C == 1:
            ctx.prove(nm + ': each member adds its weighted field', pc, ceq(t, w), fn=N); continue
        cen, pi = [Rl('this._pos._' + k) for k in 'xyz'], [Rl(el + '._pos._' + k) for k in 'xyz']
        uc, up = (unit_of(L, cen) or cen, unit_of(L, pi) or pi) if C == 2 else (cen, pi)
        if C == 2: ctx.record(nm + ': both points are projected to the unit sphere', unit_of(L, cen) is not None and unit_of(L, pi) is not None, fn=N)
        pc += [dot(uc, uc) == 1, dot(up, up) == 1]
        d = sub(uc, up); dsq = dot(d, d)
        if not L.ph: ctx.record(nm + ': transported by a phase', False, fn=N); continue
        arg, u = L.ph[-1]
        eps = z3.RealVal('1e-12')
        ctx.prove(nm + ': a member away from the centre adds its field times one phase', pc + [dsq > eps], ceq(t, u * w), fn=N)
        ctx.prove(nm + ': a member within 1e-6 rad adds its field, with or without the phase', pc + [dsq <= eps], z3.Or(ceq(t, w), ceq(t, u * w)), fn=N)
        def D_(a, b): return Cx(a[0] * -b[1] + a[1] * b[0], a[0] * b[0] * b[2] + a[1] * b[1] * b[2] - a[2] * (b[0] * b[0] + b[1] * b[1]))
        # on the unit sphere b0^2+b1^2 = 1 - b2^2, so the second component is b2 (a.b) - a2
        def D1(a, b): return Cx(a[1] * b[0] - a[0] * b[1], b[2] * dot(a, b) - a[2])
        for k, (x, y) in enumerate(((uc, up), (up, uc))):
            ctx.prove(nm + ': lemma: direction %d' % k, pc, ceq(D_(x, y), D1(x, y)), fn=N)
        c = Rl('cosd'); pc2 = pc + [c == dot(uc, up), dsq == 2 - 2 * c]
        ctx.prove(nm + ': lemma: chord', pc, dsq == 2 - 2 * dot(uc, up), fn=N)
        a1 = Cx(uc[1] * up[0] - uc[0] * up[1], up[2] * c - uc[2]); a2 = Cx(up[1] * uc[0] - up[0] * uc[1], uc[2] * c - up[2])
        T = -(a2.conj() * a1)
        ctx.prove(nm + ': transport angle', pc2 + [dsq > eps], z3.And(RV(arg.re) == T.re, z3.Or(RV(arg.im) == T.im, RV(arg.im) == -T.im)), fn=N)
        if SPIN[D]: ctx.prove(nm + ': transport sense', pc2 + [dsq > eps], RV(arg.im) == T.im, fn=N)
    ctx.sat('reach', base)

def fieldvals(o, D):
    if D == 0: return []
    if D == 1: return [o.f.get('_wk', Rl(o.name + '._wk'))]
    z = Cx.of(o.f['_wg']) if '_wg' in o.f else Cx(Rl('o.wg'), Rl('o.wgi'))
    return [z.re, z.im]
