"""P16: contracts of finalize / _finalize / _apply_units and of the shot-noise variance on the real Python code"""
from specs.pyobj import *
from engine.sym import UF
VN2 = {'NN': None, 'NK': lambda v: v[0], 'NZ': lambda v: v[0], 'KK': lambda v: v[0] * v[1], 'KZ': lambda v: v[0] * v[1], 'ZZ': lambda v: 2 * v[0] * v[1]}
def kind(tp):
    spin = lambda c: 'Z' if c in 'ZVGTQ' else c
    return spin(tp[0]) + spin(tp[1])
NAMES2 = {'NN': {}, 'NK': {'raw_xi': 1}, 'NZ': {'raw_xi': 1, 'raw_xi_im': 2}, 'KK': {'xi': 1}, 'KZ': {'xi': 1, 'xi_im': 2}, 'ZZ': {'xip': 1, 'xip_im': 2, 'xim': 3, 'xim_im': 4}}
def ang(x): return 2 * UF['asin'](RV(x) / 2)

def units2(c, d, su, lsu, mr, ml):
    if c.coords == 'spherical' and c.metric == 'Euclidean':
        mr, ml = ang(mr), UF['log'](ang(UF['exp'](ml)))
    return mr / su, ml - lsu

def args_of(tp):
    k = tp.replace('N', '')
    return [z3.Real('var%s%d' % (x, i)) for i, x in enumerate(k)]

def setup2(tp, coords, metric):
    c, names = corr2(tp, 'a')
    c._ro._sep_units, c._ro._log_sep_units = scalar('sep_units'), scalar('log_sep_units')
    state().assume(z3.Real('sep_units') > 0)
    c._ro._nbins = SArr((), z3.Int('len_b'))
    c.coords, c.metric = coords, metric
    return c, names

def p16_two(ctx, tp, coords, metric):
    cls = None
    def fin():
        c, names = setup2(tp, coords, metric)
        old = vals(c, names)
        vs = args_of(tp)
        c.finalize(*[SArr((), v) for v in vs])
        return c, names, old, vs
    kd = kind(tp)
    nominal = {m: SArr.new('ro.' + m, ('b',)).v for m in ('rnom', 'logr')}
    for j, (st, (k, r)) in enumerate(run(fin)):
        if k == 'raise': ctx.undecided('finalize', 'raises %r' % (r,)); continue
        c, names, old, vs = r
        cls = type(c); f = fname(cls._finalize); ctx.fns |= {f, fname(cls.finalize), fname(cls._apply_units)}
        new = vals(c, names)
        w = RV(old['weight']); nz = w != 0
        su, lsu = z3.Real('sep_units'), z3.Real('log_sep_units')
        for m in ('weight', 'npairs', 'tot'):
            if m in old: ctx.prove('finalize leaves %s alone' % m, st.pc, RV(new[m]) == RV(old[m]), fn=f)
        for m in names:
            if m.startswith('_xi'):
                ctx.prove('finalize: %s is its weighted sum over the weight' % m, st.pc + [nz], RV(new[m]) == RV(old[m]) / w, fn=f)
                ctx.prove('finalize: %s stays zero in a bin without weight' % m, st.pc + [w == 0, RV(old[m]) == 0], RV(new[m]) == 0, fn=f)
        mr, ml = units2(c, c, su, lsu, RV(old['meanr']) / w, RV(old['meanlogr']) / w)
        ctx.prove('finalize: meanr is the mean separation in the requested units', st.pc + [nz], RV(new['meanr']) == mr, fn=f)
        ctx.prove('finalize: meanlogr is the mean log separation in the requested units', st.pc + [nz], RV(new['meanlogr']) == ml, fn=f)
        ctx.prove('finalize: meanr is nominal in a bin without weight', st.pc + [w == 0], RV(new['meanr']) == nominal['rnom'], fn=f)
        ctx.prove('finalize: meanlogr is nominal in a bin without weight', st.pc + [w == 0], RV(new['meanlogr']) == nominal['logr'], fn=f)
        for nm, i in NAMES2[kd].items():
            v = getattr(c, nm)
            ctx.prove('%s is component %d' % (nm, i), st.pc, RV(v.v) == RV(new['_xi%d' % i]), fn='treecorr:%s' % nm)
        if kd in ('NK', 'NZ'):
            for nm, i in (('xi', 1), ('xi_im', 2)):
                if hasattr(c, nm): ctx.prove('%s starts as component %d' % (nm, i), st.pc, RV(getattr(c, nm).v) == RV(new['_xi%d' % i]), fn=f)
        if VN2[kd] is not None:
            ctx.prove('the variance numerator is the documented combination', st.pc, RV(lift(c._var_num)) == VN2[kd](vs), fn=fname(cls.finalize))
    # shot-noise variance
    def shot():
        c, names = setup2(tp, coords, metric)
        c._var_num = scalar('var_num')
        if tp == 'NN': c._rr_weight = SArr.new('rrw', ('b',))
        nm = {'NN': [], 'NK': ['raw_varxi', 'varxi'], 'NZ': ['raw_varxi', 'varxi'], 'KK': ['varxi'], 'KZ': ['varxi'], 'ZZ': ['varxip', 'varxim']}[kd]
        out = [(n, getattr(c, n)) for n in nm]
        return c, c.cov_diag, out
    for j, (st, (k, r)) in enumerate(run(shot)):
        if k == 'raise': ctx.undecided('variance', 'raises %r' % (r,)); continue
        c, cd, out = r
        w = z3.Real('x')
        w = RV(SArr.new('rrw', ('b',)).v) if tp == 'NN' else RV(c.weight.v)
        vn = z3.Real('var_num'); want = z3.If(w != 0, vn / w, z3.RealVal(0))
        import treecorr.corr2base as B
        f = fname(B._cov_shot); ctx.fns.add(f)
        parts = cd.parts if type(cd) is SCat else [cd]
        ctx.record('the variance has one block per data vector', len(parts) == (2 if kd == 'ZZ' else 1), fn=f)
        for i, p in enumerate(parts): ctx.prove('shot variance block %d is numerator over weight' % i, st.pc, RV(p.v) == want, fn=f)
        for n, a in out: ctx.prove('%s is numerator over weight' % n, st.pc, RV(a.v) == want, fn=fname(type(c).__dict__.get(n, getattr(type(c), n)).fget))

def p16_three(ctx, tp, bt, coords, metric):
    def mk():
        c, names = corr3(tp, bt, 'a', shaped=True)
        for u in ('sep_units', 'log_sep_units', 'phi_units'): setattr(c._ro, '_' + u, scalar(u))
        state().assume(z3.And(z3.Real('sep_units') > 0, z3.Real('phi_units') > 0))
        c._ro._nbins = SArr((), z3.Int('len_' + '_'.join(c.sym_axes)))
        c.coords, c.metric = coords, metric
        return c, names
    mult = bt == 'LogMultipole'
    def fin():
        c, names = mk(); old = vals(c, names); vs = args_of(tp)
        c.finalize(*[SArr((), v) for v in vs])
        return c, names, old, vs
    ax = ('i', 'j', 'n') if mult else ('b',)
    N = {m: RV(SArr.new('ro.' + m, ax).v) for m in ('rnom', 'logr', 'u', 'v', 'd2nom', 'logd2', 'd3nom', 'logd3', 'phi')}
    su, lsu, pu = z3.Real('sep_units'), z3.Real('log_sep_units'), z3.Real('phi_units')
    sph = coords == 'spherical' and metric == 'Euclidean'
    L, E = UF['log'], UF['exp']
    for j, (st, (k, r)) in enumerate(run(fin)):
        if k == 'raise': ctx.undecided('finalize', 'raises %r' % (r,)); continue
        c, names, old, vs = r
        cls = type(c); f = fname(cls._finalize); ctx.fns |= {f, fname(cls.finalize), fname(cls._apply_units)}
        new = vals(c, names)
        w = RV(old['weightr']); nz = w != 0
        at = lambda e: z3.substitute(RV(e), (axis('n'), z3.Int('max_n'))) if mult else RV(e)      # value in the n=0 slot
        for m in ('weightr', 'weighti', 'tot'):
            if m in old: ctx.prove('finalize leaves %s alone' % m, st.pc, RV(new[m]) == RV(old[m]), fn=f)
        ctx.prove('finalize: ntri %s' % ('is the n=0 count' if mult else 'unchanged'), st.pc, RV(new['ntri']) == at(old['ntri']), fn=f)
        for m in names:
            if m.startswith('_z'):
                if mult: ctx.prove('finalize leaves the multipole coefficients %s alone' % m, st.pc, RV(new[m]) == RV(old[m]), fn=f)
                else:
                    ctx.prove('finalize: %s is its weighted sum over the weight' % m, st.pc + [nz], RV(new[m]) == RV(old[m]) / w, fn=f)
                    ctx.prove('finalize: %s stays zero in a bin without weight' % m, st.pc + [w == 0, RV(old[m]) == 0], RV(new[m]) == 0, fn=f)
        W = at(w)
        def conv(x, lg=False):
            if sph: x = L(ang(E(x))) if lg else ang(x)
            return x - lsu if lg else x / su
        md = {m: at(old[m]) / W for m in ('meand2', 'meand3', 'meanlogd2', 'meanlogd3')}
        for q in ('2', '3') + (() if mult else ('1',)):
            m, l = 'meand' + q, 'meanlogd' + q
            ctx.prove('finalize: %s is the mean side length in the requested units' % m, st.pc + [W != 0], RV(new[m]) == conv(at(old[m]) / W), fn=f)
            ctx.prove('finalize: %s is the mean log side length in the requested units' % l, st.pc + [W != 0], RV(new[l]) == conv(at(old[l]) / W, True), fn=f)
        if bt == 'LogRUV':
            for m in ('meanu', 'meanv'): ctx.prove('finalize: %s is the mean' % m, st.pc + [nz], RV(new[m]) == RV(old[m]) / w, fn=f)
            nom = dict(meand2=N['rnom'], meanlogd2=N['logr'], meanu=N['u'], meanv=N['v'], meand3=N['u'] * N['rnom'],
                       meand1=z3.If(N['v'] >= 0, N['v'], -N['v']) * N['u'] * N['rnom'] + N['rnom'])
        elif bt == 'LogSAS':
            ph = RV(old['meanu']) / w
            if sph:
                cph = (UF['cos'](ph) - md['meand2'] * md['meand3'] / 4) / RV(sym.sqrt((1 - md['meand2'] * md['meand2'] / 4) * (1 - md['meand3'] * md['meand3'] / 4)))
                ph = UF['acos'](z3.If(cph < -1, z3.RealVal(-1), z3.If(cph > 1, z3.RealVal(1), cph)))
            ctx.prove('finalize: meanphi is the mean angle in the requested units', st.pc + [nz], RV(new['meanu']) == ph / pu, fn=f)
            nom = dict(meand2=N['d2nom'], meanlogd2=N['logd2'], meand3=N['d3nom'], meanlogd3=N['logd3'], meanu=N['phi'] / pu,
                       meand1=RV(sym.sqrt(N['d2nom'] * N['d2nom'] + N['d3nom'] * N['d3nom'] - 2 * N['d2nom'] * N['d3nom'] * UF['cos'](N['phi']))))
        else:
            nom = dict(meand2=N['d2nom'], meanlogd2=N['logd2'], meand3=N['d3nom'], meanlogd3=N['logd3'])
        if not mult: nom['meanlogd1'] = L(nom['meand1'])
        if bt == 'LogRUV': nom['meanlogd3'] = L(nom['meand3'])
        for m, v in nom.items(): ctx.prove('finalize: %s is nominal in a bin without weight' % m, st.pc + [W == 0], RV(new[m]) == at(v), fn=f)
        if tp != 'NNN':
            fac = (4 if tp == 'GGG' else 1) * (1 if bt == 'LogRUV' else 2)
            ctx.prove('the variance numerator is the documented combination', st.pc, RV(lift(c._var_num)) == fac * vs[0] * vs[1] * vs[2], fn=fname(cls.finalize))
    def shot():
        c, names = mk(); c._var_num = scalar('var_num')
        if tp == 'NNN': c._rrr_weight = SArr.new('rrw', ax)
        nm = {'NNN': [], 'KKK': ['varzeta'], 'GGG': ['vargam0', 'vargam1', 'vargam2', 'vargam3']}[tp]
        return c, c.cov_diag, [(n, getattr(c, n)) for n in nm]
    for j, (st, (k, r)) in enumerate(run(shot)):
        if k == 'raise': ctx.undecided('variance', 'raises %r' % (r,)); continue
        c, cd, out = r
        import treecorr.corr2base as B
        f = fname(B._cov_shot); ctx.fns.add(f)
        w = RV(SArr.new('rrw', ax).v) if tp == 'NNN' else RV(c.weightr.v)
        if mult and tp != 'NNN': w = RV(sym.sqrt(arith('+', arith('*', c.weightr.v, c.weightr.v), arith('*', c.weighti.v, c.weighti.v))))
        elif tp != 'NNN': w = z3.If(w >= 0, w, -w)
        vn = z3.Real('var_num'); want = z3.If(w != 0, vn / w, z3.RealVal(0))
        parts = cd.parts if type(cd) is SCat else [cd]
        ctx.record('the variance has one block per data vector', len(parts) == (4 if tp == 'GGG' else 1), fn=f)
        for i, p in enumerate(parts): ctx.prove('shot variance block %d is numerator over weight' % i, st.pc, RV(p.v) == want, fn=f)
        for n, a in out: ctx.prove('%s is numerator over weight' % n, st.pc, RV(a.v) == want, fn=fname(type(c).__dict__.get(n, getattr(type(c), n)).fget))
