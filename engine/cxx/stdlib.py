"""Assumed contracts of the C++ standard library functions used by the code (trusted; listed in the evidence)."""
import re
from fractions import Fraction
import z3
from engine.sym import *
import engine.sym as sym
from engine.cxx.interp import *

TRUSTED = ['std::complex arithmetic', 'std::min/max/abs/swap/sqrt', 'log/exp/sin/cos/asin/acos (monotonicity, inverse and Pythagoras axioms)',
           'std::vector/std::shared_ptr element access']

def _v(x): return x.get() if isinstance(x, Loc) else x

def builtin(E, e, name, this, al, fr):
    pref = e.get('pref', [])
    base = re.sub(r'<.*', '', name)
    m = re.match(r'std::complex<.*?>::(.*)$', name)
    if m: return _complex(E, e, m.group(1), this, al, fr)
    if base in ('std::abs', 'fabs', 'std::fabs', 'abs'):
        v = E.rv(al[0], fr)
        if isinstance(v, Cx): return sym.sqrt(v.norm())
        return ite(cmp('>=', v, 0), v, neg(v))
    if base in ('std::min', 'std::max'):
        a, b = [_v(x) for x in E.args(al, pref, fr)]
        return TempLoc(ite(cmp('<', b, a), b, a) if base == 'std::min' else ite(cmp('<', a, b), b, a))
    if base == 'std::swap':
        a, b = E.lv(al[0], fr), E.lv(al[1], fr)
        x, y = a.get(), b.get(); a.set(y); b.set(x); return None
    if base in ('sqrt', 'std::sqrt'):
        v = E.rv(al[0], fr)
        if isinstance(v, Cx): raise Unsupported('complex sqrt')
        h = getattr(E, 'onsqrt', None)
        if h: h(v)
        return sym.sqrt(v)
    if base in ('log', 'exp', 'sin', 'cos', 'asin', 'acos', 'tan', 'atan', 'std::log', 'std::exp', 'std::sin', 'std::cos', 'std::asin', 'std::acos'):
        v = E.rv(al[0], fr); b = base.replace('std::', '')
        if not is_z(v) and v == 0 and b in ('sin', 'asin', 'tan', 'atan'): return Fraction(0)
        if not is_z(v) and v == 0 and b in ('cos', 'exp'): return Fraction(1)
        return UF[b](RV(v))
    if base in ('atan2', 'pow', 'std::pow', 'std::atan2'):
        a, b = [E.rv(x, fr) for x in al]
        return UF2[base.replace('std::', '')](RV(a), RV(b))
    if base == 'sincos':
        v = RV(E.rv(al[0], fr)); s, c = E.rv(al[1], fr), E.rv(al[2], fr)
        _store(E, s, UF['sin'](v)); _store(E, c, UF['cos'](v)); return None
    if base in ('ceil', 'std::ceil'):
        v = E.rv(al[0], fr); return R(-z3.ToInt(-RV(v))) if is_z(R(v)) else Fraction(R(v).__ceil__())
    if base in ('floor', 'std::floor'):
        v = E.rv(al[0], fr); return R(z3.ToInt(RV(v))) if is_z(R(v)) else Fraction(R(v).__floor__())
    if base == 'std::norm': 
        v = _v(E.args(al, pref, fr)[0]); return Cx.of(v).norm()
    if base == 'std::conj': return Cx.of(_v(E.args(al, pref, fr)[0])).conj()
    if base == 'std::real': return Cx.of(_v(E.args(al, pref, fr)[0])).re
    if base == 'std::imag': return Cx.of(_v(E.args(al, pref, fr)[0])).im
    if base in ('std::operator*', 'std::operator+', 'std::operator-', 'std::operator/'):
        a = [_v(x) for x in E.args(al, pref, fr)]
        if len(a) == 1: return -a[0] if base.endswith('-') else a[0]
        return E.num(base[-1], a[0], a[1])
    if base in ('std::operator==', 'std::operator!='):
        a = [_v(x) for x in E.args(al, pref, fr)]
        if any(isinstance(x, Cx) for x in a):
            p, q = Cx.of(a[0]), Cx.of(a[1])
            r = land(cmp('==', p.re, q.re), cmp('==', p.im, q.im))
            return r if base.endswith('==') else lnot(r)
    if base.startswith('omp_'): return {'omp_get_thread_num': 0}.get(base, 1) if base != 'omp_set_num_threads' else None
    if name == 'std::numeric_limits<float>::min': return Fraction(2) ** -126
    if name == 'std::numeric_limits<double>::min': return Fraction(2) ** -1022
    if re.match(r'std::numeric_limits<(double|float)>::(infinity|max)', name):
        v = z3.Real('INF'); return v
    if base in ('std::forward', 'std::move'): return E.lv(al[0], fr)
    if re.match(r'std::make_pair\b', name):
        v = [_v(E.rv(x, fr)) for x in al]
        return Rec('std::pair', None, first=v[0], second=v[1].copy() if isinstance(v[1], Rec) else v[1])
    if 'ptr_access' in name or re.match(r'std::(shared|unique)_ptr', name):
        if name.endswith('operator*') or name.endswith('operator->') or name.endswith('::get'):
            v = _v(this)
            if name.endswith('operator*'):
                o = E.deref(v); return o if isinstance(o, Loc) else TempLoc(o)
            return v
        if name.endswith('operator bool'): return E.tobool(_v(this))
    m = re.match(r'std::vector<.*>::([^:]+)$', name)
    if m: return _vector(E, e, m.group(1), this, al, fr)
    if re.match(r'__gnu_cxx::', name): return _iter(E, e, name, this, al, fr)
    r = _tree(E, e, name, base, this, al, fr)
    if r is not NOTREE: return r
    if is_output(e): return None
    raise Unsupported('no contract for ' + name[:80])

NOTREE = object()
def _q(f):
    x = z3.Int('q!x'); return z3.ForAll([x], f(x))
class MapLoc(Loc):
    def __init__(self, E, m, k): self.E, self.m, self.k = E, m, k
    def get(self):
        from engine.cxx.interp import FieldLoc
        m = self.m; d = z3.Select(m.f['dom'], self.k)
        v = ite(d, z3.Select(m.f['val'], self.k), 0)
        self.set(v); return v
    def set(self, v):
        from engine.cxx.interp import FieldLoc
        m = self.m
        FieldLoc(self.E, m, 'n', 'int').set(ite(z3.Select(m.f['dom'], self.k), m.f['n'], arith('+', m.f['n'], 1)))
        FieldLoc(self.E, m, 'dom', '').set(z3.Store(m.f['dom'], self.k, z3.BoolVal(True)))
        FieldLoc(self.E, m, 'val', '').set(z3.Store(m.f['val'], self.k, IV(v)))
def _tree(E, e, name, base, this, al, fr):
    """std::set<long>, std::map<long, long>: membership and value arrays, ordered traversal"""
    from engine.cxx.interp import FieldLoc
    if base == 'std::copy':
        a, b, d = [_v(x) for x in E.args(al, e.get('pref', []), fr)]
        if not all(isinstance(x, Rec) and x.rec == 'iter' for x in (a, b, d)) or a.f['a'] is not b.f['a']: raise Unsupported('std::copy of other iterators')
        g = z3.Int('gi!%d' % next(E.st.fresh)); n = arith('-', b.f['i'], a.f['i'])
        w = ('map', d.f['i'], arith('+', d.f['i'], n), g, [(z3.BoolVal(True), a.f['a'].read(simp(IV(a.f['i']) + g - IV(d.f['i']))))])
        d.f['a'].writes.append(w); E.st.journal.append(('map', d.f['a']))
        r = d.copy(); r.f['i'] = arith('+', d.f['i'], n); return r
    m = re.match(r'std::set<(?:long|int|unsigned long)\b.*>::([^:>]+)$', name)
    if m:
        v = _v(this)
        if m.group(1) == 'size': return v.f['n']
        if m.group(1) == 'empty': return cmp('==', v.f['n'], 0)
        if m.group(1) in ('insert', 'count'):
            k = IV(_v(E.args(al, e.get('pref', []), fr)[0])); new = z3.Not(z3.Select(v.f['mem'], k))
            if m.group(1) == 'count': return ite(new, 0, 1)
            FieldLoc(E, v, 'n', 'int').set(ite(new, arith('+', v.f['n'], 1), v.f['n']))
            FieldLoc(E, v, 'mem', '').set(z3.Store(v.f['mem'], k, z3.BoolVal(True)))
            return Rec('std::pair', None, first=None, second=new)
        raise Unsupported('set::' + m.group(1))
    m = re.match(r'std::map<(?:long|int|unsigned long), (?:long|int|unsigned long)\b.*>::([^:>]+)$', name)
    if m:
        v = _v(this); op = m.group(1)
        if op == 'size': return v.f['n']
        if op == 'empty': return cmp('==', v.f['n'], 0)
        if op == 'operator[]': return MapLoc(E, v, IV(_v(E.args(al, e.get('pref', []), fr)[0])))
        if op == 'end': return Rec('mapiter', None, m=Ptr(v, False), key=0, end=True)
        if op == 'begin':
            k, end, dom = E.st.new('mk', 'I'), E.st.new('mend', 'B'), v.f['dom']
            E.st.assume(z3.If(end, _q(lambda x: z3.Not(z3.Select(dom, x))), z3.And(z3.Select(dom, k), _q(lambda x: z3.Implies(x < k, z3.Not(z3.Select(dom, x)))))))
            return Rec('mapiter', None, m=Ptr(v, False), key=k, end=end)
        raise Unsupported('map::' + op)
    if re.match(r'std::_Rb_tree_(const_)?iterator<', name) or base in ('std::operator==', 'std::operator!='):
        if name.endswith('operator->') or name.endswith('operator*'):
            it = _v(this); r = Rec('std::pair', None, first=it.f['key'], second=z3.Select(it.f['m'].to.f['val'], IV(it.f['key'])))
            return Ptr(r, False) if name.endswith('->') else TempLoc(r)
        if name.endswith('operator++'):
            it = _v(this); k, end, dom, k0 = E.st.new('mk', 'I'), E.st.new('mend', 'B'), it.f['m'].to.f['dom'], IV(it.f['key'])
            E.st.assume(z3.If(end, _q(lambda x: z3.Implies(x > k0, z3.Not(z3.Select(dom, x)))), z3.And(z3.Select(dom, k), k > k0, _q(lambda x: z3.Implies(z3.And(k0 < x, x < k), z3.Not(z3.Select(dom, x)))))))
            r = Rec('mapiter', None, m=it.f['m'], key=k, end=end); this.set(r); return this
        if 'operator==' in name or 'operator!=' in name:
            a, b = [_v(x) for x in ([this] if this is not None else []) + list(E.args(al, e.get('pref', []), fr))]
            if not (isinstance(a, Rec) and a.rec == 'mapiter' and isinstance(b, Rec) and b.rec == 'mapiter'): return NOTREE
            r = z3.Or(z3.And(BV(a.f['end']), BV(b.f['end'])), z3.And(z3.Not(BV(a.f['end'])), z3.Not(BV(b.f['end'])), IV(a.f['key']) == IV(b.f['key'])))
            return lnot(r) if 'operator!=' in name else r
    return NOTREE

def _store(E, p, v):
    if isinstance(p, ElemPtr): p.a.write(p.i, v)
    elif isinstance(p, Ptr) and isinstance(p.to, Loc): p.to.set(v)
    else: raise Unsupported('store through %r' % (p,))

def _complex(E, e, m, this, al, fr):
    a = [_v(x) for x in E.args(al, e.get('pref', []), fr)]
    if m in ('real', 'imag'):
        if not a: return getattr(Cx.of(_v(this)), 're' if m == 'real' else 'im')
        c = Cx.of(this.get()); this.set(Cx(a[0], c.im) if m == 'real' else Cx(c.re, a[0])); return None
    if m.startswith('operator='): this.set(Cx.of(a[0])); return this
    op = re.match(r'operator(.)=', m)
    if op: this.set(E.num(op.group(1), Cx.of(this.get()), a[0])); return this
    if m == '__rep' or m.startswith('operator'): pass
    raise Unsupported('complex::' + m)

def _vector(E, e, m, this, al, fr):
    v = _v(this)
    if not isinstance(v, Rec) or 'a' not in v.f: raise Unsupported('vector object')
    a, n = v.f['a'], v.f['n']
    if m in ('operator[]', 'at'):
        i = E.rv(al[0], fr)
        E.bounds(a, i)
        return ElemLoc(a, i)
    if m == 'size': return n
    if m == 'empty': return cmp('==', n, 0)
    if m == 'back': return ElemLoc(a, arith('-', n, 1))
    if m == 'front': return ElemLoc(a, 0)
    if m == 'push_back':
        x = _v(E.args(al, e['pref'], fr)[0])
        a.write(n, x.copy() if isinstance(x, Rec) else x)
        FieldLoc(E, v, 'n', 'int').set(arith('+', n, 1)); return None
    if m == 'begin': return Rec('iter', None, a=a, i=0, v=v)
    if m == 'end': return Rec('iter', None, a=a, i=n, v=v)
    if m in ('reserve',): return None
    if m == 'operator=':
        x = _v(E.args(al, e.get('pref', []), fr)[0])
        if isinstance(x, Rec) and x.rec == 'std::vector':
            x = x.copy()
            for k in ('a', 'n'): FieldLoc(E, v, k, 'int').set(x.f[k])
            return this if isinstance(this, Loc) else TempLoc(v)
    if m == 'resize' and len(al) <= 2:
        FieldLoc(E, v, 'n', 'int').set(E.rv(al[0], fr)); return None
    if m == 'clear': FieldLoc(E, v, 'n', 'int').set(0); return None
    raise Unsupported('vector::' + m)

def _iter(E, e, name, this, al, fr):
    if name.endswith('operator*'):
        it = _v(this); return ElemLoc(it.f['a'], it.f['i'])
    if name.endswith('operator++'):
        it = this.get(); it2 = E.incr(it, '++'); this.set(it2); return this
    if 'operator!=' in name or 'operator==' in name:
        a, b = [_v(x) for x in E.args(al, e.get('pref', []), fr)]
        r = cmp('==', a.f['i'], b.f['i'])
        return lnot(r) if 'operator!=' in name else r
    if name.endswith('operator+'):
        it = _v(this); r = it.copy(); r.f['i'] = arith('+', it.f['i'], E.rv(al[0], fr)); return r
    if 'operator-' in name:
        a = [_v(x) for x in ([this] if this is not None else []) + list(E.args(al, e.get('pref', []), fr))]
        if isinstance(a[1], Rec): return arith('-', a[0].f['i'], a[1].f['i'])
        r = a[0].copy(); r.f['i'] = arith('-', a[0].f['i'], a[1]); return r
    raise Unsupported('iterator ' + name[:60])

def construct(E, e, t, fr):
    a = e['a']
    m = re.match(r'std::vector<(.*), std::allocator<.*>>$', t)
    if m:
        n = 0
        init = None
        vals = E.args(a, e.get('pref', []), fr)
        vals = [x for x in vals if not (isinstance(_v(x), Rec) and 'allocator' in str(_v(x).rec))]
        if vals:
            n = _v(vals[0])
            if isinstance(n, Rec): return n.copy()
            if len(vals) > 1: init = _v(vals[1])
        r = E.vec('vec!%d' % next(E.st.fresh), m.group(1), n)
        if r.f['a'].base is not None:
            z = init if init is not None else (Cx(0, 0) if is_complex(norm_t(m.group(1))) else Fraction(0) if norm_t(m.group(1)) in ('double', 'float') else 0)
            r.f['a'].base = lambda i, z=z: z
        return r
    if t.startswith('std::allocator'): return Rec(t, 'alloc')
    if re.match(r'std::(shared|unique)_ptr', t):
        if not a: return NULL
        v = E.args(a, e.get('pref', []), fr)
        return _v(v[0])
    if t.startswith('__gnu_cxx'):
        v = [_v(x) for x in E.args(a, e.get('pref', []), fr)]
        return v[0] if v else None
    if t.startswith('std::basic_') or t.startswith('std::string'): return Rec(t, 'str')
    m = re.match(r'std::pair<', t)
    if m:
        v = [_v(x) for x in E.args(a, e.get('pref', []), fr)]
        if len(v) == 2: return Rec(t, None, first=v[0], second=v[1].copy() if isinstance(v[1], Rec) else v[1])
        if len(v) == 1 and isinstance(v[0], Rec) and 'first' in v[0].f: return Rec(t, None, **{k: (x.copy() if isinstance(x, Rec) else x) for k, x in v[0].f.items()})
    if re.match(r'std::set<(long|int|unsigned long)\b', t) and not a: return Rec('std::set', 'set', mem=z3.K(z3.IntSort(), z3.BoolVal(False)), n=0)
    if re.match(r'std::map<(long|int|unsigned long), (long|int|unsigned long)\b', t) and not a: return Rec('std::map', 'map', dom=z3.K(z3.IntSort(), z3.BoolVal(False)), val=z3.K(z3.IntSort(), z3.IntVal(0)), n=0)
    if re.match(r'std::_Rb_tree_', t):
        v = [_v(x) for x in E.args(a, e.get('pref', []), fr)]
        return v[0].copy() if len(v) == 1 and isinstance(v[0], Rec) else (v[0] if v else None)
    raise Unsupported('construct ' + t[:60])
