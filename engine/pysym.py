"""Symbolic execution of the real Python functions of /repo by CPython itself: the code object that runs is the code
that is verified.  Arrays are given by their value at a generic index (one z3 constant per axis), numpy operations are
intercepted with numpy's own override protocols, branches fork through the path explorer of sym.py.

SArr(axes, v): axes = tuple of axis names (or None for length-1 axes), v = z3 real/int/bool, exact number or Cx."""
import numpy as np, z3, itertools, math, sys, os
from fractions import Fraction
from engine import sym
from engine.sym import R, RV, BV, Cx, is_z, arith, cmp, neg, Unsupported, explore

CUR = [None]                       # current State
def state(): return CUR[0]

def lift(x):
    """python/numpy scalar -> exact value"""
    if isinstance(x, SArr): return x.v
    if isinstance(x, (bool, np.bool_)): return bool(x)
    if isinstance(x, (int, np.integer)): return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or abs(x) == float('inf'): raise Unsupported('non-finite constant')
        q = Fraction(x).limit_denominator(100)
        return q if float(q) == x else Fraction(repr(x))       # 1/3. stands for one third
    if isinstance(x, (complex, np.complexfloating)): return Cx(lift(x.real), lift(x.imag))
    if isinstance(x, (Fraction, Cx)) or is_z(x): return x
    raise Unsupported('value %r' % type(x))

def isb(v): return isinstance(v, bool) or (is_z(v) and z3.is_bool(v))
def vmap(f, *vs): return f(*vs)
def vadd(a, b): return Cx.of(a) + b if isinstance(a, Cx) or isinstance(b, Cx) else arith('+', a, b)
def vsub(a, b): return Cx.of(a) - Cx.of(b) if isinstance(a, Cx) or isinstance(b, Cx) else arith('-', a, b)
def vmul(a, b):
    if isinstance(a, Cx): return a * b
    if isinstance(b, Cx): return b * a
    if isb(a) and isb(b): return vand(a, b)
    return arith('*', a, b)
def vdiv(a, b):
    if isinstance(a, Cx): return a / b
    if isinstance(b, Cx): return Cx.of(a) / b
    return arith('/', R(a), R(b))
def vand(a, b): return (a and b) if not is_z(a) and not is_z(b) else z3.And(BV(a), BV(b))
def vor(a, b): return (a or b) if not is_z(a) and not is_z(b) else z3.Or(BV(a), BV(b))
def vnot(a): return (not a) if not is_z(a) else z3.Not(BV(a))
def vite(c, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = Cx.of(a), Cx.of(b); return Cx(vite(c, a.re, b.re), vite(c, a.im, b.im))
    if not is_z(c): return a if c else b
    if isb(a) and isb(b): return z3.If(c, BV(a), BV(b))
    return z3.If(c, RV(a), RV(b))
def vabs(a):
    if isinstance(a, Cx): return a.sqof.norm() if getattr(a, 'sqof', None) is not None else sym.sqrt(a.norm())      # |z^2| = |z|^2
    a = R(a)
    return abs(a) if isinstance(a, Fraction) else z3.If(a >= 0, a, -a)
def uf(n):
    def f(a):
        a = R(a)
        return sym.UF[n](RV(a))
    return f
def vcmp(op): 
    def f(a, b):
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = Cx.of(a), Cx.of(b)
            e = vand(cmp('==', a.re, b.re), cmp('==', a.im, b.im))
            if op == '==': return e
            if op == '!=': return vnot(e)
            raise Unsupported('complex order')
        return cmp(op, a, b)
    return f
def vfloor(a):
    a = R(a)
    if isinstance(a, Fraction): return Fraction(math.floor(a))
    return z3.ToReal(z3.ToInt(a))
def vceil(a):
    a = R(a)
    if isinstance(a, Fraction): return Fraction(math.ceil(a))
    return -z3.ToReal(z3.ToInt(-a))
def vpow(a, n):
    n = R(n) if not isinstance(n, Cx) else n
    if isinstance(n, Fraction) and n.denominator == 1 and 0 <= n <= 6:
        r = 1
        for _ in range(int(n)): r = vmul(r, a)
        if n == 2 and isinstance(a, Cx) and isinstance(r, Cx): r.sqof = a
        return r
    if isinstance(n, Fraction) and n.denominator == 1 and -6 <= n < 0: return vdiv(1, vpow(a, -n))
    if n == Fraction(1, 2): return sym.sqrt(a)
    return sym.UF2['pow'](RV(a), RV(n))

def vexp(a): return Fraction(1) if not is_z(R(a)) and R(a) == 0 else uf('exp')(a)
UN = dict(negative=lambda a: -a if isinstance(a, Cx) else neg(a), positive=lambda a: a, absolute=vabs, conjugate=lambda a: a.conj() if isinstance(a, Cx) else a, sqrt=lambda a: sym.sqrt(a),
          log=uf('log'), exp=lambda a: Cx(vmul(vexp(a.re), uf('cos')(a.im)), vmul(vexp(a.re), uf('sin')(a.im))) if isinstance(a, Cx) else uf('exp')(a), sin=uf('sin'), cos=uf('cos'), tan=uf('tan'), arcsin=uf('asin'), arccos=uf('acos'), arctan=uf('atan'),
          square=lambda a: vmul(a, a), reciprocal=lambda a: vdiv(1, a), logical_not=vnot, invert=vnot, floor=vfloor, ceil=vceil, isnan=lambda a: False, isfinite=lambda a: True,
          sign=lambda a: z3.If(RV(a) > 0, z3.RealVal(1), z3.If(RV(a) < 0, z3.RealVal(-1), z3.RealVal(0))))
BIN = dict(add=vadd, subtract=vsub, multiply=vmul, divide=vdiv, true_divide=vdiv, logical_and=vand, logical_or=vor, bitwise_and=vand, bitwise_or=vor,
           less=vcmp('<'), greater=vcmp('>'), less_equal=vcmp('<='), greater_equal=vcmp('>='), equal=vcmp('=='), not_equal=vcmp('!='), power=vpow, float_power=vpow,
           maximum=lambda a, b: vite(cmp('>=', a, b), a, b), minimum=lambda a, b: vite(cmp('<=', a, b), a, b), arctan2=lambda a, b: sym.UF2['atan2'](RV(a), RV(b)),
           floor_divide=lambda a, b: vfloor(vdiv(a, b)), remainder=lambda a, b: vsub(a, vmul(b, vfloor(vdiv(a, b)))), hypot=lambda a, b: sym.sqrt(vadd(vmul(a, a), vmul(b, b))))
BIN['bitwise_xor'] = BIN['logical_xor'] = lambda a, b: z3.Xor(BV(a), BV(b))

AX = {}
def axis(n):
    """the generic index of an axis"""
    if n not in AX: AX[n] = z3.Int('ix_' + n)
    return AX[n]

def toint(v):
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, Fraction) and v.denominator == 1: return z3.IntVal(int(v))
    if is_z(v) and z3.is_int(v): return v
    if is_z(v) and v.num_args() == 1 and v.decl().kind() == z3.Z3_OP_TO_REAL: return v.arg(0)
    raise Unsupported('index value')
def vsubst(v, sub):
    if isinstance(v, Cx): return Cx(vsubst(v.re, sub), vsubst(v.im, sub))
    return z3.substitute(v, *sub) if is_z(v) else v

SUMS = {}
MARK = [None]      # when set: a sum over an axis is its summand at the generic index, times this symbol (results are compared summand by summand)
def total(ax, v):
    if MARK[0] is not None: return vmul(MARK[0], v)
    return total_(ax, v)
def total_(ax, v):
    """sum over an axis: an uninterpreted value determined by the summand (as a function of the remaining indices);
    linear in numeric factors and additive"""
    if isinstance(v, Cx): return Cx(total_(ax, v.re), total_(ax, v.im))
    if isb(v): v = R(v)
    i = axis(ax)
    N = z3.ToReal(z3.Int('len_' + ax))
    if not is_z(v): return arith('*', R(v), N)
    v = z3.simplify(RV(v), som=True)
    if z3.is_add(v): 
        r = Fraction(0)
        for c in v.children(): r = arith('+', r, total_(ax, c))
        return r
    if not depends(v, i): return arith('*', v, N)
    if z3.is_mul(v):
        out = [c for c in v.children() if not depends(c, i)]; inn = [c for c in v.children() if depends(c, i)]
        if out: return z3.Product(*out) * total_(ax, inn[0] if len(inn) == 1 else z3.Product(*inn))
    key = (ax, v.sexpr())
    free = sorted({c.sexpr() for c in idx_consts(v)} - {i.sexpr()})
    if key not in SUMS: SUMS[key] = (z3.Function('sum%d' % len(SUMS), *([z3.IntSort()] * len(free) + [z3.RealSort()])) if free else z3.Real('sum%d' % len(SUMS)), v)
    f = SUMS[key][0]
    return f(*[z3.Int(n) for n in free]) if free else f
def depends(e, i):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(i): return True
        st += x.children()
    return False
def idx_consts(e):
    seen, st, out = set(), [e], []
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().name().startswith('ix_'): out.append(x)
        st += x.children()
    return out

def isfull(k): return isinstance(k, slice) and k.start is None and k.stop is None and k.step is None
class SShape(tuple):
    """the shape of a symbolic array as the code stores it"""
    def __new__(cls, axes): r = tuple.__new__(cls, tuple(Size(a) for a in axes)); r.axes = tuple(axes); return r
def Size(ax):
    """symbolic length of an axis"""
    n = z3.Int('len_' + ax)
    if state() is not None: state().assume(n >= 1)
    return SArr((), n)
class SIter:
    """a sequence of unknown length: every iteration over it yields one generic element (elem() makes a fresh one)"""
    def __init__(self, elem): self.elem = elem
    def __iter__(self): return iter([self.elem()])
    def keys(self): return self
RANGES = []
def symrange(*a):
    if not any(type(x) is SArr for x in a): return range(*a)
    if len(a) != 1: raise Unsupported('range with a start')
    def e():
        i = state().new('it', 'I'); state().assume(z3.And(i >= 0, RV(i) < RV(a[0].v)))
        RANGES.append((i, a[0].v)); return SArr((), i)
    return SIter(e)

class SArr(np.lib.mixins.NDArrayOperatorsMixin):
    __array_priority__ = 1000
    @property
    def __class__(self): return np.ndarray          # isinstance(x, np.ndarray) holds for symbolic arrays too
    def __init__(self, axes, v, mask=None, parent=None, readonly=False):
        self.axes, self.v, self.mask, self.parent = tuple(axes), v, mask, parent
        self.readonly = readonly
    # -- construction
    @staticmethod
    def new(name, axes, kind='R'):
        ix = [axis(a) for a in axes if a is not None]
        mk = lambda n, s: z3.Function(n, *([z3.IntSort()] * len(ix) + [s]))(*ix) if ix else z3.Const(n, s)
        if kind == 'C': return SArr(axes, Cx(mk(name + '.re', z3.RealSort()), mk(name + '.im', z3.RealSort())))
        return SArr(axes, mk(name, {'R': z3.RealSort(), 'B': z3.BoolSort(), 'I': z3.IntSort()}[kind]))
    def __repr__(self): return 'SArr(%s, %s)' % (self.axes, self.v)
    # -- array attributes
    @property
    def shape(self): return tuple(1 if a is None else Size(a) for a in self.axes)
    @property
    def ndim(self): return 1 if self.flat_ and self.axes else len(self.axes)
    flat_ = False
    @property
    def dtype(self): return np.dtype(complex if isinstance(self.v, Cx) else bool if isb(self.v) else float)
    @property
    def size(self):
        n = z3.Int('len_' + '_'.join(str(a) for a in self.axes))
        if state() is not None: state().assume(n >= 1)
        return SArr((), n)
    @property
    def real(self): return SView(self, 're')
    @property
    def imag(self): return SView(self, 'im')
    @property
    def T(self): return SArr(self.axes[::-1], self.v)
    @property
    def flags(self): return SFlags(self)
    def copy(self):
        r = SArr(self.axes, self.v, self.mask)
        if self.flat_: r.flat_ = True
        return r
    def ravel(self):
        if len(self.axes) <= 1: return self
        r = SArr.view(self) if type(self) is not SView else SArr(self.axes, self.v)
        r.flat_ = True; return r
    def flatten(self): return self.copy()
    def reshape(self, *a): return self
    def astype(self, t, copy=True):
        if t in (complex, np.complex128): return SArr(self.axes, Cx.of(self.v), self.mask)
        if t in (int, np.int64, np.int32) and not isb(self.v): return SArr(self.axes, z3.ToReal(sym.trunc(self.v)) if is_z(self.v) else Fraction(int(self.v)), self.mask)
        return self.copy()
    def conj(self): return np.conjugate(self)
    def sum(self, axis=None): return np.sum(self, axis=axis)
    def mean(self, axis=None): return np.mean(self, axis=axis)
    def dot(self, o): return np.dot(self, o)
    def any(self): return np.any(self)
    def all(self): return np.all(self)
    def diagonal(self): return np.diagonal(self)
    def __len__(self): raise Unsupported('len of a symbolic array')
    def __float__(self): raise Unsupported('float() of a symbolic value')
    def __int__(self): raise Unsupported('int() of a symbolic value')
    def __iter__(self): raise Unsupported('iteration over a symbolic array')
    def __hash__(self): return id(self)
    def __bool__(self):
        if self.axes: raise Unsupported('truth value of a symbolic array')
        v = self.v
        if isinstance(v, Cx): v = vnot(vand(cmp('==', v.re, 0), cmp('==', v.im, 0)))
        return state().branch(v if isb(v) else cmp('!=', v, 0))
    def __round__(self, n=None): raise Unsupported('round')
    # -- indexing
    def __getitem__(self, k):
        if isinstance(k, SArr) and isb(k.v):
            if k.axes != self.axes and k.axes: raise Unsupported('mask of another shape')
            return SArr(self.axes, self.v, mask=k.v, parent=self)
        if k is Ellipsis or (isfull(k)): return SArr.view(self)
        if isinstance(k, tuple) and len(k) == len(self.axes) and sum(isfull(q) for q in k) == len(k) - 1 and any(isinstance(q, SArr) and isb(q.v) and q.axes for q in k):
            q = next(q for q in k if not isfull(q)); p = [x is q for x in k].index(True)
            if q.axes != (self.axes[p],): raise Unsupported('mask of another axis')
            return SArr(self.axes, self.v, mask=q.v, parent=self)
        if isinstance(k, tuple):
            if Ellipsis in [q for q in k if q is Ellipsis]:
                n = sum(1 for q in k if q is not None and q is not Ellipsis); i = [q is Ellipsis for q in k].index(True)
                k = k[:i] + (slice(None),) * (len(self.axes) - n) + k[i+1:]
            ax, it, sub = [], iter(self.axes), []
            for q in k:
                if q is None: ax.append(None)
                elif isfull(q): ax.append(next(it))
                elif isinstance(q, (int, np.integer)) and q >= 0 or (isinstance(q, SArr) and not q.axes and not isb(q.v)):
                    a = next(it)
                    if a is not None: sub.append((axis(a), toint(lift(q))))
                else: raise Unsupported('index %r' % (q,))
            ax += list(it)
            full = all(isinstance(q, slice) for q in k) and len(ax) == len(self.axes)
            if full: return SArr.view(self)
            return SArr(ax, vsubst(self.v, sub) if sub else self.v, readonly=True)
        if k is None: return SArr((None,) + self.axes, self.v)
        raise Unsupported('index %r' % (k,))
    @staticmethod
    def view(a):
        if type(a) is SView: return a
        r = SArr(a.axes, a.v, a.mask); r.parent = a; return r
    def __setitem__(self, k, val):
        if self.readonly: raise ValueError('assignment destination is read-only')
        if isinstance(k, tuple) and len(k) == len(self.axes) and sum(isfull(q) for q in k) == len(k) - 1 and any(isinstance(q, SArr) and isb(q.v) and q.axes for q in k):
            q = next(q for q in k if not isfull(q)); p = [x is q for x in k].index(True)
            if q.axes != (self.axes[p],): raise Unsupported('mask of another axis')
            k = SArr(self.axes, q.v)
        if isinstance(k, SArr) and isb(k.v):
            nv = bshape(val)
            if isinstance(val, SArr) and val.axes and val.mask is not None and not same(val.mask, k.v): raise Unsupported('masked assignment with another mask')
            self.set(vite(k.v, conv(self, nv), self.v))
        elif k is Ellipsis or (isfull(k)) or (isinstance(k, tuple) and all(isfull(q) for q in k)):
            if isinstance(val, SCat):
                if len(val.parts) != 1: raise ValueError('could not broadcast')
                val = val.parts[0]
            if isinstance(val, SArr) and [a for a in val.axes if a is not None and a not in self.axes]: raise Unsupported('assignment from axes %s to %s' % (val.axes, self.axes))
            if isinstance(val, SArr) and val.mask is not None: raise Unsupported('assignment of a selection')
            self.set(conv(self, bshape(val, self.axes)))
        else: raise Unsupported('assignment to %r' % (k,))
    def set(self, v):
        if self.readonly: raise ValueError('output array is read-only')
        self.v = v
        p = self.parent
        if p is not None and self.mask is None: p.set(v)
    # -- numpy protocols
    def __array__(self, *a, **k): raise Unsupported('conversion of a symbolic array')
    def __array_ufunc__(self, uf_, method, *ins, **kw):
        if any(type(x) in (SCat, SFam) for x in ins): return NotImplemented
        out = kw.pop('out', None)
        where = kw.pop('where', True)
        if method != '__call__' or set(kw) - {'dtype', 'casting'}: raise Unsupported('ufunc %s.%s %s' % (uf_.__name__, method, kw))
        n = uf_.__name__
        ins = [i if isinstance(i, SArr) else (SArr((), lift(i)) if np.ndim(i) == 0 else _bad(i)) for i in ins]
        axes, vs, mask = broadcast(ins)
        f = UN.get(n) if len(vs) == 1 else BIN.get(n)
        if f is None: raise Unsupported('ufunc ' + n)
        v = f(*vs)
        if out is not None:
            o = out[0]
            if not isinstance(o, SArr): raise Unsupported('output to a concrete array')
            if o.readonly: raise ValueError('output array is read-only')
            if where is not True: v = vite(where.v if isinstance(where, SArr) else where, conv(o, v), o.v)
            if o.mask is not None and o.parent is not None:      # a selection is a copy: the caller stores it back with []=
                o.v = conv(o, v)
            else: o.set(conv(o, v))
            return o
        if where is not True: raise Unsupported('ufunc where without out')
        r = SArr(axes, v, mask)
        if any(i.flat_ for i in ins): r.flat_ = True
        return r
    def __array_function__(self, f, types, a, kw):
        h = FUN.get(f.__name__)
        if h is None: raise Unsupported('numpy.' + f.__name__)
        return h(*a, **kw)

class SView(SArr):
    """real / imaginary part of a complex array, writable"""
    def __init__(self, a, part):
        self.a, self.part, self.mask, self.parent, self.readonly = a, part, a.mask, None, a.readonly
    @property
    def axes(self): return self.a.axes
    @property
    def v(self):
        z = self.a.v
        return getattr(z, self.part) if isinstance(z, Cx) else (z if self.part == 're' else Fraction(0))
    def set(self, v):
        z = Cx.of(self.a.v)
        self.a.set(Cx(v, z.im) if self.part == 're' else Cx(z.re, v))
class SFlags:
    def __init__(self, a): self.__dict__['a'] = a
    def __setattr__(self, k, v):
        if k == 'writeable': self.a.readonly = not v
    def __getattr__(self, k):
        if k == 'writeable': return not self.a.readonly
        raise AttributeError(k)

def _bad(i): raise Unsupported('concrete array operand %s' % type(i))
def same(a, b): return (a is b) or (is_z(a) and is_z(b) and z3.simplify(a).eq(z3.simplify(b))) or (not is_z(a) and not is_z(b) and a == b)
def conv(target, v):
    """complex assigned to real storage keeps the real part only (numpy refuses; treat as unsupported)"""
    if isinstance(v, Cx) and not isinstance(target.v, Cx): raise Unsupported('complex stored in a real array')
    if isinstance(target.v, Cx) and not isinstance(v, Cx): return Cx.of(v)
    return v
def bshape(val, axes=None):
    if isinstance(val, SArr): return val.v
    if np.ndim(val) == 0: return lift(val)
    raise Unsupported('assignment of a concrete array')

def broadcast(ins):
    n = max(len(i.axes) for i in ins)
    axes = [None] * n
    vs, mask = [], None
    for i in ins:
        off = n - len(i.axes); v = i.v; sub = []
        for p, a in enumerate(i.axes):
            if a is None: continue
            q = off + p
            if axes[q] is None:
                nm = a
                while nm in [x for j, x in enumerate(axes) if j != q]: nm += "'"
                axes[q] = nm
            if axes[q] != a:
                if axes[q].rstrip("'") != a.rstrip("'"): raise Unsupported('shapes %s and %s' % (axes[q], a))
                sub.append((axis(a), axis(axes[q])))
        if sub: v = vsubst(v, sub)
        vs.append(v)
        if i.mask is not None:
            if mask is not None and not same(mask, i.mask): raise Unsupported('operands selected by different masks')
            mask = i.mask
    return axes, vs, mask

# ---- numpy functions
FUN = {}
def fun(*names):
    def d(f):
        for n in names: FUN[n] = f
        return f
    return d
def arr(x): return x if isinstance(x, SArr) else SArr((), lift(x))
def store(out, r):
    if out is None: return r
    if not isinstance(out, SArr): raise Unsupported('output to a concrete array')
    out.set(conv(out, r.v)); return out
@fun('sum')
def f_sum(a, axis=None, dtype=None, out=None, **kw):
    if kw: raise Unsupported('sum options %s' % kw)
    if isinstance(a, (list, tuple)):
        if axis not in (0, None): raise Unsupported('sum over a list along %r' % axis)
        r = arr(0.)
        if not a and out is not None:
            r = SArr((), Fraction(0))
        for x in a: r = r + arr(x)
        if axis is None and r.axes: r = f_sum(r)
        return store(out, r)
    if isinstance(a, SFam):
        return store(out, SArr(a.item.axes, total(a.ax, a.item.v)))
    v, axes = a.v, list(a.axes)
    if a.mask is not None: v = vite(a.mask, v, Fraction(0))
    if axis is None: idx = list(range(len(axes)))
    else: idx = [x % len(axes) for x in (axis if isinstance(axis, tuple) else (axis,))]
    for p in idx:
        if axes[p] is not None: v = total(axes[p], v)
    return store(out, SArr([x for p, x in enumerate(axes) if p not in idx], v))
@fun('mean')
def f_mean(a, axis=None, **kw):
    if isinstance(a, SFam): return f_sum(a) / SArr((), z3.ToReal(z3.Int('len_' + a.ax)))
    axes = a.axes if axis is None else [a.axes[axis]]
    n = 1
    for x in axes: n = vmul(n, z3.ToReal(z3.Int('len_' + x)))
    return f_sum(a, axis=axis) / SArr((), n)
@fun('any')
def f_any(a, axis=None, **kw):
    a = arr(a)
    v = a.v if isb(a.v) else (vnot(vand(cmp('==', a.v.re, 0), cmp('==', a.v.im, 0))) if isinstance(a.v, Cx) else cmp('!=', a.v, 0))
    if not a.axes or not is_z(v): return SArr((), v)
    cache = state().__dict__.setdefault('anys', {})
    key = z3.simplify(v).sexpr()
    if key not in cache:
        b = cache[key] = state().new('any', 'B')
        state().assume(z3.Implies(v, b))              # at the generic index
    return SArr((), cache[key])
@fun('all')
def f_all(a, axis=None, **kw): 
    a = arr(a)
    v = a.v if isb(a.v) else cmp('!=', a.v, 0)
    if not a.axes or not is_z(v): return SArr((), v)
    b = state().new('all', 'B')
    state().assume(z3.Implies(b, v))
    return SArr((), b)
@fun('zeros')
def f_zeros(shape, dtype=float, **kw):
    if isinstance(shape, SShape): return SArr(shape.axes, Cx(0, 0) if dtype is complex else Fraction(0))
    raise Unsupported('zeros of shape %r' % (shape,))
@fun('zeros_like')
def f_zl(a, dtype=None, **kw): return SArr(a.axes, Cx(0, 0) if (dtype is complex or (dtype is None and isinstance(a.v, Cx))) else Fraction(0))
@fun('ones_like')
def f_ol(a, dtype=None, **kw): return SArr(a.axes, Fraction(1))
@fun('full_like')
def f_fl(a, fill_value, dtype=None, **kw): return SArr(a.axes, lift(fill_value))
@fun('empty_like')
def f_el(a, dtype=None, **kw): return SArr(a.axes, state().new('empty'))
@fun('where')
def f_where(c, a=None, b=None):
    if a is None and b is None: return arr(c)          # an index selecting the true elements
    c, a, b = arr(c), arr(a), arr(b)
    axes, (x, y, z), m = broadcast([c, a, b])
    return SArr(axes, vite(x if isb(x) else cmp('!=', x, 0), y, z), m)
@fun('real')
def f_real(a): return a.real
@fun('imag')
def f_imag(a): return a.imag
@fun('copy', 'array', 'asarray', 'ascontiguousarray')
def f_copy(a, *k, **kw): return a.copy()
@fun('ravel')
def f_ravel(a): return a.ravel()
@fun('size')
def f_size(a): return a.size
@fun('shape')
def f_shape(a): return a.shape
@fun('ndim')
def f_ndim(a): return a.ndim
@fun('transpose')
def f_tr(a): return a.T
@fun('outer')
def f_outer(a, b):
    return a[:, None] * b[None, :]
@fun('diagonal', 'diag')
def f_diag(a):
    if len(a.axes) == 2:
        x, y = a.axes
        return SArr((x,), vsubst(a.v, [(axis(y), axis(x))]))
    x = a.axes[0]; y = x + "'"
    return SArr((x, y), vite(axis(x) == axis(y), a.v, Fraction(0)))
@fun('dot', 'matmul', 'inner', 'vdot')
def f_dot(a, b):
    a, b = arr(a), arr(b)
    if not a.axes or not b.axes: return a * b
    x = a.axes[-1]; y = b.axes[-2] if len(b.axes) > 1 else b.axes[-1]
    if x.rstrip("'") != y.rstrip("'"): raise Unsupported('dot of %s with %s' % (x, y))
    t = 'sum_' + x.rstrip("'")
    av = vsubst(a.v, [(axis(x), axis(t))])
    bax = list(b.axes); bv = vsubst(b.v, [(axis(y), axis(t))])
    rest_a = [q for q in a.axes[:-1]]; rest_b = [q for p, q in enumerate(b.axes) if p != (len(b.axes) - 2 if len(b.axes) > 1 else 0)]
    ren = []
    for p, q in enumerate(rest_b):
        n = q
        while n in rest_a: n += "'"
        if n != q: ren.append((axis(q), axis(n))); rest_b[p] = n
    if ren: bv = vsubst(bv, ren)
    AX.setdefault(t, z3.Int('ix_' + t))
    return SArr(rest_a + rest_b, total(t, vmul(av, bv)))
@fun('array_equal')
def f_ae(a, b): return f_all(arr(a) == arr(b))
@fun('atleast_1d')
def f_at(a): return a
@fun('concatenate', 'hstack')
def f_cat(l, axis=0): return SCat([x.ravel().copy() for x in l]) if len(l) != 1 else l[0].copy()
@fun('isclose')
def f_isclose(a, b, **kw): return arr(a) == arr(b)
@fun('nan_to_num')
def f_nn(a, **kw): return a
@fun('max', 'amax')
def f_max(a, **kw):
    m = state().new('max'); state().assume(m >= RV(a.v)); return SArr((), m)
@fun('min', 'amin')
def f_min(a, **kw):
    m = state().new('min'); state().assume(m <= RV(a.v)); return SArr((), m)

class SCat(np.lib.mixins.NDArrayOperatorsMixin):
    """concatenation of one-dimensional arrays, kept as the list of its parts; elementwise operations act on the parts"""
    __array_priority__ = 1001
    @property
    def __class__(self): return np.ndarray
    def __init__(self, parts): self.parts = [q for p in parts for q in (p.parts if type(p) is SCat else [p])]
    ndim = 1
    @property
    def real(self): return SCat([p.real for p in self.parts])
    @property
    def imag(self): return SCat([p.imag for p in self.parts])
    def copy(self): return SCat([p.copy() for p in self.parts])
    def ravel(self): return self
    def __hash__(self): return id(self)
    def __array_ufunc__(self, uf_, method, *ins, **kw):
        n = len(self.parts)
        for x in ins:
            if type(x) is SCat and len(x.parts) != n: raise Unsupported('concatenations of different parts')
            if type(x) is SArr and x.axes: raise Unsupported('array and concatenation')
        out = kw.pop('out', None)
        r = [getattr(uf_, method)(*[x.parts[q] if type(x) is SCat else x for x in ins], **dict(kw, **({'out': (out[0].parts[q],)} if out else {}))) for q in range(n)]
        return out[0] if out else SCat(r)
    def __array_function__(self, f, types, a, kw):
        h = FUN.get(f.__name__)
        if h is None: raise Unsupported('numpy.' + f.__name__)
        return h(*a, **kw)
    def __getitem__(self, k):
        if type(k) is SCat: return SCat([p[q] for p, q in zip(self.parts, k.parts)])
        if isfull(k): return self
        if isinstance(k, slice) and k.step is None:
            lo, hi = self.cut(k.start, 0), self.cut(k.stop, len(self.parts))
            return SCat(self.parts[lo:hi])
        raise Unsupported('index into a concatenation')
    def cut(self, n, default):
        """the number of leading parts whose total length is n"""
        if n is None: return default
        n = RV(lift(n)); t = z3.RealVal(0)
        for q in range(len(self.parts) + 1):
            if z3.simplify(t - n).eq(z3.RealVal(0)): return q
            if q < len(self.parts): t = t + z3.ToReal(z3.Int('len_' + '_'.join(str(a) for a in self.parts[q].axes)))
        raise Unsupported('slice of a concatenation')
    def __setitem__(self, k, val):
        if type(k) is SCat:
            for q, p in enumerate(self.parts): p[k.parts[q]] = val.parts[q] if type(val) is SCat else val
        elif isinstance(k, slice):
            t = self[k].parts; v = val.parts if type(val) is SCat else [val] * (len(t) if np.ndim(val) == 0 and not isinstance(val, SArr) else 1)
            if len(t) != len(v): raise Unsupported('assignment to a concatenation')
            for p, w in zip(t, v): p[:] = w
        else: raise Unsupported('assignment to a concatenation')
class SFam:
    """the list [f(c_i) for i in a family]: one generic member"""
    __array_priority__ = 1000
    def __init__(self, ax, item): self.ax, self.item = ax, item
    def __array_function__(self, f, types, a, kw):
        h = FUN.get(f.__name__)
        if h is None: raise Unsupported('numpy.' + f.__name__)
        return h(*a, **kw)
    def __array_ufunc__(self, *a, **k): raise Unsupported('ufunc on a family')

def scalar(name, kind='R'): return SArr((), {'R': z3.Real, 'B': z3.Bool, 'I': z3.Int}[kind](name))
def run(fn, base=(), max_paths=400, feas_ms=150):
    """explore fn() along all paths; yields (state, result) where result is ('ret', value) or ('raise', exception)"""
    def go(st):
        CUR[0] = st
        try: return ('ret', fn())
        except (sym.Infeasible, Unsupported): raise
        except (AttributeError, TypeError, IndexError, KeyError, NotImplementedError, RecursionError, z3.Z3Exception) as e:
            raise Unsupported('%s while executing symbolically: %s' % (type(e).__name__, e))
        except Exception as e: return ('raise', e)
    return explore(go, base, max_paths=max_paths, feas_ms=feas_ms)

def load_treecorr():
    """the real package of /repo with the extension compiled from the current sources"""
    if 'treecorr' in sys.modules: return sys.modules['treecorr']
    from engine.check import REPO, build_ext, PYSITE
    import importlib.util, logging
    so = build_ext()
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO); sys.path.append(PYSITE)
    spec = importlib.util.spec_from_file_location('treecorr._treecorr', so)
    mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
    sys.modules['treecorr._treecorr'] = mod
    import treecorr
    treecorr._treecorr = mod
    logging.disable(logging.CRITICAL)
    assert os.path.dirname(os.path.dirname(os.path.abspath(treecorr.__file__))) == os.path.abspath(REPO)
    return treecorr
def symlen(x):
    if isinstance(x, (SArr,)):
        if not x.axes: raise TypeError('len() of unsized object')
        n = z3.Int('len_' + x.axes[0]); state().assume(n >= 1)
        return SArr((), n)
    return len(x)
def symmax(*a, **k):
    if not any(type(x) is SArr for x in a): return max(*a, **k)
    r = a[0]
    for x in a[1:]: r = np.maximum(r, x)
    return r
def has_sym(x):
    if type(x) in (SArr, SView, SFam, SCat, SShape): return True
    return isinstance(x, (list, tuple)) and any(has_sym(y) for y in x)
SYMPI = [False]     # np.pi as the exact constant instead of its nearest double
class NPProxy:
    """the numpy module as seen by the verified functions: a call with a symbolic operand goes to its definition in FUN
    (or through numpy's ufunc override), every other one to numpy"""
    def __init__(self, mod=np): self.__dict__['mod'] = mod
    def __getattr__(self, n):
        if n == 'pi' and SYMPI[0]: return SArr((), sym.PI)
        a = getattr(self.mod, n)
        if isinstance(a, (type, np.ufunc)) or not callable(a):
            return NPProxy(a) if n == 'linalg' else a
        def call(*x, **kw):
            if any(has_sym(y) for y in x) or any(has_sym(y) for y in kw.values()):
                h = FUN.get(n)
                if h is None: raise Unsupported('numpy.' + n)
                return h(*x, **kw)
            return a(*x, **kw)
        return call
SHADOW = dict(len=symlen, range=symrange, max=symmax)
def patch_mods(*mods):
    """module-level len and np that understand symbolic arrays (shadow the builtin and the import inside these modules only)"""
    for m in mods:
        m.__dict__.update(SHADOW)
        if m.__dict__.get('np') is np: m.__dict__['np'] = NPProxy()
def fname(f): return 'treecorr.%s:%s' % (f.__module__.split('.')[-1], f.__qualname__)
