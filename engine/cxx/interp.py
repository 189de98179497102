"""Symbolic executor for the C++ IR extracted by cxxir (real bodies of /repo, after template instantiation).

Every call is either replaced by a contract (registered by name pattern) or its real body is executed.
Loops are concrete (constant bounds), summarised (elementwise maps and accumulations over a generic index), or cut
by an invariant given in the specification.  Anything else raises Unsupported (reported as undecided)."""
import re, json, itertools
from fractions import Fraction
import z3
from engine.sym import *
import engine.sym as sym

UNDEF = object()

class Rec:
    """object of class type"""
    __slots__ = ('rec', 'name', 'f', 'lazy', 'meta', 'born')
    serial = itertools.count(1)
    def __init__(self, rec, name=None, lazy=False, **f):
        self.rec, self.name, self.f, self.lazy, self.meta = rec, name, dict(f), lazy, {}
        self.born = 0 if lazy else next(Rec.serial)      # lazily materialised objects stand for memory that existed before
    def copy(self):
        r = Rec(self.rec, self.name, self.lazy)
        r.f = {k: (v.copy() if isinstance(v, Rec) else v) for k, v in self.f.items()}
        if self.rec == 'std::vector': r.f['a'] = self.f['a'].clone()
        r.meta = dict(self.meta); r.born = next(Rec.serial)
        return r
    def __repr__(self): return '<%s %s>' % (self.rec, self.name)

class Ptr:
    __slots__ = ('to', 'null')
    def __init__(self, to, null=False): self.to, self.null = to, null
    def __repr__(self): return 'Ptr(%r,%s)' % (self.to, self.null)
NULL = Ptr(None, True)
class FnPtr:
    def __init__(self, f, name): self.f, self.name = f, name

class Arr:
    """unbounded array: uninterpreted base + sequence of writes (single or mapped over an index range)"""
    def __init__(self, name, et, eng, base=None, size=None):
        self.name, self.et, self.eng, self.size = name, et, eng, size
        self.base = base or self._base()
        self.writes = []
        self.cells = {}
    def clone(self):
        """the array of a copied vector: same contents, separate storage"""
        r = Arr(self.name, self.et, self.eng, self.base, self.size)
        r.writes = list(self.writes); r.cells = {k: (v.copy() if isinstance(v, Rec) else v) for k, v in self.cells.items()}
        return r
    def _base(self):
        n, et = self.name, self.et
        if et in ('double', 'float'):
            f = z3.Function(n, z3.IntSort(), z3.RealSort()); return lambda i: f(IV(i))
        if is_complex(et):
            f = z3.Function(n + '.re', z3.IntSort(), z3.RealSort()); g = z3.Function(n + '.im', z3.IntSort(), z3.RealSort())
            return lambda i: Cx(f(IV(i)), g(IV(i)))
        if et in INTS:
            f = z3.Function(n, z3.IntSort(), z3.IntSort()); return lambda i: f(IV(i))
        if et == 'bool':
            f = z3.Function(n, z3.IntSort(), z3.BoolSort()); return lambda i: f(IV(i))
        return None
    def read(self, i):
        if self.base is None:
            return self.readobj(i)
        self.eng.note_read(self, i)
        v = self.base(i)
        for w in self.writes:
            if w[0] == 'at':
                v = ite(simp(cmp('==', i, w[1])), w[2], v)
            else:
                lo, hi, gen, paths = w[1:5]
                if len(w) > 5: i0, i = i, arith('-', i, w[5])
                inr = True if lo is None else simp(land(cmp('<=', lo, i), cmp('<', i, hi)))
                if any('[%s]' % gen in str(t) for c_, v_ in paths for x_ in (c_, v_) for t in subterms([y for y in ((x_.re, x_.im) if isinstance(x_, Cx) else (x_,)) if is_z(y)]) if z3.is_const(t)): raise Unsupported('read of a mapped array of object fields')
                nv = v
                for cond, val in paths:
                    nv = ite(subst(cond, gen, i), subst(val, gen, i), nv)
                v = ite(inr, nv, v)
                if len(w) > 5: i = i0
        return v
    def readobj(self, i):
        k = str(simp(i))
        if k not in self.cells:
            self.cells[k] = self.eng.lazy_value('%s[%s]' % (self.name, k), self.et)
        return self.cells[k]
    def write(self, i, v):
        if self.base is None:
            k = str(simp(i)); old = self.cells.get(k)
            self.cells[k] = v
            self.eng.st.journal.append(('objw', self, k, old))
            return
        self.writes.append(('at', i, v))
        self.eng.st.journal.append(('arr', self, i, v))
        self.eng.note_write(self, i, v)

INTS = ('int', 'long', 'unsigned long', 'unsigned int', 'size_t', 'unsigned char', 'char', 'short', 'long long', 'unsigned long long')
def is_complex(t): return t.replace('const ', '').startswith('std::complex<')
def simp(x): return z3.simplify(x) if is_z(x) else x
def subst(x, var, val):
    if isinstance(x, Cx): return Cx(subst(x.re, var, val), subst(x.im, var, val))
    if not is_z(x): return x
    return z3.substitute(x, (var, IV(val) if z3.is_int(var) else RV(val)))
def vsubst(x, pairs):
    if isinstance(x, Cx): return Cx(vsubst(x.re, pairs), vsubst(x.im, pairs))
    if not is_z(x): return x
    return z3.substitute(x, *pairs)

class Loc: pass
class VarLoc(Loc):
    __slots__ = ('fr', 'key', 'eng')
    def __init__(self, eng, fr, key): self.eng, self.fr, self.key = eng, fr, key
    def get(self):
        v = self.fr.vars.get(self.key, UNDEF)
        if v is UNDEF: raise Unsupported('read of uninitialised variable ' + self.key)
        return v
    def set(self, v):
        self.eng.st.journal.append(('var', self.fr, self.key, self.fr.vars.get(self.key, UNDEF)))
        self.fr.vars[self.key] = v
class FieldLoc(Loc):
    __slots__ = ('o', 'm', 'eng', 't')
    def __init__(self, eng, o, m, t): self.eng, self.o, self.m, self.t = eng, o, m, t
    def get(self):
        o = self.o
        if self.m not in o.f or o.f[self.m] is UNDEF:
            if not o.lazy:
                if isinstance(o.f.get(self.m), Rec): return o.f[self.m]
                raise Unsupported('read of uninitialised field %s::%s' % (o.rec, self.m))
            o.f[self.m] = self.eng.lazy_field(o, self.m, self.t)
        return o.f[self.m]
    def set(self, v):
        self.eng.st.journal.append(('field', self.o, self.m, self.o.f.get(self.m, UNDEF)))
        self.o.f[self.m] = v
class ElemLoc(Loc):
    __slots__ = ('a', 'i')
    def __init__(self, a, i): self.a, self.i = a, i
    def get(self): return self.a.read(self.i)
    def set(self, v): self.a.write(self.i, v)
class TempLoc(Loc):
    def __init__(self, v): self.v = v
    def get(self): return self.v
    def set(self, v): self.v = v
class SubLoc(Loc):
    """real or imaginary part"""
    def __init__(self, loc, part): self.loc, self.part = loc, part
    def get(self): return getattr(Cx.of(self.loc.get()), self.part)
    def set(self, v):
        c = Cx.of(self.loc.get())
        self.loc.set(Cx(v, c.im) if self.part == 're' else Cx(c.re, v))
class ElemPtr:
    """pointer into an array"""
    __slots__ = ('a', 'i')
    def __init__(self, a, i): self.a, self.i = a, i

class Frame:
    __slots__ = ('vars', 'this', 'fn', 'refs', 'declared', 'loopno')
    def __init__(self, fn, this): self.fn, self.this, self.vars, self.refs, self.declared, self.loopno = fn, this, {}, {}, set(), 0

class Program:
    def __init__(self, *paths):
        self.fn, self.rec = {}, {}
        for p in paths:
            d = json.load(open(p))
            self.fn.update({k: v for k, v in d['functions'].items() if k not in self.fn})
            self.rec.update(d['records'])
        self.byname = {}
        for k, f in self.fn.items():
            f['id'] = k
            self.byname.setdefault(f['name'], []).append(k)
    def find(self, pattern, nparams=None):
        r = re.compile(pattern)
        out = [self.fn[i] for n, ids in self.byname.items() if r.search(n) for i in ids]
        if nparams is not None: out = [f for f in out if len(f['params']) == nparams]
        return out
    def one(self, pattern, nparams=None, ptypes=None):
        out = self.find(pattern, nparams)
        if ptypes: out = [f for f in out if all(re.search(p, q['t']) for p, q in zip(ptypes, f['params']))]
        if len(out) != 1: raise Unsupported('%d functions match %s (%s)' % (len(out), pattern, ','.join(f['name'] for f in out[:4])))
        return out[0]
    def fields(self, rec):
        r = self.rec.get(norm_t(rec))
        if not r: return None
        out = {}
        for b in r['bases']:
            out.update(self.fields(b) or {})
        for f in r['fields']:
            if f['anon']:
                u = self.fields(f['type']) or {}
                out.update(u)
            out[f['name']] = f['type']
        return out
    def bases(self, rec):
        r = self.rec.get(norm_t(rec))
        out = []
        for b in (r['bases'] if r else []): out += [b] + self.bases(b)
        return out
    def override(self, fid, rec):
        """final overrider of virtual fid for dynamic class rec"""
        for r in [rec] + self.bases(rec):
            for k, f in self.fn.items():
                if f.get('rec') and norm_t(f['rec']) == norm_t(r) and (k == fid or self._ov(f, fid)): return f
        return None
    def _ov(self, f, fid):
        for o in f.get('overrides') or []:
            if o == fid: return True
            if o in self.fn and self._ov(self.fn[o], fid): return True
        return False

def norm_t(t):
    t = re.sub(r'^(const |class |struct )+', '', t).replace(' &', '').strip()
    return re.sub(r'\*\s*(const|__restrict)+$', '*', t)

class Engine:
    def __init__(self, prog, contracts=(), invariants=None, st=None, max_steps=60000, inline_depth=60):
        self.p = prog
        self.contracts = [(re.compile(a), b) for a, b in contracts]
        self.inv = invariants or {}
        self.st = st
        self.max_steps, self.steps, self.depth, self.maxdepth = max_steps, 0, 0, inline_depth
        self.used = set()          # functions whose real bodies were executed
        self.usedc = set()         # functions replaced by contracts
        self.readlog = None
        self.lazyhook = None
        self.nonnull = re.compile(r'_data$')
    # ---------- lazy symbolic objects
    def lazy_value(self, name, t):
        t = norm_t(t)
        if self.lazyhook:
            v = self.lazyhook(name, t)
            if v is not None: return v
        if t in ('double', 'float', 'long double'): return z3.Real(name)
        if t == 'bool': return z3.Bool(name)
        if t in INTS or t.startswith('enum') : return z3.Int(name)
        if is_complex(t): return Cx(z3.Real(name + '.re'), z3.Real(name + '.im'))
        if t.endswith('*'):
            pt = norm_t(t[:-1].strip())
            if pt in ('double', 'float', 'bool') or pt in INTS or is_complex(pt):
                return ElemPtr(Arr(name, pt, self), 0)
            m = re.match(r'std::vector<(.*?)(?:, std::allocator<.*>)?>$', pt)
            if m: return Ptr(self.vec(name, m.group(1)), False if self.nonnull.search(name) else z3.Bool(name + '.null'))
            return Ptr(Rec(pt, name, True), False if self.nonnull.search(name) else z3.Bool(name + '.null'))
        m = re.match(r'std::(?:shared_ptr|unique_ptr)<(.*?)(?:, std::default_delete.*)?>$', t)
        if m: return Ptr(Rec(norm_t(m.group(1)), name, True), False)
        m = re.match(r'std::vector<(.*), std::allocator<.*>>$', t)
        if m: return self.vec(name, m.group(1))
        if self.p.fields(t) is not None or t in self.p.rec: 
            r = Rec(t, name, True)
            if re.match(r'Position<[23]>$', t): r.f.update(_normsq=Fraction(0), _norm=Fraction(0))
            return r
        if t.startswith('pybind11') or t.startswith('std::'): return Rec(t, name, True)
        return z3.Int(name)
    def vec(self, name, et, size=None):
        n = z3.Int(name + '.size') if size is None else size
        r = Rec('std::vector', name, False)
        r.f['a'] = Arr(name, norm_t(et), self); r.f['n'] = n
        return r
    def lazy_field(self, o, m, t):
        fs = self.p.fields(o.rec) or {}
        return self.lazy_value('%s.%s' % (o.name, m), t or fs.get(m) or 'int')
    def note_read(self, a, i):
        if self.readlog is not None: self.readlog.append(('r', a, i))
    def note_write(self, a, i, v):
        if self.readlog is not None: self.readlog.append(('w', a, i))
    # ---------- functions
    def call(self, f, this, args):
        """execute real body.  args: Loc for reference parameters, values otherwise"""
        if self.depth > self.maxdepth: raise Unsupported('inline depth')
        if f.get('body') is None and not f.get('inits'): raise Unsupported('no body: ' + f['name'])
        fr = Frame(f, this)
        for p, a in zip(f['params'], args):
            if p['isref']:
                fr.refs[p['d']] = a if isinstance(a, Loc) else TempLoc(a)
            else:
                v = a.get() if isinstance(a, Loc) else a
                fr.vars[p['d']] = v.copy() if isinstance(v, Rec) else v
        self.used.add(f['name'])
        self.depth += 1
        try:
            for i in f.get('inits') or []:
                if 'm' in i:
                    t = (self.p.fields(f['rec']) or {}).get(i['m'], '')
                    if t.endswith('&'):
                        this.f[i['m']] = self.lv(i['e'], fr)
                    else:
                        v = self.rv(i['e'], fr) if i['e'] and i['e']['k'] != 'Construct' else self.construct(i['e'], fr, t)
                        FieldLoc(self, this, i['m'], t).set(self.coerce(v, t))
                elif i['e'] and i['e']['k'] == 'Construct':
                    self.construct_into(this, i['e'], fr)
            sig = self.ex(f['body'], fr) if f.get('body') else None
        finally:
            self.depth -= 1
        if sig and sig[0] == 'return': return sig[1]
        return None
    def run(self, f, this=None, args=()):
        return self.call(f, this, list(args))
    def coerce(self, v, t):
        t = norm_t(t)
        if v is UNDEF or v is None: return v
        if is_complex(t) and not isinstance(v, Cx) and isnum(v): return Cx.of(v)
        if t in ('double', 'float') and isnum(v): return R(v)
        return v
    def contract_for(self, name):
        for r, h in self.contracts:
            if r.search(name): return h
        return None
    # ---------- statements
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps: raise Budget('step limit')
    def ex(self, s, fr):
        if s is None: return None
        self.tick()
        k = s['k']
        return getattr(self, 's_' + k, self.s_unsupported)(s, fr)
    def s_unsupported(self, s, fr): raise Unsupported('statement %s line %s' % (s['k'], s.get('l')))
    def s_CompoundStmt(self, s, fr):
        for c in s['c']:
            r = self.ex(c, fr)
            if r: return r
    def s_NullStmt(self, s, fr): return None
    def s_Expr(self, s, fr):
        self.effect(s['e'], fr)
    def effect(self, e, fr):
        if is_output(e): return
        if is_lvkind(e): 
            self.lv(e, fr)
        else: self.rv(e, fr)
    def s_DeclStmt(self, s, fr):
        for v in s['c']:
            fr.declared.add(v['d'])
            if v.get('isref'):
                fr.refs[v['d']] = self.lv(v['init'], fr)
                continue
            t = v['t']
            if v.get('static') and v.get('init') is None: raise Unsupported('static local')
            if 'init' not in v or v['init'] is None:
                fr.vars[v['d']] = self.default(t, v['name']); continue
            e = v['init']
            if e['k'] == 'Construct': val = self.construct(e, fr, t)
            else: val = self.rv(e, fr)
            fr.vars[v['d']] = self.coerce(val.copy() if isinstance(val, Rec) and val.rec != 'std::vector' else val, t)
    def default(self, t, name):
        m = re.match(r'(.*?) ?\[(\d+)\]$', t)
        if m:
            a = Arr('%s!%d' % (name, next(self.st.fresh)), norm_t(m.group(1)), self); return ElemPtr(a, 0)
        t2 = norm_t(t)
        if t2 in self.p.rec: return Rec(t2, name)
        return UNDEF
    def s_IfStmt(self, s, fr):
        if s.get('init'): self.ex(s['init'], fr)
        # pure debugging output: no effect on state
        if only_output(s['then']) and (s.get('else') is None or only_output(s['else'])) and pure(s['cond']): return None
        c = self.cond(s['cond'], fr)
        return self.ex(s['then'] if c else s.get('else'), fr)
    def cond(self, e, fr):
        """evaluate as a branch, short-circuit operators fork"""
        if e['k'] == 'BinaryOperator' and e['op'] == '&&':
            return self.cond(e['c'][0], fr) and self.cond(e['c'][1], fr)
        if e['k'] == 'BinaryOperator' and e['op'] == '||':
            return self.cond(e['c'][0], fr) or self.cond(e['c'][1], fr)
        if e['k'] == 'UnaryOperator' and e['op'] == '!':
            return not self.cond(e['c'][0], fr)
        v = self.rv(e, fr)
        return self.st.branch(self.tobool(v))
    def tobool(self, v):
        if isinstance(v, Ptr): return lnot(v.null)
        if isinstance(v, ElemPtr): return True
        if isinstance(v, (bool, int, Fraction)): return v != 0
        return BV(v)
    def s_ReturnStmt(self, s, fr):
        e = s.get('e')
        if e is None: return ('return', None)
        if fr.fn.get('retref'): return ('return', self.lv(e, fr))
        v = self.construct(e, fr, fr.fn['ret']) if e['k'] == 'Construct' else self.rv(e, fr)
        if isinstance(v, Rec) and v.rec != 'std::vector': v = v.copy()
        return ('return', self.coerce(v, fr.fn['ret']))
    def s_BreakStmt(self, s, fr): return ('break',)
    def s_ContinueStmt(self, s, fr): return ('continue',)
    def s_DoStmt(self, s, fr):
        c = s['cond']
        if c['k'] == 'IntegerLiteral' and c['v'] == '0' or c['k'] == 'CXXBoolLiteralExpr' and c['v'] == '0':
            r = self.ex(s['body'], fr)
            if r and r[0] in ('break', 'continue'): return None
            return r
        return self.loop(s, fr, None, s['cond'], None, s['body'], do=True)
    def s_WhileStmt(self, s, fr): return self.loop(s, fr, None, s['cond'], None, s['body'])
    def s_ForStmt(self, s, fr):
        if s.get('init'): self.ex(s['init'], fr)
        return self.loop(s, fr, None, s['cond'], s.get('inc'), s['body'])
    def s_SwitchStmt(self, s, fr):
        v = self.rv(s['cond'], fr)
        items, flat = s['body']['c'], []
        def add(x):
            if x['k'] == 'CaseStmt': flat.append(('case', x['v'])); add(x['body'])
            elif x['k'] == 'DefaultStmt': flat.append(('default', None)); add(x['body'])
            else: flat.append(('s', x))
        for x in items: add(x)
        start = None
        for n, (k, x) in enumerate(flat):
            if k == 'case' and self.st.branch(cmp('==', v, self.rv(x, fr))): start = n; break
        if start is None:
            for n, (k, x) in enumerate(flat):
                if k == 'default': start = n
        if start is None: return None
        for k, x in flat[start:]:
            if k != 's': continue
            r = self.ex(x, fr)
            if r:
                if r[0] == 'break': return None
                return r
    def s_CXXForRangeStmt(self, s, fr):
        h = self.contract_for('rangefor:' + fr.fn['name'])
        if h: return h(self, s, fr)
        raise Unsupported('range for')
    # ---------- loops
    def loop(self, s, fr, init, cond, inc, body, do=False):
        key = (fr.fn['name'], s.get('l'))
        ordinal = fr.loopno; 
        inv = None
        for (pat, ordn), h in self.inv.items():
            if re.search(pat, fr.fn['name']) and (ordn is None or ordn == loop_ordinal(fr.fn, s)): inv = h
        if inv: return inv(self, s, fr, cond, inc, body)
        n = 0
        while True:
            if not (do and n == 0):
                c = self.rv(cond, fr) if cond else True
                c = simp(self.tobool(c))
                if is_z(c) and z3.is_true(c): c = True
                if is_z(c) and z3.is_false(c): c = False
                if is_z(c):
                    if n == 0: return self.summarise(s, fr, cond, inc, body)
                    # bound became symbolic: decide from path condition only
                    t, f = self.st._feasible(c), self.st._feasible(z3.Not(c))
                    if t and f: raise Unsupported('loop with symbolic bound after %d iterations (line %s)' % (n, s.get('l')))
                    c = t
                if not c: return None
            r = self.ex(body, fr)
            if r:
                if r[0] == 'break': return None
                if r[0] == 'return': return r
            if inc: self.effect(inc, fr)
            n += 1
            if n > 300: raise Unsupported('loop bound')
    def loop_var(self, cond, inc, fr):
        """recognise  for(i=lo; i<hi; ++i)  -> (decl id, strict upper bound expr)"""
        if cond is None or inc is None: return None
        if inc['k'] == 'UnaryOperator' and inc['op'] == '++' and inc['c'][0]['k'] == 'DeclRefExpr': d = inc['c'][0]['d']
        elif inc['k'] == 'CompoundAssignOperator' and inc['op'] == '+=' and inc['c'][1].get('v') == '1': d = inc['c'][0]['d']
        else: return None
        if cond['k'] != 'BinaryOperator' or cond['op'] not in ('<', '<=', '!='): return None
        l = cond['c'][0]
        while l['k'] == 'Cast': l = l['c'][0]
        if l['k'] != 'DeclRefExpr' or l['d'] != d: return None
        return d, cond['c'][1], cond['op']
    def summarise(self, s, fr, cond, inc, body):
        lv = self.loop_var(cond, inc, fr)
        if not lv: raise Unsupported('loop without recognised counter (line %s of %s)' % (s.get('l'), fr.fn['name']))
        d, bexpr, op = lv
        lo = fr.vars[d]
        hi = self.rv(bexpr, fr)
        if op == '<=': hi = arith('+', hi, 1)
        gen = z3.Int('gi!%d' % next(self.st.fresh))
        rng = [IV(lo) <= gen, gen < IV(hi)]
        # pass 1: which locations are written?
        res = self.subexplore(lambda: self._iter(fr, d, gen, body), rng, fr, d)
        scal = {}
        for pc, writes, reads, ret in res:
            for w in writes:
                if w[0] in ('var', 'field'):
                    scal[(w[0], id(w[1]), w[2])] = w
        accs = {}
        if scal:
            saved = {}
            for key, w in scal.items():
                loc = VarLoc(self, w[1], w[2]) if w[0] == 'var' else FieldLoc(self, w[1], w[2], None)
                old = w[1].vars.get(w[2], UNDEF) if w[0] == 'var' else w[1].f.get(w[2], UNDEF)
                if old is UNDEF: raise Unsupported('loop-carried uninitialised ' + w[2])
                if isinstance(old, Cx): fresh = Cx(self.st.new('acc'), self.st.new('acc'))
                elif isnum(old): fresh = self.st.new('acc', 'R' if isreal(old) else 'I')
                else: raise Unsupported('loop-carried object ' + w[2])
                accs[key] = (loc, old, fresh)
            for loc, old, fresh in accs.values(): loc.set(fresh)
            res = self.subexplore(lambda: self._iter(fr, d, gen, body), rng, fr, d)
            for loc, old, fresh in accs.values(): loc.set(old)
        # classify
        arrs, sums, lastv, offs = {}, {k: [] for k in accs}, {}, {}
        allf = [f for _, _, q in accs.values() for f in ((q.re, q.im) if isinstance(q, Cx) else (q,))]
        def free(t): return not (is_z(t) and any(x.eq(f) for x in subterms([t]) for f in allf))
        overwritten = {k for k, (loc, old, fresh) in accs.items() if not isinstance(fresh, Cx) and res
                       and all(any(w[0] in ('var', 'field') and (w[0], id(w[1]), w[2]) == k for w in ws) and free([w[4] for w in ws if w[0] in ('var', 'field') and (w[0], id(w[1]), w[2]) == k][-1]) for pc, ws, rd, ev in res)}
        arracc = {}
        for pc, writes, reads, ret in res:
            c = simp(z3.And(*[x for x in pc if is_z(x)])) if pc else True
            last = {}
            for w in writes:
                if w[0] in ('var', 'field'): last[(w[0], id(w[1]), w[2])] = w[4]
                elif w[0] == 'arr':
                    i = simp(w[2])
                    if is_z(i) and i.eq(gen) and id(w[1]) not in offs:
                        arrs.setdefault(id(w[1]), (w[1], {}))[1][id(pc)] = (c, w[3])
                    elif is_z(i) and not any(t.eq(gen) for t in subterms([simp(i - gen)])):
                        if id(w[1]) in arrs and not (id(w[1]) in offs and offs[id(w[1])].eq(simp(i - gen))): raise Unsupported('array written at two places in one iteration')
                        offs[id(w[1])] = simp(i - gen)
                        arrs.setdefault(id(w[1]), (w[1], {}))[1][id(pc)] = (c, w[3])
                    else: raise Unsupported('array write at %s in summarised loop (line %s)' % (i, s.get('l')))
                elif w[0] == 'objw': raise Unsupported('object array write in loop')
            for k, (loc, old, fresh) in accs.items():
                v = last.get(k, fresh)
                if isinstance(fresh, Cx):
                    v = Cx.of(v); dlt = (diff_of(v.re, fresh.re), diff_of(v.im, fresh.im))
                    terms = dlt
                else: terms = (diff_of(v, fresh),)
                fs = [f for _, _, q in accs.values() for f in ((q.re, q.im) if isinstance(q, Cx) else (q,))]
                for tm in terms:
                    if k in overwritten: continue
                    if is_z(tm) and any(t.eq(f) for t in subterms([tm]) for f in fs): raise Unsupported('loop-carried dependency (line %s of %s)' % (s.get('l'), fr.fn['name']))
                sums[k].append((c, terms))
                lastv.setdefault(k, []).append((c, v))
        for pc, writes, reads, ret in res:
            fs = [f for _, _, q in accs.values() for f in ((q.re, q.im) if isinstance(q, Cx) else (q,))]
            if fs and any(t.eq(f) for t in subterms([x for x in pc if is_z(x)]) for f in fs): raise Unsupported('loop-carried branch')
            for r in reads:
                if r[0] == 'r' and id(r[1]) in arrs and (id(r[1]) in offs or not (is_z(simp(r[2])) and simp(r[2]).eq(gen))):
                    raise Unsupported('cross-iteration array read')
        evs = [(pc, ret) for pc, writes, reads, ret in res]
        if any(e for _, e in evs):
            self.st.events.append(('forall', gen, lo, hi, evs))
        for a, m in arrs.values():
            a.writes.append(('map', lo, hi, gen, list(m.values())) + ((offs[id(a)],) if id(a) in offs else ()))
            self.st.journal.append(('map', a))
        for k, (loc, old, fresh) in accs.items():
            if k in overwritten:
                # overwritten by every iteration without reading it: holds the value of the last iteration, if there was one
                vs = [v for c, v in lastv[k]]
                if all(not is_z(v) for v in vs) and len(set(vs)) == 1: new = vs[0]
                else: new = self.st.new('LAST', 'R' if isreal(old) else 'I')
                loc.set(simp(ite(cmp('<', lo, hi), new, old)) if is_z(new) or is_z(old) or new != old else old)
                continue
            tot = []
            for comp in range(2 if isinstance(fresh, Cx) else 1):
                term = Fraction(0)
                for c, terms in sums[k]: term = ite(c, RV(terms[comp]) if isreal(old) or isinstance(old, Cx) else terms[comp], term if is_z(term) else RV(term) if (isreal(old) or isinstance(old, Cx)) else int(term)) if c is not True else terms[comp]
                S = self.st.new('SUM', 'R' if (isreal(old) or isinstance(old, Cx)) else 'I')
                self.st.ghost.setdefault('sums', {})[str(S)] = (gen, term, lo, hi)
                self.st.ghost['sums'][str(S)] = (gen, term, lo, hi)
                self.st.assume(z3.Implies(IV(hi) <= IV(lo), S == 0))
                tot.append(S)
            loc.set(Cx(arith('+', old.re, tot[0]), arith('+', old.im, tot[1])) if isinstance(old, Cx) else arith('+', old, tot[0]))
        fr.vars[d] = simp(ite(cmp('<', lo, hi), hi, lo)) if op != '!=' else hi
        for o in self.last_obls: self.st.obls.append(o)
        return None
    def _iter(self, fr, d, gen, body):
        fr.vars[d] = gen
        r = self.ex(body, fr)
        if r and r[0] not in ('continue',): raise Unsupported('loop exit from summarised loop')
        return None
    def subexplore_r(self, fn, extra, fr, loopvar):
        out = []
        def g():
            out.append((self.st, fn()))
        self.subexplore(g, extra, fr, loopvar)
        return [(list(st.pc), r) for st, r in out]
    def subexplore(self, fn, extra, fr, loopvar):
        """run fn along all paths from the current state, undoing its effects; returns [(pc, writes, reads, result)]"""
        parent = self.st
        out, stack, obls = [], [[]], []
        declared0 = set(fr.declared); vars0 = dict(fr.vars); refs0 = dict(fr.refs)
        f0 = next(parent.fresh); born0 = next(Rec.serial)
        while stack:
            script = stack.pop()
            st = State(script, [a for a in parent.assume_list] + parent.pc + extra, parent.feas_ms)
            st.fresh = itertools.count(f0 * 1000 + 1); st.journal = []; st.ghost = parent.ghost
            st.events = []
            self.st = st
            saved_log = self.readlog; self.readlog = []
            try:
                r = fn()
                writes = self._collect(st.journal, declared0, fr, loopvar, born0)
                out.append((list(st.pc), writes, self.readlog, list(st.events)))
                obls += [(n, f, parent.pc + extra + pc) for n, f, pc in st.obls]
            except Infeasible: pass
            finally:
                self.undo(st.journal)
                fr.vars.clear(); fr.vars.update(vars0); fr.refs.clear(); fr.refs.update(refs0); fr.declared = set(declared0)
                self.readlog = saved_log
                self.st = parent
            stack.extend(st.pending)
            if len(out) > 300: raise Budget('loop body paths')
        self.last_obls = obls
        return out
    def _collect(self, journal, declared0, fr, loopvar, born0):
        ws, seenfr = [], {}
        for j in journal:
            if j[0] == 'var':
                if j[1] is fr and (j[2] == loopvar or j[2] not in declared0 and j[2] not in [p['d'] for p in fr.fn['params']]): continue
                if j[1] is not fr: continue      # frames of inlined callees
                ws.append(('var', j[1], j[2], j[3], j[1].vars.get(j[2])))
            elif j[0] == 'field':
                if j[1].born > born0: continue          # created by this iteration
                if self.in_local(j[1], fr, declared0, j[2]): continue
                ws.append(('field', j[1], j[2], j[3], j[1].f.get(j[2])))
            elif j[0] == 'arr': ws.append(j)
            elif j[0] == 'objw': ws.append(j)
            elif j[0] == 'map': raise Unsupported('nested array map')
        return ws
    def in_local(self, o, fr, declared0, m=''):
        for k, v in fr.vars.items():
            if v is o and k not in declared0: return True
        # temporaries and caches of fresh lazies are not reachable before the loop: only named, lazy objects matter
        if o.name is None: return True
        return o.lazy and o.rec.startswith('Position<') and m in ('_norm', '_normsq')     # mutable cache of norms only
    def undo(self, journal):
        for j in reversed(journal):
            if j[0] == 'var':
                if j[3] is UNDEF: j[1].vars.pop(j[2], None)
                else: j[1].vars[j[2]] = j[3]
            elif j[0] == 'field':
                if j[3] is UNDEF: j[1].f.pop(j[2], None)
                else: j[1].f[j[2]] = j[3]
            elif j[0] in ('arr', 'map', 'hav'): j[1].writes.pop()
            elif j[0] == 'objw':
                if j[3] is None: j[1].cells.pop(j[2], None)
                else: j[1].cells[j[2]] = j[3]
    # ---------- expressions
    def lv(self, e, fr):
        k = e['k']
        if k == 'DeclRefExpr':
            d = e['d']
            if d in fr.refs: return fr.refs[d]
            if d in fr.vars: return VarLoc(self, fr, d)
            if e.get('global'):
                if e.get('init'): return TempLoc(self.coerce(self.rv(e['init'], fr), e['t']))
                return TempLoc(self.lazy_value(e.get('name', d), e['t']))
            return VarLoc(self, fr, d)
        if k == 'MemberExpr':
            base = e['c'][0]
            o = self.deref(self.rv(base, fr)) if e.get('arrow') else self.objof(base, fr)
            if e.get('anon'): return TempLoc(o)
            if isinstance(o, Rec) and e.get('isref') and e['m'] in o.f and isinstance(o.f[e['m']], Loc): return o.f[e['m']]
            if not isinstance(o, Rec): raise Unsupported('member %s of %r' % (e['m'], o))
            return FieldLoc(self, o, e['m'], e['t'])
        if k == 'ArraySubscriptExpr':
            b, i = self.rv(e['c'][0], fr), self.rv(e['c'][1], fr)
            if isinstance(b, ElemPtr):
                self.bounds(b.a, arith('+', b.i, i))
                return ElemLoc(b.a, arith('+', b.i, i))
            raise Unsupported('subscript of %r' % (b,))
        if k == 'UnaryOperator':
            if e['op'] == '*':
                v = self.rv(e['c'][0], fr)
                if isinstance(v, ElemPtr): self.bounds(v.a, v.i); return ElemLoc(v.a, v.i)
                o = self.deref(v)
                return o if isinstance(o, Loc) else TempLoc(o)
            if e['op'] in ('++', '--'):
                loc = self.lv(e['c'][0], fr); loc.set(self.incr(loc.get(), e['op'])); return loc
            if e['op'] in ('__real', '__imag'):
                return SubLoc(self.lv(e['c'][0], fr), 're' if e['op'] == '__real' else 'im')
        if k == 'BinaryOperator' and e['op'] == '=':
            v = self.rv(e['c'][1], fr); loc = self.lv(e['c'][0], fr)
            loc.set(self.coerce(v.copy() if isinstance(v, Rec) else v, e['c'][0]['t'])); return loc
        if k == 'BinaryOperator' and e['op'] == ',':
            self.effect(e['c'][0], fr); return self.lv(e['c'][1], fr)
        if k == 'CompoundAssignOperator':
            v = self.rv(e['c'][1], fr); loc = self.lv(e['c'][0], fr)
            op = e['op'][:-1]
            old = loc.get()
            if isinstance(old, ElemPtr): loc.set(ElemPtr(old.a, arith(op, old.i, v))); return loc
            r = self.bitop(op, old, v) if op in ('<<', '>>', '&', '|', '^') else self.num(op, old, v)
            t = norm_t(e['c'][0]['t'])
            if t in INTS and isreal(r): r = trunc(r)
            loc.set(r); return loc
        if k == 'Cast':
            if e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'NoOp', 'BaseToDerived', 'LValueBitCast'): return self.lv(e['c'][0], fr)
            return TempLoc(self.rv(e, fr))
        if k == 'ConditionalOperator':
            return self.lv(e['c'][1] if self.cond(e['c'][0], fr) else e['c'][2], fr)
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            r = self.callexpr(e, fr)
            return r if isinstance(r, Loc) else TempLoc(r)
        if k == 'Construct': return TempLoc(self.construct(e, fr, e['t']))
        return TempLoc(self.rv(e, fr))
    def bounds(self, a, i):
        h = getattr(self, 'boundshook', None)
        if h: h(a, i)
    def objof(self, e, fr):
        if is_lvkind(e):
            return self.lv(e, fr).get()
        return self.rv(e, fr)
    def deref(self, v):
        if isinstance(v, ElemPtr): return ElemLoc(v.a, v.i).get()
        if isinstance(v, Loc): return v
        if not isinstance(v, Ptr): raise Unsupported('deref of %r' % (v,))
        if v.null is True:
            self.st.oblige('no null dereference', False); raise Infeasible()
        if is_z(v.null):
            self.st.oblige('no null dereference', z3.Not(v.null))
            self.st.assume(z3.Not(v.null))
        return v.to
    def incr(self, v, op):
        if isinstance(v, ElemPtr): return ElemPtr(v.a, arith(op[0], v.i, 1))
        if isinstance(v, Rec) and v.rec == 'iter': 
            r = v.copy(); r.f['i'] = arith(op[0], v.f['i'], 1); return r
        return arith(op[0], v, 1)
    def num(self, op, a, b):
        if a is UNDEF or b is UNDEF: raise Unsupported('use of undefined value')
        if isinstance(a, Cx) or isinstance(b, Cx):
            if not isinstance(a, Cx):
                if op == '*': return b * a
                a = Cx.of(a)
            return {'+': a.__add__, '-': a.__sub__, '*': a.__mul__, '/': a.__truediv__}[op](b)
        if op == '/' and (isreal(a) or isreal(b)):
            self.divhook(b)
        if op in ('/', '%') and not (isreal(a) or isreal(b)): self.divhook(b)
        return arith(op, a, b)
    def divhook(self, b):
        h = getattr(self, 'ondiv', None)
        if h: h(b)
    def bitop(self, op, a, b):
        if not is_z(a) and not is_z(b): return {'<<': a << b, '>>': a >> b, '&': a & b, '|': a | b, '^': a ^ b}[op]
        raise Unsupported('bit operation')
    def rv(self, e, fr):
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression %s line %s' % (k, e.get('l')))
        return m(e, fr)
    def e_IntegerLiteral(self, e, fr):
        v = int(e['v'])
        return bool(v) if e['t'] == 'bool' else v
    def e_CXXBoolLiteralExpr(self, e, fr): return e['v'] == '1'
    def e_FloatingLiteral(self, e, fr):
        s = e.get('src', e['v']).rstrip('fFlL')
        try: return Fraction(s)
        except ValueError: return Fraction(e['v'])
    def e_StringLiteral(self, e, fr): return 'str'
    def e_CXXThisExpr(self, e, fr): return Ptr(fr.this)
    def e_CXXNullPtrLiteralExpr(self, e, fr): return NULL
    def e_FunctionRef(self, e, fr): return FnPtr(e['f'], e['name'])
    def e_DeclRefExpr(self, e, fr): return self.lv(e, fr).get()
    def e_MemberExpr(self, e, fr): return self.lv(e, fr).get()
    def e_ArraySubscriptExpr(self, e, fr): return self.lv(e, fr).get()
    def e_CompoundAssignOperator(self, e, fr): return self.lv(e, fr).get()
    def e_CXXScalarValueInitExpr(self, e, fr): return 0 if norm_t(e['t']) in INTS else Fraction(0)
    def e_ImplicitValueInitExpr(self, e, fr): return self.e_CXXScalarValueInitExpr(e, fr)
    def e_Construct(self, e, fr): return self.construct(e, fr, e['t'])
    def e_CXXTemporaryObjectExpr(self, e, fr): return self.construct(e, fr, e['t'])
    def e_CXXFunctionalCastExpr(self, e, fr): return self.rv(e['c'][0], fr)
    def e_CXXStdInitializerListExpr(self, e, fr): return self.rv(e['c'][0], fr)
    def e_UnaryExprOrTypeTraitExpr(self, e, fr): raise Unsupported('sizeof')
    def e_CXXThrowExpr(self, e, fr):
        self.st.events.append(('throw',)); raise Unsupported('throw')
    def e_CXXDeleteExpr(self, e, fr): return None
    def e_InitListExpr(self, e, fr): return [self.rv(x, fr) for x in e['c']]
    def e_CXXNewExpr(self, e, fr):
        if e.get('array'):
            n = self.rv(e['n'], fr)
            return ElemPtr(Arr('new!%d' % next(self.st.fresh), norm_t(e['at']), self, size=n), 0)
        if e.get('init') and e['init']['k'] == 'Construct': return Ptr(self.construct(e['init'], fr, e['at']))
        return Ptr(TempLoc(self.rv(e['init'], fr)) if e.get('init') else Rec(norm_t(e['at']), 'new!%d' % next(self.st.fresh)))
    def e_Cast(self, e, fr):
        ck, s = e['ck'], e['c'][0]
        if ck == 'LValueToRValue':
            v = self.lv(s, fr).get()
            if v is UNDEF: raise Unsupported('uninitialised read line %s' % e.get('l'))
            return v
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'NoOp', 'BaseToDerived', 'BitCast', 'LValueBitCast'): return self.rv(s, fr) if not (is_lvkind(s) and not norm_t(e['t']).endswith('*')) else self.lv(s, fr).get()
        if ck in ('IntegralCast', 'FloatingCast'):
            v = self.rv(s, fr)
            return asint(v) if ck == 'IntegralCast' and norm_t(e['t']) != 'bool' else v
        if ck == 'IntegralToFloating': return R(self.rv(s, fr))
        if ck == 'FloatingToIntegral': return trunc(self.rv(s, fr))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return self.tobool(self.rv(s, fr))
        if ck == 'NullToPointer': return NULL
        if ck == 'ArrayToPointerDecay':
            if s['k'] == 'StringLiteral': return 'str'
            return self.lv(s, fr).get()
        if ck in ('ConstructorConversion', 'UserDefinedConversion'): return self.rv(s, fr)
        if ck == 'ToVoid': self.effect(s, fr); return None
        raise Unsupported('cast ' + ck)
    def e_UnaryOperator(self, e, fr):
        op, s = e['op'], e['c'][0]
        if op == '-': 
            v = self.rv(s, fr); return -v if isinstance(v, Cx) else neg(v)
        if op == '+': return self.rv(s, fr)
        if op == '!': return lnot(self.tobool(self.rv(s, fr)))
        if op == '&':
            if is_lvkind(s):
                loc = self.lv(s, fr)
                if isinstance(loc, ElemLoc) : 
                    if loc.a.base is not None: return ElemPtr(loc.a, loc.i)
                try: v = loc.get()
                except Unsupported: v = None
                return Ptr(v if isinstance(v, Rec) else loc)
            return Ptr(self.rv(s, fr))
        if op in ('++', '--'):
            if e.get('post'):
                loc = self.lv(s, fr); old = loc.get(); loc.set(self.incr(old, op)); return old
            return self.lv(e, fr).get()
        if op == '*': return self.lv(e, fr).get()
        if op in ('__real', '__imag'): return self.lv(e, fr).get()
        if op == '~':
            v = self.rv(s, fr)
            if not is_z(v): return ~v
        raise Unsupported('unary ' + op)
    def e_BinaryOperator(self, e, fr):
        op, (l, r) = e['op'], e['c']
        if op == '=': return self.lv(e, fr).get()
        if op == ',': self.effect(l, fr); return self.rv(r, fr)
        if op in ('&&', '||'):
            a = self.tobool(self.rv(l, fr))
            if not is_z(a): 
                if op == '&&': return self.tobool(self.rv(r, fr)) if a else False
                return True if a else self.tobool(self.rv(r, fr))
            if pure(r) : 
                b = self.tobool(self.rv(r, fr))
                return land(a, b) if op == '&&' else lor(a, b)
            a = self.st.branch(a)
            if op == '&&': return self.tobool(self.rv(r, fr)) if a else False
            return True if a else self.tobool(self.rv(r, fr))
        a, b = self.rv(l, fr), self.rv(r, fr)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if isinstance(a, ElemPtr) and isinstance(b, ElemPtr) and a.a is b.a: return cmp(op, a.i, b.i)
            if isinstance(a, (Ptr, ElemPtr)) or isinstance(b, (Ptr, ElemPtr)): return self.ptrcmp(op, a, b)
            return cmp(op, a, b)
        if op in ('+', '-') and isinstance(a, ElemPtr):
            if isinstance(b, ElemPtr): return arith('-', a.i, b.i)
            return ElemPtr(a.a, arith(op, a.i, b))
        if op in ('<<', '>>', '&', '|', '^'): return self.bitop(op, a, b)
        return self.num(op, a, b)
    def ptrcmp(self, op, a, b):
        if isinstance(a, int) and a == 0: a = NULL
        if isinstance(b, int) and b == 0: b = NULL
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.null is True and b.null is True: r = True
            elif a.null is True: r = b.null
            elif b.null is True: r = a.null
            elif a.to is b.to: r = True
            else: raise Unsupported('pointer comparison')
        elif isinstance(a, ElemPtr) and isinstance(b, Ptr) and b.null is True or isinstance(b, ElemPtr) and isinstance(a, Ptr) and a.null is True: r = False
        else: raise Unsupported('pointer comparison')
        return r if op == '==' else lnot(r)
    def e_ConditionalOperator(self, e, fr):
        c = self.tobool(self.rv(e['c'][0], fr))
        if is_z(c): c = simp(c); c = True if z3.is_true(c) else False if z3.is_false(c) else c
        if not is_z(c): return self.rv(e['c'][1] if c else e['c'][2], fr)
        if pure(e['c'][1]) and pure(e['c'][2]) and norm_t(e['t']) in ('double', 'float', 'bool', 'int', 'long', 'unsigned long'):
            return ite(c, self.rv(e['c'][1], fr), self.rv(e['c'][2], fr))
        return self.rv(e['c'][1] if self.st.branch(c) else e['c'][2], fr)
    def e_CallExpr(self, e, fr):
        r = self.callexpr(e, fr)
        return r.get() if isinstance(r, Loc) else r
    e_CXXMemberCallExpr = e_CXXOperatorCallExpr = e_CallExpr
    def args(self, al, pref, fr):
        out = []
        for i, a in enumerate(al):
            if i < len(pref) and pref[i]: out.append(self.lv(a, fr) if is_lvkind(a) else TempLoc(self.rv(a, fr)))
            else: out.append(self.rv(a, fr))
        return out
    def callexpr(self, e, fr):
        self.tick()
        name = e.get('name')
        if name is None: raise Unsupported('indirect call')
        al = e['a']
        this = None
        if 'obj' in e:
            if e.get('arrow'): 
                pv = self.rv(e['obj'], fr)
                this = self.deref(pv)
                if isinstance(this, Loc): this = this.get()
            else: this = self.lv(e['obj'], fr) if is_lvkind(e['obj']) else TempLoc(self.rv(e['obj'], fr))
        elif e.get('opcall') and e.get('method'):
            this = self.lv(al[0], fr) if is_lvkind(al[0]) else TempLoc(self.rv(al[0], fr))
            al = al[1:]
        h = self.contract_for(name)
        if h is not None:
            obj = this.get() if isinstance(this, Loc) else this
            self.usedc.add(name)
            return h(self, e, obj, self.args(al, e['pref'], fr))
        f = self.p.fn.get(e['f'])
        if e.get('virt') and not e.get('qual'):
            obj = this.get() if isinstance(this, Loc) else this
            g = self.p.override(e['f'], obj.rec)
            if g: f = g
            elif f is None: raise Unsupported('virtual call %s on %s' % (name, obj.rec))
        if f is not None:
            obj = this.get() if isinstance(this, Loc) else this
            return self.call(f, obj, self.args(al, e['pref'], fr))
        import engine.cxx.stdlib as S
        return S.builtin(self, e, name, this, al, fr)
    def construct(self, e, fr, t):
        if e is None: return None
        if e['k'] != 'Construct': return self.rv(e, fr)
        t = norm_t(e['t'])
        if is_complex(t):
            a = [self.rv(x, fr) for x in e['a']]
            if len(a) == 1: return Cx.of(a[0])
            if not a: return Cx(0, 0)
            return Cx(a[0], a[1])
        if e.get('copy') and len(e['a']) == 1:
            src = e['a'][0]
            v = self.lv(src, fr).get() if is_lvkind(src) else self.rv(src, fr)
            f = self.p.fn.get(e['f'])
            if f is None or e.get('defaulted') or not isinstance(v, Rec):
                return v.copy() if isinstance(v, Rec) else v
        f = self.p.fn.get(e['f'])
        h = self.contract_for('ctor:' + e['name'])
        if h: return h(self, e, t, self.args(e['a'], e['pref'], fr))
        if f is not None:
            o = Rec(t, 'obj!%d' % next(self.st.fresh))
            self._subobjects(o, t)
            self.call(f, o, self.args(e['a'], e['pref'], fr))
            return o
        if t.startswith('std::') or t.startswith('__gnu_cxx'):
            import engine.cxx.stdlib as S
            return S.construct(self, e, t, fr)
        o = Rec(t, 'obj!%d' % next(self.st.fresh)); self._subobjects(o, t); return o
    def _subobjects(self, o, t):
        for m, ft in (self.p.fields(t) or {}).items():
            if norm_t(ft) in self.p.rec and m: 
                s = Rec(norm_t(ft), o.name + '.' + m); self._subobjects(s, norm_t(ft)); o.f[m] = s
            mm = re.match(r'(.*?) ?\[(\d+)\]$', ft)
            if mm: o.f[m] = ElemPtr(Arr(o.name + '.' + m, norm_t(mm.group(1)), self), 0)
    def construct_into(self, o, e, fr):
        f = self.p.fn.get(e['f'])
        if f is None:
            if e.get('copy') and len(e['a']) == 1:
                v = self.lv(e['a'][0], fr).get()
                for m in self.p.fields(e['t']) or {}:
                    if m: FieldLoc(self, o, m, None).set(FieldLoc(self, v, m, None).get())
            return
        self.call(f, o, self.args(e['a'], e['pref'], fr))

def diff_of(v, base):
    v = simp(arith('-', v, base))
    if is_z(v): v = z3.simplify(v, som=True)
    return v

LVK = {'DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr'}
def is_lvkind(e):
    k = e['k']
    if k in LVK: return True
    if k == 'UnaryOperator': return e['op'] in ('*', '__real', '__imag') or (e['op'] in ('++', '--') and not e.get('post'))
    if k == 'BinaryOperator': return e['op'] == '=' or (e['op'] == ',' and is_lvkind(e['c'][1]))
    if k == 'CompoundAssignOperator': return True
    if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'): return bool(e.get('retref'))
    if k == 'Cast': return e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'NoOp', 'BaseToDerived', 'LValueBitCast') and is_lvkind(e['c'][0])
    if k == 'ConditionalOperator': return is_lvkind(e['c'][1]) and is_lvkind(e['c'][2]) and e['t'].startswith(('Position', 'std::', 'Cell', 'BaseCell', 'const'))
    return False
def is_output(e):
    """expression that only writes to a stream"""
    if e['k'] == 'CXXOperatorCallExpr' and 'operator<<' in (e.get('name') or ''): return True
    if e['k'] == 'CXXMemberCallExpr' and 'basic_ostream' in (e.get('name') or ''): return True
    if e['k'] == 'CallExpr' and (e.get('name') or '').startswith('std::operator<<'): return True
    return False
def only_output(s):
    if s is None: return True
    if s['k'] == 'Expr': return is_output(s['e'])
    if s['k'] == 'CompoundStmt': return all(only_output(c) for c in s['c'])
    return s['k'] == 'NullStmt'
def pure(e):
    if e is None: return True
    k = e['k']
    if k in ('CompoundAssignOperator', 'CXXNewExpr', 'CXXDeleteExpr', 'CXXThrowExpr'): return False
    if k == 'BinaryOperator' and e['op'] == '=': return False
    if k == 'UnaryOperator' and (e['op'] in ('++', '--') ): return False
    if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'Construct'):
        n = e.get('name') or ''
        if not re.match(r'(std::(abs|min|max|norm|real|imag|conj|complex)|sqrt|std::sqrt|BaseCell<.*>::get|Cell<.*>::get|Position<.*>::get|BaseCellData.*::get)', n) and not n.startswith('std::complex'): return False
        if not all(pure(a) for a in e.get('a', [])): return False
        return pure(e.get('obj'))
    return all(pure(c) for c in e.get('c', []) if isinstance(c, dict))

_ord = {}
def loop_ordinal(fn, s):
    key = fn['id']
    if key not in _ord:
        lst = []
        def walk(x):
            if isinstance(x, dict):
                if x.get('k') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt') and not (x['k'] == 'DoStmt' and x['cond'].get('v') == '0'): lst.append(id(x))
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        walk(fn['body']); _ord[key] = lst
    return _ord[key].index(id(s)) if id(s) in _ord[key] else -1
