"""Check driver: extraction of /repo's current sources, parallel discharge of obligations, bounded runs of the real
code, evidence, verdict."""
import os, sys, json, time, hashlib, subprocess, traceback, multiprocessing as mp, fcntl, re, tempfile, shutil, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
PYRUN = '/opt/venv/bin/python'
PYSITE = '/opt/venv/lib/python3.12/site-packages'
LLVM = '/usr/lib/llvm-18'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)
T0 = time.time()

def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str) and os.path.isfile(p): h.update(open(p, 'rb').read())
        else: h.update(str(p).encode())
    return h.hexdigest()[:20]

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True); self.f = open(os.path.join(BUILD, name + '.lock'), 'w')
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()

def tool():
    src = os.path.join(VERIF, 'engine/cxx/cxxir.cpp')
    out = os.path.join(BUILD, 'cxxir-' + _hash(src))
    if os.path.exists(out): return out
    with Lock('cxxir'):
        if os.path.exists(out): return out
        subprocess.run(['g++', '-std=c++17', '-O1', '-fno-rtti', '-I%s/include' % LLVM, src, '-o', out + '.tmp',
                        '%s/lib/libclang-cpp.so.18.1' % LLVM, '-L%s/lib' % LLVM, '-lLLVM-18'], check=True, capture_output=True)
        os.rename(out + '.tmp', out)
    return out

def cxx_sources():
    out = []
    for d in ('include', 'src'):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith(('.h', '.cpp')): out.append(os.path.join(REPO, d, f))
    return out

def prune(prefix, keep):
    try:
        fs = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith(prefix)), key=os.path.getmtime)
        for f in fs[:-keep]:
            shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
    except OSError: pass

def extract(*tus):
    """IR of the given translation units (src/X.cpp) or of a VERIF-side TU that includes /repo headers"""
    t = tool()
    stub = os.path.join(VERIF, 'engine/cxx/stub')
    srch = _hash(*cxx_sources())
    procs, outs = [], []
    with Lock('extract'):
        for tu in tus:
            src = tu if tu.startswith('/') else os.path.join(REPO, 'src', tu + '.cpp')
            key = _hash(t, srch, src, tu)
            out = os.path.join(BUILD, 'ir-%s-%s.json' % (os.path.basename(tu).replace('.cpp', ''), key))
            outs.append(out)
            if os.path.exists(out): continue
            procs.append((out, subprocess.Popen(
                [t, src, out + '.tmp', '.', '%s/include:%s/src:%s' % (REPO, REPO, VERIF), '--', '-std=c++11', '-D_OPENMP', '-DNDEBUG',
                 '-resource-dir=%s/lib/clang/18' % LLVM, '-I' + stub, '-I%s/include' % REPO, '-I%s/pybind11/include' % PYSITE,
                 '-I/usr/include/python3.12'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        for out, p in procs:
            err = p.communicate()[1].decode(errors='replace')
            if p.returncode != 0 or not os.path.exists(out + '.tmp'):
                raise RuntimeError('extraction failed: ' + err[-1500:])
            os.rename(out + '.tmp', out)
        prune('ir-', 60)
    return outs

def build_ext():
    """compile /repo's current C++ sources into a scratch extension module; returns the .so path"""
    key = _hash(*cxx_sources())
    d = os.path.join(BUILD, 'ext-' + key)
    so = os.path.join(d, '_treecorr.so')
    if os.path.exists(so): return so
    with Lock('ext'):
        if os.path.exists(so): return so
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ, CCACHE_DIR=os.environ.get('CCACHE_DIR', os.path.join(BUILD, 'ccache') if not os.access('/opt/ccache', os.W_OK) else '/opt/ccache'), HOME='/root')
        cc = ['ccache', 'g++'] if shutil.which('ccache') else ['g++']
        ps = []
        for f in cxx_sources():
            if not f.endswith('.cpp'): continue
            o = os.path.join(d, os.path.basename(f)[:-4] + '.o')
            ps.append((o, subprocess.Popen(cc + ['-DNDEBUG', '-fPIC', '-fvisibility=hidden', '-std=c++11', '-fopenmp', '-O3', '-ffast-math',
                '-I%s/include' % REPO, '-I%s/pybind11/include' % PYSITE, '-I/usr/include/python3.12', '-c', f, '-o', o],
                env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        for o, p in ps:
            e = p.communicate()[1].decode(errors='replace')
            if p.returncode: raise RuntimeError('build failed: ' + e[-1500:])
        subprocess.run(['g++', '-shared', '-fopenmp', '-o', so + '.tmp'] + [o for o, _ in ps], check=True, env=env)
        for o, _ in ps: os.unlink(o)
        os.rename(so + '.tmp', so)
        prune('ext-', 4)
    return so

class Ctx:
    """collects the obligations of one group"""
    def __init__(self, group, timeout):
        self.group, self.timeout, self.results, self.fns, self.assumed = group, timeout, [], set(), set()
    def prove(self, name, hyps, goal, fn='', replay=None, timeout=None, axioms=True):
        from engine.sym import prove, falsify
        v = prove(list(hyps), goal, timeout or self.timeout, axioms=axioms)
        found = None
        if v.status not in ('proved', 'refuted'):
            found = falsify(hyps, goal)
            if found: v.status, v.backend = 'refuted', 'random search'
            else:                                          # wall-clock limits on a loaded machine: once more, longer
                v = prove(list(hyps), goal, 4 * (timeout or self.timeout), axioms=axioms)
        d = dict(name=name, fn=fn, status=v.status, backend=v.backend, secs=round(v.seconds, 3))
        if v.status == 'unknown': d['why'] = v.backend
        if v.status == 'refuted':
            d['model'] = '; '.join('%s=%r' % kv for kv in sorted(found.items())) if found else model_text(v.model)
            if replay:
                try: d['replay'] = replay(v.model)
                except Exception as e: d['replay_error'] = repr(e)
        self.results.append(d)
        return v.status == 'proved'
    def try_prove(self, hyps, goal, timeout=None):
        from engine.sym import prove
        return prove(list(hyps), goal, timeout or 4.0, use_cvc5=False)
    def add(self, name, v, fn=''):
        d = dict(name=name, fn=fn, status=v.status, backend=v.backend, secs=round(v.seconds, 3))
        if v.status == 'refuted': d['model'] = model_text(v.model)
        if v.status == 'unknown': d['why'] = v.backend
        self.results.append(d)
    def record(self, name, ok, fn='', backend='structural', note=''):
        d = dict(name=name, fn=fn, status='proved' if ok else 'refuted', backend=backend, secs=0.0)
        if note: d['model'] = note
        self.results.append(d)
        return ok
    def undecided(self, name, why, fn=''):
        self.results.append(dict(name=name, fn=fn, status='undecided', backend='-', secs=0.0, why=str(why)[:400]))
    def sat(self, name, hyps, fn=''):
        """vacuity guard: the hypotheses must be satisfiable"""
        from engine.sym import satisfiable
        r = satisfiable(list(hyps))
        self.results.append(dict(name='vacuity: ' + name, fn=fn, status={'sat': 'cover', 'unsat': 'vacuous'}.get(r, 'cover?'), backend='z3', secs=0.0))

def model_text(m):
    if m is None: return '(no model)'
    try:
        return '; '.join('%s=%s' % (d.name(), m[d]) for d in sorted(m.decls(), key=lambda d: d.name()) if d.arity() == 0)[:3000]
    except Exception as e: return repr(e)

def _worker(q, name, fn, timeout, args):
    ctx = Ctx(name, timeout)
    err = None
    signal.signal(signal.SIGTERM, lambda *a: (_ for _ in ()).throw(TimeoutError('group time limit')))
    try:
        fn(ctx, *args)
    except BaseException as e:
        from engine.sym import Unsupported
        err = ('unsupported' if isinstance(e, (Unsupported, TimeoutError)) else 'error', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-1500:])
    q.put((name, ctx.results, sorted(ctx.fns), sorted(ctx.assumed), err))

class Check:
    def __init__(self, pid, timeout=12.0, level='proof'):
        self.pid, self.timeout, self.level = pid, timeout, level
        self.groups, self.bounded, self.assumptions, self.trusted = [], [], [], []
        self.t0 = time.time()
    def group(self, name, fn, *args, limit=300):
        self.groups.append((name, fn, args, limit))
    def bound(self, name, script, *args, what='', limit=500):
        self.bounded.append((name, script, args, what, limit))
    def assume(self, *a): self.assumptions += a
    def trust(self, *a): self.trusted += a
    # ---------------------------------------------------------------
    def run_groups(self, nproc=None):
        nproc = nproc or (os.cpu_count() or 4)
        ctx = mp.get_context('fork')
        pend, running, out = list(self.groups), [], {}
        budget = 780 if TIER == 'quick' else 7200
        while pend or running:
            while pend and len(running) < nproc:
                name, fn, args, limit = pend.pop(0)
                q = ctx.SimpleQueue()
                p = ctx.Process(target=_worker, args=(q, name, fn, self.timeout if TIER == 'quick' else self.timeout * 4, args))
                p.start(); running.append((p, q, name, time.time(), limit if TIER == 'quick' else limit * 4))
            time.sleep(0.01)
            nr = []
            for p, q, name, t, lim in running:
                if not q.empty():
                    out[name] = q.get(); p.join(5)
                elif not p.is_alive():
                    out[name] = (name, [], [], [], ('error', 'worker died (exit %s)' % p.exitcode, ''))
                elif time.time() - t > lim + 5 or time.time() - self.t0 > budget + 20:
                    p.kill(); out[name] = (name, [], [], [], ('unsupported', 'killed at time limit', ''))
                elif (time.time() - t > lim or time.time() - self.t0 > budget) and not getattr(p, 'termed', False):
                    p.termed = True; p.terminate(); nr.append((p, q, name, t, lim))
                else: nr.append((p, q, name, t, lim))
            running = nr
        return [out[g[0]] for g in self.groups]
    def run_bounded(self):
        res = []
        if not self.bounded: return res
        try: so = build_ext()
        except RuntimeError as e:
            return [dict(name='build', error=str(e))]
        procs = []
        for name, script, args, what, limit in self.bounded:
            outf = tempfile.NamedTemporaryFile('r', suffix='.json', delete=False)
            env = dict(os.environ, TC_SO=so, VERIF_SEED=str(SEED), VERIF_TIER=TIER, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO,
                       PYTHONPATH=VERIF, OMP_NUM_THREADS='2')
            p = subprocess.Popen([PYRUN, os.path.join(VERIF, script), outf.name] + [str(a) for a in args], env=env, cwd=tempfile.gettempdir(),
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            procs.append((name, what, p, outf, limit, script, args))
        for name, what, p, outf, limit, script, args in procs:
            timed = False
            if TIER != 'quick': limit *= 8
            try: o = p.communicate(timeout=max(5, limit - (time.time() - self.t0)))[0].decode(errors='replace')
            except subprocess.TimeoutExpired:
                timed = True
                p.kill(); o = p.communicate()[0].decode(errors='replace')
            cur = None
            try: cur = json.load(open(outf.name + '.cur')); os.unlink(outf.name + '.cur')
            except Exception: pass
            try: d = json.load(open(outf.name))
            except Exception as e: d = dict(error='no result (%s, exit %s): %s' % (e, p.returncode, o[-1500:]))
            if p.returncode not in (0, None) and 'error' not in d: d['error'] = 'exit %s: %s' % (p.returncode, o[-1500:])
            if cur and not timed and p.returncode is not None and p.returncode < 0 and -p.returncode in (4, 6, 7, 8, 11):
                d = dict(evaluations=1, distinct=1, failures=[dict(id='crash', case=cur, signal=-p.returncode, out=o[-500:])])
            elif cur and timed and time.time() - cur['t'] > 150:
                d = dict(evaluations=1, distinct=1, failures=[dict(id='hang', case=cur, seconds=time.time() - cur['t'])])
            d['name'], d['what'], d['script'], d['args'] = name, what, script, [str(a) for a in args]
            os.unlink(outf.name); res.append(d)
        return res
    def finish(self):
        bres = []
        import threading
        th = None
        if self.bounded:
            th = threading.Thread(target=lambda: bres.extend(self.run_bounded())); th.start()
        gres = self.run_groups()
        if th: th.join()
        obl = dis = 0
        und, refuted, vac, errs, backends, fns, assumed, secs, covers = [], [], [], [], {}, {}, set(), 0.0, 0
        for name, results, f, a, err in gres:
            assumed.update(a)
            for x in f: fns[x] = fns.get(x, 0) + 1
            if err: (und if err[0] == 'unsupported' else errs).append(dict(name=name, why=err[1], trace=err[2] if err[0] == 'error' else ''))
            if not results and not err: vac.append(name + ' (no obligations)')
            for r in results:
                if r['status'] in ('cover', 'cover?'): covers += 1; continue
                if r['status'] == 'vacuous': vac.append(r['name']); continue
                obl += 1; secs += r['secs']
                if r['status'] == 'proved': dis += 1; backends[r['backend']] = backends.get(r['backend'], 0) + 1
                elif r['status'] == 'refuted': refuted.append(dict(r, group=name))
                else: und.append(dict(name=name + '/' + r['name'], why=r.get('why') or 'solver unknown'))
        viol = []
        kf = known_findings(self.pid)
        kprinted = []
        evals = nontriv = 0; samples = []; bnote = []
        for b in bres:
            if b.get('error'): 
                errs.append(dict(name=b['name'], why=b['error'][-1500:], trace=''))
            evals += b.get('evaluations', 0); nontriv += b.get('distinct', 0); samples += b.get('samples', [])[:2]
            bnote.append('%s: %d evaluations; bound: %s' % (b['name'], b.get('evaluations', 0), b.get('bound', b['what'])))
            for f in b.get('failures', []):
                k = next((x for x in kf if x['id'] == f.get('id') ), None)
                if k:
                    if k['id'] not in kprinted: kprinted.append(k['id']); print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
                    continue
                viol.append(dict(kind='bounded', check=b['name'], detail=f, script=b['script'], args=b['args']))
        for r in refuted:
            k = next((x for x in kf if re.search(x['id'], '%s/%s' % (r['group'], r['name']))), None) if kf else None
            if k:
                if k['id'] not in kprinted: kprinted.append(k['id']); print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
                continue
            viol.append(dict(kind='obligation', detail=r))
        import platform
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
        cov = dict(obligations=obl, discharged=dis, checker_cmd='python3-vt checks/%s.py' % self.pid.lower(), backends=backends, solver_seconds=round(secs, 2),
                   functions_under_contract=sorted(fns), functions_with_real_body_executed=len(fns), reachability_covers=covers,
                   undecided=([dict(name=e['name'], why='group not completed: ' + e['why'][:300]) for e in errs] + und)[:60], trusted_base=self.trusted + sorted('assumed contract: ' + x for x in assumed))
        if bres:
            cov.update(evaluations=evals, distinct_nontrivial=nontriv, bounded_checks=bnote, samples=samples[:4] or ['none'],
                       rule='bounded stand-ins run the real code of /repo (rebuilt this run); never counted as proved')
        if self.level != 'proof':
            cov.setdefault('evaluations', evals); cov.setdefault('distinct_nontrivial', nontriv); cov.setdefault('samples', samples[:4] or ['none']); cov.setdefault('rule', 'see bounded_checks')
        if self.level == 'other': cov['explanation'] = self.explanation
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        for e in errs: print('CHECK-PROBLEM %s: %s %s' % (e['name'], e['why'][:600], e['trace'][-600:]))
        for u in und[:20]: print('undecided %s: %s' % (u['name'], u['why'][:200]))
        for v in vac: print('vacuous: ' + v)
        print('%s: %d obligations, %d discharged, %d undecided, %d refuted; bounded evaluations %d; %.1f s' % (self.pid, obl, dis, len(und), len(refuted), evals, time.time() - self.t0))
        if viol:
            viol.sort(key=lambda v: v['kind'] != 'bounded')
            path = os.path.join(rdir, '%s-%s.json' % (self.pid, _hash(json.dumps(viol[0], default=str))[:10]))
            json.dump(dict(property=self.pid, violations=viol[:20], note='bounded entries carry the failing input (re-run the named script with the case); obligation entries carry the failed verification condition and the solver counterexample'), open(path, 'w'), indent=1, default=str)
            v = viol[0]
            concrete = v['kind'] == 'bounded' or (v['detail'].get('replay') and v['detail']['replay'].get('confirmed'))
            d = v['detail']
            print('failed: %s' % json.dumps(d, default=str)[:1500])
            print('VIOLATION property=%s replay=%s%s' % (self.pid, path, '' if concrete else ' no-failing-input-found'))
            sys.stdout.flush(); os._exit(1)
        bad = [v for v in vac]
        if obl == 0 and self.level == 'proof': bad.append('no obligations')
        if (errs and not und and obl == 0 and not evals):
            print('check error'); sys.stdout.flush(); os._exit(2)
        sys.stdout.flush(); os._exit(0)

def known_findings(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p): return []
    return [x for x in json.load(open(p)) if x.get('property') == pid and x.get('status') == 'known']
