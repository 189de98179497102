from lib import *
import specs.tree2 as T
c = start('P03')
p = ir(c, 'Corr2')
def args(f): return tuple(int(x) for x in f['name'].split('<')[1].rstrip('>').split(','))
if p:
    P = T.prog(p)
    for t in sorted(T.instances(P, TIER), key=lambda t: -t[0]): c.group('process11<%s>' % (t,), T.p03_process11, p, t, limit=500)
    seen = set()
    for f in P.find('^BaseCorr2::process2<'):
        a = args(f)
        if a[0] == 2 and (a[1], a[3]) != (1, 1): continue
        if TIER == 'quick' and a[:3] in seen: continue
        seen.add(a[:3]); c.group(f['name'], T.p03_process2, p, f)
    seen = set()
    for f in P.find('^BaseCorr2::process<'):
        a = args(f) + (len(f['params']),)
        if a[0] == 2 and (a[1], a[3]) != (1, 1): continue
        if TIER == 'quick' and (a[:3], a[4]) in seen: continue
        seen.add((a[:3], a[4])); c.group(f['name'] + '/%d' % a[4], T.p03_process, p, f)
c.bound('counts', 'harness/h2pt.py', 'P03', what='random catalogs up to 60 points against brute force', limit=300)
c.trust('induction over the (finite) tree: the per-call obligations hold at every node')
c.finish()
