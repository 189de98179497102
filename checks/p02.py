from lib import *
import specs.tree2 as T
c = start('P02')
p = ir(c, 'Corr2')
if p:
    P = T.prog(p)
    for t in T.instances(P, TIER):
        if t[0] in (0, 1): c.group('process11<%s>' % (t,), T.p02_process11, p, t, limit=400)
        else: c.group('process11<%s>' % (t,), T.p02_twod_process11, p, t, limit=400)
    c.group('TwoD bin index', T.p02_twod_calc, p); c.group('TwoD singleBin', T.p02_twod_single, p, limit=400)
c.bound('counts', 'harness/h2pt.py', 'P02', what='random catalogs up to 60 points against brute force', limit=300)
c.trust('contract of DistSq (P06) and of the cell sizes (P08)')
c.finish()
