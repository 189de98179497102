from lib import *
import specs.tree2 as T, specs.metric as M
c = start('P01')
p = ir(c, 'Corr2')
if p:
    P = T.prog(p)
    for t in T.instances(P, TIER):
        if t[1] in (1, 4, 6): c.group('process11<%s>' % (t,), T.p01_process11, p, t, limit=400)
    for f in P.find('^BaseCorr2::process2<'):
        a = tuple(int(x) for x in f['name'].split('<')[1].rstrip('>').split(','))
        if a[1] in (1, 4, 6) and not (a[0] == 2 and (a[1], a[3]) != (1, 1)) and (TIER != 'quick' or a[2] == 0): c.group(f['name'], T.p03_process2, p, f)
    for f in P.find('^BaseCorr2::process<'):
        a = tuple(int(x) for x in f['name'].split('<')[1].rstrip('>').split(','))
        if len(f['params']) == 3 and a[1] in (1, 4, 6) and not (a[0] == 2 and (a[1], a[3]) != (1, 1)): c.group(f['name'] + '/%d' % len(f['params']), T.p03_process, p, f, True)
    c.group('metric sizes', M.p06_distsq, p)
    c.group('wrap<flat>', M.p06_wrap, p, 1); c.group('wrap<3d>', M.p06_wrap, p, 2)
c.bound('counts', 'harness/h2pt.py', 'P01', what='random catalogs up to 60 points against brute force', limit=300)
c.trust('lemmas of the metric contracts: triangle inequality for the Euclidean norm, the great-circle angle and the periodic (quotient) metric; asin(v) <= v(1+(pi/2-1)v^2) on [0,1]',
        'line-of-sight cut (P=1): r_par moves by at most the sum of the sizes inside a pair of cells (assumed; exact for plane-parallel lines of sight)',
        'Cell invariant: every object of a cell is within _size of its centre (P08)')
c.assume('positions, sizes and bin limits satisfy the constructor invariants of BaseCorr2 (minsep < maxsep, bin layout of P15)')
c.finish()
