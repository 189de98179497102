from lib import *
import specs.metric as M
c = start('P06')
p = ir(c, 'Corr2')
if p:
    c.group('wrap<flat>', M.p06_wrap, p, 1); c.group('wrap<3d>', M.p06_wrap, p, 2)
    c.group('DistSq', M.p06_distsq, p); c.group('rpar', M.p06_rpar, p); c.group('metric rpar', M.p06_metric_rpar, p); c.group('Position', M.p06_position, p)
c.bound('distances', 'harness/hmetric.py', what='single pairs and brute-force catalogs against the documented formulas', limit=200)
c.finish()
