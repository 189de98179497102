from lib import *
import specs.pyobj as O, specs.estim as M
c = start('P17')
for h in ((), ('dr',), ('rd',), ('dr', 'rd')): c.group('NN with %s' % (h,), M.p17_nn, False, h)
for h in ((), ('dr', 'rd')): c.group('NNN with %s' % (h,), M.p17_nn, True, h)
for tp in ('NK', 'NZ', 'NV', 'NG', 'NT', 'NQ'): c.group('compensated ' + tp, M.p17_comp, tp)
py_trust(c)
c.bound('replay', 'harness/hestim.py', 'P17', what='totals and estimators against numpy, random small catalogs', limit=300)
c.finish()
