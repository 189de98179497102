from lib import *
import specs.pyobj as O, specs.norm as N
c = start('P16')
SYS = [('flat', 'Euclidean'), ('spherical', 'Euclidean'), ('spherical', 'Arc'), ('3d', 'Rperp')]
for tp in O.T2:
    for co, m in SYS: c.group('%s %s %s' % (tp, co, m), N.p16_two, tp, co, m)
for tp in O.T3:
    for b in O.BT3:
        for co, m in SYS[:3]: c.group('%s %s %s %s' % (tp, b, co, m), N.p16_three, tp, b, co, m)
py_trust(c)
c.assume('the elementary functions of numpy compute the real functions of the same name (rounding aside)')
c.bound('replay', 'harness/hestim.py', 'P16', what='finalize() of every class against the stored sums, random small catalogs', limit=300)
c.finish()
