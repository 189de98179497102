from lib import *
import specs.accum as A, specs.pyobj as O
c = start('P05')
p = ir(c, 'Corr2', 'Corr3')
if p:
    for D1, D2 in A.D2s: c.group('Corr2<%d,%d>' % (D1, D2), A.p05_corr2, p, D1, D2)
    for D in (0, 1, 2):
        for z in (False, True): c.group('Corr3<%d,%d,%d> complex=%d' % (D, D, D, z), A.p05_corr3, p, D, z)
for tp in O.T2: c.group('python ' + tp, O.p05_py, tp, 'Log')
for tp in O.T3:
    for b in O.BT3: c.group('python %s %s' % (tp, b), O.p05_py, tp, b)
c.bound('merge', 'harness/hmerge.py', 'P05', what='thread counts, partial objects and += in Python against one run', limit=300)
py_trust(c)
c.assume('Python: the list of partial results is unrolled to length 1, 2, 3', 'accumulator invariant: a bin without pairs/triangles holds zero in every component')
c.finish()
