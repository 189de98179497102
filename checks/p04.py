from lib import *
import specs.accum as A
c = start('P04')
p = ir(c, 'Corr2')
if p:
    for D1, D2 in A.D2s:
        for C in (1, 2, 3):
            for R in ((0, 1) if D1 == D2 else (0,)): c.group('finishProcess<%d,%d>::<%d,%d>' % (D1, D2, R, C), A.p04_finish, p, D1, D2, R, C)
c.bound('sums', 'harness/hfield.py', 'P04', what='random catalogs of every pair of field types against direct sums over pairs', limit=300)
c.finish()
