from lib import *
import specs.sampler as S
c = start('P10')
py_trust(c)
p = ir(c, 'Corr2')
if p:
    for C in (1, 2, 3):
        for R in (0, 1): c.group('finishProcess<R=%d,C=%d>' % (R, C), S.finish, p, R, C, limit=700)
    c.group('SelectRandomFrom', S.select, p)
    for B in (0, 1, 2): c.group('Sampler ctor B=%d' % B, S.ctor, p, B)
    for C in (1, 2, 3): c.group('corr_sample_pairs C=%d' % C, S.driver, p, C)
    c.group('sample_pairs', S.python)
c.assume('the leaves of a cell list each of its objects once (P08); every pair of objects is reached in exactly one processed pair of cells (P01, P02)')
c.assume('with bin_slop > 0 the range test is on the separation of the cells used, as everywhere in the tree search (P01)')
c.bound('sampling', 'harness/hsample.py', 'P10', what='sampling runs of random catalogs with n below, at and above the number available, tree sizes and random seeds varied, against direct pair lists', limit=300)
c.finish()
