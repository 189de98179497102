from lib import *
import specs.apert as A
c = start('P23')
for bt in ('LogRUV', 'LogSAS'):
    for g in (True, False):
        n = 4 if bt == 'LogRUV' else 1
        for k in range(n): c.group('calculateMap3 %s k2, k3 R%s %d' % (bt, '' if g else '=None', k), A.p23_map3, bt, 1, g, k, n, limit=700)
        c.group('calculateMap3 %s R%s' % (bt, '' if g else '=None'), A.p23_map3, bt, None, g)
for g in (False, True): c.group('_calculateT %s' % ('general' if g else 'equal radii'), A.p23_T3, g)
for k in ('mapsq', 'nmap', 'napsq'):
    for f in (None, 'Crittenden', 'Schneider'):
        for g in (True, False): c.group('%s %s R%s' % (k, f, '' if g else '=None'), A.p23_two, k, f, g)
for f in (False, True):
    for g in (True, False): c.group('gamsq eb=%s R%s' % (f, '' if g else '=None'), A.p23_two, 'gamsq', f, g)
py_trust(c)
c.trust('engine/ratnorm.py: rational identities by normal form or, where that grows too large, by evaluation at 3 random points of F_p with p = 2^61-1 (a false identity of degree D passes with probability < (2D/2^61)^3)')
c.assume('calculateXi satisfies P17 (its value enters calculateNMap and calculateNapSq as an arbitrary array)')
c.assume('a product over the bins (x.dot(y)) is the sum of its summands; sums are compared summand by summand')
c.bound('replay', 'harness/hapert.py', 'P23', what='every aperture statistic and the write* columns against loops over the bins, random contents of the correlations', limit=300)
c.finish()
