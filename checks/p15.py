from lib import *
import specs.layout as L
c = start('P15')
for bt, gs in (('Log', ('min max size', 'min max n', 'min n size', 'max n size')), ('Linear', ('min max size', 'min max n', 'min n size', 'max n size')), ('TwoD', ('max size', 'max n', 'n size'))):
    for g in gs:
        for u in (False, True): c.group('%s %s units=%d' % (bt, g, u), L.p15_two, bt, g, u)
for bt in ('LogRUV', 'LogSAS', 'LogMultipole'):
    for g in L.RGIVEN:
        for sk in (L.SHAPES if bt != 'LogMultipole' else [()]):
            if sk and g not in ('min max size', 'min max n'): continue
            for u in (False, True):
                if u and bt == 'LogRUV' and sk: continue
                c.group('%s %s shape=%s units=%d' % (bt, g, ','.join(sk), u), L.p15_three, bt, g, sk, u)
p = ir(c, 'Corr2', 'Corr3')
if p: c.group('compiled constructors', L.p15_cxx, p)
c.bound('layouts', 'harness/hlayout.py', 'P15', what='random parameter sets, at most 12 bins per axis', limit=200)
py_trust(c)
c.finish()
