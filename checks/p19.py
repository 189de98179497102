from lib import *
import specs.patches as S, specs.wrappers as W, specs.pyobj as O
c = start('P19')
# ---- which combinations of patches are processed, for lists of any length
def g2(tp, *a, **k): c.group('%s %s' % (tp, ' '.join(str(x) for x in a)) + (' ' + ' '.join('%s=%s' % x for x in k.items()) if k else ''), lambda ctx: S.p19_all(ctx, tp, *a, **k), limit=500)
T, F = True, False
A2, X2, A3, X12, X3 = '_process_all_auto', '_process_all_cross', '_process_all_auto', '_process_all_cross12', '_process_all_cross'
#        type method n comm low local single
for comm in (F, T):
    for low, loc, sp, again in ((F, F, T, F), (T, F, T, T), (F, F, F, F), (T, T, T, F), (F, T, F, T)):
        g2('NN', A2, 1, comm, low, loc, sp, again=again)
        g2('NN', X2, 2, comm, low, loc, sp, again=again)
g2('NN', A2, 1, F, F, F, T, bt='TwoD'); g2('NN', A2, 1, T, T, F, T, bt='TwoD')
g2('GG', A2, 1, F, T, F, T); g2('NG', X2, 2, F, T, F, T); g2('KK', A2, 1, T, F, F, T); g2('KV', X2, 2, T, F, T, T)
for low, loc, sp, again, bt in ((F, F, T, F, 'LogRUV'), (T, F, T, T, 'LogSAS'), (T, T, T, F, 'LogMultipole'), (F, T, F, T, 'LogMultipole')):
    g2('NNN', A3, 1, F, low, loc, sp, again=again, bt=bt)
    for o in (T, F):
        g2('NNN', X12, 2, F, low, loc, sp, ordered=o, again=again, bt=bt)
        g2('NNN', X3, 3, F, low, loc, sp, ordered=o, again=again and (o or sp), bt=bt)
g2('KKK', A3, 1, F, T, F, T); g2('GGG', X3, 3, F, F, T, T, ordered=1, bt='LogMultipole')
# ---- each combination
for tp in O.T2:
    if tp[0] == tp[1]: c.group('process_auto %s' % tp, W.p19_wrap, tp, 'process_auto', 'Log')
    c.group('process_cross %s' % tp, W.p19_wrap, tp, 'process_cross', 'Log')
c.group('process_auto NN TwoD', W.p19_wrap, 'NN', 'process_auto', 'TwoD')
c.group('process_cross NK brute', W.p19_wrap, 'NK', 'process_cross', 'Log', None, 2)
for tp in O.T3:
    for bt in O.BT3:
        c.group('process_auto %s %s' % (tp, bt), W.p19_wrap, tp, 'process_auto', bt)
        for o in (True, False):
            c.group('process_cross12 %s %s %s' % (tp, bt, o), W.p19_wrap, tp, 'process_cross12', bt, o)
            c.group('process_cross %s %s %s' % (tp, bt, o), W.p19_wrap, tp, 'process_cross', bt, o)
        c.group('process_cross %s %s 1' % (tp, bt), W.p19_wrap, tp, 'process_cross', bt, 1)
for tp in O.T2: c.group('process %s' % tp, W.p19_process, tp, 'Log')
for tp in O.T3:
    for bt in O.BT3: c.group('process %s %s' % (tp, bt), W.p19_process, tp, bt)
py_trust(c)
c.assume('a list of catalogs: patch numbers are distinct and below npatch; Catalog.unload only drops cached data; send/recv of MPI deliver the object sent')
c.bound('replay', 'harness/hpatch.py', 'P19', what='patched against unpatched sums and tot for coordinates, metrics, methods and a stand-in for MPI; contracts of _trivially_zero and _make_expanded_patch on random patches', limit=400)
c.finish()
