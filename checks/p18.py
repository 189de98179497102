from lib import *
import specs.pyobj as O, specs.estim as M
c = start('P18')
for three in (False, True):
    for k in ('jackknife', 'sample'): c.group('%s pairs %dpt' % (k, 3 if three else 2), M.p18_leaveout, three, k)
    import itertools
    for pat in itertools.product((0, 1), repeat=3 if three else 2):
        if any(pat):
            for k in ('marked', 'bootstrap'): c.group('%s pairs %s' % (k, pat), M.p18_boot, three, k, pat)
for w in ('jackknife', 'sample', 'bootstrap', 'marked'): c.group('covariance ' + w, M.p18_cov, w)
for pl in M.PAIRS2:
    for cfg in ('patched', 'unpatched'):
        for h in ((), ('dr',), ('rd',), ('dr', 'rd')): c.group('NN %s %s %s' % (h, cfg, pl), M.p18_counts, False, h, cfg, pl)
        for h in ((), ('dr', 'rd')): c.group('NNN %s %s %s' % (h, cfg, pl), M.p18_counts, True, h, cfg, pl)
        for tp in ('NK', 'NZ', 'NV', 'NG', 'NT', 'NQ'): c.group('%s %s %s' % (tp, cfg, pl), M.p18_comp, tp, cfg, pl)
for tp in O.T2 + O.T3: c.group('realisation ' + tp, M.p18_plain, tp, 'LogRUV' if len(tp) == 3 else 'Log')
for pl in M.PAIRS2:      # only some of the data catalogs have patches
    for d, hs in (((3, 1), ((), ('dr',))), ((1, 3), ((), ('rd',)))):
        for h in hs: c.group('NN %s unpatched %s %s' % (h, pl, d), M.p18_counts, False, h, 'unpatched', pl, d)
        for h in ((), ('dr',), ('rd',), ('dr', 'rd')): c.group('NN %s patched %s %s' % (h, pl, d), M.p18_counts, False, h, 'patched', pl, d)
    for d in ((3, 1, 1), (1, 3, 3)):
        for h in ((), ('dr', 'rd')): c.group('NNN %s patched %s %s' % (h, pl, d), M.p18_counts, True, h, 'patched', pl, d)
        c.group('NNN unpatched %s %s' % (pl, d), M.p18_counts, True, (), 'unpatched', pl, d)
    for d in ((3, 3, 1), (3, 1, 3), (1, 3, 1)): c.group('NNN unpatched %s %s' % (pl, d), M.p18_counts, True, (), 'unpatched', pl, d)
c.group('design matrix', M.p18_rows)
for tp in ('KK', 'NK', 'KZ', 'NZ'): c.group('variance ' + tp, M.p18_diag, tp)
py_trust(c)
c.bound('replay', 'harness/hestim.py', 'P18', what='patch realisations, design matrices and covariances recomputed from single-patch catalogs, random small catalogs', limit=300)
c.finish()
