from lib import *
import specs.phase as S
c = start('P07')
p = ir(c, 'Corr2', 'Corr3')
if p:
    for s in range(5): c.group('expmsialpha<%d>' % s, S.expm, p, s)
    for D in (2, 3, 4, 5, 6): c.group('spin %d' % D, S.which_s, p, D)
    c.group('direction', S.direction, p); c.group('normalize', S.normalize, p)
    for C in (1, 2, 3): c.group('ExpIPhi<%d>' % C, S.expiphi, p, C)
    for nm, n, tt, C, f in S.instances(p):
        g = '%s%s/%d' % (f['name'].replace('ProjectHelper', ''), '', n)
        if nm in ('Project', 'ProjectWithSq') and len(tt) == 2: c.group(g, S.project2, p, tt[0], tt[1], C, f)
        elif nm == 'Project' and n == 4: c.group(g, S.project22, p, tt[0], C, f)
        elif nm == 'Project': c.group(g, S.project3, p, tt[0], C, f)
        elif n == 9: c.group(g, S.projectx, p, tt[0], C, f)
q = ir(c, 'Cell', 'Field')
if q:
    for D in range(7):
        for C in (1, 2, 3): c.group('averages<%d,%d>' % (D, C), S.averages, q, D, C)
c.assume('the instantiation of Project with the field type of each caller (P04 checks the order of its arguments)')
c.bound('rotation', 'harness/hfield.py', 'P07', what='rigid rotations of the sky leave every two-point result unchanged; direct sums with an independently computed local frame; coherent fields in periodic boxes', limit=300)
c.finish()
