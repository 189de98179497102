from lib import *
import specs.assign as A
c = start('P14')
py_trust(c)
p = ir(c, 'KMeans')
if p:
    for C in (1, 2, 3):
        for F, i in (('AssignPatches', False), ('UpdateCenters', True), ('CalculateInertia', False)): c.group('FindCellsInPatches<%d,%s>%s' % (C, F, ' with inertia' if i else ''), A.find, p, C, F, i, limit=500)
        c.group('AssignPatches<%d>::run' % C, A.run_, p, C); c.group('top level C=%d' % C, A.top, p, C, 'AssignPatches'); c.group('KMeansAssign C=%d' % C, A.driver, p, C)
    for d in (2, 3): c.group('QuickAssign %dd' % d, A.quick, p, d)
    c.group('SelectPatch', A.select, p)
c.group('field.py, catalog.py', A.python)
c.assume('every object of a cell lies within the size of the cell of its centre, a cell has size 0 exactly if it has no children, its list holds each of its objects once (P08)')
c.assume('centres in spherical coordinates are unit vectors, as documented, which Position<Sphere>::normalize leaves as they are')
c.assume('QuickAssign computes each distance the same way every time it runs (SelectPatch relies on it for near-ties)')
c.bound('assignment', 'harness/hassign.py', 'P14', what='random and regular catalogs and centres with exact ties: tree, catalog, single patches, patch files and row selections against direct distances', limit=300)
c.finish()
