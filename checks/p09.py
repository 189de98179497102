from lib import *
import specs.near as S
c = start('P09')
py_trust(c)
p = ir(c, 'Cell', 'Field')
if p:
    for C in (1, 2, 3): c.group('CountNear<%d>' % C, S.count, p, C); c.group('GetNear<%d>' % C, S.get, p, C); c.group('drivers<%d>' % C, S.drivers, p, C)
c.group('field.py', S.python)
c.assume('every object of a cell lies within the size of the cell of its centre, a leaf has size 0, getAllIndices lists the objects of a cell (P08)')
c.assume('stored sizes are rounded to single precision: objects within 1e-7 of the separation may be decided either way')
c.bound('near', 'harness/hnear.py', 'P09', what='queries of random fields, in particular at separations equal to a distance up to rounding, against direct distances', limit=300)
c.finish()
