from lib import *
import specs.cells as S
c = start('P08')
p = ir(c, 'Cell', 'Field')
if p:
    c.group('select_random', S.select_random, p)
    for C in (1, 2, 3):
        c.group('cell_data<%d>' % C, S.cell_data, p, C); c.group('size_sq<%d>' % C, S.size_sq, p, C)
        for SM in range(4): c.group('split_core<%d,%d>' % (C, SM), S.split_core, p, C, SM); c.group('split_data<%d,%d>' % (C, SM), S.split_data, p, C, SM)
        for D in range(7):
            for SM in range(4):
                c.group('build_cell<%d,%d,%d>' % (D, C, SM), S.build_cell, p, D, C, SM)
                c.group('setup_top<%d,%d,%d>' % (D, C, SM), S.setup_top, p, D, C, SM)
                c.group('do_build<%d,%d,%d>' % (D, C, SM), S.do_build, p, D, C, SM)
            c.group('field<%d,%d>' % (D, C), S.field_ctor, p, D, C)
            c.group('walks<%d,%d>' % (D, C), S.walks, p, D, C); c.group('build_cells<%d,%d>' % (D, C), S.build_cells, p, D, C)
        for n, D in (('calculateSumWSq', 0), ('calculateSumWKSq', 1), ('calculateSumWGSq', 2), ('calculateSumAbsWGSq', 2)): c.group('%s<%d,%d>' % (n, D, C), S.sums, p, n, D, C)
c.assume('vectors have the length their pushes and resizes give them; std::nth_element permutes its range; std::sort not used')
c.assume('stored sizes are rounded to single precision: the true radius may exceed the stored one by 6e-8 of it')
c.assume('the field sum of a divided cell is the sum over its members: CellData::finishAverages is under contract in P07')
c.bound('leaves', 'harness/hnear.py', 'P08', what='a query of the whole field lists each object of random catalogs once; total weight and field seen from far away', limit=300)
c.finish()
