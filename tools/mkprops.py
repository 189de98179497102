#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so that titles/statements stay in step)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=dict(files=files,
                  mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)))

prop('P01', 'The two-point tree search never discards a pair that is in range',
 'With the binned tree algorithm, a pair of non-zero-weight objects whose separation is inside the requested range is never skipped because the cells containing it were judged too close or too far apart. This holds for logarithmic, linear and two-dimensional binning with the Euclidean, Periodic and Arc metrics in every coordinate system each supports, for every cell position and size.',
 ['inputs', 'configurations'], 'every pair of cells (positions, sizes, weights), every separation range, every binning type, the Euclidean/Periodic/Arc metrics',
 'Tests compare a few hundred random points to brute force; the discarded configurations are measure-thin geometric boundary cases that a fixed sample does not reach.',
 ['src/Corr2.cpp', 'include/BinType.h', 'include/Metric.h'],
 [('pruning decision in the pair recursion', 'src/Corr2.cpp: BaseCorr2::process11, process2, process'), ('too-small / too-large distance tests', 'include/BinType.h: BinTypeHelper<Log|Linear|TwoD>'), ('metric distance and cell-size adjustment', 'include/Metric.h: MetricHelper<..>::DistSq')],
 ['npairs / weight per bin of the correlation objects'])

prop('P02', 'With zero bin slop every pair is counted in the bin of its own separation',
 'When bin_slop is 0, whenever two cells are accumulated as a unit every pair of their objects has the same bin as the one recorded, and that bin is the one whose edges contain the separation (both components of the separation, for two-dimensional binning). No pair outside the requested separation range is counted, and the recorded bin always exists.',
 ['inputs', 'configurations'], 'every pair of cells, every bin layout, all three two-point binning types, bin slop zero (and the documented tolerance of one bin-slop width otherwise)',
 'Tests use a handful of bin layouts; whether the single-bin shortcut is sound is a statement over all cell sizes and all positions relative to bin edges.',
 ['include/BinType.h', 'src/Corr2.cpp'],
 [('single-bin shortcut', 'include/BinType.h: BinTypeHelper<B>::singleBin'), ('bin index', 'include/BinType.h: BinTypeHelper<B>::calculateBinK'), ('range test', 'include/BinType.h: BinTypeHelper<B>::isRSqInRange'), ('clamping at the outer edge', 'src/Corr2.cpp: BaseCorr2::directProcess11')],
 ['npairs / meanr per bin'])

prop('P03', 'The two-point traversal visits every pair of objects exactly once',
 'In an auto-correlation every unordered pair of distinct objects, and in a cross-correlation every ordered pair of one object from each catalog, is either accumulated exactly once or rejected exactly once, whatever the shape of the trees. The recursion only ever descends into existing children, always makes progress, and skips a cell early only when its total weight is zero or no pair inside it can be far enough apart.',
 ['inputs', 'configurations'], 'every tree shape, every pair of cells, every slop setting, all binning types and metrics',
 'Exactly-once is an induction over arbitrary trees; a test sees only the trees its catalogs build.',
 ['src/Corr2.cpp', 'include/Split.h'],
 [('auto recursion', 'src/Corr2.cpp: BaseCorr2::process2'), ('cross recursion', 'src/Corr2.cpp: BaseCorr2::process11'), ('choice of which cell to split', 'include/Split.h: CalcSplit, CalcSplitSq'), ('top-level loops', 'src/Corr2.cpp: BaseCorr2::process')],
 ['npairs summed over all bins'])

prop('P04', 'Each accumulated cell pair adds exactly its weighted sums to its bin',
 'For every combination of field types, accumulating a pair of cells adds to its bin the number of object pairs, the product of weights, the weighted separation and log-separation, and the weighted products of the field values (for spin fields both the product and the conjugate product, after rotation to the line joining them), and changes no other bin. For two-dimensional binning of a field with itself the mirrored bin receives the same contribution.',
 ['inputs', 'configurations'], 'every bin index, every cell content, every one of the supported pairs of field types',
 'Tests check normalised outputs for a few field types at tolerance 1e-3 or looser; a wrong sign or a missing term in one imaginary component of one field type is invisible to them.',
 ['src/Corr2.cpp', 'include/Corr2.h'],
 [('pair bookkeeping', 'src/Corr2.cpp: Corr2<D1,D2>::finishProcess'), ('field products', 'src/Corr2.cpp: DirectHelper2<..>::ProcessXi'), ('storage', 'include/Corr2.h: XiData')],
 ['raw accumulators npairs, weight, meanr, meanlogr, xi*'])

prop('P05', 'Partial results merge additively and completely',
 'Clearing an accumulator makes every one of its components zero, adding one accumulator to another adds every component of every bin, and copying one reproduces every component. Hence the totals do not depend on how the work was divided into threads or partial objects, for two-point and three-point accumulators of every field type, in compiled code and in the Python objects.',
 ['inputs', 'schedules', 'configurations'], 'every division of the pair/triangle list into partial accumulators, any number of bins, every field type',
 'A component forgotten in one of the many merge routines only shows with several threads or patches and only in that component; tests mostly run single patch and compare main outputs.',
 ['src/Corr2.cpp', 'src/Corr3.cpp', 'include/Corr2.h', 'include/Corr3.h', 'treecorr/corr2base.py', 'treecorr/nncorrelation.py', 'treecorr/ggcorrelation.py'],
 [('two-point merge', 'src/Corr2.cpp: Corr2::operator+=, operator=, clear'), ('three-point merge', 'src/Corr3.cpp: Corr3::operator+=, operator=, clear'), ('field components', 'include/Corr2.h: XiData; include/Corr3.h: ZetaData'), ('python merge', 'treecorr/*correlation.py: __iadd__, _sum, _clear')],
 ['all per-bin arrays'])

prop('P06', 'Each metric computes its documented distance and line-of-sight separation',
 'The distance used for a pair equals the documented formula for its metric: straight-line distance, minimum-image distance in the periodic box, great-circle angle, and the documented perpendicular / lens-plane / line-of-sight projections. Distances do not depend on the order of the two points (except the lens-plane one) and are unchanged when a coordinate is shifted by a full period.',
 ['inputs'], 'every pair of points in every coordinate system each metric supports',
 'Tests use catalogs occupying one region (small angles, one box side), so wrap-around cases, large angles and degenerate positions are never sampled.',
 ['include/Metric.h', 'include/Position.h'],
 [('distance', 'include/Metric.h: MetricHelper<M,P>::DistSq, Dist'), ('line of sight', 'include/Metric.h: ParHelper<P>'), ('vector algebra and wrapping', 'include/Position.h: Position<C>')],
 ['meanr, rpar cuts, bin contents'])

prop('P07', 'Rotating spin fields to the connecting line preserves modulus and geometry',
 'Before multiplication each spin-s field value is multiplied by a unit-modulus phase equal to s times the direction of the other point as seen from it, so that amplitudes are preserved, coincident directions give the same phase in flat, spherical and three-dimensional coordinates, and results are independent of any rigid rotation of the sky. Averages of spin fields over a cell transport each member to the cell centre with a unit-modulus phase.',
 ['inputs'], 'every pair (triple) of points and every spin 1, 2, 3, 4 field value, in flat, spherical and 3-D coordinates',
 'Tests compare sums over many pairs to a few percent of shape noise; a wrong phase at the pole, at coincident points or in one coordinate system averages out.',
 ['include/ProjectHelper.h', 'src/Cell.cpp', 'src/Corr2.cpp'],
 [('projection', 'include/ProjectHelper.h: ProjectHelper<C>'), ('parallel transport to cell centre', 'src/Cell.cpp: ParallelTransportSum / finishAverages')],
 ['xi, xi_im, xip, xim'])

prop('P08', 'Every tree cell summarises exactly the objects below it',
 'Each cell records the number, total weight, weighted mean position and weighted field sum of the objects below it, its two children partition those objects, and every object lies within the recorded size (up to its single-precision rounding) of the recorded centre. The leaves of a field together contain each input object exactly once.',
 ['inputs', 'configurations'], 'every catalog, every split method, every minimum size, every field type and coordinate system',
 'Tests count totals for a few catalogs; the radius bound and the partition must hold at every node of every tree.',
 ['src/Cell.cpp', 'src/Field.cpp', 'include/Cell.h', 'include/Bounds.h'],
 [('cell construction', 'src/Cell.cpp: BuildCell, CellData constructors, finishAverages'), ('splitting', 'src/Cell.cpp: SplitData'), ('radius', 'src/Cell.cpp: CalculateSizeSq'), ('top level', 'src/Field.cpp: SetupTopLevelCells, BuildCells')],
 ['field top-level cells, n, w, size, getAllIndices'])

prop('P09', 'Neighbour queries return exactly the objects within the given distance',
 'Counting or listing the objects near a position reports an object if and only if its distance to the position is at most the requested separation (up to rounding: sizes of cells are stored in single precision), for any field and any separation; no object is listed twice. For a field with a minimum cell size the list is filtered by the true distances, and the count is the length of the list.',
 ['inputs'], 'every catalog, every query point, every separation, flat / spherical / 3-D coordinates',
 'The accept-whole-cell and reject-whole-cell shortcuts depend on cell sizes relative to the query; a test samples a few queries.',
 ['src/Field.cpp', 'treecorr/field.py'],
 [('count', 'src/Field.cpp: CountNear'), ('list', 'src/Field.cpp: GetNear'), ('python filter', 'treecorr/field.py: _count_near, _get_near')],
 ['Field.count_near, Field.get_near'])

prop('P10', 'Pair sampling returns distinct genuine pairs from the requested range',
 'Sampling n pairs from a separation range returns min(n, number available) pairs, each a pair of valid object indices, no pair twice, whose reported separation is that of the cells that decided it: inside the requested range, and with brute=True the true separation of the two objects. With bin_slop=0 exactly the pairs whose true separation is in the range are available.',
 ['inputs', 'histories'], 'every catalog, every requested number of pairs, every sequence of random draws',
 'The replacement logic depends on the order in which cell pairs of different sizes arrive and on random draws; tests fix both.',
 ['src/Corr2.cpp', 'treecorr/nncorrelation.py', 'treecorr/corr2base.py'],
 [('reservoir sampling', 'src/Corr2.cpp: Sampler::finishProcess, SelectRandomFrom'), ('python entry', 'treecorr/corr2base.py: sample_pairs')],
 ['i1, i2, sep returned by sample_pairs'])

prop('P11', 'The three-point tree search never discards a triangle that is in range',
 'With zero bin slop the direct three-point algorithm accumulates a triangle of objects exactly when its side lengths and shape are inside the requested ranges, and puts it in the bin of its own shape: no early rejection of three cells, of a pair of a cell with another, or of a single cell removes a triangle whose shape is in range.',
 ['inputs', 'configurations'], 'every triple of cells (positions and sizes), every range of sides and shape parameters, both side-ratio and side-angle-side binnings, ordered and unordered',
 'The rejection rules are inequalities in ten variables; the tests compare counts on three tiny catalogs.',
 ['include/BinType.h', 'src/Corr3.cpp', 'include/Process3.h'],
 [('early rejection', 'include/BinType.h: BinTypeHelper<LogRUV|LogSAS>::stop111, noAllowedAngles, tooSmallS2'), ('bin test', 'include/BinType.h: isTriangleInRange, singleBin, calculateIndex'), ('recursion', 'src/Corr3.cpp: BaseCorr3::process3, process12, process111')],
 ['ntri and weight per bin'])

prop('P12', 'Every triangle is counted once, with vertices assigned by the stated order',
 'In a three-point auto-correlation every unordered triple of distinct objects is considered exactly once; in a cross-correlation every triple with one object from each catalog is considered once per allowed ordering. The sides passed on are always the true distances opposite the vertices they belong to, in the order the binning requires, and the bin index is always inside the allocated arrays.',
 ['inputs', 'configurations'], 'every tree shape, all permutations of the three vertices, ordered and unordered processing',
 'Six vertex orders times recursion cases; a swapped pair of arguments in one branch only affects that permutation.',
 ['src/Corr3.cpp', 'include/Process3.h', 'include/BinType.h'],
 [('sorting and recursion', 'src/Corr3.cpp: process111Sorted / process111, process12'), ('orderings', 'src/Corr3.cpp: BaseCorr3::process'), ('index', 'include/BinType.h: calculateIndex')],
 ['ntri, meand1..3'])

prop('P13', 'Multipole accumulation equals the sum over triangles',
 'The multipole three-point sums for a vertex equal the double sum over its neighbours of weights (and field values) times exp(i n phi) for the two separation bins, with the pair of a neighbour with itself removed when the two bins and catalogs coincide, and all mean separations are weighted by the same sums. Conversion to side-angle-side bins is the exact Fourier sum of these multipoles over each angular bin.',
 ['inputs', 'configurations'], 'every set of neighbours, every multipole order, one-, two- and three-catalog cases, all field types',
 'Tests compare with brute force at loose tolerance for default settings; the three-catalog branches and mean separations are barely checked.',
 ['src/Corr3.cpp', 'include/MultipoleScratch.h', 'treecorr/corr3base.py'],
 [('per-vertex sums', 'src/Corr3.cpp: calculateGn'), ('outer product', 'src/Corr3.cpp: calculateZeta'), ('to SAS', 'treecorr/nnncorrelation.py, kkkcorrelation.py, gggcorrelation.py: toSAS')],
 ['weight, zeta, meand*, of LogMultipole and LogSAS results'])

prop('P14', 'Patch assignment puts every object in exactly one nearest patch',
 'Given patch centres (unit vectors in spherical coordinates), every object is assigned to exactly one patch, that patch has the smallest distance to the object, and selecting the members of each patch separately gives the same partition of the objects. The outcome does not depend on how the objects are grouped into tree cells.',
 ['inputs', 'configurations'], 'every catalog, every set of centres (including ties), every tree, flat / spherical / 3-D coordinates',
 'The candidate-centre elimination uses geometric bounds that only fail for unusual cell sizes and centre layouts.',
 ['src/KMeans.cpp', 'treecorr/field.py', 'treecorr/catalog.py'],
 [('elimination of centres', 'src/KMeans.cpp: FindCellsInPatches'), ('direct assignment', 'src/KMeans.cpp: QuickAssign, SelectPatch'), ('python entry', 'treecorr/field.py: kmeans_assign_patches; treecorr/catalog.py: _set_patch, _get_patch_index')],
 ['Catalog.patch, Field.kmeans_assign_patches'])

prop('P15', 'Any sufficient set of binning parameters gives one consistent bin layout',
 'Whichever three of minimum, maximum, bin size and number of bins are given, the resulting layout satisfies the binning relation exactly, keeps the given values (except that bin size is reduced so that bins fit), bins tile the range without gaps or overlaps, and the nominal centres and edges are those of the bins used for counting. Units are applied once, consistently, to all lengths.',
 ['configurations'], 'every parameter combination for two-point and three-point binnings',
 'Only a few numeric combinations are tested, and consistency between what is reported and what the counting code uses is not.',
 ['treecorr/corr2base.py', 'treecorr/corr3base.py', 'src/Corr2.cpp', 'src/Corr3.cpp'],
 [('two-point set-up', 'treecorr/corr2base.py: Corr2.__init__'), ('three-point set-up', 'treecorr/corr3base.py: Corr3.__init__'), ('compiled counterpart', 'src/Corr2.cpp: BaseCorr2::BaseCorr2')],
 ['rnom, logr, left_edges, right_edges, b, min_sep, max_sep'])

prop('P16', 'Normalisation divides every weighted sum by its weight and nothing else',
 'Finalising a correlation turns each raw weighted sum into a mean by dividing by the total weight of its bin, gives zero (or the nominal separation) in bins with no weight, converts separations to the requested units, and sets the variance estimate to the documented combination of field variances and weight. Finalising never changes weights or pair counts.',
 ['inputs', 'configurations'], 'every bin content including empty bins, every field type, every unit',
 'Tests check a few well-filled bins for each field type.',
 ['treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/ggcorrelation.py', 'treecorr/ngcorrelation.py', 'treecorr/kkcorrelation.py'],
 [('finalize', 'treecorr/*correlation.py: finalize, _finalize'), ('empty bins and units', 'treecorr/corr2base.py, nncorrelation.py: _mean/_fill')],
 ['xi, xi_im, xip, xim, meanr, meanlogr, varxi, zeta'])

prop('P17', 'Random-catalog estimators combine counts with the documented normalisations',
 'The number-count estimators return exactly the documented expressions (natural, Landy-Szalay and cross versions; compensated field-count estimators subtract the random term) with every random count scaled by the ratio of total pair numbers (triple numbers for three-point). The result is unchanged when any random catalog count and its total are multiplied by the same factor.',
 ['inputs', 'configurations'], 'every combination of data and random counts supplied, two-point and three-point',
 'Tests check specific catalogs, where wrongly swapped cross terms give almost the same value.',
 ['treecorr/nncorrelation.py', 'treecorr/nnncorrelation.py', 'treecorr/ngcorrelation.py', 'treecorr/nkcorrelation.py', 'treecorr/nzcorrelation.py'],
 [('count estimators', 'treecorr/nncorrelation.py: calculateXi'), ('three-point', 'treecorr/nnncorrelation.py: calculateZeta'), ('compensated', 'treecorr/n{g,k,z,v,t,q}correlation.py: calculateXi')],
 ['xi, varxi, zeta'])

prop('P18', 'Patch-based covariance estimators follow their definitions',
 'Jackknife, sample, bootstrap and marked-bootstrap covariances equal their textbook formulas applied to the statistic recomputed from exactly the patch pairs each resampling keeps: a jackknife realisation omits every pair involving the omitted patch and a bootstrap realisation weights pairs by the drawn multiplicities. The covariance is symmetric and positive semi-definite and its diagonal is the reported variance.',
 ['inputs', 'configurations'], 'every number of patches, every set of per-patch results, single or several correlations combined, any user function of them',
 'Tests compare with simulations at tens of percent.',
 ['treecorr/corr2base.py', 'treecorr/corr3base.py'],
 [('estimators', 'treecorr/corr2base.py: estimate_multi_cov, _cov_jackknife, _cov_sample, _cov_bootstrap, _cov_marked'), ('pair selection', 'treecorr/corr2base.py: _jackknife_pairs, _sample_pairs, _bootstrap_pairs, _marked_pairs')],
 ['cov, cov_diag, build_cov_design_matrix'])

prop('P19', 'Splitting catalogs into patches does not change the totals',
 'Processing catalogs divided into patches considers every pair (triple) of patches that can contribute exactly once, so total weights, counts and total pair numbers equal those of the undivided catalogs, and skipping a pair of patches is only allowed when they are too far apart to contribute. When the work is shared between several processes each patch combination is done by exactly one of them.',
 ['inputs', 'configurations', 'schedules'], 'every number of patches, every pair of catalogs (patched or not), any number of cooperating processes, low-memory mode or not',
 'Tests use a few patch numbers and two or three processes.',
 ['treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/nncorrelation.py'],
 [('patch loops', 'treecorr/corr2base.py: _process_all_auto, _process_all_cross; corr3base.py: _process_all_*'), ('work sharing', 'is_my_job helpers'), ('skip test', 'treecorr/corr2base.py: _trivially_zero; corr3base.py: _trivially_zero')],
 ['npairs, weight, tot, results'])

prop('P20', 'Catalog input is converted faithfully',
 'Positions, weights and field values given in any supported units and sign conventions are converted exactly once to the internal ones; objects with invalid values or masked flags get zero weight and the remaining ones are unchanged; the number of objects, total weight and field variances equal their definitions over the selected objects.',
 ['inputs', 'configurations'], 'every input array, unit, flip option, flag and weight pattern',
 'Tests use a few fixed columns and check a few options at a time.',
 ['treecorr/catalog.py'],
 [('construction', 'treecorr/catalog.py: Catalog.__init__, _finish_input'), ('flags and invalid values', 'treecorr/catalog.py: _apply_flags / checkForNaN'), ('statistics', 'treecorr/catalog.py: _calculate_weighted_var, vark, varg')],
 ['Catalog.x, y, z, w, g1, g2, sumw, nobj, varg'])

prop('P21', 'Row and patch selection reads exactly the requested objects',
 'Reading rows first..last with a stride, or only one patch of a file, gives the same objects, in the same order, as reading everything and then selecting, for every supported column, and splitting a catalog into patches and writing and re-reading them reproduces the original objects.',
 ['inputs', 'configurations'], 'every first/last row and stride, every patch number, every file format available, every column',
 'Only a few offsets and one stride are tested.',
 ['treecorr/catalog.py', 'treecorr/reader.py'],
 [('row range', 'treecorr/catalog.py: _read_file, reader.py: read'), ('patches', 'treecorr/catalog.py: get_patches, select')],
 ['Catalog columns'])

prop('P22', 'Written results read back equal',
 'Writing a correlation object to a file and reading it back reproduces every per-bin quantity and parameter that determines its later behaviour (within the stated text precision), including the per-patch results when those are written, for every correlation type.',
 ['inputs', 'configurations'], 'every correlation type, every bin content, every file type available',
 'Each type is tested with one example and compares some columns.',
 ['treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/writer.py', 'treecorr/reader.py'],
 [('write', 'treecorr/*correlation.py: _write_col_names, _write_data, _write_params'), ('read', 'treecorr/*correlation.py: _read_from_data')],
 ['all public arrays after read'])

prop('P23', 'Aperture statistics are the documented integrals of the correlations',
 'Aperture-mass and related statistics equal the documented sums over bins of the measured correlations times the documented filter functions, including the bin-width factors, and their variances are the corresponding quadratic propagation of the input variances.',
 ['inputs', 'configurations'], 'every measured correlation, every aperture radius, both filter conventions',
 'Tests check a power-law shear field to a few percent.',
 ['treecorr/ggcorrelation.py', 'treecorr/ngcorrelation.py', 'treecorr/nncorrelation.py'],
 [('map', 'treecorr/ggcorrelation.py: calculateMapSq, calculateGamSq'), ('nmap', 'treecorr/ngcorrelation.py: calculateNMap'), ('napsq', 'treecorr/nncorrelation.py: calculateNapSq')],
 ['returned arrays'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
