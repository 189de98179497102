DED = 'contract-based deductive verification: function contracts and verification conditions generated by symbolic execution of the IR extracted from the current C++ sources, discharged by z3/cvc5'
DED2 = DED + '; Python functions executed by CPython on symbolic arrays (generic index), the resulting conditions discharged by z3'
LEVELS = {
 'P01': ('proof', DED, 'pruning contracts of process11/process2/process and DistSq for every instantiation with Euclidean, Arc and Periodic; cell-size invariant from P08; bounded brute-force replay alongside'),
 'P02': ('proof', DED, 'bin contracts of every process11 instantiation with b=0 (one bin-slop width otherwise); bounded brute-force replay alongside'),
 'P03': ('proof', DED, 'per-call exactly-once contracts of process11, process2, process; induction over the tree is the meta-argument; bounded brute-force replay alongside'),
 'P06': ('proof', DED, 'DistSq, rpar and Position contracts for all six metrics; bounded replay alongside'),
 'P04': ('proof', DED, 'finishProcess and CellData accessors for all 18 pairs of field types and three coordinate systems; bounded replay of the sums alongside'),
 'P05': ('proof', DED2, 'C++ clear/+=/=/copy constructor for every instantiation by VCs from the IR; Python _clear, __iadd__, copy, _sum of every class executed on symbolic arrays; bounded replay over threads and divisions'),
 'P16': ('proof', DED2, 'finalize() of every class and bin type executed on symbolic arrays (generic bin, every emptiness and coordinate case); bounded numpy replay alongside'),
 'P17': ('proof', DED2, 'calculateXi/calculateZeta of every class with randoms, for every set of random terms; bounded numpy replay alongside'),
 'P18': ('proof', DED2, 'covariance formulas and pair selections for symbolic membership; recomputation of realisations on symbolic values for representative pair lists over 3 patches (bounded in the list); bounded replay alongside'),
 'P08': ('proof', DED, 'contracts of every function that builds or sums over the tree (cell data, size, splits, BuildCell, top level cells, Field constructor, walks, sums), all field types, coordinate systems and split methods, from the IR; bounded replay alongside'),
'P09': ('proof', DED, 'CountNear/GetNear by induction over the tree with the P08 contracts of the cells, drivers and field.py symbolically executed; bounded queries alongside'),
'P10': ('proof', DED, 'SelectRandomFrom, Sampler::finishProcess and its constructor, the driver and sample_pairs under contract (loop invariants with quantifiers over the output positions); bounded sampling runs alongside'),
'P14': ('proof', DED, 'FindCellsInPatches with quantified loop invariants and a recursion contract, AssignPatches, QuickAssign, SelectPatch, KMeansAssign, ReadCenters and their Python callers under contract; bounded assignments alongside'),
'P15': ('proof', DED2, 'the constructors of Corr2 and Corr3 executed on symbolic parameters for every sufficient set of binning parameters, and the compiled constructors by VCs from the IR; bounded replay of layouts alongside'),
 'P23': ('proof', DED2, 'calculateMapSq, GamSq, NMap, NapSq, Map3, _calculateT on symbolic arrays: every summand over the bins equals the documented integrand; bounded replay of values and written columns alongside'),
 'P19': ('proof', DED2, 'the patch loops and per-combination methods of Corr2 and Corr3 executed on symbolic lists of patches of any length (generic pair), with and without MPI, low_mem and patch_method; the C++ zero-overlap tests and expanded patches are bounded (replay alongside)'),
'P07': ('proof', DED, 'phase contracts of every instantiated projection and of the cell averages, from the IR, identities discharged by z3; bounded rotation and direct-sum replay alongside; sense of ParallelTransportSum and periodic directions are known findings'),
}
NA = {}
