"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(
        dict(id=id,
             title=title,
             statement=' '.join(statement.split()),
             quantifier=dict(over=over.split(), text=' '.join(text.split())),
             why_tests_cant=' '.join(why.split()),
             anchors=dict(files=files.split(),
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=list(observe),
                          hook_needed=None)))


prop('C01', 'Random contraction paths are valid and complete',
     '''For every tensor network (any tensors, hyper-indices, scalars, several connected components), get_random_contraction_path
     returns linear-format paths in which every step names two distinct positions of tensors still present, that contract each
     connected component down to exactly one tensor (and, with merge_paths and autocomplete, the whole network to one tensor), and
     in which, inside a component, two tensors are contracted only if they share an index at that moment.
     The same seed always gives the same answer.''',
     'inputs', 'every list of tensor index lists, output indices, merge_paths/autocomplete setting and seed',
     'The tests draw a few dozen networks per run from one family of generated tensors; degenerate shapes (scalars, repeated hyper-indices, components of size one) and seeds form an unbounded set.',
     'tnco/utils/tn.py', [('get_random_contraction_path', 'tnco/utils/tn.py'), ('merge_contraction_paths', 'tnco/utils/tn.py')],
     ['return value of get_random_contraction_path'])

prop('C02', 'Merging and splitting contraction paths preserve the contraction',
     '''Merging per-component linear paths into one path, splitting a path into per-component paths (optionally normalized) and
     merging again each describe the same set of pairwise contractions of the same original tensors, with every step in range, no
     tensor used twice and each component reported as exactly the original tensors its path contracts.
     With autocomplete the merged path contracts everything to one tensor; component paths that use the same tensor are rejected.''',
     'inputs', 'every number of tensors, every partition into components and every path over them, in every interleaving',
     'The tests compare a few random splits with themselves; index shifts go wrong only for particular interleavings and component orders.',
     'tnco/utils/tn.py', [('merge_contraction_paths', 'tnco/utils/tn.py'), ('split_contraction_path', 'tnco/utils/tn.py')],
     ['returned paths', 'returned connected components'])

prop('C03', 'ContractionTree represents exactly the path and network it was built from',
     '''A ContractionTree built from any complete linear path over a connected or disconnected network has one leaf per tensor carrying
     that tensor's indices, and every inner node carries exactly the indices that survive contracting the leaves below it (those still
     shared with other tensors or open), with the right dimensions, output indices and maximum width.
     Its path contracts the same groups of tensors as the input path, rebuilding from that path gives an equal index structure, traversal
     visits every node once with children before parents, and copying/pickling round-trips to an equal tree; inconsistent input (missing or non-positive dimensions, a path that leaves several tensors or names a position out of range, hyper-indices without output indices) is rejected.''',
     'inputs', 'every network (hyper-indices, output hyper-indices, mixed dimensions) and every complete contraction path of it',
     'Tests build trees only from the random generator; the index set of every inner node under hyper-indices and open indices is a universally quantified statement about paths.',
     'tnco/ctree.py include/tnco/ctree.hpp include/tnco/tree.hpp include/tnco/utils.hpp',
     [('ContractionTree.__init__', 'tnco/ctree.py'), ('ContractionTree.path', 'tnco/ctree.py'), ('traverse_tree', 'tnco/ctree.py'), ('is_valid', 'include/tnco/ctree.hpp')],
     ['ContractionTree.nodes/inds/dims/output_inds/path/max_width()', 'traverse_tree callbacks'])

prop('C04', 'Every optimization step keeps a valid contraction of the same network',
     '''After any sequence of update steps, with any seed, acceptance rule, cost model and numeric type, the current and best contraction
     trees of the infinite-memory and finite-width optimizers are complete binary contraction trees over exactly the original tensors with
     correct intermediate indices, so the path they give still contracts the original network.
     Unless shared-index checking is disabled, every contracted pair shares at least one index whenever that was true at the start, and the
     input tree and cost model objects are never modified.''',
     'histories inputs', 'every network, start tree, seed, probability object and number of update sweeps',
     'Tests run a fixed number of sweeps on a handful of random trees; a local move that corrupts a tree needs particular tree shapes and accept/reject histories.',
     'include/tnco/optimize/optimizer.hpp include/tnco/optimize/infinite_memory/optimizer.hpp include/tnco/optimize/finite_width/greedy/optimizer.hpp tnco/optimize/infinite_memory/optimizer.py tnco/optimize/finite_width/optimizer.py include/tnco/tree.hpp',
     [('swap_with_nn', 'include/tnco/tree.hpp'), ('update', 'include/tnco/optimize/infinite_memory/optimizer.hpp'), ('update', 'include/tnco/optimize/finite_width/greedy/optimizer.hpp')],
     ['Optimizer.ctree', 'Optimizer.min_ctree'])

prop('C05', 'Infinite-memory optimizer costs are the true costs of its trees',
     '''After every update sweep of the infinite-memory optimizer, total_cost equals the sum over all contractions of the current tree of
     the cost defined by the cost model, recomputed independently, min_total_cost equals that sum for the best tree, and the log2
     variants agree with them.
     min_total_cost never increases and is never above the cost of any tree the optimizer has held at the end of a sweep; is_valid accepts
     every state so reached.''',
     'histories inputs', 'every network, dimensions, sparse indices, numeric cost type, acceptance rule, seed and number of sweeps',
     'The incremental cost update is exercised by the tests on few histories and is checked with the library own recomputation; drift depends on the history.',
     'include/tnco/optimize/infinite_memory/optimizer.hpp include/tnco/optimize/infinite_memory/utils.hpp tnco/optimize/infinite_memory/optimizer.py',
     [('update (incremental cost)', 'include/tnco/optimize/infinite_memory/optimizer.hpp'), ('get_contraction_cost', 'include/tnco/optimize/infinite_memory/utils.hpp')],
     ['Optimizer.total_cost/min_total_cost/log2_*', 'Optimizer.is_valid()'],
     [('partial contraction cost cache', 'cost below each tree node', 'include/tnco/optimize/infinite_memory/optimizer.hpp')])

prop('C06', 'Finite-width optimization never exceeds the requested width',
     '''At construction and after every update of the finite-width optimizer, slicing the reported slices leaves no tensor of the current tree
     wider than max_width, and slicing min_slices leaves no tensor of the best tree wider than max_width.
     Indices listed in skip_slices are never sliced, only existing indices are, and one move adds at most max_number_new_slices indices; a
     network that cannot be brought to max_width by slicing allowed indices is refused with an error instead.''',
     'histories inputs', 'every network, max_width, width type, initial slices, skip_slices, max_number_new_slices, seed, acceptance rule and number of sweeps',
     'Tests use a single width policy and few histories; violations need a move that forces new slices next to skipped or nearly saturated tensors.',
     'include/tnco/optimize/finite_width/greedy/optimizer.hpp include/tnco/optimize/finite_width/greedy/utils.hpp include/tnco/optimize/finite_width/utils.hpp tnco/optimize/finite_width/optimizer.py',
     [('get_slices', 'include/tnco/optimize/finite_width/greedy/utils.hpp'), ('update', 'include/tnco/optimize/finite_width/greedy/optimizer.hpp')],
     ['Optimizer.slices', 'Optimizer.min_slices', 'Optimizer.ctree', 'Optimizer.min_ctree'])

prop('C07', 'Finite-width optimizer costs are the true sliced costs of its trees',
     '''After every update of the finite-width optimizer, total_cost equals the sliced contraction cost of the current tree with the current
     slices recomputed independently (number of slices times the cost of one slice, following the cost model), and min_total_cost equals it
     for the best tree with min_slices.
     min_total_cost never increases and never exceeds the cost of any state held at the end of an update; is_valid accepts every state so reached.''',
     'histories inputs', 'every network, dimensions, sparse indices, max_width, numeric types, slices policy, acceptance rule, seed and number of updates',
     'The library own check is what the tests call; cached partial costs, slices and widths must stay in step over arbitrary histories.',
     'include/tnco/optimize/finite_width/greedy/optimizer.hpp include/tnco/optimize/finite_width/utils.hpp include/tnco/optimize/finite_width/cost_model/simple.hpp include/tnco/optimize/finite_width/cost_model/simple_sparse_inds.hpp tnco/optimize/finite_width/optimizer.py',
     [('update (incremental sliced cost)', 'include/tnco/optimize/finite_width/greedy/optimizer.hpp'), ('contraction_cost(inds, dims, slices)', 'include/tnco/optimize/finite_width/cost_model/simple.hpp')],
     ['Optimizer.total_cost/min_total_cost', 'Optimizer.is_valid()'])

prop('C08', 'Optimizers are deterministic and resume exactly from a pickle',
     '''Two optimizers built from the same tree, cost model, options and seed go through identical states under the same sequence of updates,
     and an optimizer pickled and restored at any point continues exactly as the original would have: same random state, tree, slices,
     best tree, best slices, options and subsequent decisions.
     The random state can be read and used to restart another optimizer from the same point.''',
     'histories inputs', 'every network, options and seed, every point of the update history at which the optimizer is pickled',
     'The tests compare the restored object at one point; divergence after further updates needs a suffix of the history.',
     'tnco/optimize/infinite_memory/optimizer.py tnco/optimize/finite_width/optimizer.py include/tnco/optimize/optimizer.hpp include/tnco/optimize/finite_width/greedy/optimizer.hpp tnco/optimize/prob.py',
     [('Optimizer.__reduce__', 'tnco/optimize/infinite_memory/optimizer.py'), ('Optimizer.__reduce__', 'tnco/optimize/finite_width/optimizer.py'), ('prng_state', 'include/tnco/optimize/optimizer.hpp')],
     ['pickle.loads(pickle.dumps(optimizer))', 'Optimizer.prng_state'])

prop('C09', 'Acceptance rules follow their documented probabilities',
     '''The base rule accepts every move, Greedy accepts exactly the moves that do not increase the cost, and Metropolis-Hastings accepts
     non-increasing moves always and increasing moves with probability (1 + delta/old)^(-beta), for every numeric type and every finite
     non-negative beta.
     Consequently a Greedy run never raises the optimizer's cost, beta=0 accepts everything, probabilities are within [0, 1], decrease with delta
     and with beta, and rules survive copying and pickling with their parameters.''',
     'inputs histories', 'every (delta, old cost) pair in the numeric type range, every beta >= 0, and every optimizer history under those rules',
     'Tests check a few values with loose sampling; extreme ratios, precision of the wide types and the interplay with the optimizer are open.',
     'include/tnco/optimize/prob/base.hpp include/tnco/optimize/prob/greedy.hpp include/tnco/optimize/prob/mh.hpp tnco/optimize/prob.py',
     [('operator()', 'include/tnco/optimize/prob/mh.hpp'), ('operator()', 'include/tnco/optimize/prob/greedy.hpp')],
     ['prob(delta_cost=..., old_cost=...)', 'Optimizer.total_cost under a rule'])

prop('C10', 'Cost and width models compute the documented formulas in every numeric type',
     '''The contraction cost of two tensors is the product of the dimensions of all their indices (for sparse models the sparse indices that
     are present contribute at most n_projs in total), the width of a tensor is the sum of log2 of its dimensions (sparse indices capped by
     log2 n_projs), a sliced contraction costs the product over all its indices and all slices, and delta_width is the change
     of width caused by flipping one index.
     All supported numeric types give the exact value up to their own precision and agree with each other, for uniform and per-index
     dimensions, and copies/pickles of a model compare equal.''',
     'inputs', 'every pair of tensors, dimensions (uniform or per index), sparse set, n_projs, slices and numeric type, including values at the edge of a type',
     'Tests compare a few small products in one loop; large exponents, precision-limited values and sparse/sliced combinations are not sampled.',
     'include/tnco/optimize/infinite_memory/cost_model/simple.hpp include/tnco/optimize/infinite_memory/cost_model/simple_sparse_inds.hpp include/tnco/optimize/finite_width/cost_model/simple.hpp include/tnco/optimize/finite_width/cost_model/simple_sparse_inds.hpp tnco/optimize/infinite_memory/cost_model.py tnco/optimize/finite_width/cost_model.py',
     [('get_cost', 'include/tnco/optimize/infinite_memory/cost_model/simple.hpp'), ('width/delta_width', 'include/tnco/optimize/finite_width/cost_model/simple.hpp')],
     ['cmodel.contraction_cost', 'cmodel.width', 'cmodel.delta_width'])

prop('C11', 'Unbounded-memory app results are true contractions of the returned network',
     '''For every tensor network and every setting, the app optimizer without max_width returns a network and results sorted by cost, one per run,
     where each result's path contracts the returned network completely, the disconnected paths are exactly its per-component parts, and
     cost (total and per component) equals the number of operations of contracting the components under the cost model, recomputed
     independently (the outer products that finally join components are not counted).
     Following the path numerically gives the value of the original network.''',
     'inputs configurations', 'every network (arrays or dims only, hyper-indices, sparse indices, several components, scalars), betas, n_steps, n_runs, merge_paths, numeric type and seed',
     'One end-to-end test samples few networks with fixed options and checks with the library own helpers.',
     'tnco/app/infinite_memory/sa.py tnco/app/app.py tnco/utils/tn.py', [('optimize', 'tnco/app/infinite_memory/sa.py'), ('_load_tn/_dump_results', 'tnco/app/app.py')],
     ['Optimizer(...).optimize(...)'])

prop('C12', 'Width-bounded app results are true sliced contractions within the width',
     '''For every tensor network and max_width, the app optimizer with max_width returns results sorted by cost, one per run, whose path contracts
     the returned network completely, whose slices are indices of the network (those of each component are its own), and such
     that after fixing the sliced indices no tensor met while contracting a component is wider than max_width.
     The reported cost and per-component costs equal the sliced operation count recomputed independently, and summing the contraction
     over all slice values gives the value of the original network.''',
     'inputs configurations', 'every network, max_width, betas, n_steps, n_runs, slicing options, numeric types and seed for which the request is feasible',
     'The end-to-end test samples few networks and does not recompute sliced values independently.',
     'tnco/app/finite_width/sa.py tnco/app/app.py', [('optimize', 'tnco/app/finite_width/sa.py')],
     ['Optimizer(max_width=...).optimize(...)'])

prop('C13', 'App optimization is reproducible and independent of parallelism',
     '''Two app optimizers with the same options and seed return the same network and the same results (paths, costs, slices) in every process, whatever
     n_jobs is and however the runs are scheduled, and each run is independent of how many other runs there are.
     With a timeout only valid results are returned, and requests that cannot be satisfied raise an error without hanging and without leaving timers
     or threads behind.''',
     'inputs configurations schedules', 'every network, seed, n_runs, n_jobs and worker interleaving',
     'Tests use one n_jobs setting and compare no two schedules.',
     'tnco/app/infinite_memory/sa.py tnco/app/finite_width/sa.py tnco/parallel.py', [('Parallel', 'tnco/parallel.py'), ('optimize', 'tnco/app/infinite_memory/sa.py')],
     ['Optimizer(seed=..., n_jobs=...).optimize(...)'])

prop('C14', 'Loading a tensor network preserves its value and interface',
     '''For every input network, load_tn with any fusing width and with or without hyper-index decomposition returns a network whose full contraction
     over its output indices equals that of the input (once the recorded map of identified indices is expanded; same dimensions, sparse indices kept),
     and in which every fused tensor stays within the fusing width.
     The recorded fuse path, applied to the (decomposed) original tensors, gives the returned ones, and without fusing or decomposition the
     tensors, dimensions and tags come back unchanged.''',
     'inputs configurations', 'every network (hyper-indices, diagonal tensors, scalars, sparse and open indices, several components) and every fuse/decompose setting',
     'Tests cover circuits and shapes only; value preservation of fuse+decompose compositions is not checked for general networks.',
     'tnco/app/app.py tnco/utils/tn.py tnco/utils/tensor.py', [('load_tn', 'tnco/app/app.py'), ('fuse', 'tnco/utils/tn.py'), ('decompose_hyper_inds', 'tnco/utils/tn.py')],
     ['load_tn(...)'])

prop('C15', 'Numerical contraction along any path equals the einsum of the network',
     '''For every network, every partial or complete path and every choice of output indices (including output hyper-indices and disconnected
     networks), contract returns remaining tensors whose joint einsum over the output indices equals the einsum of the original tensors, each with
     array axes matching its reported indices.
     Shapes-only contraction reports the same indices as the numerical one, and inconsistent arguments are rejected.''',
     'inputs', 'every list of tensors, path, output index set, dimensions and array contents',
     'The tests follow complete random paths of small networks; partial paths, repeated outputs and scalar factors are not sampled.',
     'tnco/utils/tn.py tnco/utils/tensor.py', [('contract', 'tnco/utils/tn.py'), ('tensordot', 'tnco/utils/tensor.py')],
     ['contract(...)'])

prop('C16', 'Fusing respects its width bound, exclusions and seed',
     '''For every network, fuse returns a path of valid steps each of which contracts two tensors sharing an index into a tensor no wider than
     max_width, and never touches a tensor holding an index listed in exclude_inds; with room for everything it fuses every connected component into
     one tensor.
     The reported fused indices are exactly those of contracting along the path, and the same seed gives the same path.''',
     'inputs', 'every network, dimensions, output indices, max_width, excluded indices and seed',
     'Tests check the final widths on a few random networks; exclusions, hyper-indices and maximality are not checked together.',
     'tnco/utils/tn.py', [('fuse', 'tnco/utils/tn.py')], ['fuse(...)'])

prop('C17', 'Hyper-index decomposition preserves the represented tensors',
     '''For every list of arrays and indices, decompose_hyper_inds returns arrays, indices and an index map such that contracting the returned tensors and expanding the map (putting a
     Kronecker delta on every group of identified indices) gives the contraction of the original ones, for any choice of open indices.
     An array is reduced only where it is diagonal within the tolerance, identified indices always have equal dimensions, and non-diagonal
     arrays come back unchanged.''',
     'inputs', 'every set of tensors with any diagonal structure (none, partial, across several axes, shared between tensors) and tolerance',
     'Tests generate diagonal tensors from one template and few sizes.',
     'tnco/utils/tensor.py tnco/utils/tn.py', [('decompose_hyper_inds', 'tnco/utils/tensor.py'), ('decompose_hyper_inds', 'tnco/utils/tn.py'), ('is_diagonal', 'tnco/utils/tensor.py')],
     ['decompose_hyper_inds(...)', 'is_diagonal(...)'])

prop('C18', 'Pairwise tensor algebra (tensordot, svd, einsum subscripts) is exact',
     '''tensordot of two labelled tensors equals the einsum that sums exactly the shared indices that are not hyper-indices and returns the
     remaining indices in the order of the array axes, svd returns U, s, Vh with the requested left indices whose contraction gives the tensor back and
     whose U and Vh are isometries, and the generated einsum subscripts are valid, injective renamings of the indices.
     is_diagonal, subscripts and index-only variants agree with the numerical ones.''',
     'inputs', 'every pair of tensors, ranks, dimensions, hyper-index sets, bipartitions and tolerances',
     'The tests sample a few shapes; rank zero, size-one axes, rank-deficient matrices and large symbol numbers are not reached.',
     'tnco/utils/tensor.py tnco/utils/tn.py', [('tensordot', 'tnco/utils/tensor.py'), ('svd', 'tnco/utils/tensor.py'), ('get_symbol', 'tnco/utils/tn.py')],
     ['tensordot(...)', 'svd(...)', 'get_einsum_subscripts(...)'])

prop('C19', 'Loading a circuit gives the exact amplitudes of the circuit',
     '''For every circuit given as gates on named qubits and every initial/final state (tokens 0, 1, +, - for all or per qubit, per-qubit vectors, or open), contracting the arrays
     returned by the circuit loader over the returned open indices equals the amplitudes of exact state-vector simulation, up to a single global
     phase when simplification of unitary gates is enabled, and the open indices are exactly those of the unconstrained qubits.
     This holds for every combination of simplification, matrix commutation, hyper-index decomposition and fusing width, and repeated calls with the same seed
     agree.''',
     'programs configurations', 'every circuit (any gates, qubit names, repeated/cancelling/diagonal gates, unused options) and loader configuration',
     'Tests draw random cirq circuits with closed states mostly; cancellation and diagonal structure interacting with open qubits is a corner the generator seldom makes.',
     'tnco/utils/circuit.py tnco/utils/tn.py', [('load', 'tnco/utils/circuit.py'), ('commute/same', 'tnco/utils/circuit.py')],
     ['tnco.utils.circuit.load(...)'])

prop('C20', 'All circuit front ends mean the same circuit',
     '''A circuit given as cirq Circuit (or a Moment, to the circuit loader), qiskit QuantumCircuit, OpenQASM text, cirq JSON, or a list of (matrix, qubits) is loaded as the
     same tensor network value by the circuit loader and by load_tn: measurements are ignored, qubit order and gate order are respected, and initial/final
     states refer to the same qubits.
     The amplitudes obtained equal those computed by the front end's own simulator.''',
     'programs', 'every circuit expressible in the front ends, with any qubit naming',
     'Tests compare one front end at a time on few random circuits.',
     'tnco/utils/circuit.py tnco/app/app.py', [('cirq_to_arrays', 'tnco/utils/circuit.py'), ('qiskit_to_arrays', 'tnco/utils/circuit.py'), ('load_tn', 'tnco/app/app.py')],
     ['tnco.utils.circuit.load', 'tnco.app.load_tn'])

prop('C21', 'commute and same agree with dense linear algebra',
     '''commute(A, B) with matrix commutation is true exactly when the two gates, embedded on the union of their qubits, commute within the tolerance;
     without it, it is true only for gates on disjoint qubits.
     same(A, B) is true exactly when both gates are the same operator (up to a global phase) on the same qubits whatever the order in which the qubits are listed; both are symmetric
     and reject malformed gates.''',
     'inputs', 'every pair of gates on any number of qubits, any overlap and any qubit order',
     'The tests sample random pairs that practically never commute unless built from one template.',
     'tnco/utils/circuit.py', [('commute', 'tnco/utils/circuit.py'), ('same', 'tnco/utils/circuit.py')],
     ['commute(...)', 'same(...)'])

prop('C22', 'Circuit sampling draws from the exact output distribution',
     '''The sampler returns n_samples bit strings (or their fractions, summing to one) over all qubits in the reported order, only strings with non-zero
     probability, with frequencies that follow the exact output distribution of the circuit, for every circuit of one-qubit gates and classical operations with phases.
     A given seed gives the same samples, an intermediate state can be reused and gives what the circuit itself gives, and circuits with other
     gates are refused.''',
     'programs inputs', 'every admissible circuit, qubit order, number of samples, seed and loader option',
     'The test draws few circuits with one statistical check.',
     'tnco/app/circuit/sampling.py', [('sample', 'tnco/app/circuit/sampling.py'), ('is_classical_operation', 'tnco/app/circuit/sampling.py')],
     ['Sampler().sample(...)'])

prop('C23', 'Dumped results load back and files are never silently overwritten',
     '''For every network and result list, dumping in any output format and compression (explicit or by file extension) and loading the file or
     parsing the text again gives the same data (costs, paths, slices, runtime, tensors with their indices, dimensions, arrays and tags, output and sparse indices), compressed files are in the format
     their name says, and an existing file is replaced only if asked.
     Inconsistent requests (unknown format or compression, compression without a file) raise the documented error and leave existing files untouched.''',
     'inputs configurations', 'every network and result list, format, compression, file name and overwrite setting',
     'No existing test dumps or loads a file.',
     'tnco/app/app.py tnco/app/tn.py', [('dump_results', 'tnco/app/app.py'), ('load_file', 'tnco/app/app.py')],
     ['dump_results(...)', 'load_file(...)'])

prop('C24', 'Every textual or structured input form denotes the same network',
     '''The same network given as a list of index entries (dimension, tensor names with output and sparse tokens), as text with any comments and
     blanks, through standard input, through a plain, gzip or bzip2 file, as JSON, or as TensorNetwork objects loads to the same tensors,
     dimensions, names, output and sparse indices.
     read_inds places every index on exactly the tensors listed for it and respects custom tokens; malformed input raises an error.''',
     'inputs', 'every index list, token choice, comment/blank placement and carrier',
     'Tests check read_inds on one generated family only; the text, file and stdin carriers have no test.',
     'tnco/app/app.py tnco/utils/tn.py', [('load_tn', 'tnco/app/app.py'), ('read_inds', 'tnco/utils/tn.py'), ('load_file', 'tnco/app/app.py')],
     ['load_tn(...)', 'read_inds(...)'])

prop('C25', 'Bitset behaves as a fixed-size set of positions',
     '''For every size and contents, all Bitset operations (construction from positions or string, set algebra, difference, subset and intersection
     tests, counting, indexing, positions, any/all/none, string form, comparison, copy and pickle) agree with a mathematical set of positions.
     Operations on different sizes and out-of-range positions raise an error (or give the mathematically right answer) and never corrupt memory or abort the process.''',
     'inputs histories', 'every size (including 0, 63, 64, 65, multiples of the block), every contents and every sequence of operations',
     'The test samples sizes at random; block boundaries and mismatched operands are not covered.',
     'include/tnco/bitset.hpp tnco/bitset.py', [('Bitset', 'include/tnco/bitset.hpp')], ['tnco.bitset.Bitset'])

prop('C26', 'float1024 is a correctly rounded 1024-bit float',
     '''Every operation of the float1024 type that Python sees (+, -, *, /, powers, negation, absolute value, comparisons, conversion to and from float, int and text, isnan/isinf/signbit) agrees with an exact or
     higher-precision reference to the last bits of its 1024-bit precision, also for mixed operands with Python numbers, and comparisons are consistent.
     Text parses to the nearest value, malformed text is rejected, formatting respects format specifications, and pickling round-trips exactly, also for
     infinities, NaN, signed zero and extreme exponents.''',
     'inputs', 'every pair of operands over the full exponent range, special values and format specifications',
     'The tests sample doubles in a narrow range.',
     'include/tnco/fixed_float.hpp', [('FixedFloat', 'include/tnco/fixed_float.hpp')], ['tnco_core.float1024'])

prop('C27', 'OrderedFrozenSet is an immutable set that keeps insertion order',
     '''For every sequence of hashable items and every operand, OrderedFrozenSet gives the membership, comparison and set-algebra answers of a frozenset, while iteration
     keeps first-insertion order (left operand first).
     Equal sets have equal hashes so that they can be used interchangeably as keys, objects are never modified by operations, and pickling and copying preserve
     both content and order.''',
     'inputs histories', 'every item sequence with duplicates and every combination of operations and operand types',
     'The test samples integer sets and does not check the hash contract.',
     'tnco/ordered_frozenset.py', [('OrderedFrozenSet', 'tnco/ordered_frozenset.py')], ['OrderedFrozenSet'])

prop('C28', 'Parallel runs every task once, in order, and always releases its resources',
     '''For every list of tasks, n_jobs and buffers, Parallel returns the result of each task exactly once in task order, equal to sequential execution, and every task
     sees its own buffer slot and the shared stop status.
     On timeout it stops the tasks, when a task raises it propagates the error, and in every case it leaves behind no timer, thread or shared memory segment; Buffer behaves as a fixed-length
     typed array with checked indices that survives pickling to other processes.''',
     'inputs schedules fault_sequences', 'every task list, n_jobs, timeout, buffer type and raising task position',
     'The code has no direct test; failures in workers and timeouts are never exercised.',
     'tnco/parallel.py', [('Parallel', 'tnco/parallel.py'), ('Buffer', 'tnco/parallel.py')], ['Parallel(...)', 'Buffer(...)', '/dev/shm', 'threading.enumerate()'])

prop('C29', 'Tree accepts exactly well-formed binary trees and moves preserve them',
     '''A Tree or ContractionTree can be built from a list of nodes exactly when the nodes form one rooted full binary tree, leaves first and root last, with mutually consistent parent/child links covering all
     nodes, and anything else is rejected with an error.
     Every nearest-neighbour exchange on a valid tree yields a valid tree with the same leaves that differs only in that exchange and is undone by exchanging
     again, out-of-range requests leave the tree unchanged or raise an error, and copies and pickles compare equal.''',
     'inputs histories', 'every node list (valid or not) and every sequence of exchanges',
     'Tests only feed valid trees; rejection of malformed node lists is not checked.',
     'include/tnco/tree.hpp include/tnco/node.hpp include/tnco/ctree.hpp', [('Tree::is_valid', 'include/tnco/tree.hpp'), ('swap_with_nn', 'include/tnco/tree.hpp')],
     ['tnco_core.Tree', 'tnco_core.Node', 'tnco_core.ContractionTree'])

prop('C30', 'Tensor and TensorNetwork objects are always self-consistent',
     '''A Tensor can be created exactly when its indices, dimensions and array agree, and a TensorNetwork exactly when every index has one dimension
     throughout, output indices are given whenever hyper-indices make them ambiguous, and output and sparse indices exist; otherwise an error is raised.
     Derived views (indices, dimensions, counts, arrays, tags, open indices) always agree with the tensors, two tensors are equal exactly when indices, dimensions and arrays (up to numerical noise) are, two networks
     when their tensors, output and sparse indices and tags are, and to_json writes all tensors (indices, dimensions, arrays, tags), output and sparse indices.''',
     'inputs', 'every combination of indices, dimensions, arrays, output and sparse indices, consistent or not',
     'Construction errors are not tested.',
     'tnco/app/tn.py', [('Tensor.__post_init__', 'tnco/app/tn.py'), ('TensorNetwork.__post_init__', 'tnco/app/tn.py')],
     ['Tensor(...)', 'TensorNetwork(...)'])

prop('C31', 'Test-network generators and validity helpers meet their contract',
     '''generate_random_tensors returns networks with exactly the requested numbers of tensors, indices, output indices and connected components, every index that is not an output being on exactly
     the requested number k of tensors, deterministically for a seed, and refuses infeasible requests; generate_random_inds returns distinct indices.
     get_connected_components is the exact partition of tensors by shared indices, and is_valid_contraction_tree accepts exactly trees that belong to the given
     network (tensors, dimensions, output indices, number of contractions of each index).''',
     'inputs', 'every feasible parameter combination, seed and network, and every tree/network pair, matching or not',
     'These helpers are what the other tests rely on; they are tested on few parameters and never on negative cases.',
     'tnco/testing/utils.py', [('generate_random_tensors', 'tnco/testing/utils.py'), ('get_connected_components', 'tnco/testing/utils.py'), ('is_valid_contraction_tree', 'tnco/testing/utils.py')],
     ['tnco.testing.utils'])

prop('C32', 'The command line does exactly what the library does',
     '''For every input network or circuit and every option, the tnco command prints (or writes to the requested file, format and compression) the same network and results
     as the library call with those options and seed, reading the input from the argument, a file or standard input.
     Options that are inconsistent end with a non-zero status and an error message, and existing files are not overwritten unless asked.''',
     'inputs configurations', 'every command line and input',
     'The command line has no test in the suite.',
     'tnco/app/cli.py tnco/app/app.py', [('main', 'tnco/app/cli.py'), ('Optimizer', 'tnco/app/app.py')],
     ['process output, exit status and files of the tnco command'])

out = Path(__file__).resolve().parents[1] / 'properties.jsonl'
for p in P:
    assert len(p['title']) <= 80, p['title']
    assert set(p['quantifier']['over']) <= {'schedules', 'crash_points', 'inputs', 'programs', 'histories', 'configurations', 'fault_sequences'}
out.write_text(''.join(json.dumps(p) + '\n' for p in P))
print(len(P))
