# What runs for every property.
SIM = 'the MPI simulator of /verif/sim implements the MPI subset heFFTe uses with the semantics of the standard'
T_CFG = 'stateless model checking of the real code: exhaustive enumeration of configurations under a controlled MPI scheduler, compared with a reference model'
T_SEQ = 'stateless model checking of the real code: exhaustive enumeration of the bounded input space, every execution compared with a reference model'
C_LIB = ('heffte_c.cpp', 'heffte_compute_transform.cpp', 'heffte_plan_logic.cpp', 'heffte_reshape3d.cpp')
CHECKS = {
 'P01': dict(level='model_checking', technique=T_CFG,
   level_note='Every enumerated pair of decompositions is executed on the real reshape code and every element compared; bounded by world size and rank count; trusts the MPI simulator.',
   rule='one case = one (world, input partition, output partition, orders, algorithm, batch, scalar type, schedule policy); every case moves at least one element or proves nothing has to move',
   bounds='', assumptions=[SIM], jobs=[dict(name='P01_reshape', src='P01_reshape.cpp')]),

 'P04': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[dict(name='P04_r2c', src='P04_r2c.cpp'), dict(name='P04_r2c_mkl', src='P04_r2c.cpp', config='mkl')]),
 'P05': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[dict(name='P05_r2r', src='P05_r2r.cpp'), dict(name='P05_r2r_mkl', src='P05_r2r.cpp', config='mkl')]),
 'P02': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[dict(name='P02_schedules', src='P02_schedules.cpp')]),
 'P03': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[dict(name='P03_c2c', src='P03_c2c.cpp'), dict(name='P03_c2c_mkl', src='P03_c2c.cpp', config='mkl')]),

 'P06': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[dict(name='P06_scale', src='P06_scale.cpp'), dict(name='P06_scale_mkl', src='P06_scale.cpp', config='mkl')]),
 'P07': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[dict(name='P07_batch', src='P07_batch.cpp'), dict(name='P07_batch_mkl', src='P07_batch.cpp', config='mkl')]),
 'P09': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[dict(name='P09_entry', src='P09_entry.cpp'), dict(name='P09_entry_mkl', src='P09_entry.cpp', config='mkl')]),

 'P10': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[dict(name='P10_options', src='P10_options.cpp'), dict(name='P10_options_mkl', src='P10_options.cpp', config='mkl')]),
 'P22': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[dict(name='P22_index64', src='P22_index64.cpp')]),

 'P08': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[dict(name='P08_memory', src='P08_memory.cpp'), dict(name='P08_mkl', src='P08_memory.cpp', config='mkl'), dict(name='P08_asan', src='P08_memory.cpp', asan=True)]),
 'P11': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[dict(name='P11_sequences', src='P11_sequences.cpp'), dict(name='P11_reuse', src='P11_reuse.cpp')]),

 'P15': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[], jobs=[dict(name='P15_avx', src='P15_stock.cpp', lib=False), dict(name='P15_noavx', src='P15_stock.cpp', lib=False, config='noavx'), dict(name='P15_avx512', src='P15_stock.cpp', lib=False, config='avx512', cpu='avx512dq')]),

 'P16': dict(level='model_checking', technique=T_SEQ, level_note='', rule='', bounds='', assumptions=[], jobs=[dict(name='P16_executors', src='P16_executors.cpp', lib=False), dict(name='P16_mkl', src='P16_executors.cpp', lib=False, config='mkl'), dict(name='P16_noavx', src='P16_executors.cpp', lib=False, config='noavx')]),
 'P23': dict(level='model_checking', technique=T_SEQ, level_note='', rule='', bounds='', assumptions=[], jobs=[dict(name='P23_pack', src='P23_pack.cpp')]),

 'P12': dict(level='model_checking', technique=T_SEQ, level_note='', rule='', bounds='', assumptions=[], jobs=[dict(name='P12_geometry', src='P12_geometry.cpp')]),
 'P13': dict(level='model_checking', technique=T_SEQ, level_note='', rule='', bounds='', assumptions=[], jobs=[dict(name='P13_grids', src='P13_grids.cpp', lib=False)]),

 'P20': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[dict(name='P20_plain', src='P20_trace.cpp'), dict(name='P20_trace', src='P20_trace.cpp', config='trace')]),
 'P21': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[dict(name='P21_resources', src='P21_resources.cpp')]),
 'P17': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[dict(name=n, src='P17_capi.cpp', more=['capi.c'], config=c, libsrc=C_LIB) for n, c in (('P17_capi', 'fftw'), ('P17_stock', 'stock'), ('P17_mkl', 'mkl'))]),
 'P18': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[dict(name='P18_python', src='P18_python.cpp', libsrc=C_LIB, link=['-rdynamic', '-lpython3.12'])]),
 'P19': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[
    dict(name='P19_fftw', src='P19_fortran.cpp', fortran='fftw', cflags=['-DVERIF_FBE=fftw'], link=['-lgfortran']),
    dict(name='P19_stock', src='P19_fortran.cpp', fortran='stock', cflags=['-DVERIF_FBE=stock'], link=['-lgfortran']),
    dict(name='P19_mkl', src='P19_fortran.cpp', config='mkl', fortran='mkl', cflags=['-DVERIF_FBE=mkl'], link=['-lgfortran'])]),
 'P14': dict(level='model_checking', technique=T_CFG, level_note='', rule='', bounds='', assumptions=[SIM], jobs=[dict(name='P14_reject', src='P14_reject.cpp')]),
}
NOT_APPLICABLE = {
 'P24': 'no CUDA, ROCm or oneAPI compiler, runtime or device exists in the sandbox, so this code cannot be built or executed',
}
# What is enumerated.  `rule` says what one case is, `bounds` what the cases range over, `level_note` what is decided and what is trusted.
ROT = 'parameters not named here (storage orders, algorithm, precision, batch, scaling, buffer alignment, scheduling policy) are taken from consecutive rows of a pairwise covering array'
TEXT = {
 'P01': ('every element of every enumerated reshape is compared with the set-of-points model on the real code; beyond the bounds nothing is said; trusts the MPI simulator',
   'one case = one (world, input partition, output partition, orders, algorithm, batch, scalar type, in-place or not, schedule policy); all elements on all ranks compared, source and guards checked, applied repeatedly',
   {'quick': '1 and 2 ranks: all pairs of guillotine partitions (empty boxes, every numbering) of 6 worlds up to 3x3x3 x all 36 order pairs x 4 algorithms; full product of every parameter on grids of 2 worlds up to 3 ranks; 3 ranks: all pairs on 5 worlds; all grid pairs for 4..9, 12, 16 ranks; all pairs of irregular partitions for 4 ranks; all slab cuts for 3..5 ranks and shifted chains for 6..16 ranks; 64-bit indexes; lines up to 300. ' + ROT,
    'thorough': 'as quick with more worlds up to 5x2x3, full product up to 4 ranks, 12 rows for each pair at 3 ranks, grids up to 24 ranks, chains up to 32 ranks, lines up to 1025'}),
 'P02': ('every schedule within the stated deviation budgets of the real code under the simulator; schedules with more preemptions are covered only where the budget says all; a case that exceeds its execution cap is counted under capped_cases in the evidence',
   'one case = one reshape (called twice in a row without a barrier) or one complete plan life with all its executions: the DFS over rank interleavings, completion order of receives and buffering of each send; each execution compares all results and monitors MPI rules',
   {'quick': '2 ranks: the complete schedule space of all pairs of partitions of 4 worlds x 4 algorithms, and complete plans of 6 transform classes; 3 ranks: collectives without bound, point to point with 2 preemptions and 1 deviating send, and with 2 preemptions and no buffering at all; full exchanges of 3 and 4 ranks; plans on 3 and 4 ranks with one deviation of each kind',
    'thorough': 'three ranks without any bound (cap 10^6 executions), more worlds and all layouts for the plans'}),
 'P03': ('every enumerated distribution is executed on the real code and compared with a naive long double DFT; rounding tolerance grows with the line lengths; trusts the MPI simulator, the FFTW and MKL libraries',
   'one case = one plan (world, boxes, orders, options, back end, precision), forward and backward, all entries on all ranks compared',
   {'quick': '1 rank: all worlds up to 4^3 x 36 order pairs; 2 ranks: all pairs of guillotine partitions with empty ranks and both numberings of 5 worlds x 36 order pairs; 3 ranks: all pairs on 2 worlds; all pairs of grids for 4..8 ranks; all pairs of irregular partitions for 4 ranks; 9, 10, 12, 13, 16, 24 and 32 ranks; idle ranks; all basis vectors of 2 worlds; long mixed radix lines; each x {reorder} x {pencils, slabs} x {fftw, stock, mkl}. ' + ROT,
    'thorough': 'additionally x 4 algorithms x 2 precisions for each, worlds up to 6^3, up to 16 ranks'}),
 'P04': ('as P03, the reference is the half spectrum in the reduced direction', 'one case = one real-to-complex plan, forward and backward (the spectrum of real data), all entries on all ranks compared',
   {'quick': '3 reduced directions x: 1 rank all worlds up to 4^3 x 36 order pairs; 2 ranks all pairs of partitions of 5 worlds x 36 order pairs; 3 ranks all pairs on 3 worlds; grids for 4..8 ranks; 9, 10, 12, 13, 16, 24 and 32 ranks; idle ranks; basis vectors; long lines; each x {reorder} x {pencils, slabs} x {fftw, stock, mkl}. ' + ROT,
    'thorough': 'additionally x 4 algorithms x 2 precisions, worlds up to 6^3, up to 16 ranks'}),
 'P05': ('as P03, the reference is the defining cosine or sine sum', 'one case = one real-to-real plan of one back end, forward and backward, all entries on all ranks compared',
   {'quick': '4 transforms (DCT-II, DST-II, DCT-I, DST-I) on fftw, stock and mkl where defined: 1 rank worlds up to 3^3; 2 ranks all pairs of partitions of 5 worlds x 36 order pairs; 3 ranks; grids for 4..8 ranks; 9..32 ranks; idle ranks; basis vectors; all lengths 2..40 in each direction. ' + ROT,
    'thorough': 'x 4 algorithms x 2 precisions, worlds up to 5^3, up to 12 ranks, lengths up to 70'}),
 'P06': ('factors are compared to 1e-14 and every calling mode with every scaling to the reference', 'one case = one plan; inside, every calling mode x every scaling, forward and backward, and round trips with the 3 complementary pairs',
   {'quick': '11 transform classes of fftw and stock and 4 of mkl x 2 precisions x {reorder} x {pencils, slabs}: all worlds up to 3^3 on 1 rank, all grid pairs of 7 worlds on 1, 2, 4, 6 ranks; the factors of worlds up to 4.5e14 points on 24 ranks with both index types. ' + ROT, 'thorough': 'worlds up to 5^3, 11 worlds with reversed and idle ranks on 1..12 ranks'}),
 'P07': ('entries of a batch are compared with single transforms of the same plan up to a few units of rounding, and with the reference', 'one case = one plan and one batch size; each entry in both directions, with and without user workspace',
   {'quick': '11 classes of fftw and stock and 4 of mkl x 4 planners x 4 algorithms x all grid pairs of 6 worlds on 2, 3, 4, 6 ranks with batches 2..4; all order pairs on 1 rank; batches of 5, 8, 13, 16, 33. ' + ROT, 'thorough': '8 worlds, up to 12 ranks, batches 2..6, reversed and idle ranks'}),
 'P08': ('guard bytes around exactly sized buffers detect writes, AddressSanitizer on exact heap blocks also reads; reads inside FFTW and MKL are not instrumented', 'one case = one plan; inside, every calling mode in both directions with buffers of exactly the reported sizes at one alignment',
   {'quick': '11 classes of fftw and stock and 4 of mkl x 2 precisions x 4 planners: worlds up to 3^3 on 1 rank, all grid pairs of 5 worlds on 2, 3, 4, 6 ranks, every multiple of the element size modulo 64 as alignment (16 for complex double with fftw, see known findings); the same under AddressSanitizer with one planner each. ' + ROT, 'thorough': 'up to 8 ranks with reversed and idle ranks, all planners under AddressSanitizer'}),
 'P09': ('the modes of one plan are compared with each other (exactly, up to rounding between real and complex input) and with the reference', 'one case = one plan; inside, all calling modes (pointer, workspace, vector, in-place, batch, real input) in both directions',
   {'quick': '11 classes of fftw and stock and 4 of mkl: 4 worlds x 36 order pairs x 4 planners on 1 rank; all grid pairs of 6 worlds on 2, 3, 4, 6 ranks x 4 planners x 2 batches x 2 precisions; plans from every constructor and factory (streams, integers, 2D boxes, both index types); complex types of the user. ' + ROT, 'thorough': '8 worlds, up to 8 ranks, reversed and idle ranks'}),
 'P10': ('results are compared with the reference for the full product of the options; the internal distributions are read from the plan', 'one case = one plan with one combination of all options',
   {'quick': '11 classes of fftw and stock and 4 of mkl x 4 algorithms x reorder x pencils x every number of sub-ranks x use_gpu_aware on grids of 4 worlds (1..4 ranks) and one (6 ranks), and of 9 and 12 ranks with every limit; every subset of 4 ranks as sub-communicator. ' + ROT, 'thorough': 'all grid pairs, 8 worlds, 1..8 ranks'}),
 'P11': ('every word is run on the real code and each call compared with the reference', 'one case = one word of operations (forward, backward, both precisions, batches, in place, move, destroy and create) on 1..3 plans, on all ranks',
   {'quick': '10 sets of plans x 1..4 ranks: all words of length 3 on two slots (18 operations) and length 4 on one slot (9 operations); with an allocator that hands out freed addresses again: all words of length 2 and 3 over 5 reshapes x 6 uses and all pairs over 4 plans x 5 uses, 4 algorithms', 'thorough': 'words of length 4 and 5, three slots, three sets of layouts'}),
 'P12': ('the geometry functions are compared with sets of points; the distributions planned for every enumerated configuration are checked to be partitions of the right shape', 'one case = one split, one set of box relations, one list of boxes or one complete plan',
   {'quick': 'splits of all worlds up to 5^3 on grids up to 5^3, long splits on up to 33 pieces; all boxes in 3^3 and all pairs; all lists of up to 4 boxes of a 2^3 world; planning shapes for all worlds up to 4^3 on all grids up to 6 ranks; complete plans (pencils, slabs, r2c, sub-ranks) for worlds up to 3^3, 5 more and 9 with up to 4.5e14 points on up to 8 ranks, plans for 9..32 ranks, and all partitions of 2 and 3 ranks', 'thorough': 'worlds up to 7^3, boxes in 4^3, lists of 5 boxes, up to 12 ranks'}),
 'P13': ('compared with brute force over all factorisations', 'one case = one world with all rank counts, or one range of rank counts',
   {'quick': 'worlds up to 12^3 x 1..64 ranks, 8 large worlds x 1..2048 ranks, 2-D grids for 1..5000 ranks', 'thorough': 'worlds up to 24^3 x 1..128 ranks, large worlds x 1..8192, 2-D grids up to 20000'}),
 'P14': ('set semantics decide which inputs are valid; an invalid one must end in an exception or a failed assertion on every rank, a valid one must give a working plan', 'one case = one set of boxes (a valid one or one or two perturbations of it) on all ranks, or one plan with vectors of every wrong length',
   {'quick': '11 base worlds on 1..6 ranks x complex and 3 real directions: every single perturbation (shift, grow, shrink, swap, duplicate, empty, reorder) of every box of input and output, and pairs of perturbations; vectors of all classes on 1..4 ranks', 'thorough': '15 base worlds up to 8 ranks, all pairs'}),
 'P15': ('compared with a long double DFT; the tolerance allows the rounding of the twiddle recurrences (N^1.9 eps for primes)', 'one case = one (length, number, stride, distance), all directions, precisions and variants (complex, r2c, c2r)',
   {'quick': 'lengths 1..100 x 1..9 transforms x 5 layouts, all basis vectors up to 40, lengths up to 500 and 18 larger ones up to 4096; Rader plans of all primes up to 100; vector lane arithmetic; classification of every length up to 1.6 million; with AVX, without, and AVX-512 if the CPU has it', 'thorough': 'lengths 1..200 x 1..17, up to 2600 and 19683, classification up to 6 million'}),
 'P16': ('compared with long double sums along the lines of the box', 'one case = one (box, order, set of directions) on all back ends and precisions',
   {'quick': 'fftw and stock (with and without AVX) and mkl: all boxes up to 5^3 x 6 orders x 7 sets of directions, shifted origins; all basis vectors of 3 boxes; lines of 5..40 in each position; merged directions up to 10x9', 'thorough': 'boxes up to 6^3, lines to 100'}),
 'P17': ('each call is compared with the same call of the C++ class; heap growth is measured over repeated executions', 'one case = one plan made by both interfaces with all queries and transforms (13 per class and precision, 3 scalings), one invalid request, or one word of create/use/destroy on 3 handles',
   {'quick': '3 back ends x complex and 3 real directions x all grid pairs of 3 worlds (1 for stock next to another back end) on 1..4 ranks x all option sets; all invalid requests of 2 worlds; all words up to length 5', 'thorough': '5 worlds up to 8 ranks, words up to length 7'}),
 'P18': ('the Python file is run inside the simulator with simulated ranks as Python threads; results compared with numpy on the global array', 'one case = one plan with all array types, scalings and variants; or all malformed arguments of one plan; or one geometry helper',
   {'quick': '2 back ends x complex and 3 real directions x all grid pairs of 4 worlds on 1..4 ranks; every wrong length, type and layout of each argument; proc_setup for 1..12 ranks on worlds up to 6^3, split_world up to 5^3; 20 interleavings of two plans', 'thorough': '7 worlds, up to 6 ranks, proc_setup to 24 ranks'}),
 'P19': ('each Fortran call is compared with the same call of the C++ class', 'one case = one plan made from Fortran with each constructor, all queries and transforms; or one word of new/use/release/alias operations',
   {'quick': '3 back ends x complex and 3 real directions x all grid pairs of 2 worlds on 1..4 ranks x 3 constructors x all option sets; words up to length 4 (fftw) and 3', 'thorough': '5 worlds up to 8 ranks, words up to length 5'}),
 'P20': ('the same cases run in a build with and without tracing, the histories of all ranks must be equal; the log files are parsed and compared with the simulator record of MPI operations', 'one case = one plan used in one or more tracing sessions',
   {'quick': 'all classes, layouts of small worlds on 1..4 ranks, repeated sessions; clocks that start at large values, so that lost digits of the log are seen', 'thorough': 'more layouts and ranks'}),
 'P21': ('the simulator counts live communicators, groups, requests and messages; the heap is measured over repeated executions; communicators of the plan are compared with the one of the user', 'one case = one life of plans (created, used, moved, copied into vectors, failed) on the world or on sub-communicators',
   {'quick': '11 classes x all ways to hold a plan x all grid pairs of 3 worlds on 1..4 ranks; every assignment of 2..5 ranks to at most 3 groups; communicators made from every ordered list of up to 4 ranks; failing creations', 'thorough': 'up to 6 ranks, reversed and idle ranks'}),
 'P22': ('32- and 64-bit plans are compared byte by byte, with the number of messages and bytes of each rank', 'one case = one configuration, both plans; or the planned boxes of one large world',
   {'quick': '11 classes x 4 algorithms x 4 planners x all grid pairs of 4 worlds on 1..6 ranks; boxes of every size out of 11 per direction up to 2^31-1; planned boxes of worlds up to 4.5e14 points; sizes and workspace reported by complete plans of worlds with less than 2^28 points per rank. ' + ROT, 'thorough': '1..8 ranks, 4 rows each'}),
 'P23': ('compared with copies point by point, guards around all buffers', 'one case = one (array, sub-box, type) or one transposition or all pairs of boxes with one box fixed',
   {'quick': 'every sub-box of every array up to 4^3; every transposition; sizes around the cache blocks (16, 32, 64); offsets computed for every pair of boxes in 3^3 x 36 orders; strides and offsets up to and beyond 2^31 (sparse memory); long lines; scaling of 0..270 entries and around powers of 2', 'thorough': 'arrays up to 5^3, three blocks, boxes in 4x3x4'}),
}
for k, (note, rule, bounds) in TEXT.items(): CHECKS[k].update(level_note=note, rule=rule, bounds=bounds)
