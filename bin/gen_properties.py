#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 bin/gen_properties.py > properties.jsonl)
import json
def P(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    print(json.dumps({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None}}))

P("P01", "A reshape puts every element exactly where the output layout wants it",
  "For any two distributions of one index world over the same ranks, any storage orders, and any communication algorithm, batch size or scalar type, applying the reshape leaves on every rank exactly the elements of its output box, in the output order and for every batch entry. The source is left untouched, and the object can be applied any number of times.",
  ["configurations", "inputs", "schedules"],
  "every pair of partitions of the world into boxes (grids and irregular cuts, empty boxes, any rank order), 6x6 storage orders, four algorithms, batch sizes, scalar types, 32 and 64 bit indexes, message timings",
  "The tests use a handful of regular grids and one ordering per run under one MPI library; a wrong offset for an irregular partition, an empty rank or an unusual order pair stays unseen.",
  ["src/heffte_reshape3d.cpp", "include/heffte_reshape3d.h", "include/heffte_pack3d.h"],
  [("overlap maps and pack plans", "src/heffte_reshape3d.cpp compute_overlap_map_*"), ("three exchange algorithms", "src/heffte_reshape3d.cpp apply_base"), ("selection of the algorithm", "include/heffte_reshape3d.h make_reshape3d")],
  ["output buffer of a reshape on every rank"])
P("P02", "No message timing can change a result, deadlock or break MPI rules",
  "Creating, executing and destroying plans terminates on all ranks under every interleaving of the ranks, every completion order of non-blocking receives and every amount of buffering of sends, and always yields the same result. All ranks issue matching collective calls in the same order, message sizes match, and no buffer is touched while a pending operation owns it.",
  ["schedules", "configurations"],
  "every interleaving of MPI calls (bounded preemptions for more than two ranks), every order in which completed receives are reported, eager or synchronous sends, for all algorithms and distributions of small worlds",
  "One run of a test sees one timing of one MPI library, which buffers small messages; rendezvous deadlocks, completion-order races and early buffer reuse do not show.",
  ["src/heffte_reshape3d.cpp", "include/heffte_utils.h", "include/heffte_fft3d.h", "include/heffte_geometry.h"],
  [("receives posted before sends, Waitany loop, Waitall on sends", "src/heffte_reshape3d.cpp reshape3d_pointtopoint::apply_base"), ("sub-communicators for collectives", "src/heffte_reshape3d.cpp make_reshape3d_alltoall(v)"), ("box gathering", "include/heffte_geometry.h gather_boxes")],
  ["termination and output of every rank, sequence of MPI calls"])
P("P03", "The complex transform equals the 3D DFT for every distribution",
  "The distributed complex transform computes the three-dimensional discrete Fourier transform (negative exponent forward, positive exponent backward) of the global array up to rounding, for every valid way of distributing input and output boxes over any number of ranks, including empty ranks, any storage order and 2D worlds. The same plan serves forward and backward, and real input gives the same as complex input with zero imaginary part.",
  ["configurations", "inputs"],
  "worlds with every side 1 and up, every distribution of small worlds over a few ranks, all storage orders, complete delta bases and generic data, single and double precision, every CPU back end",
  "The tests use near-cubic grids with many elements per rank; worlds with unit or tiny sides, irregular boxes, idle ranks and permuted orders are combinations they do not sample.",
  ["include/heffte_fft3d.h", "src/heffte_compute_transform.cpp", "src/heffte_plan_logic.cpp", "include/heffte_plan_logic.h"],
  [("choice of intermediate shapes", "src/heffte_plan_logic.cpp plan_operations"), ("sequence of reshapes and 1D transforms", "src/heffte_compute_transform.cpp compute_transform"), ("executors per direction", "include/heffte_fft3d.h")],
  ["output array of forward and backward"])
P("P04", "The real-to-complex transform is the non-redundant half of the DFT",
  "For each choice of the reduced direction, the forward real-to-complex transform delivers the coefficients 0..n/2 in that direction of the DFT of the real input, and the backward transform recovers the real signal from such coefficients, for every distribution, storage order, world shape and number of ranks.",
  ["configurations", "inputs"],
  "three reduced directions, even and odd sides, worlds with unit sides, all distributions of small worlds, storage orders, plan options, both precisions",
  "The tests fix one or two cubic sizes; odd or unit sides in the reduced direction with irregular or empty boxes are not sampled.",
  ["include/heffte_fft3d_r2c.h", "src/heffte_compute_transform.cpp", "src/heffte_plan_logic.cpp", "include/heffte_geometry.h"],
  [("r2c world and shrunk boxes", "include/heffte_geometry.h box3d::r2c, src/heffte_plan_logic.cpp apply_r2c"), ("mixed real/complex pipeline", "src/heffte_compute_transform.cpp")],
  ["output array of forward and backward"])
P("P05", "Cosine and sine transforms equal their defining sums",
  "The real-to-real transforms compute the three-dimensional discrete cosine transform of type II or I, or sine transform of type II or I, given by their defining sums, and the backward transform with full scaling recovers the input, for every distribution, storage order and world shape in the domain of the transform.",
  ["configurations", "inputs"],
  "all real-to-real CPU back ends, all sides from the smallest legal length, distributions of small worlds, orders, both precisions",
  "The tests compare one 2x3x4 world against a stored table; other lengths (odd, prime, minimal) and layouts are untested.",
  ["include/heffte_r2r_executor.h", "include/heffte_backend_fftw.h", "include/heffte_backend_stock.h", "include/heffte_backend_mkl.h"],
  [("extension to a longer real-to-complex signal", "include/heffte_r2r_executor.h"), ("native r2r plans", "include/heffte_backend_fftw.h")],
  ["output array of forward and backward"])
P("P06", "Scaling factors are exact and round trips return the input",
  "With the full, symmetric or no scaling, results are the unscaled transform times 1/N, 1/sqrt(N) or 1, where N is the number of points of the world (for real-to-real transforms the product of the logical lengths), and the reported scale factor is that number. Forward then backward with complementary scalings returns the original data.",
  ["inputs", "configurations"],
  "all scale pairs, directions, transform classes, worlds (also with unit sides), precisions, batches, plan options",
  "The tests check a few scale choices on one size; scaling applied twice, to only a part of the data or with a wrong count for other sizes, batches or ranks is not seen.",
  ["include/heffte_fft3d.h", "include/heffte_fft3d_r2c.h", "include/heffte_plan_logic.h", "include/heffte_backend_vector.h"],
  [("scale factor", "include/heffte_fft3d.h get_scale_factor"), ("scaling kernel", "include/heffte_backends.h data_scaling")],
  ["ratio of scaled and unscaled output, returned scale factor"])
P("P07", "A batched transform equals that many single transforms",
  "Transforming a batch of arrays in one call gives, for every array of the batch, the same result as transforming it alone, in every transform class, direction, layout and option combination.",
  ["inputs", "configurations"],
  "batch sizes 1..5, c2c, r2c and r2r, forward and backward, all plan options, distributions including those that need no reshape and empty ranks",
  "The tests run one batch size on a few grids; strides between batch entries that differ between real and complex stages matter only for specific layouts.",
  ["src/heffte_compute_transform.cpp", "src/heffte_reshape3d.cpp", "include/heffte_fft3d.h", "include/heffte_fft3d_r2c.h"],
  [("batch strides", "src/heffte_compute_transform.cpp"), ("batched packing", "src/heffte_reshape3d.cpp")],
  ["output of a batched call"])
P("P08", "No access outside user buffers, and the reported workspace suffices",
  "Given input, output and workspace buffers of exactly the reported sizes (times the batch), no operation reads or writes outside them, whatever their alignment, and an out-of-place call never changes its input, also when that is the complex input of a real-valued backward transform.",
  ["configurations", "inputs"],
  "all transform classes, directions, options, distributions of small worlds including empty ranks and single-rank worlds, batches, deliberately misaligned buffers",
  "Tests use vectors that are allocated inside the library or with slack and do not run under a memory checker on the unusual layouts where the largest buffer is not the obvious one.",
  ["include/heffte_fft3d.h", "include/heffte_fft3d_r2c.h", "src/heffte_compute_transform.cpp", "include/heffte_plan_logic.h", "src/heffte_reshape3d.cpp"],
  [("workspace size", "include/heffte_fft3d.h set_workspace / get_workspace_size"), ("buffer offsets", "src/heffte_compute_transform.cpp")],
  ["memory accesses during forward and backward"])
P("P09", "All entry points and buffer modes give the same result",
  "For the same plan and data, the vector and the pointer interface, calls with and without a user workspace, in-place and out-of-place calls, and real-typed input all give identical results, and vector calls return vectors of the advertised size. A plan behaves the same whichever constructor or factory made it (with or without a stream, options or sub-boxes in two dimensions, with 32- or 64-bit indexes), and complex types that the user registers with the library are treated as the standard ones.",
  ["programs", "inputs"],
  "all overloads of forward/backward of c2c, r2c and r2r plans, in-place on boxes of equal and different size, over distributions and options",
  "Tests exercise most overloads once on one grid; the internal path differs with the number of active reshapes and in-place aliasing.",
  ["include/heffte_fft3d.h", "include/heffte_fft3d_r2c.h", "src/heffte_compute_transform.cpp"],
  [("overloads", "include/heffte_fft3d.h"), ("in-place branches", "src/heffte_compute_transform.cpp compute_transform")],
  ["outputs of the different calls"])
P("P10", "Plan options change performance, never the result",
  "Every combination of communication algorithm, reordering, pencil or slab decomposition and sub-rank count gives the same transform, and when the number of working ranks is limited by count, the distributions the library chooses itself (those that are not the user's boxes) hold data on at most that many ranks; limited by a sub-communicator, on ranks of that communicator only. Options that do not match the input are corrected, not obeyed to a wrong result.",
  ["configurations"],
  "4 algorithms x reorder x pencils/slabs x every number of sub-ranks, on all distributions of small worlds and the three transform classes",
  "Tests iterate options on one or two grids; the planner has many special cases (slab input, slab output, pencils) selected by the boxes.",
  ["src/heffte_plan_logic.cpp", "include/heffte_plan_logic.h", "include/heffte_geometry.h"],
  [("plan selection", "src/heffte_plan_logic.cpp"), ("rank remap", "include/heffte_geometry.h rank_remap")],
  ["transform output per option set, shapes between the reshapes"])
P("P11", "Plans are reusable, independent and movable",
  "Any sequence of forward and backward calls on any number of coexisting plans, in any mix of precisions, batches and entry points, gives for each call the result a fresh plan would give. Moving a plan object transfers it intact, and destroying a plan does not affect others.",
  ["histories"],
  "all operation sequences up to a depth over an alphabet of plan creations, calls in both precisions and batch sizes, moves and destructions on several plans",
  "Each test makes one plan and calls it once or twice; state carried over between calls (lazily made executor plans, cached workspaces, request arrays) needs a specific sequence.",
  ["include/heffte_fft3d.h", "include/heffte_fft3d_r2c.h", "include/heffte_backend_fftw.h", "include/heffte_backend_stock.h", "src/heffte_reshape3d.cpp"],
  [("lazily created back end plans per precision", "include/heffte_backend_fftw.h make_plan"), ("mutable requests of p2p reshapes", "src/heffte_reshape3d.cpp")],
  ["result of every call in a history"])
P("P12", "World splitting and box geometry are exact partitions",
  "Splitting a world over a processor grid gives disjoint boxes that cover it exactly, differ by at most one point per direction, keep the world's order and are listed in grid order; intersection, containment, counting and the completeness test of boxes agree with set semantics of index points, and pencil and slab shapes produced for planning are partitions with the required full directions.",
  ["inputs"],
  "all worlds with sides up to a bound and offsets, all processor grids, all pairs of boxes in a small index range, all orders",
  "Tests check a few hand-written splits; grids with more processes than points, unit sides and offset worlds are not sampled.",
  ["include/heffte_geometry.h"],
  [("split_world, make_pencils, make_slabs", "include/heffte_geometry.h"), ("collide, world_complete", "include/heffte_geometry.h")],
  ["returned boxes and predicates"])
P("P13", "Processor grids multiply to the rank count and minimise the surface",
  "The proposed three-dimensional processor grid always multiplies to the number of ranks and has the smallest box surface (of the box of rounded-down side lengths) among the grids that do not cut a direction into more pieces than it has points, whenever one exists; two-dimensional grids are the most square factorization.",
  ["inputs"],
  "all worlds with sides up to a bound and all rank counts up to a bound",
  "Tests check three rank counts on a cube; the search loop can skip factorizations for other shapes.",
  ["include/heffte_geometry.h"],
  [("search over factorizations", "include/heffte_geometry.h proc_setup_min_surface, make_procgrid")],
  ["returned grid"])
P("P14", "Invalid geometry and undersized buffers are rejected",
  "If the boxes of the ranks do not cover one world, overlap or disagree between input and output, or the reduced direction or the complex boxes of a real-to-complex plan do not fit, plan creation fails on every rank (an exception for an incomplete or overlapping world; an exception or, in builds with assertions, a failed assertion for the rest): no rank hangs or returns a plan. Vector calls with too few elements throw before any communication, and vectors of sufficient size are accepted.",
  ["inputs", "configurations", "fault_sequences"],
  "all single-box perturbations (shift, grow, shrink, duplicate, drop) of valid distributions on every rank, every undersized vector for every vector call",
  "The tests contain one or two failing constructions; a perturbation that keeps the total count or that only one rank sees is not covered.",
  ["include/heffte_geometry.h", "src/heffte_plan_logic.cpp", "include/heffte_fft3d.h", "include/heffte_fft3d_r2c.h"],
  [("completeness test", "include/heffte_geometry.h world_complete"), ("input checks", "src/heffte_plan_logic.cpp plan_operations")],
  ["exceptions on every rank"])
P("P15", "The built-in FFT equals the DFT for every length and layout",
  "The built-in one-dimensional engine computes the DFT of every length (powers of two to four, composite, prime, prime squares), up to the rounding of its twiddle recurrences, in both directions, precisions and signs, for any stride, distance and number of transforms, with vectorised and scalar code, and its real-to-complex and complex-to-real variants are consistent with the complex one.",
  ["inputs", "configurations"],
  "all lengths up to a bound plus selected larger ones, all delta inputs and generic data, strides, distances, how-many counts around the vector width, vector and scalar builds",
  "Tests use a few lengths and one stride; each length selects a different composition of algorithms and the vectorised path treats left-over transforms separately.",
  ["include/heffte_backend_stock.h", "include/stock_fft/heffte_stock_algos.h", "include/stock_fft/heffte_stock_tree.h", "include/stock_fft/heffte_stock_complex.h", "include/stock_fft/heffte_stock_vec_types.h", "include/stock_fft/heffte_stock_allocator.h"],
  [("factorization tree and per-node algorithms", "include/stock_fft"), ("batching over vector lanes", "include/heffte_backend_stock.h plan_stock_fft")],
  ["output of one-dimensional transforms"])
P("P16", "Every back end executor transforms exactly the lines of its box",
  "For each CPU back end and each box size, storage order and direction (and pair or triple of directions where supported), the local executor transforms exactly all lines of the box in those directions, equal to the DFT or real-to-real sum, and all back ends agree.",
  ["inputs", "configurations"],
  "all boxes with sides up to a bound, 6 orders, 3 directions, direction pairs, all three directions, c2c, r2c and r2r, both precisions, all CPU back ends",
  "Tests check one 3-D box in natural order; each order and direction uses a different stride, distance and block-count computation.",
  ["include/heffte_backend_fftw.h", "include/heffte_backend_mkl.h", "include/heffte_backend_stock.h", "include/heffte_common.h"],
  [("stride, distance, blocks", "include/heffte_backend_*.h executor constructors"), ("fft1d_get_howmany/stride", "include/heffte_common.h")],
  ["output of a local executor"])
P("P17", "The C interface mirrors the C++ interface",
  "Every plan creation, query, transform and destruction through the C interface behaves as the corresponding C++ call with the same arguments, for every back end, precision, scaling, option set and buffered variant. Invalid requests return a nonzero code without throwing across the boundary, without leaking and without leaving a dangling handle, and default options are fully initialised.",
  ["programs", "inputs"],
  "all functions, back ends, scalings, option sets, null and explicit orders, real-to-complex directions, distributions; invalid back ends, boxes, algorithms",
  "The C test runs one grid and two scalings; code numbers, argument order of the buffered variants and failure paths are not exercised.",
  ["src/heffte_c.cpp", "include/heffte_c.h", "include/heffte_c_defines.h"],
  [("dispatch on back end and plan kind", "src/heffte_c.cpp"), ("error translation", "src/heffte_c.cpp")],
  ["return codes, outputs and queries of the C interface"])
P("P18", "The Python interface mirrors the C interface",
  "Plans made from Python, complex and real-to-complex, give the transforms of the library for every accepted array type, scaling and buffered variant, arrays of wrong size, type or memory layout are rejected by an exception before any computation, and the Python geometry helpers agree with the library's.",
  ["programs", "inputs"],
  "all methods, dtypes, scalings, r2c directions, one and several ranks, worlds with different input and output box sizes, wrong sizes and dtypes",
  "The Python tests run one c2c case whose input and output boxes have equal size, so swapped size checks or a wrong option layout are invisible.",
  ["python/heffte.py", "src/heffte_c.cpp"],
  [("ctypes declarations and checks", "python/heffte.py")],
  ["numpy outputs and exceptions"])
P("P19", "The Fortran interface mirrors the C++ interface",
  "Every Fortran-callable plan constructor, transform, query and release behaves as the corresponding C++ call with the same boxes, orders, communicator and scaling, for the stock, FFTW and MKL back ends.",
  ["programs", "inputs"],
  "all type-bound procedures and overloads of the generated modules over small distributions",
  "The Fortran tests run two programs with one grid; most overloads (buffered, batched, single precision, r2c queries) are not called.",
  ["fortran/generated/heffte_fftw.f90", "fortran/generated/heffte_fftwFORTRAN_wrap.cxx", "fortran/generated/heffte_stock.f90", "fortran/generated/heffte_stockFORTRAN_wrap.cxx", "fortran/heffte.cmake.i"],
  [("generated wrappers", "fortran/generated")],
  ["outputs of Fortran calls"])
P("P20", "Tracing is complete, well-formed and has no effect on results",
  "With tracing enabled, results and communication are the same as without; each rank writes one log named after the root and its rank, whose events belong to calls made since tracing was initialised, have non-negative durations inside the traced interval, and include all transforms, packings and messages performed.",
  ["histories", "configurations"],
  "operation sequences of initialise, transform, finalise, re-initialise on several ranks, over algorithms and distributions",
  "The trace test checks a single log on one grid for existence; stale events, missing stages or wrong file names in other histories are not noticed.",
  ["include/heffte_trace.h", "src/heffte_reshape3d.cpp", "src/heffte_compute_transform.cpp"],
  [("event log", "include/heffte_trace.h add_trace"), ("init and finalise", "include/heffte_trace.h")],
  ["log files and transform outputs"])
P("P21", "Plans release every resource and stay within their communicator",
  "After plans are destroyed (or their creation failed) no communicator, group, request, message or allocation made for them remains; the user's communicator stays usable, and no communication leaves the communicator given to the plan or involves ranks outside it, so plans on disjoint sub-communicators run independently.",
  ["histories", "configurations", "fault_sequences"],
  "create/use/destroy histories over algorithms, sub-communicators, sub-rank options and failing constructions",
  "Tests finish after a few plans; a leak of a communicator per plan or traffic on the wrong communicator is only visible after thousands of plans or in a larger program.",
  ["include/heffte_utils.h", "src/heffte_reshape3d.cpp", "include/heffte_reshape3d.h", "include/heffte_fft3d.h"],
  [("new_comm_from_group and comm_free", "include/heffte_utils.h"), ("destructors of reshapes", "include/heffte_reshape3d.h")],
  ["live MPI objects and heap blocks after destruction"])
P("P22", "64-bit index plans behave as 32-bit index plans",
  "A plan built with 64-bit indexes gives the same boxes, sizes, workspace, messages and results as the plan with 32-bit indexes for every world that fits in both.",
  ["configurations"],
  "all worlds and distributions of the other enumerations, transform classes, options",
  "One test runs one grid with 64-bit indexes.",
  ["include/heffte_geometry.h", "include/heffte_fft3d.h", "include/heffte_fft3d_r2c.h", "src/heffte_reshape3d.cpp", "src/heffte_plan_logic.cpp"],
  [("index template parameter", "include/heffte_geometry.h box3d")],
  ["results, sizes and message counts"])
P("P23", "Packing and unpacking are inverse copies of a sub-box",
  "Packing copies exactly the points of a sub-box of a strided array into a contiguous buffer in order, unpacking puts them back to exactly these points and touches no other, and the transposing unpack permutes by the given map, for every size, stride, offset and permutation.",
  ["inputs"],
  "all sub-boxes of all boxes with sides up to a bound, all six permutations, scalar types",
  "Tests check two sub-boxes of one array.",
  ["include/heffte_pack3d.h"],
  [("direct_packer and transpose_packer", "include/heffte_pack3d.h"), ("reorder kernels", "include/heffte_pack3d.h")],
  ["packed and unpacked buffers"])
P("P24", "GPU back ends compute the same transforms as the CPU back ends",
  "On CUDA, ROCm and oneAPI devices, with and without GPU-aware communication, every transform equals the CPU result.",
  ["configurations", "inputs"],
  "all GPU back ends, buffers and streams",
  "The GPU code is not built in this environment at all.",
  ["include/heffte_backend_cuda.h", "include/heffte_backend_rocm.h", "include/heffte_backend_oneapi.h", "src/heffte_backend_cuda.cu", "src/heffte_backend_rocm.hip.cpp", "src/heffte_backend_oneapi.cpp"],
  [("device executors and transfer", "include/heffte_backend_*.h")],
  ["device output buffers"])
