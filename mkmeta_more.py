
SVH = "include/libflatarray/short_vec.hpp"
SVNOTE = STD + " Covers the scalar, SSE, SSE2, SSE4.1, AVX, AVX2 and AVX-512 code paths this machine can run."
ISA = "all element types (float, double, int), arities and x86 or scalar code paths"

prop("S01", "short_vec arithmetic is lane-wise scalar arithmetic",
     "Adding, subtracting and multiplying short_vecs, with vector or scalar operands, in plain or compound form, also with the same object on both sides, yields in every lane exactly the value (bit for bit, special values included) that the scalar operation yields for that lane's operands; "
     "no operand other than an assigned one changes. Results agree between all element counts and all instruction sets.",
     ["inputs", "configurations"], ISA + " and all lane values",
     "Tests use one ascending sequence of lane values on the instruction set of the build machine.",
     [SVH, D + "short_vec_sse_float_8.hpp", D + "short_vec_avx_double_8.hpp", D + "short_vec_avx512_int_32.hpp", D + "short_vec_scalar_int_16.hpp"],
     "a hand-written specialisation per element type, arity and instruction set", SVNOTE, "differential PBT: each vector operation against scalar arithmetic per lane, on 7 instruction sets")

prop("S02", "short_vec loads, stores, gathers and scatters move exact lanes",
     "Constructing a short_vec from a scalar, a pointer or an initializer list, loading and storing (plain, aligned, non-temporal, by operator<<), gathering and scattering via offsets (positive or negative), reading lanes by operator[] and printing move exactly the lanes in question, bit for bit and in order, "
     "and neither read nor write memory outside of them.",
     ["inputs", "configurations"], ISA + ", all lane values, addresses and offsets",
     "Tests move one sequence with one set of offsets and cannot see accesses outside the lanes.",
     [SVH, D + "short_vec_helpers.hpp", D + "short_vec_sse_int_16.hpp", D + "short_vec_avx_float_16.hpp", D + "short_vec_avx512_double_32.hpp", D + "short_vec_scalar_float_8.hpp"],
     "per-register load/store/shuffle sequences", SVNOTE + " With AVX-512 offset arrays must be 64-byte aligned, as the code asserts.", "PBT: reference lane movement on guarded buffers, bitwise comparison")

prop("S03", "short_vec comparisons, masks and blend agree lane by lane",
     "Every comparison of two short_vecs yields a mask whose lanes are set exactly where the scalar comparison holds (NaNs included); any(), get() and count_mask() report exactly those lanes (any() of a vector itself: whether a lane isn't zero), and blend(mask, v) replaces exactly the lanes set in the mask by v's lanes and keeps the others bit for bit.",
     ["inputs", "configurations"], ISA + " that offer comparisons, and all lane values",
     "Tests use a handful of hand-picked masks.",
     [SVH, "include/libflatarray/short_vec_base.hpp", D + "short_vec_sse_double_8.hpp", D + "short_vec_avx_double_8.hpp", D + "short_vec_avx512_float_32.hpp"],
     "comparison intrinsics, movemask-based bit counting, blend via and/andnot", SVNOTE, "differential PBT: masks against per-lane scalar comparisons")

prop("S04", "short_vec division and roots are accurate, integers exact",
     "Dividing short_vecs of doubles and taking their square root is exact to 1e-14; for floats, divisions (including the optimised division by a square root) are accurate to a relative error of 2^-10 and roots to 2^-20, in every lane and independent of the other lanes. "
     "Integer division truncates exactly like C++ for all operands for which that is defined, and integer roots of perfect squares are exact.",
     ["inputs", "configurations"], ISA + " and all lane values with normal results",
     "Tests divide one sequence with small quotients on one instruction set.",
     [SVH, D + "sqrt_reference.hpp", D + "short_vec_helpers.hpp", D + "short_vec_sse_float_16.hpp", D + "short_vec_avx_int_16.hpp", D + "short_vec_avx512_double_16.hpp"],
     "reciprocal estimates, sqrt_reference expression objects, integer division by conversion", SVNOTE, "differential PBT against scalar arithmetic with stated tolerances")

prop("S05", "Streaming short_vecs differ from plain ones only in caching",
     "A streaming_short_vec computes the same lanes as the short_vec of the same type and arity in every operation, and all of its stores leave exactly those lanes at the given address and touch nothing else; the sibling types that loop peelers derive from it keep element type and streaming behaviour.",
     ["inputs", "configurations"], ISA + ", all lane values and aligned addresses",
     "One test stores one sequence.",
     ["include/libflatarray/streaming_short_vec.hpp", D + "streaming_short_vec_switch.hpp", D + "sibling_short_vec_switch.hpp"],
     "inherits short_vec, overrides stores by non-temporal ones", SVNOTE, "differential PBT between streaming and plain vectors")

prop("L01", "Loop peelers process every index once, vectors at aligned indices",
     "For every range of non-negative indices the loop peelers (both macros and the C++14 function) hand each index of the range to the functor exactly once and no other index, process full vectors only at indices that are multiples of the arity, vectorise every full aligned block inside the range, and leave the counter at the end of the range. "
     "Empty ranges and ranges inside a single block included.",
     ["inputs", "configurations"], "all ranges, counter types, arities and element types, plain and streaming",
     "Tests run a few ranges that span several blocks.",
     ["include/libflatarray/loop_peeler.hpp", D + "sibling_short_vec_switch.hpp"],
     "computation of the first and last aligned index", SVNOTE, "PBT: exact visit counting per index plus an actual computation on guarded buffers")

prop("M02", "Any registered cell type gets a gap-free layout, described truthfully",
     "For every cell type registered with the library, members lie in registration order without gaps in grids and arrays, each member (and each array element) as one block of as many values as the static layout has cells, wherever an accessor of any flavour looks at it, and accessors' relative coordinates step by exactly the layout's strides. "
     "number_of_members, aggregated_member_size and member_ptr_to_offset report exactly this layout, and member_ptr_to_offset refuses members that were not registered with std::invalid_argument.",
     ["inputs", "configurations"], "all cell types (1-50 members of any type, arrays, any registration order, private members), size lists, positions and accessor flavours",
     "Tests register a few hand-written cell types, mostly with few members.",
     ["include/libflatarray/macros.hpp", D + "macros.hpp", D + "offset.hpp", "include/libflatarray/member_ptr_to_offset.hpp", "include/libflatarray/aggregated_member_size.hpp", "include/libflatarray/number_of_members.hpp"],
     "recursive offset templates generated per member by the registration macro", STD, "PBT over randomly generated cell classes against a reference layout")

prop("P01", "Preprocessor lists: element, size, dequeue and iteration are exact",
     "For preprocessor sequences of every supported length the list macros behave like list functions: SIZE counts the elements, ELEM(i) yields the i-th element, DEQUEUE drops exactly the first element, IF_SHORTER chooses by comparing the length, and FOR_EACH expands its argument once per element, in order, with the right index.",
     ["inputs"], "all sequences of up to 50 elements, all indices and lengths",
     "Tests expand a few short lists.",
     ["include/libflatarray/preprocessor.hpp", D + "preprocessor.hpp"], "macros spelled out per length and index", STD,
     "PBT: generated macro expansions against Python list semantics")

prop("E01", "Selected vector types fit register width, working set and alignment",
     "estimate_optimum_short_vec_type selects, for every element type, unrolling factor, cell type and static layout, a vector with the same element type whose arity is the unrolling factor times the number of elements a register of the target holds, streaming exactly if the working set (cells of the static layout times the size of the cell type) is at least as large as the cache estimate; "
     "ilp_to_arity agrees with it, and aligned accesses work at every multiple of the alignment that alignment<> states for the selected type.",
     ["inputs", "configurations"], "all element types, unrolling factors, cell types, layouts, cache sizes and instruction sets",
     "Tests instantiate a handful of combinations on one instruction set.",
     ["include/libflatarray/estimate_optimum_short_vec_type.hpp", "include/libflatarray/ilp_to_arity.hpp", "include/libflatarray/alignment.hpp"],
     "compile-time selection by template specialisation", SVNOTE, "PBT over randomly generated instantiations against a reference selection")

prop("N01", "NEON and MIC short_vecs compute what the other targets compute",
     "The ARM NEON and Xeon Phi (MIC) implementations of short_vec give the same lanes as scalar code: addition, subtraction and multiplication bit for bit, division accurate to 2^-10 (doubles: 1e-14), roots to 2^-13 (MIC floats: 2^-20, doubles: 1e-14), comparisons in every lane, "
     "and loads, stores (aligned, unaligned, non-temporal), gathers and scatters move exactly the lanes in question without touching other memory; streaming vectors do the same.",
     ["inputs", "configurations"], "all arities of float (NEON, MIC) and double (MIC), all lane values, addresses and offsets",
     "None of this code is compiled, let alone run, on the machines the tests run on.",
     [D + "short_vec_neon_float_4.hpp", D + "short_vec_neon_float_8.hpp", D + "short_vec_neon_float_16.hpp", D + "short_vec_neon_float_32.hpp", D + "short_vec_mic_float_16.hpp", D + "short_vec_mic_float_32.hpp",
      D + "short_vec_mic_double_8.hpp", D + "short_vec_mic_double_16.hpp", D + "short_vec_mic_double_32.hpp"],
     "hand-written specialisations per arity on top of intrinsics", STD + " Intrinsics are emulated after their documentation (harness/neon, harness/mic), so compiler and hardware behaviour is not covered.",
     "differential PBT against scalar arithmetic per lane on emulated intrinsics")

prop("D01", "CUDA device grids and arrays behave like host containers",
     "A soa_grid in device memory (cuda_allocator, device functors) gives the same results for set, batch set, broadcast, get, batch get, load, save and resize as a three-dimensional array of cells, for all dimensions and counts and any order in which the device runs threads; "
     "a cuda_array behaves like std::vector under construction, copy, assignment, resize, reserve, load and save (elements added without a value are unspecified). "
     "Kernels and copies only touch live device allocations inside their bounds, host code never dereferences device memory, and every device allocation is released.",
     ["inputs", "histories", "schedules", "configurations"],
     "all dimensions, batch lengths, call sequences and thread orders, for trivially copyable cell types",
     "The CUDA tests need a GPU and are not built here; they use a few fixed sizes.",
     ["include/libflatarray/cuda_array.hpp", "include/libflatarray/cuda_allocator.hpp", G, D + "set_instance_functor.hpp", D + "get_instance_functor.hpp", D + "load_functor.hpp", D + "save_functor.hpp",
      D + "construct_functor.hpp", D + "destroy_functor.hpp", D + "staging_buffer.hpp", D + "init_kernel.hpp", D + "generate_cuda_launch_config.hpp"],
     "kernels derive cell indices from block and thread indices; staging buffers carry arguments to the device",
     "Runs on a CPU emulation of the CUDA runtime: launches are rewritten textually in a copy of the headers, threads run one at a time in a random order, device memory is inaccessible outside kernels and copies. Not a proof; trusts the emulation.",
     "model-based stateful PBT on an emulated device")

prop("T01", "Benchmark reports describe exactly the selected runs",
     "evaluate runs a benchmark once, with exactly the given dimensions, if its family name contains the requested name and not at all otherwise; a run is reported (unless output is off) as exactly one line whose ten fields match the header: revision, date and time (UTC), host, device, order, family, species, dimensions, performance (six significant digits) and unit, in columns that line up with the header if the values fit. "
     "device() of CPU benchmarks yields the type and name given by likwid-topology, else the first non-empty model name or cpu entry of /proc/cpuinfo, else 'unknown CPU', whatever else those contain, and leaks no descriptors; device() of GPU benchmarks yields the name of the current CUDA device.",
     ["inputs", "configurations"], "all names, filters, dimensions, performance values and contents of the system's CPU descriptions",
     "The testbed has no tests.",
     ["include/libflatarray/testbed/evaluate.hpp", "include/libflatarray/testbed/cpu_benchmark.hpp", "include/libflatarray/testbed/gpu_benchmark.hpp", "include/libflatarray/testbed/benchmark.hpp"],
     "string parsing of system descriptions and formatted output",
     STD + " /proc/cpuinfo, likwid-topology and the CUDA runtime are stand-ins fed by the generator; names contain no separators (semicolons, commas, colons) and only single blanks.",
     "PBT: generated benchmarks and system descriptions against reference parsing and field-by-field comparison of captured output")

prop("C01", "Containers share no hidden state between threads",
     "Threads that use different containers, vectors and memory blocks, or only read the same grid, array or vector (get, batch get, save, callbacks that read, copying from it, callbacks into a grid of their own), "
     "or store to different cells of the same container through (copies of) its accessors, as the examples do in OpenMP loops, obtain exactly the results they would obtain alone: no access of one thread is unordered with a conflicting access of another.",
     ["schedules", "inputs", "histories"], "all interleavings of any number of threads, all programs of calls, cell types and dimensions",
     "All tests are single-threaded.",
     [G, "include/libflatarray/soa_array.hpp", "include/libflatarray/soa_vector.hpp", "include/libflatarray/aligned_allocator.hpp", "include/libflatarray/macros.hpp", D + "staging_buffer.hpp", D + "save_functor.hpp", D + "load_functor.hpp",
      D + "dual_callback_helper.hpp", D + "copy_functor.hpp", "include/libflatarray/api_traits.hpp"],
     "calls are built from functors and accessors whose state has to live on the caller's stack",
     STD + " Schedules are whatever the machine produces, but the detector (ThreadSanitizer) judges the order of accesses, not their luck: a race is reported if both accesses are executed without synchronisation. Host containers only; members are not bit-fields.",
     "PBT of random concurrent programs against sequential models, with a happens-before race detector")

prop("K01", "Vectorised kernels compute what scalar loops on cells compute",
     "A kernel written against the library the way its examples are (callback on one or two grids, arrays or vectors; accessors and light accessors moved along rows; loop_peeler; short_vec types chosen by hand or by estimate_optimum_short_vec_type, "
     "with or without streaming stores; loads at relative coordinates, gathers, arithmetic, blend, any(), aligned and non-temporal stores) leaves in every member of every cell exactly what the corresponding scalar loop over a plain array of cells computes, "
     "for all dimensions and ranges, including those that start or end in the middle of a vector, and touches no cell outside its range.",
     ["inputs", "configurations", "histories"], "all kernels, cell classes, layouts, ranges, vector types and instruction sets",
     "The tests check grids, loop peeler and vectors separately; the few kernels in the examples are run for one or two sizes, whose results nobody compares.",
     [G, "include/libflatarray/loop_peeler.hpp", "include/libflatarray/short_vec.hpp", "include/libflatarray/streaming_short_vec.hpp", "include/libflatarray/estimate_optimum_short_vec_type.hpp", "include/libflatarray/macros.hpp",
      D + "dual_callback_helper.hpp", "include/libflatarray/coord.hpp", "include/libflatarray/soa_array.hpp", "include/libflatarray/soa_vector.hpp"],
     "layout arithmetic of the accessors, widths of vectors and remainder loops have to agree at every position",
     STD + " Members are float, double and int plus others that kernels don't touch; widths are multiples of 64; results are exact integers, so rounding isn't compared.",
     "differential PBT: randomly generated kernels, vectorised against scalar")
