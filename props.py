"""Per-property configuration: harness source, compile units, build variants, case counts, non-triviality rule."""

import os

HERE = os.path.dirname(os.path.abspath(__file__))

ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
SV = ["-ffp-contract=off"]
AVX512 = ["avx512f", "avx512bw", "avx512cd", "avx512dq", "avx512vl"]

VARIANTS = {
    # containers
    "gcc-asan": dict(cxx="g++", flags=ASAN, scale=1.0),
    "clang-asan": dict(cxx="clang++", flags=ASAN, scale=1.0),
    "gcc-O3-v3": dict(cxx="g++", flags=["-O3", "-march=x86-64-v3"], cpu=["avx2", "bmi2", "fma"], scale=2.0),
    "clang-O2": dict(cxx="clang++", flags=["-O2"], scale=2.0),
    "gcc-O0": dict(cxx="g++", flags=["-O0"], scale=0.5),
    # short_vec: one variant per code path of short_vec.hpp (the tests build only AVX2 and SSE4 on the reference machine).
    # -ffp-contract=off keeps the reference arithmetic unfused; the library itself uses intrinsics or plain scalar operators.
    "sv-scalar-asan": dict(cxx="g++", flags=SV + ASAN + ["-U__SSE__", "-U__SSE2__"], scale=1.0),
    "sv-scalar-O2": dict(cxx="clang++", flags=SV + ["-O2", "-U__SSE__", "-U__SSE2__"], scale=2.0),
    "sv-sse1": dict(cxx="g++", flags=SV + ["-O2", "-U__SSE2__"], scale=1.0),
    "sv-sse2": dict(cxx="clang++", flags=SV + ["-O2"], scale=2.0),
    "sv-sse2-asan": dict(cxx="g++", flags=SV + ASAN, scale=1.0),
    "sv-sse41-asan": dict(cxx="clang++", flags=SV + ASAN + ["-msse4.1"], cpu=["sse4_1"], scale=1.0),
    "sv-sse41": dict(cxx="g++", flags=SV + ["-O3", "-msse4.2"], cpu=["sse4_2"], scale=2.0),
    "sv-avx-asan": dict(cxx="g++", flags=SV + ASAN + ["-mavx"], cpu=["avx"], scale=1.0),
    "sv-avx": dict(cxx="clang++", flags=SV + ["-O2", "-mavx"], cpu=["avx"], scale=2.0),
    "sv-avx2-asan": dict(cxx="clang++", flags=SV + ASAN + ["-march=x86-64-v3"], cpu=["avx2", "bmi2", "fma"], scale=1.0),
    "sv-avx2": dict(cxx="g++", flags=SV + ["-O3", "-march=x86-64-v3"], cpu=["avx2", "bmi2", "fma"], scale=2.0),
    "sv-avx512-asan": dict(cxx="g++", flags=SV + ASAN + ["-march=x86-64-v4"], cpu=AVX512, scale=1.0),
    "sv-avx512": dict(cxx="clang++", flags=SV + ["-O2", "-march=x86-64-v4"], cpu=AVX512, scale=2.0),
}

# data races
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]
VARIANTS.update({
    "gcc-tsan": dict(cxx="g++", flags=["-O1"] + TSAN, scale=1.0),
    "clang-tsan": dict(cxx="clang++", flags=["-O1"] + TSAN, scale=1.0),
    "gcc-tsan-O3": dict(cxx="g++", flags=["-O3", "-march=x86-64-v3"] + TSAN, cpu=["avx2", "bmi2", "fma"], scale=1.0),
})

# foreign instruction sets, on emulated intrinsics (harness/neon, harness/mic)
FOREIGN = {
    "sv-neon": dict(cxx="g++", flags=SV + ASAN + ["-U__SSE__", "-U__SSE2__", "-U__LP64__", "-D__ARM_NEON__", "-DUNIT=1", "-I" + os.path.join(HERE, "harness", "neon")], scale=1.0),
    "sv-neon-O2": dict(cxx="clang++", flags=SV + ["-O2", "-U__SSE__", "-U__SSE2__", "-U__LP64__", "-D__ARM_NEON__", "-DUNIT=1", "-I" + os.path.join(HERE, "harness", "neon")], scale=2.0),
    "sv-neon-precise": dict(cxx="g++", flags=SV + ASAN + ["-U__SSE__", "-U__SSE2__", "-U__LP64__", "-D__ARM_NEON__", "-DUNIT=1", "-DVERIF_INCREASED_PRECISION", "-I" + os.path.join(HERE, "harness", "neon")], scale=0.5),
    "sv-mic-float": dict(cxx="g++", flags=SV + ASAN + ["-march=x86-64-v4", "-D__MIC__", "-DUNIT=1"], cpu=AVX512, scale=1.0),
    "sv-mic-double": dict(cxx="g++", flags=SV + ASAN + ["-march=x86-64-v4", "-D__MIC__", "-DUNIT=2"], cpu=AVX512, scale=1.0),
}
VARIANTS.update(FOREIGN)

QUICK2 = ["gcc-asan", "gcc-O3-v3"]
ALL5 = ["gcc-asan", "clang-asan", "gcc-O3-v3", "clang-O2", "gcc-O0"]
SVQ = ["sv-scalar-asan", "sv-sse1", "sv-sse2-asan", "sv-sse41-asan", "sv-avx-asan", "sv-avx2", "sv-avx512-asan"]
VARIANTS.update({
    # a narrower instruction set than the compiler's, chosen by the user
    "sv-forced-scalar": dict(cxx="g++", flags=SV + ["-O2", "-march=x86-64-v3", "-DLIBFLATARRAY_WIDEST_VECTOR_ISA=LIBFLATARRAY_SCALAR"], cpu=["avx2", "bmi2", "fma"], scale=1.0),
    "sv-forced-sse": dict(cxx="clang++", flags=SV + ["-O2", "-march=x86-64-v4", "-DLIBFLATARRAY_WIDEST_VECTOR_ISA=LIBFLATARRAY_SSE"], cpu=AVX512, scale=1.0),
    "sv-forced-avx": dict(cxx="g++", flags=SV + ASAN + ["-march=x86-64-v4", "-DLIBFLATARRAY_WIDEST_VECTOR_ISA=LIBFLATARRAY_AVX"], cpu=AVX512, scale=1.0),
})
SVALL = SVQ + ["sv-scalar-O2", "sv-sse2", "sv-sse41", "sv-avx", "sv-avx2-asan", "sv-avx512", "sv-forced-scalar", "sv-forced-sse", "sv-forced-avx"]


def units(n):
    return [["UNIT=%d" % i] for i in range(1, n + 1)]


def deep(cases, shards=4, fuzz=90, gen=0):
    return dict(variants=ALL5, cases=cases, shards=shards, fuzz_variants=["clang-asan"], fuzz_seconds=fuzz, gen=gen)


def svdeep(cases, fuzz=20):
    return dict(variants=SVALL, cases=cases, shards=2, fuzz_variants=["sv-sse41-asan", "sv-avx2-asan"], fuzz_seconds=fuzz)


# long rows and layouts beyond 32-bit arithmetic cost more per case (the last match wins)
BIG = {"_huge_": 0.1, "_long|_huge_def": 0.02}

INSIDE = "coordinates and batch ranges lie inside the container's logical dimensions"
ALIGN8 = "configured sizes give a cell count that is a multiple of 8, so that members are naturally aligned"

PROPS = {
    "G01": dict(
        src="G01.cpp", units=units(3), weights=BIG,
        quick=dict(variants=QUICK2, cases=1500, gen=1), thorough=deep(40000, gen=6),
        rule="A case is a random history (1-14 calls of set/batch set/broadcast/get/batch get/callback read/callback write/resize) on a soa_grid of one of 7 cell "
             "types with random dimensions around every configured size; non-trivial = at least two calls that store cells. Distinct by hash of all choices.",
        assumptions=[INSIDE, ALIGN8],
    ),
    "G02": dict(
        src="G02.cpp", units=units(3), weights=BIG,
        quick=dict(variants=QUICK2, cases=1000, gen=1), thorough=deep(30000, gen=6),
        rule="A case is a grid of random dimensions and a random series of save/load calls (row ranges or random iterator ranges of streaks, random buffer offsets inside a canary-padded buffer), "
             "or a transfer of a region from one grid into another of different dimensions; non-trivial = at least two cells were moved by packed images.",
        assumptions=[INSIDE, ALIGN8],
    ),
    "G03": dict(
        src="G03.cpp", units=units(2), weights=BIG,
        quick=dict(variants=QUICK2, cases=700), thorough=deep(20000),
        rule="A case is a grid of random dimensions whose cells encode their position, and random walks of accessors (index moves, operator(), coord offsets, member pointers) over it; "
             "non-trivial = more than two columns and more than one row or plane.",
        assumptions=["relative coordinates stay within the static layout of the grid"],
    ),
    "G04": dict(
        src="G04.cpp", units=units(3), weights=BIG,
        quick=dict(variants=QUICK2, cases=1500), thorough=deep(30000),
        rule="A case is a triple of dimensions at, around and far from each configured size, put through size selection or a container; non-trivial = the layout chosen, or the refusal, was compared with the reference selection (triples with nothing to decide are counted trivial).",
        assumptions=["dimensions are non-negative"],
    ),
    "G05": dict(
        src="G05.cpp", units=units(3), weights=BIG,
        quick=dict(variants=QUICK2, cases=1200, gen=1), thorough=deep(30000, gen=6),
        rule="A case is a history of copy construction, assignment, swap, resize, writes and destruction over three grids of random dimensions; non-trivial = a grid was copied and one side changed later.",
        assumptions=[ALIGN8],
    ),
    "G06": dict(
        src="G06.cpp", units=units(2), weights=BIG,
        quick=dict(variants=QUICK2, cases=1200, gen=1), thorough=deep(30000, gen=6),
        rule="A case is a pair of grids with equal or different dimensions and a random dual callback; non-trivial = the callback ran and touched two or more cells, or grids with different layouts were refused.",
        assumptions=[INSIDE, ALIGN8],
    ),
    "G07": dict(
        src="G07.cpp", units=units(2),
        quick=dict(variants=QUICK2, cases=1200), thorough=deep(30000),
        rule="A case is a history over grids or vectors in which requests are impossible or a chosen allocation, the container's or one made by copying a member, fails; non-trivial = at least one call failed.",
        assumptions=["default constructors of cell members don't throw"],
    ),
    "M01": dict(
        src="M01.cpp",
        quick=dict(variants=QUICK2, cases=2000), thorough=deep(50000),
        rule="A case is a history over containers whose members register construction, assignment, access and destruction; non-trivial = at least three calls and one that rebuilds storage.",
        assumptions=["constructors and assignments of cell members themselves don't throw"],
    ),
    "M02": dict(
        src="M02.cpp", only_gen=True,
        quick=dict(variants=QUICK2, cases=1500, gen=4), thorough=deep(10000, shards=1, fuzz=15, gen=30),
        rule="A case is a query of the metadata of a randomly generated cell type (1-50 members of 12 types, arrays, any order of registration, unregistered and private members, random size lists) or the addresses all its members have, "
             "by all accessor flavours and relative coordinates, at a random position in a random grid or array; non-trivial = the type has more than one member element.",
        assumptions=[ALIGN8, "up to 50 members, arrays of up to 17 elements"],
    ),
    "M03": dict(
        src="M03.cpp",
        quick=dict(variants=QUICK2, cases=800), thorough=deep(20000, shards=2, fuzz=30),
        rule="A case is a history of allocate/deallocate calls over a heap that returns chunks at any offset, with canaries, or of operations on a standard container (vector, deque, list, map, unordered_map, allocate_shared); non-trivial = two or more blocks or elements were live at once.",
    ),
    "M04": dict(
        src="M04.cpp", units=units(2),
        quick=dict(variants=QUICK2, cases=1200), thorough=deep(25000, shards=2, fuzz=45),
        rule="A case is a history on three grids or two vectors whose ALLOCATOR serves guarded blocks from a pool, at addresses aligned for scalar types only, and refuses generated requests (std::bad_alloc or an exception of its own); "
             "non-trivial = cells were moved between grids (copy, assignment, swap, dual callback), a vector has grown twice, or a request failed.",
        assumptions=[INSIDE, ALIGN8],
    ),
    "C01": dict(
        src="C01.cpp", units=units(2), racy=True,
        quick=dict(variants=["gcc-tsan", "gcc-O3-v3"], cases=600, gen=1),
        thorough=dict(variants=["gcc-tsan", "clang-tsan", "gcc-tsan-O3", "gcc-O3-v3", "clang-O2"], cases=12000, shards=2, gen=4),
        rule="A case is two to four threads, released at the same time, each with a random program of 1-5 repeated operations on a shared (only read) grid, array and vector and on containers of its own, "
             "or a series of sweeps in which the threads of a callback move copies of its accessors and store different cells; every result is compared with a sequential model and the build of one variant "
             "detects unordered accesses (ThreadSanitizer). Non-trivial = all threads ran their programs (sweeps: over two or more cells).",
        assumptions=["host containers: all calls on a device grid share its staging buffer", "members are not bit-fields", ALIGN8],
    ),
    "P01": dict(
        src="P01.cpp", only_gen=True,
        quick=dict(variants=["gcc-O0", "clang-O2"], cases=6000, gen=1), thorough=dict(variants=["gcc-O0", "clang-O2"], cases=20000, gen=12),
        rule="A case is four expansions drawn from all combinations of macro, list length (0-51) and index or length argument (0-50), with random element tokens per seed; non-trivial = at least one list has two or more elements.",
        assumptions=["elements contain no unparenthesised commas", "lists of up to 51 elements"],
    ),
    "A01": dict(
        src="A01.cpp", units=units(2), weights=BIG,
        quick=dict(variants=QUICK2, cases=1200, gen=1), thorough=deep(40000, gen=6),
        rule="A case is a history of constructor/push_back/pop_back/indexing/iteration calls on a soa_array; non-trivial = at least two stores and a non-empty array.",
        assumptions=["capacities of arrays with mixed member types are multiples of 8"],
    ),
    "A02": dict(
        src="A02.cpp", units=units(2), weights=BIG,
        quick=dict(variants=QUICK2, cases=1200, gen=1), thorough=deep(40000, gen=6),
        rule="A case is a history of copies, assignments, swaps and loads between arrays of equal and different capacity; non-trivial = a copy was taken and one side changed afterwards.",
        assumptions=["capacities of arrays with mixed member types are multiples of 8"],
    ),
    "V01": dict(
        src="V01.cpp", units=units(3), weights=BIG,
        quick=dict(variants=QUICK2, cases=1000, gen=1), thorough=deep(30000, gen=6),
        rule="A case is a history of std::vector-like calls on two soa_vectors, sized to cross capacity boundaries; non-trivial = at least one growth of storage after a store.",
        assumptions=["element indices are below size()"],
    ),
    "S01": dict(
        src="S01.cpp", units=units(3), quick=dict(variants=SVQ, cases=6000), thorough=svdeep(60000),
        rule="A case is a short expression tree over + - * += -= *= on vectors of one element type and arity with random lanes (specials included), for each instruction set; non-trivial = at least two operations were compared with the lane-wise scalar result.",
        assumptions=["integer operations don't overflow", "floating-point contraction by the compiler is off"],
    ),
    "S02": dict(
        src="S02.cpp", units=units(3), quick=dict(variants=SVQ, cases=6000), thorough=svdeep(60000),
        rule="A case is a series of constructions, loads, stores (aligned, unaligned, non-temporal), gathers and scatters on guarded buffers with random lanes, addresses and offsets; non-trivial = every case, as each makes at least one transfer that is compared bit by bit.",
        assumptions=["aligned variants get suitably aligned addresses", "with AVX-512 offset arrays of gather/scatter are 64-byte aligned, as its assertion demands", "scatter offsets are pairwise distinct"],
    ),
    "S03": dict(
        src="S03.cpp", units=units(3), quick=dict(variants=SVQ, cases=6000), thorough=svdeep(60000),
        rule="A case is a pair of vectors with random, often equal lanes and all six comparisons on them, the masks' any/get/count and a blend, or any() of a vector with mostly zero lanes (negative zeroes left out, instruction sets differ there); non-trivial = at least one comparison gave a mask that is neither all true nor all false, or the arity is 1, or a lane of the vector isn't zero.",
    ),
    "S04": dict(
        src="S04.cpp", units=units(3), quick=dict(variants=SVQ, cases=6000), thorough=svdeep(60000),
        rule="A case is a division, square root or quotient by square root of vectors with random lanes; non-trivial = every case (lanes are drawn at random); distinct by hash of all choices.",
        assumptions=["floats: normal operands and results, tolerance 2^-10 for division (the library uses reciprocal estimates), 2^-20 for sqrt; doubles: 1e-14", "integer division is defined in C++", "integer square roots are taken of perfect squares only"],
    ),
    "S05": dict(
        src="S05.cpp", units=units(3), quick=dict(variants=SVQ, cases=6000), thorough=svdeep(40000),
        rule="A case stores and combines streaming_short_vecs and short_vecs side by side; non-trivial = every case, as each makes at least one store that is compared.",
        assumptions=["addresses of streaming stores are aligned to the vector"],
    ),
    "L01": dict(
        src="L01.cpp", units=units(3), quick=dict(variants=SVQ, cases=6000), thorough=svdeep(60000),
        rule="A case is an index range, an arity, a counter type and one of the loop peeler's forms; non-trivial = the range isn't empty.",
        assumptions=["loop indices are non-negative"],
    ),
    "E01": dict(
        src="E01.cpp", only_gen=True, quick=dict(variants=SVQ, cases=3000, gen=2), thorough=dict(variants=[v for v in SVALL if "forced" not in v], cases=10000, gen=10),
        rule="A case is one of 48 (per seed) random instantiations of estimate_optimum_short_vec_type (element type, unrolling, cell type, static layout, cache size, often right at the edge) with aligned transfers at a random multiple of the stated alignment; non-trivial = every case.",
        assumptions=["arities a short_vec exists for (at most 32)"],
    ),
    "K01": dict(
        src="K01.cpp", only_gen=True, quick=dict(variants=SVQ, cases=300, gen=2), thorough=dict(variants=SVALL, cases=2500, gen=10),
        rule="A case runs one of eight (per seed) random kernels over a random range of a random soa_grid (within it or into another one, which may be const, one or two sweeps), soa_array or soa_vector of a random cell class, "
             "and compares every member of every cell with plain scalar code on an array of cells; all intermediate results are exact. Non-trivial = the range isn't empty.",
        assumptions=["stencils stay inside the grid", "configured widths are multiples of 64, so that aligned stores of full vectors are aligned (soa_array: kernels without aligned accesses only)", "arithmetic whose results are exact integers"],
    ),
    "N01": dict(
        src="N01.cpp", units=[["NFILE=%d" % i] for i in range(1, 6)],
        quick=dict(variants=sorted(FOREIGN), cases=4000), thorough=dict(variants=sorted(FOREIGN), cases=40000, shards=2),
        rule="A case is one of the cases of S01 to S05 (arithmetic, transfers, comparisons, division and roots, streaming), run on the NEON or MIC implementation; non-trivial as there.",
        assumptions=["NEON and Knights Corner intrinsics are emulated by C++ code written after their documentation", "aligned variants get addresses aligned to 128 bytes, offset arrays are 64-byte aligned",
                     "NEON: estimates carry 8 bits before refinement; roots are accurate to 2^-13, with WITH_INCREASED_PRECISION quotients and roots to 2^-20"],
    ),
    "T01": dict(
        src="T01.cpp", units=[[]],
        extra=["-I" + os.path.join(HERE, "harness", "bench"), '-DBENCH_BIN="%s"' % os.path.join(HERE, "harness", "bench", "bin")],
        quick=dict(variants=QUICK2, cases=1000), thorough=dict(variants=ALL5, cases=10000, shards=2),
        rule="A case is a generated output of likwid-topology and /proc/cpuinfo put before cpu_benchmark::device(), or up to three generated benchmarks (of a plain, CPU or GPU kind) put through evaluate with a random filter; "
             "non-trivial = a device name or at least one printed row was compared.",
        assumptions=["names contain no semicolons, commas or colons and only single blanks", "the CUDA runtime is a stand-in with eight devices"],
    ),
    "D01": dict(
        src="D01.cpp", units=units(3), shim="cuda",
        extra=["-DVERIF_WITH_CUDA", "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "cuda")],
        quick=dict(variants=QUICK2, cases=700, gen=1), thorough=deep(15000, gen=4),
        rule="A case is a history of calls on a soa_grid in device memory with device functors, or on three cuda_arrays, on an emulated device with a random order of threads; "
             "non-trivial = at least two calls that store cells, or a cuda_array that grew.",
        assumptions=["CUDA is emulated on the CPU: kernel launches are rewritten textually, threads of a launch run one after another in random order", INSIDE, ALIGN8,
                     "cells are trivially copyable, as they are moved between host and device byte by byte"],
    ),
}
