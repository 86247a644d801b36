#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from the table below and props.py."""
import json, os
from props import PROPS

ROOT = os.path.dirname(os.path.abspath(__file__))
G, A, V = "include/libflatarray/soa_grid.hpp", "include/libflatarray/soa_array.hpp", "include/libflatarray/soa_vector.hpp"
D = "include/libflatarray/detail/"

TABLE = []


def prop(id, title, statement, over, text, why, files, mechanism, note, technique):
    TABLE.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, note=note, technique=technique))


STD = "Random search on the compiled code, not a proof: evidence counts the cases; trusts the reference model, gcc/clang and their sanitizers. Every failure is shrunk and written as a replay file."

prop("G01", "A SoA grid stores cells exactly like a 3D array of structs",
     "A soa_grid behaves like a three-dimensional array of cells: every cell read through get(), batch get() or a callback's accessor carries, in every member and every array member element, "
     "the value most recently stored at that coordinate by set(), batch set(), broadcast() or a callback, and storing to one coordinate changes no other. "
     "Cells of a freshly constructed or resized grid are default-initialised, and resizing to the current dimensions keeps the contents.",
     ["inputs", "histories", "configurations"],
     "all cell types registered with the library, all admissible dimensions, all sequences of reads and writes at coordinates inside the grid",
     "The layout is computed at compile time from the cell type and the selected sizes; tests use a few cell types with a few fixed dimensions and short call sequences.",
     [G, "include/libflatarray/macros.hpp", "include/libflatarray/soa_accessor.hpp", D + "get_instance_functor.hpp", D + "set_instance_functor.hpp", D + "init_kernel.hpp", D + "copy_functor.hpp"],
     "accessor address computation, dual-dispatch of dimensions to template arguments, generated operator<< / operator>>", STD,
     "model-based stateful PBT against an array-of-structs model")

prop("G02", "Saving and loading exchanges cells as packed struct-of-arrays images",
     "soa_grid::save() writes the requested cells - a row range or the concatenation of a list of streaks - as consecutive per-member arrays without gaps, in registration order, touching nothing outside the image; "
     "load() of such an image stores exactly those values at exactly those coordinates, at any address the image may have, into any grid, and leaves all other cells untouched. "
     "Saving and loading the same region is the identity, also between grids of different dimensions.",
     ["inputs", "configurations"], "all cell types without indirections, all regions inside the grids, all image addresses, all streak lists",
     "Tests save and load a couple of fixed regions of one cell type.",
     [G, D + "load_functor.hpp", D + "save_functor.hpp", "include/libflatarray/macros.hpp"],
     "load/save functors that move per-member pieces with a stride and an offset", STD, "PBT: round-trip plus reference encoder, guarded buffers")

prop("G03", "Accessors address the same cell, neighbours are found by relative coordinates",
     "Inside a callback, moving an accessor to a cell by index assignment, +=, ++ or construction, and reading or writing it through whole-cell transfer, member functions, array members, member pointers or light and const accessors all reach the same storage. "
     "accessor[coord<X, Y, Z>()] reaches the cell at exactly that relative position, and multi-element load/save of an accessor moves exactly the given number of consecutive cells.",
     ["inputs", "configurations"], "all static layouts, positions, relative coordinates and ways of addressing",
     "Tests look at single accesses in one or two layouts.",
     ["include/libflatarray/macros.hpp", "include/libflatarray/soa_accessor.hpp", "include/libflatarray/coord.hpp"],
     "generated accessor classes (soa_accessor, const_soa_accessor, light variants) and their index arithmetic", STD,
     "PBT: position-encoding cells, differential between all access paths")

prop("G04", "Dimensions map to the smallest configured layout that holds them",
     "For every requested size the selected static layout has, in each dimension, the smallest configured extent that is at least as large (for uniform configurations the smallest that suits all dimensions; with no configuration the documented default lists); the functor runs exactly once with it, "
     "and the grid's dimensions, extents and byte size are consistent with it. Sizes no configuration can hold are refused with std::out_of_range.",
     ["inputs", "configurations"], "all dimension triples and all ways to configure sizes",
     "The tests probe a few triples per macro out of an unbounded space, boundaries included only occasionally.",
     ["include/libflatarray/api_traits.hpp", D + "dual_callback_helper.hpp", D + "simple_streak.hpp", G],
     "generated nested comparisons in select_size functions", STD, "PBT against a reference size selection, boundary-biased")

prop("G05", "Grids are values: copies are equal and independent, swap exchanges",
     "Copy construction and assignment yield a grid with the same dimensions, extents and cells as the source, whatever the target held before, including empty grids and self-assignment; later changes to or destruction of either grid never affect the other. "
     "swap() exchanges dimensions, extents and contents of both grids completely.",
     ["histories", "inputs"], "all histories of copying, assigning, swapping, resizing, writing and destroying grids",
     "Tests copy and swap grids of equal, symmetric dimensions once.",
     [G, D + "copy_functor.hpp"], "copy constructor, assignment, swap, per-member copy between layouts", STD,
     "model-based stateful PBT over a pool of grids")

prop("G06", "Dual callbacks bind both grids, mismatches are refused",
     "In a dual callback the first accessor addresses the first grid and the second accessor the second grid, each with the full extents of its own grid, so stencil updates read and write the intended cells of both. "
     "Grids whose dimensions differ are refused with std::invalid_argument before the functor runs unless the cell type opted into asymmetric dual callbacks, in which case both may have any dimensions.",
     ["inputs", "configurations"], "all pairs of grids and all dual functors",
     "Tests run one dual callback per flavour with fixed sizes.",
     [G, D + "dual_callback_helper.hpp"], "nested callbacks, comparison of extents", STD,
     "PBT against a two-array model")

prop("G07", "Failing calls leave containers valid",
     "A constructor, resize, reserve, push_back, copy or assignment of a grid or vector that fails because no configured size fits, because memory is exhausted or because copying a member throws reports it by an exception and leaves every container usable: refused sizes leave contents unchanged, "
     "a grid whose allocation or copy failed either keeps its state or is empty and can be resized again, a vector keeps its elements. Nothing is leaked or freed twice.",
     ["fault_sequences", "histories"], "all positions of a failing allocation (of a container or a member) and all refused sizes in all call histories",
     "No test injects an allocation failure or continues to use a container after a refused size.",
     [G, V, A, "include/libflatarray/aligned_allocator.hpp"], "order of allocation, size update and release", STD + " Default constructors of members are assumed not to throw.",
     "fault injection PBT: allocation failures at generated points of generated histories")

prop("M01", "Member objects are constructed, assigned and destroyed exactly once",
     "For members with non-trivial types every object a container exposes has been constructed exactly once before any access, is never accessed after destruction, and is destroyed exactly once: by the end of the containers' life no object is left alive. "
     "This holds through resizing, growth, copying, assignment, swapping, popping and clearing of grids, arrays and vectors. What the members of an element hold is released when pop_back() removes it from a vector.",
     ["histories"], "all histories over grids, arrays and vectors of cells with non-trivial members",
     "Tests count constructions in a few fixed scenarios; use of raw storage is invisible to them.",
     [G, A, V, D + "init_kernel.hpp", "include/libflatarray/macros.hpp"], "construct/destroy functors applied to the storage", STD,
     "stateful PBT with an object-lifetime registry as monitor")

prop("M03", "aligned_allocator returns aligned, disjoint, fully usable blocks",
     "Every non-failing allocate(n) of an aligned_allocator returns a block that is aligned as requested, holds n objects without overlapping any other live block or anything else on the heap, and remains intact until deallocate() returns it completely; "
     "requests that cannot be served, including ones whose byte size is not representable, throw std::bad_alloc. Standard containers and shared pointers that use it keep the same elements they would keep with std::allocator, construct and destroy each once, and return all memory. This holds for any type, any alignment, and whatever addresses the underlying heap returns.",
     ["inputs", "histories"], "all types, alignments, sizes, heap addresses and orders of allocation and release",
     "Tests allocate a few blocks and test their alignment only.",
     ["include/libflatarray/aligned_allocator.hpp"], "over-allocation, pointer stored in front of the block", STD,
     "stateful PBT over an adversarial heap with canaries; standard containers compared with the same ones on std::allocator")

prop("M04", "Grids and vectors live in memory from the allocator they are given",
     "A soa_grid or soa_vector with an ALLOCATOR of its own behaves like one with the default allocator: it keeps its cells in one block it requested from that allocator, never touches memory outside of it, shares it with no other container, "
     "and returns every block exactly once, with the size it was requested with. Copies, assignments, swaps, growth and dual callbacks (also with grids that use another allocator) work as usual, with blocks that are aligned for scalar types only; if the allocator refuses a request by throwing, "
     "the exception reaches the caller, a grid keeps its cells or is empty, a vector keeps its elements, and nothing is leaked.",
     ["histories", "fault_sequences"], "all histories of calls and all sequences of addresses and refusals of an allocator",
     "Tests use the default allocator only; it ignores the sizes it is given back.",
     [G, V], "allocation, release and exchange of the storage", STD + " Default constructors of members are assumed not to throw.",
     "stateful PBT with a guarded, logging allocator that refuses generated requests")

prop("A01", "soa_array is a bounded sequence of cells",
     "A soa_array behaves like a sequence with fixed capacity: constructors, push_back, pop_back, indexed and iterator access yield the sequence of cells a plain vector would hold, in every member, and size() counts them. "
     "Exceeding the capacity throws std::out_of_range and changes nothing.",
     ["histories", "configurations"], "all cell types, capacities and call histories",
     "Tests use a couple of capacities and fixed sequences.",
     [A, "include/libflatarray/macros.hpp"], "accessor at stride N, size counter", STD, "model-based stateful PBT")

prop("A02", "soa_arrays are values, also across capacities",
     "Copies, assignments and swaps of soa_arrays, including between arrays of different capacity and from the array itself, give the target exactly the source's sequence and keep source and target independent; load() copies exactly the designated range to the designated offset. "
     "A target that is too small is refused with std::out_of_range and neither array changes.",
     ["histories", "configurations"], "all pairs of capacities, all sizes, all histories",
     "Tests copy full arrays of equal layout.",
     [A], "byte-wise or member-wise transfers between layouts of different stride", STD, "model-based stateful PBT over arrays of different capacity")

prop("V01", "soa_vector behaves like std::vector",
     "Every history of construction, push_back, emplace_back, pop_back, resize, reserve, clear, copy, assignment and element access (get, set, callback) on soa_vectors yields the same sizes and element values as std::vector, across all storage growths, and capacity() is never less than size() and at least what was reserved. "
     "A size beyond the largest configured one is refused with std::out_of_range leaving the elements in place.",
     ["histories", "configurations"], "all cell types and histories", "Tests push a few hundred elements of one cell type.",
     [V, G, D + "copy_functor.hpp"], "growth policy, stride of the underlying grid, per-member relocation", STD, "model-based stateful PBT against std::vector")

exec(open(os.path.join(ROOT, "mkmeta_more.py")).read()) if os.path.exists(os.path.join(ROOT, "mkmeta_more.py")) else None

NA = globals().get("NA", [])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for t in TABLE:
        f.write(json.dumps({"id": t["id"], "title": t["title"], "statement": t["statement"], "quantifier": {"over": t["over"], "text": t["text"]},
                            "why_tests_cant": t["why"], "anchors": {"files": sorted(set(t["files"])), "mechanism": [{"name": t["mechanism"], "where": t["files"][0]}]}}) + "\n")

assert len(set(t["id"] for t in TABLE)) == len(TABLE)
for t in TABLE:
    assert len(t["title"]) <= 80, t["id"]
    for f in t["files"]:
        assert os.path.exists("/repo/" + f), f
m = {"version": 1, "setup_cmd": "python3 verif.py list",
     "checks": [], "not_applicable": NA,
     "notes": "No hooks in /repo: the checks use the public interface only. python3 verif.py replay FILE re-executes a replay file."}
for t in TABLE:
    if t["id"] in PROPS:
        m["checks"].append({"property": t["id"], "quick_cmd": "python3 verif.py check " + t["id"], "thorough_cmd": "VERIF_TIER=thorough python3 verif.py check " + t["id"],
                            "technique": t["technique"], "level": PROPS[t["id"]].get("level", "exploration"), "level_note": t["note"]})
    else:
        assert any(n["property"] == t["id"] for n in NA), t["id"]
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
