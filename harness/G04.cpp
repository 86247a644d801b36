// G04: the static layout chosen for given dimensions is the smallest configured one
// that fits; impossible dimensions are rejected with std::out_of_range.
#include "cells.hpp"

namespace {

const std::vector<long> L1D = {32, 64, 128, 192, 256, 512, 544, 1056, 2080, 4128, 8224, 16416, 32800, 65568, 131104, 262176, 524320, 1048608,
                               2097184, 4194336, 8388640, 16777248, 33554464, 67108896, 134217760, 268435488, 536870944, 1073741856};
const std::vector<long> L2D = {32, 64, 128, 192, 256, 512, 544, 1056, 2080, 4128, 8224, 16416, 32800};
const std::vector<long> L3D = {32, 64, 128, 136, 192, 200, 256, 264, 512, 520, 1032};

// smallest entry >= v, or 0
long up(const std::vector<long>& l, long v)
{
    for (std::size_t i = 0; i < l.size(); ++i) if (v <= l[i]) return l[i];
    return 0;
}

struct Record
{
    long *out;
    const char **data;
    template<typename ACC> void operator()(ACC& a) const
    {
        out[0] = ACC::DIM_X;
        out[1] = ACC::DIM_Y;
        out[2] = ACC::DIM_Z;
        out[3] = a.index();
        out[4] += 1;
        *data = a.data();
    }
};

// dimension near a listed size, anywhere below, or beyond the largest
long dim_near(pbt::Ctx& c, const std::vector<long>& l)
{
    std::size_t k = c.below(l.size());
    switch (c.below(5)) {
    case 0: return l[k];
    case 1: return l[k] - 1;
    case 2: return l[k] + 1;
    case 3: return c.range(k ? l[k - 1] : 0, l[k]);
    default: return c.range(0, 40);
    }
}

template<typename CELL>
void expect(pbt::Ctx& c, long x, long y, long z, long ex, long ey, long ez)
{
    char byte = 0;
    c.note("select_sizes(%ld, %ld, %ld), expecting %s(%ld, %ld, %ld)", x, y, z, ex ? "" : "out_of_range ", ex, ey, ez);
    {
        long out[5] = {-1, -1, -1, -1, 0};
        const char *seen = 0;
        Record r = {out, &seen};
        bool threw = false;
        try {
            LibFlatArray::api_traits::select_sizes<CELL>()(&byte, r, std::size_t(x), std::size_t(y), std::size_t(z));
        } catch (const std::out_of_range&) {
            threw = true;
        }
        c.op();
        PBT_CHECK(threw == (ex == 0), "dims (%ld,%ld,%ld): %s, expected %s", x, y, z, threw ? "out_of_range" : "accepted", ex ? "acceptance" : "out_of_range");
        if (threw) {
            PBT_CHECK(out[4] == 0, "functor was invoked although the dimensions were rejected");
            c.label("rejected");
            c.nontrivial();
            return;
        }
        PBT_CHECK(out[4] == 1, "functor invoked %ld times", out[4]);
        PBT_CHECK(out[0] == ex && out[1] == ey && out[2] == ez, "dims (%ld,%ld,%ld) bound to layout %ldx%ldx%ld, smallest fitting one is %ldx%ldx%ld",
                  x, y, z, out[0], out[1], out[2], ex, ey, ez);
        PBT_CHECK(out[3] == 0 && seen == &byte, "accessor does not start at index 0 of the data");
    }
    if (x == ex || y == ey || z == ez) c.label("exact fit");
    else c.label("rounded up");
    c.nontrivial();
}


}

// -- cells with the library's own size lists
class SelDef { public: float a; double b; };
LIBFLATARRAY_REGISTER_SOA(SelDef, ((float)(a))((double)(b)))
class Sel1D { public: class API : public LibFlatArray::api_traits::has_default_1d_sizes {}; float a; };
LIBFLATARRAY_REGISTER_SOA(Sel1D, ((float)(a)))
class Sel2D { public: class API : public LibFlatArray::api_traits::has_default_2d_sizes {}; float a; };
LIBFLATARRAY_REGISTER_SOA(Sel2D, ((float)(a)))
class Sel2U { public: class API : public LibFlatArray::api_traits::has_default_2d_sizes_uniform {}; float a; };
LIBFLATARRAY_REGISTER_SOA(Sel2U, ((float)(a)))
class Sel3D { public: class API : public LibFlatArray::api_traits::has_default_3d_sizes {}; float a; };
LIBFLATARRAY_REGISTER_SOA(Sel3D, ((float)(a)))
class Sel3U { public: class API : public LibFlatArray::api_traits::has_default_3d_sizes_uniform {}; float a; };
LIBFLATARRAY_REGISTER_SOA(Sel3U, ((float)(a)))
class SelC { public: class API { public: LIBFLATARRAY_CUSTOM_SIZES((8)(16)(40)(41), (1)(4)(9)(30), (1)(3)(6)(77)) }; float a; };
LIBFLATARRAY_REGISTER_SOA(SelC, ((float)(a)))

#if UNIT == 1

PBT_TARGET(G04_default)
{
    long x, y, z;
    int dims = int(1 + c.below(3));
    if (dims == 1) {
        x = dim_near(c, L1D); y = 1; z = 1;
        long e = up(L1D, x);
        expect<SelDef>(c, x, y, z, e, 1, 1);
    } else if (dims == 2) {
        x = dim_near(c, L2D); y = dim_near(c, L2D); z = 1;
        if (y < 2) y = 2;
        long e = up(L2D, x > y ? x : y);
        expect<SelDef>(c, x, y, z, e, e, e ? 1 : 0);
    } else {
        x = dim_near(c, L3D); y = dim_near(c, L3D); z = dim_near(c, L3D);
        if (y < 2) y = 2;
        if (z < 2) z = 2;
        long m = x > y ? x : y;
        long e = up(L3D, m > z ? m : z);
        expect<SelDef>(c, x, y, z, e, e, e);
    }
}

PBT_TARGET(G04_1d)
{
    long x = dim_near(c, L1D), y = c.chance(1, 6) ? c.range(0, 3) : 1, z = c.chance(1, 6) ? c.range(0, 3) : 1;
    long e = y == 1 && z == 1 ? up(L1D, x) : 0;
    expect<Sel1D>(c, x, y, z, e, 1, 1);
}

PBT_TARGET(G04_2d)
{
    long x = dim_near(c, L2D), y = dim_near(c, L2D), z = c.chance(1, 5) ? c.range(0, 3) : 1;
    long ex = up(L2D, x), ey = up(L2D, y);
    bool ok = ex && ey && z <= 1;
    expect<Sel2D>(c, x, y, z, ok ? ex : 0, ey, 1);
}

PBT_TARGET(G04_2u)
{
    long x = dim_near(c, L2D), y = dim_near(c, L2D), z = c.chance(1, 5) ? c.range(0, 3) : 1;
    long e = z == 1 ? up(L2D, x > y ? x : y) : 0;
    expect<Sel2U>(c, x, y, z, e, e, 1);
}

PBT_TARGET(G04_3u)
{
    long x = dim_near(c, L3D), y = dim_near(c, L3D), z = dim_near(c, L3D);
    long m = x > y ? x : y;
    long e = up(L3D, m > z ? m : z);
    expect<Sel3U>(c, x, y, z, e, e, e);
}

PBT_TARGET(G04_custom)
{
    const std::vector<long> X = {8, 16, 40, 41}, Y = {1, 4, 9, 30}, Z = {1, 3, 6, 77};
    long x = dim_near(c, X), y = dim_near(c, Y), z = dim_near(c, Z);
    long ex = up(X, x), ey = up(Y, y), ez = up(Z, z);
    expect<SelC>(c, x, y, z, ex && ey && ez ? ex : 0, ey, ez);
}

#elif UNIT == 2

PBT_TARGET(G04_3d)
{
    long x = dim_near(c, L3D), y = dim_near(c, L3D), z = dim_near(c, L3D);
    long ex = up(L3D, x), ey = up(L3D, y), ez = up(L3D, z);
    expect<Sel3D>(c, x, y, z, ex && ey && ez ? ex : 0, ey, ez);
}

#else

// the container reports that layout, and owns that much memory
namespace {

template<typename CELL, bool UNIFORM> struct bad_axis { static void apply(pbt::Ctx&, Dims*) {} };
template<typename CELL> struct bad_axis<CELL, false>
{
    static void apply(pbt::Ctx& c, Dims *d)
    {
        long more = c.range(1, 50);
        switch (c.below(3)) {
        case 0: d->x = Cell<CELL>::xs().back() + more; break;
        case 1: d->y = Cell<CELL>::ys().back() + more; break;
        default: d->z = Cell<CELL>::zs().back() + more; break;
        }
    }
};

template<typename CELL>
void container(pbt::Ctx& c)
{
    Dims d = DimGen<CELL>::gen(c);
    bool bad = c.chance(1, 5);
    if (bad) {
        long big = Cell<CELL>::xs().back() + 1 + c.range(0, 50);
        if (Cell<CELL>::DIMS == 0) { bad = false; }
        else if (Cell<CELL>::UNIFORM) {
            switch (c.below(std::uint64_t(Cell<CELL>::DIMS))) { case 0: d.x = big; break; case 1: d.y = big; break; default: d.z = big; break; }
        } else {
            bad_axis<CELL, Cell<CELL>::UNIFORM>::apply(c, &d);
        }
    }
    c.note("soa_grid<%s>(%ld, %ld, %ld)", Cell<CELL>::name(), d.x, d.y, d.z);
    Dims e = DimGen<CELL>::extent(d);
    bool threw = false;
    try {
        LibFlatArray::soa_grid<CELL> g(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z));
        PBT_CHECK(!bad, "grid with too large dimensions (%ld,%ld,%ld) was accepted", d.x, d.y, d.z);
        for (int round = 0; round < 3; ++round) {
            c.op();
            PBT_CHECK(long(g.dim_x()) == d.x && long(g.dim_y()) == d.y && long(g.dim_z()) == d.z, "dims not as requested");
            PBT_CHECK(long(g.extent_x()) == e.x && long(g.extent_y()) == e.y && long(g.extent_z()) == e.z,
                      "extents of a (%ld,%ld,%ld) grid are (%lu,%lu,%lu), expected (%ld,%ld,%ld)", d.x, d.y, d.z,
                      (unsigned long)g.extent_x(), (unsigned long)g.extent_y(), (unsigned long)g.extent_z(), e.x, e.y, e.z);
            PBT_CHECK(g.byte_size() == std::size_t(e.n()) * ref_cell_bytes<CELL>(), "byte_size %lu, expected %lu", (unsigned long)g.byte_size(),
                      (unsigned long)(std::size_t(e.n()) * ref_cell_bytes<CELL>()));
            PBT_CHECK(LibFlatArray::aggregated_member_size<CELL>::VALUE == ref_cell_bytes<CELL>(), "aggregated_member_size");
            PBT_CHECK(reinterpret_cast<std::size_t>(g.data()) % 4096 == 0, "grid data not aligned to 4096 bytes");
            const LibFlatArray::soa_grid<CELL>& cg = g;
            PBT_CHECK(cg.data() == g.data(), "const data() differs");
            if (Cell<CELL>::POD) {
                // all of it is ours (checked by the sanitizer)
                volatile char *p = g.data();
                char a = p[0], b = p[g.byte_size() - 1], m = p[g.byte_size() / 2];
                p[0] = a; p[g.byte_size() - 1] = b; p[g.byte_size() / 2] = m;
            }
            long out[5] = {-1, -1, -1, -1, 0};
            const char *seen = 0;
            Record r = {out, &seen};
            if (c.below(2)) g.callback(r); else cg.callback(r);
            PBT_CHECK(out[4] == 1 && out[0] == e.x && out[1] == e.y && out[2] == e.z && out[3] == 0 && seen == g.data(),
                      "callback binds layout %ldx%ldx%ld, extents are (%ld,%ld,%ld)", out[0], out[1], out[2], e.x, e.y, e.z);
            d = DimGen<CELL>::gen(c);
            e = DimGen<CELL>::extent(d);
            c.note("resize(%ld, %ld, %ld)", d.x, d.y, d.z);
            g.resize(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z));
        }
    } catch (const std::out_of_range&) {
        threw = true;
    }
    PBT_CHECK(threw == bad, "out_of_range %s", threw ? "raised for admissible dimensions" : "not raised");
    c.label(bad ? "container rejected" : "container");
    c.nontrivial();
}

}

PBT_REGISTER(G04_grid_one, &container<CellOne>)
PBT_REGISTER(G04_grid_mixed, &container<CellMixed>)
PBT_REGISTER(G04_grid_arr, &container<CellArr>)
PBT_REGISTER(G04_grid_nest, &container<CellNest>)
PBT_REGISTER(G04_grid_str, &container<CellStr>)
PBT_REGISTER(G04_grid_def, &container<CellDef>)
#ifdef HAVE_HUGE
PBT_REGISTER(G04_huge_char, &huge<&container<HugeChar> >)
PBT_REGISTER(G04_huge_mix, &huge<&container<HugeMix> >)
PBT_REGISTER(G04_huge_def, &huge<&container<HugeDef> >)
#endif

#endif
