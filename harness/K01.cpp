// K01: vectorised kernels compute what the same scalar code computes on plain arrays of cells.
#include "cells.hpp"
#include <libflatarray/flat_array.hpp>
#include <libflatarray/loop_peeler.hpp>
#include <libflatarray/estimate_optimum_short_vec_type.hpp>
#include <cmath>
#include <memory>
#include <genkernels.hpp>

namespace {

inline long small(std::uint64_t& r) { return long(pbt::splitmix(r) % 17) - 8; }

struct SmallVisitor
{
    std::uint64_t r;
    template<typename M> void operator()(M *m, int n) { for (int i = 0; i < n; ++i) m[i] = M(small(r)); }
};

template<typename CELL>
CELL small_cell(std::uint64_t& r)
{
    CELL c;
    SmallVisitor v = {pbt::splitmix(r)};
    Cell<CELL>::visit(c, v);
    return c;
}

// keeps what kernels store small
struct Fold { template<typename M> void operator()(M& m) const { m = M(long(m) % 9); } };

template<typename CELL>
struct Field
{
    Dims d;
    std::vector<CELL> cells;
    const CELL& operator()(long x, long y, long z) const { return cells[std::size_t(x + d.x * (y + d.y * z))]; }
    CELL& at(long x, long y, long z) { return cells[std::size_t(x + d.x * (y + d.y * z))]; }
};

template<typename CELL>
void random_field(Field<CELL>& f, Dims d, std::uint64_t& r)
{
    f.d = d;
    f.cells.clear();
    for (long i = 0; i < d.n(); ++i) f.cells.push_back(small_cell<CELL>(r));
}

template<typename CELL>
void store_field(LibFlatArray::soa_grid<CELL>& g, const Field<CELL>& f)
{
    for (long z = 0; z < f.d.z; ++z) for (long y = 0; y < f.d.y; ++y) g.set(0, std::size_t(y), std::size_t(z), &f(0, y, z), std::size_t(f.d.x));
}

template<typename CELL>
void check_cell(pbt::Ctx& c, const CELL& got, const CELL& expected, long x, long y, long z, bool inside)
{
    PBT_CHECK(cell_equal(got, expected), "cell (%ld, %ld, %ld), %s the range of the kernel, is {%s}, expected {%s}", x, y, z, inside ? "inside" : "outside", show_cell(got).c_str(), show_cell(expected).c_str());
}

template<typename CELL>
void check_grid(pbt::Ctx& c, const LibFlatArray::soa_grid<CELL>& g, const Field<CELL>& f, long x0, long x1, long y0, long y1, long z0, long z1)
{
    std::vector<CELL> row(static_cast<std::size_t>(f.d.x));
    for (long z = 0; z < f.d.z; ++z) for (long y = 0; y < f.d.y; ++y) {
        g.get(0, std::size_t(y), std::size_t(z), row.data(), row.size());
        for (long x = 0; x < f.d.x; ++x)
            check_cell(c, row[std::size_t(x)], f(x, y, z), x, y, z, x >= x0 && x < x1 && y >= y0 && y < y1 && z >= z0 && z < z1);
    }
}

// a range inside [lo, hi)
inline void sub_range(pbt::Ctx& c, long lo, long hi, long& a, long& b)
{
    a = lo;
    b = hi;
    if (c.chance(1, 2)) {
        a = c.range(lo, hi);
        b = c.range(a, hi);
    }
}

template<typename KERNEL>
KERNEL make_kernel(long x0, long x1, long y0, long y1, long z0, long z1)
{
    KERNEL k;
    k.x0 = x0; k.x1 = x1; k.y0 = y0; k.y1 = y1; k.z0 = z0; k.z1 = z1;
    return k;
}

// what the kernel does to the model; counts cells
template<typename KERNEL, typename CELL>
void scalar_sweep(const KERNEL& k, const Field<CELL>& o, Field<CELL>& n)
{
    for (long z = k.z0; z < k.z1; ++z) for (long y = k.y0; y < k.y1; ++y) for (long x = k.x0; x < k.x1; ++x) {
        CELL next = n(x, y, z);
        KERNEL::scalar(o, next, x, y, z);
        n.at(x, y, z) = next;
    }
}

template<typename KERNEL, typename CELL>
void fold(const KERNEL& k, Field<CELL>& n)
{
    for (long z = k.z0; z < k.z1; ++z) for (long y = k.y0; y < k.y1; ++y) for (long x = k.x0; x < k.x1; ++x) KERNEL::stored(n.at(x, y, z), Fold());
}

template<typename KERNEL>
void on_grids(pbt::Ctx& c)
{
    typedef typename KERNEL::CELL CELL;
    Dims d = DimGen<CELL>::gen(c);
    d.x = std::max(d.x, 2 * KERNEL::RX + 1);
    d.y = std::max(d.y, 2 * KERNEL::RY + 1);
    d.z = std::max(d.z, 2 * KERNEL::RZ + 1);
    // cases should be cheap
    if (d.n() > 3000) d.z = std::min(d.z, 2 * KERNEL::RZ + 1 + long(c.below(2)));
    if (d.n() > 3000) d.y = std::min(d.y, 2 * KERNEL::RY + 1 + long(c.below(3)));
    long x0, x1, y0, y1, z0, z1;
    sub_range(c, KERNEL::RX, d.x - KERNEL::RX, x0, x1);
    sub_range(c, KERNEL::RY, d.y - KERNEL::RY, y0, y1);
    sub_range(c, KERNEL::RZ, d.z - KERNEL::RZ, z0, z1);
    KERNEL k = make_kernel<KERNEL>(x0, x1, y0, y1, z0, z1);
    int sweeps = c.chance(1, 3) ? 2 : 1, way = int(c.below(3));
    std::uint64_t r = c.below(1u << 30);
    c.note("%s", KERNEL::name());
    c.note("on soa_grid<%s>(%ld, %ld, %ld), cells [%ld, %ld) x [%ld, %ld) x [%ld, %ld), %d sweeps%s", Cell<CELL>::name(), d.x, d.y, d.z, x0, x1, y0, y1, z0, z1, sweeps, way == 2 && !KERNEL::POINTWISE ? ", from a const grid" : "");
    Field<CELL> o, n;
    // the target may have other dimensions
    Dims nd = d;
    if (Cell<CELL>::ASYMMETRIC && !(KERNEL::POINTWISE && way != 0) && c.chance(2, 3)) {
        nd.x = c.range(std::max(x1, 1L), Cell<CELL>::xs().back());
        nd.y = c.range(std::max(y1, 1L), Cell<CELL>::ys().back());
        nd.z = c.range(std::max(z1, 1L), Cell<CELL>::zs().back());
        sweeps = 1;
        c.note("into a grid (%ld, %ld, %ld)\n", nd.x, nd.y, nd.z);
    }
    random_field(o, d, r);
    random_field(n, nd, r);
    LibFlatArray::soa_grid<CELL> go(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z)), gn(std::size_t(nd.x), std::size_t(nd.y), std::size_t(nd.z));
    for (int s = 0; s < sweeps; ++s) {
        store_field(go, o);
        store_field(gn, n);
        if (KERNEL::POINTWISE && way != 0) {
            // in place
            go.callback(k);
            Field<CELL> before(o);
            scalar_sweep(k, before, o);
            check_grid(c, go, o, x0, x1, y0, y1, z0, z1);
            fold(k, o);
        } else {
            if (way == 2) static_cast<const LibFlatArray::soa_grid<CELL>&>(go).callback(&gn, k);
            else go.callback(&gn, k);
            scalar_sweep(k, o, n);
            check_grid(c, go, o, 0, 0, 0, 0, 0, 0);
            check_grid(c, gn, n, x0, x1, y0, y1, z0, z1);
            fold(k, n);
            if (sweeps > 1) {
                std::swap(o.cells, n.cells);
                swap(go, gn);
            }
        }
        c.op();
    }
    if (x1 > x0 && y1 > y0 && z1 > z0) c.nontrivial();
}

template<typename KERNEL, long SIZE>
void on_arrays_of(pbt::Ctx& c)
{
    typedef typename KERNEL::CELL CELL;
    bool vector = KERNEL::POINTWISE && (KERNEL::ALIGNED || c.chance(1, 2)), in_place = vector || (KERNEL::POINTWISE && c.chance(1, 2));
    Dims d = {c.range(2 * KERNEL::RX + 1, vector ? std::min(SIZE, Cell<CELL>::xs().back()) : SIZE), 1, 1};
    long x0, x1;
    sub_range(c, KERNEL::RX, d.x - KERNEL::RX, x0, x1);
    KERNEL k = make_kernel<KERNEL>(x0, x1, 0, 1, 0, 1);
    std::uint64_t r = c.below(1u << 30);
    c.note("%s", KERNEL::name());
    c.note("on %s<%s> of size %ld (capacity %ld), elements [%ld, %ld)", vector ? "soa_vector" : "soa_array", Cell<CELL>::name(), d.x, vector ? 0 : SIZE, x0, x1);
    Field<CELL> o, n;
    random_field(o, d, r);
    random_field(n, d, r);
    if (vector) {
        LibFlatArray::soa_vector<CELL> v;
        v.reserve(std::size_t(d.x));
        for (long x = 0; x < d.x; ++x) v.push_back(o(x, 0, 0));
        v.callback(k);
        Field<CELL> before(o);
        scalar_sweep(k, before, o);
        for (long x = 0; x < d.x; ++x) check_cell(c, v.get(std::size_t(x)), o(x, 0, 0), x, 0, 0, x >= x0 && x < x1);
    } else {
        typedef LibFlatArray::soa_array<CELL, SIZE> Array;
        std::unique_ptr<Array> po(new Array), pn(new Array);
        Array &ao = *po, &an = *pn;
        for (long x = 0; x < d.x; ++x) {
            ao.push_back(o(x, 0, 0));
            an.push_back(n(x, 0, 0));
        }
        if (in_place) {
            k(ao.at(0));
            Field<CELL> before(o);
            scalar_sweep(k, before, o);
        } else {
            k(ao.at(0), an.at(0));
            scalar_sweep(k, o, n);
        }
        for (long x = 0; x < d.x; ++x) {
            CELL co, cn;
            ao[int(x)] >> co;
            an[int(x)] >> cn;
            check_cell(c, co, o(x, 0, 0), x, 0, 0, in_place && x >= x0 && x < x1);
            check_cell(c, cn, n(x, 0, 0), x, 0, 0, !in_place && x >= x0 && x < x1);
        }
    }
    if (x1 > x0) c.nontrivial();
}

// kernels that stay in their row also run on arrays; only those of soa_vector are aligned
template<typename KERNEL, bool ROW> struct Arrays { static void run(pbt::Ctx& c) { on_grids<KERNEL>(c); } };
template<typename KERNEL> struct Arrays<KERNEL, true>
{
    static void run(pbt::Ctx& c)
    {
        switch (c.below(3)) {
        case 0: on_arrays_of<KERNEL, 64>(c); break;
        case 1: on_arrays_of<KERNEL, 192>(c); break;
        default: on_grids<KERNEL>(c); break;
        }
    }
};

template<typename KERNEL> void kernel(pbt::Ctx& c) { Arrays<KERNEL, KERNEL::RY == 0 && KERNEL::RZ == 0 && (KERNEL::POINTWISE || !KERNEL::ALIGNED)>::run(c); }

}

PBT_REGISTER(K01_0_0, &kernel<Kernel0_0>)
PBT_REGISTER(K01_0_1, &kernel<Kernel0_1>)
PBT_REGISTER(K01_0_2, &kernel<Kernel0_2>)
PBT_REGISTER(K01_0_3, &kernel<Kernel0_3>)
PBT_REGISTER(K01_1_0, &kernel<Kernel1_0>)
PBT_REGISTER(K01_1_1, &kernel<Kernel1_1>)
PBT_REGISTER(K01_1_2, &kernel<Kernel1_2>)
PBT_REGISTER(K01_1_3, &kernel<Kernel1_3>)
