// G05: grids are values: copies are equal and independent, swap exchanges everything.
#include "cells.hpp"
#include <memory>

namespace {

template<typename CELL>
struct Slot
{
    std::unique_ptr<LibFlatArray::soa_grid<CELL> > g;
    Dims d;                    // 0,0,0: default constructed, holds nothing
    std::vector<CELL> m;
};

struct LayoutProbe
{
    long *out;
    template<typename ACC> void operator()(ACC& a) const
    {
        out[0] = ACC::DIM_X; out[1] = ACC::DIM_Y; out[2] = ACC::DIM_Z;
    }
};

template<typename CELL>
void verify(pbt::Ctx& c, std::vector<Slot<CELL> >& pool, const char *after)
{
    for (std::size_t s = 0; s < pool.size(); ++s) {
        Slot<CELL>& p = pool[s];
        if (!p.g) continue;
        const LibFlatArray::soa_grid<CELL>& g = *p.g;
        PBT_CHECK(long(g.dim_x()) == p.d.x && long(g.dim_y()) == p.d.y && long(g.dim_z()) == p.d.z, "after %s: grid %zu has dims (%lu,%lu,%lu), expected (%ld,%ld,%ld)",
                  after, s, (unsigned long)g.dim_x(), (unsigned long)g.dim_y(), (unsigned long)g.dim_z(), p.d.x, p.d.y, p.d.z);
        if (p.d.n() == 0) continue;
        Dims e = DimGen<CELL>::extent(p.d);
        PBT_CHECK(long(g.extent_x()) == e.x && long(g.extent_y()) == e.y && long(g.extent_z()) == e.z,
                  "after %s: grid %zu with dims (%ld,%ld,%ld) reports extents (%lu,%lu,%lu), expected (%ld,%ld,%ld)", after, s, p.d.x, p.d.y, p.d.z,
                  (unsigned long)g.extent_x(), (unsigned long)g.extent_y(), (unsigned long)g.extent_z(), e.x, e.y, e.z);
        PBT_CHECK(g.byte_size() == std::size_t(e.n()) * ref_cell_bytes<CELL>(), "after %s: grid %zu reports byte_size %lu", after, s, (unsigned long)g.byte_size());
        long out[3];
        LayoutProbe lp = {out};
        g.callback(lp);
        PBT_CHECK(out[0] == e.x && out[1] == e.y && out[2] == e.z, "after %s: callback layout of grid %zu", after, s);
        for (std::size_t o = 0; o < s; ++o)
            PBT_CHECK(!pool[o].g || pool[o].d.n() == 0 || pool[o].g->data() != p.g->data(), "after %s: grids %zu and %zu share their data", after, o, s);
        std::size_t i = 0;
        for (long z = 0; z < p.d.z; ++z)
            for (long y = 0; y < p.d.y; ++y)
                for (long x = 0; x < p.d.x; ++x, ++i) {
                    CELL got = g.get(std::size_t(x), std::size_t(y), std::size_t(z));
                    PBT_CHECK(cell_equal(got, p.m[i]), "after %s: grid %zu cell (%ld,%ld,%ld) is {%s}, expected {%s}", after, s, x, y, z,
                              show_cell(got).c_str(), show_cell(p.m[i]).c_str());
                }
    }
}

template<typename CELL> long cap() { return 240; }
template<> long cap<LongDef>() { return 1 << 20; }
template<> long cap<HugeMix>() { return 1 << 20; }
template<> long cap<HugeDef>() { return 1 << 20; }

template<typename CELL>
Dims small_dims(pbt::Ctx& c)
{
    Dims d = DimGen<CELL>::gen(c);
    while (d.n() > cap<CELL>()) {
        // keep one direction long
        int keep = int(c.below(3));
        if (d.z > 2 && keep != 2) d.z = 2;
        else if (d.y > 3 && keep != 1) d.y = 3;
        else if (d.x > 1) d.x = keep == 0 ? d.x / 2 : 1;
        else { d.y = (d.y + 1) / 2; d.z = (d.z + 1) / 2; }
    }
    if (Cell<CELL>::DIMS == 0 && d.y == 1) d.z = 1;
    return d;
}

template<typename CELL>
void values(pbt::Ctx& c)
{
    typedef LibFlatArray::soa_grid<CELL> Grid;
    using std::swap;
    std::vector<Slot<CELL> > pool(3);
    std::uint64_t tag = 1;
    int steps = int(c.range(2, 14)), copies = 0, mutated_after_copy = 0;
    for (int s = 0; s < steps; ++s) {
        c.op();
        std::size_t i = c.below(3), j = c.below(3);
        Slot<CELL>& a = pool[i];
        Slot<CELL>& b = pool[j];
        const char *what = "";
        unsigned op = unsigned(c.below(9));
        if (!a.g) op = 0;
        if (!b.g && op > 2) op = 2;
        switch (op) {
        case 0: {
            if (c.chance(1, 6)) {
                c.note("g%zu = soa_grid<%s>()", i, Cell<CELL>::name());
                a.g.reset(new Grid());
                a.d = Dims{0, 0, 0};
                a.m.clear();
                what = "default construction";
                c.label("default-constructed grid");
            } else {
                a.d = small_dims<CELL>(c);
                c.note("g%zu = soa_grid<%s>(%ld, %ld, %ld)", i, Cell<CELL>::name(), a.d.x, a.d.y, a.d.z);
                a.g.reset(new Grid(std::size_t(a.d.x), std::size_t(a.d.y), std::size_t(a.d.z)));
                a.m.assign(std::size_t(a.d.n()), make_cell<CELL>(0));
                what = "construction";
            }
            break;
        }
        case 1:
        case 2: {
            if (a.d.n() == 0) break;
            bool all = c.below(3) == 2;
            c.note("fill %s of g%zu", all ? "all" : "a row", i);
            long y0 = all ? 0 : c.skewed(0, a.d.y - 1), y1 = all ? a.d.y : y0 + 1;
            long z0 = all ? 0 : c.skewed(0, a.d.z - 1), z1 = all ? a.d.z : z0 + 1;
            for (long z = z0; z < z1; ++z)
                for (long y = y0; y < y1; ++y)
                    for (long x = 0; x < a.d.x; ++x) {
                        CELL v = make_cell<CELL>(tag++);
                        a.g->set(std::size_t(x), std::size_t(y), std::size_t(z), v);
                        a.m[std::size_t((z * a.d.y + y) * a.d.x + x)] = v;
                    }
            if (copies) ++mutated_after_copy;
            what = "fill";
            break;
        }
        case 3: {
            if (i == j) break;
            c.note("g%zu = copy-constructed from g%zu", i, j);
            const Grid& src = *b.g;
            a.g.reset(new Grid(src));
            a.d = b.d;
            a.m = b.m;
            ++copies;
            what = "copy construction";
            c.label("copy construction");
            break;
        }
        case 4: {
            c.note("g%zu = g%zu (assignment)", i, j);
            Grid& r = (*a.g = *b.g);
            PBT_CHECK(&r == a.g.get(), "assignment does not return its target");
            a.d = b.d;
            a.m = b.m;
            ++copies;
            what = i == j ? "self assignment" : "assignment";
            c.label(what);
            break;
        }
        case 5:
        case 6: {
            c.note("%sswap(g%zu, g%zu)", op == 5 ? "member " : "", i, j);
            if (op == 5) a.g->swap(*b.g); else swap(*a.g, *b.g);
            if (i != j) {
                std::swap(a.d, b.d);
                std::swap(a.m, b.m);
            }
            ++copies;
            what = "swap";
            c.label("swap");
            break;
        }
        case 7: {
            Dims d = small_dims<CELL>(c);
            c.note("g%zu.resize(%ld, %ld, %ld)", i, d.x, d.y, d.z);
            bool same_dims = d.x == a.d.x && d.y == a.d.y && d.z == a.d.z;
            a.g->resize(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z));
            if (!same_dims) {
                a.d = d;
                a.m.assign(std::size_t(d.n()), make_cell<CELL>(0));
            }
            if (copies) ++mutated_after_copy;
            what = "resize";
            break;
        }
        default: {
            c.note("destroy g%zu", i);
            a.g.reset();
            a.d = Dims{0, 0, 0};
            a.m.clear();
            what = "destruction";
            break;
        }
        }
        verify(c, pool, what);
    }
    if (copies && mutated_after_copy) c.nontrivial();
    if (copies && mutated_after_copy) c.label("copied, then one side changed");
}

}

#if UNIT == 9
PBT_REGISTER(G05_gen0, &values<Gen0>)
PBT_REGISTER(G05_gen1, &values<Gen1>)
PBT_REGISTER(G05_gen2, &values<Gen2>)
#elif UNIT == 1
PBT_REGISTER(G05_mixed, &values<CellMixed>)
PBT_REGISTER(G05_arr, &values<CellArr>)
PBT_REGISTER(G05_str, &values<CellStr>)
PBT_REGISTER(G05_nest, &values<CellNest>)
#elif UNIT == 2
PBT_REGISTER(G05_def, &values<CellDef>)
PBT_REGISTER(G05_one, &values<CellOne>)
PBT_REGISTER(G05_long, &values<LongDef>)
#ifdef HAVE_HUGE
PBT_REGISTER(G05_huge_char, &huge<&values<HugeChar> >)
PBT_REGISTER(G05_huge_mix, &huge<&values<HugeMix> >)
#endif
#else
PBT_REGISTER(G05_asym, &values<CellAsym>)
PBT_REGISTER(G05_many, &values<CellMany>)
#endif
