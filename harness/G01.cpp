// G01: a soa_grid is observationally a 3-D array of cells.
#include "cells.hpp"

namespace {

template<typename CELL>
struct Model
{
    Dims d;
    std::vector<CELL> cells;
    CELL& at(long x, long y, long z) { return cells[std::size_t((z * d.y + y) * d.x + x)]; }
    void reset(Dims nd)
    {
        d = nd;
        cells.assign(std::size_t(d.n()), make_cell<CELL>(0));
    }
};

template<typename CELL>
void compare_all(pbt::Ctx& c, const LibFlatArray::soa_grid<CELL>& g, Model<CELL>& m, const char *after, bool batch)
{
    for (long z = 0; z < m.d.z; ++z) {
        for (long y = 0; y < m.d.y; ++y) {
            if (batch) {
                std::vector<CELL> row(std::size_t(m.d.x), make_cell<CELL>(9999));
                g.get(std::size_t(0), std::size_t(y), std::size_t(z), &row[0], std::size_t(m.d.x));
                for (long x = 0; x < m.d.x; ++x) {
                    PBT_CHECK(cell_equal(row[std::size_t(x)], m.at(x, y, z)),
                              "after %s: batch get of cell (%ld,%ld,%ld) is {%s}, model has {%s}", after, x, y, z,
                              show_cell(row[std::size_t(x)]).c_str(), show_cell(m.at(x, y, z)).c_str());
                }
            } else {
                for (long x = 0; x < m.d.x; ++x) {
                    CELL got = g.get(std::size_t(x), std::size_t(y), std::size_t(z));
                    PBT_CHECK(cell_equal(got, m.at(x, y, z)),
                              "after %s: cell (%ld,%ld,%ld) is {%s}, model has {%s}", after, x, y, z,
                              show_cell(got).c_str(), show_cell(m.at(x, y, z)).c_str());
                }
            }
        }
    }
}

// writes one cell through the accessor a kernel would be handed
template<typename CELL>
struct PokeFunctor
{
    long x, y, z;
    const CELL *cell;
    int how;
    template<typename ACCESSOR> void operator()(ACCESSOR& acc) const
    {
        acc.index() = ACCESSOR::gen_index(x, y, z);
        if (how == 0) acc << *cell;
        else acc = *cell;
    }
};

template<typename CELL>
struct PeekFunctor
{
    long x, y, z;
    CELL *cell;
    int how;
    template<typename ACCESSOR> void operator()(ACCESSOR& acc) const
    {
        acc.index() = ACCESSOR::gen_index(x, y, z);
        if (how == 0) acc >> *cell;
        else if (how == 1) *cell = CELL(acc);
        else *cell << acc;
    }
};

template<typename CELL>
void grid_history(pbt::Ctx& c)
{
    typedef LibFlatArray::soa_grid<CELL> Grid;
    Model<CELL> m;
    m.reset(DimGen<CELL>::gen(c));
    c.note("soa_grid<%s> g(%ld, %ld, %ld)", Cell<CELL>::name(), m.d.x, m.d.y, m.d.z);
    Grid g(std::size_t(m.d.x), std::size_t(m.d.y), std::size_t(m.d.z));
    int steps = int(c.range(1, 14));
    std::uint64_t tag = 1;
    int writes = 0, overlaps = 0, resizes = 0;
    std::vector<char> touched(std::size_t(m.d.n()), 0);
    for (int s = 0; s < steps; ++s) {
        c.op();
        long x = c.skewed(0, m.d.x - 1), y = c.skewed(0, m.d.y - 1), z = c.skewed(0, m.d.z - 1);
        std::size_t ux(x), uy(y), uz(z);
        const char *what = "";
        switch (c.below(8)) {
        case 0: {
            CELL v = make_cell<CELL>(tag++);
            c.note("g.set(%ld, %ld, %ld, {%s})", x, y, z, show_cell(v).c_str());
            g.set(ux, uy, uz, v);
            m.at(x, y, z) = v;
            overlaps += touched[std::size_t((z * m.d.y + y) * m.d.x + x)]++ ? 1 : 0;
            ++writes;
            what = "set";
            c.label("op set");
            break;
        }
        case 1: {
            long n = c.skewed(0, m.d.x - x);
            std::vector<CELL> v;
            for (long k = 0; k < n; ++k) v.push_back(make_cell<CELL>(tag++));
            std::vector<CELL> keep(v);
            c.note("g.set(%ld, %ld, %ld, cells, %ld)", x, y, z, n);
            CELL dummy;
            g.set(ux, uy, uz, n ? &v[0] : &dummy, std::size_t(n));
            for (long k = 0; k < n; ++k) {
                PBT_CHECK(cell_equal(v[std::size_t(k)], keep[std::size_t(k)]), "batch set modified its source");
                m.at(x + k, y, z) = v[std::size_t(k)];
                overlaps += touched[std::size_t((z * m.d.y + y) * m.d.x + x + k)]++ ? 1 : 0;
            }
            writes += n > 0;
            what = "batch set";
            c.label("op batch set");
            break;
        }
        case 2: {
            long n = c.skewed(0, m.d.x - x);
            CELL v = make_cell<CELL>(tag++);
            c.note("g.broadcast(%ld, %ld, %ld, {%s}, %ld)", x, y, z, show_cell(v).c_str(), n);
            g.broadcast(ux, uy, uz, v, std::size_t(n));
            for (long k = 0; k < n; ++k) {
                m.at(x + k, y, z) = v;
                overlaps += touched[std::size_t((z * m.d.y + y) * m.d.x + x + k)]++ ? 1 : 0;
            }
            writes += n > 0;
            what = "broadcast";
            c.label("op broadcast");
            break;
        }
        case 3: {
            long n = c.skewed(0, m.d.x - x);
            c.note("g.get(%ld, %ld, %ld, cells, %ld)", x, y, z, n);
            // one guard cell on either side of the target range
            std::vector<CELL> v;
            for (long k = 0; k < n + 2; ++k) v.push_back(make_cell<CELL>(8888));
            const Grid& cg = g;
            cg.get(ux, uy, uz, &v[1], std::size_t(n));
            PBT_CHECK(cell_equal(v[0], make_cell<CELL>(8888)) && cell_equal(v[std::size_t(n + 1)], make_cell<CELL>(8888)),
                      "batch get wrote outside its target range");
            for (long k = 0; k < n; ++k) {
                PBT_CHECK(cell_equal(v[std::size_t(k + 1)], m.at(x + k, y, z)), "batch get(%ld,%ld,%ld) returned {%s}, model has {%s}",
                          x + k, y, z, show_cell(v[std::size_t(k + 1)]).c_str(), show_cell(m.at(x + k, y, z)).c_str());
            }
            what = "batch get";
            c.label("op batch get");
            break;
        }
        case 4: {
            int how = int(c.below(2));
            CELL v = make_cell<CELL>(tag++);
            c.note("g.callback(accessor %s {%s} at (%ld, %ld, %ld))", how ? "=" : "<<", show_cell(v).c_str(), x, y, z);
            PokeFunctor<CELL> f = {x, y, z, &v, how};
            g.callback(f);
            m.at(x, y, z) = v;
            ++writes;
            what = "callback write";
            c.label("op callback write");
            break;
        }
        case 5: {
            int how = int(c.below(3));
            CELL v = make_cell<CELL>(7777);
            PeekFunctor<CELL> f = {x, y, z, &v, how};
            const Grid& cg = g;
            if (c.below(2)) g.callback(f); else cg.callback(f);
            c.note("g.callback(accessor read at (%ld, %ld, %ld))", x, y, z);
            PBT_CHECK(cell_equal(v, m.at(x, y, z)), "callback read(%ld,%ld,%ld) gave {%s}, model has {%s}", x, y, z,
                      show_cell(v).c_str(), show_cell(m.at(x, y, z)).c_str());
            what = "callback read";
            c.label("op callback read");
            break;
        }
        case 6: {
            CELL got = g.get(ux, uy, uz);
            c.note("g.get(%ld, %ld, %ld)", x, y, z);
            PBT_CHECK(cell_equal(got, m.at(x, y, z)), "get(%ld,%ld,%ld) returned {%s}, model has {%s}", x, y, z,
                      show_cell(got).c_str(), show_cell(m.at(x, y, z)).c_str());
            what = "get";
            c.label("op get");
            break;
        }
        default: {
            Dims nd = c.chance(1, 4) ? m.d : DimGen<CELL>::gen(c);
            c.note("g.resize(%ld, %ld, %ld)", nd.x, nd.y, nd.z);
            bool same_dims = nd.x == m.d.x && nd.y == m.d.y && nd.z == m.d.z;
            g.resize(std::size_t(nd.x), std::size_t(nd.y), std::size_t(nd.z));
            if (!same_dims) {
                m.reset(nd);
                touched.assign(std::size_t(nd.n()), 0);
            }
            ++resizes;
            what = "resize";
            c.label(same_dims ? "op resize (same dims)" : "op resize");
            break;
        }
        }
        PBT_CHECK(long(g.dim_x()) == m.d.x && long(g.dim_y()) == m.d.y && long(g.dim_z()) == m.d.z, "after %s: dims are (%lu,%lu,%lu)",
                  what, (unsigned long)g.dim_x(), (unsigned long)g.dim_y(), (unsigned long)g.dim_z());
        if (c.below(3) == 2) compare_all(c, g, m, what, c.below(2) == 1);
    }
    compare_all(c, g, m, "history", false);
    compare_all(c, g, m, "history", true);
    if (writes >= 2) c.nontrivial();
    if (overlaps) c.label("history with overlapping writes");
    if (resizes && writes) c.label("history with resize and writes");
}

}

#if UNIT == 9
PBT_REGISTER(G01_gen0, &grid_history<Gen0>)
PBT_REGISTER(G01_gen1, &grid_history<Gen1>)
PBT_REGISTER(G01_gen2, &grid_history<Gen2>)
#elif UNIT == 1
PBT_REGISTER(G01_one, &grid_history<CellOne>)
PBT_REGISTER(G01_mixed, &grid_history<CellMixed>)
PBT_REGISTER(G01_nest, &grid_history<CellNest>)
#elif UNIT == 2
PBT_REGISTER(G01_arr, &grid_history<CellArr>)
PBT_REGISTER(G01_str, &grid_history<CellStr>)
PBT_REGISTER(G01_many, &grid_history<CellMany>)
#else
PBT_REGISTER(G01_def, &grid_history<CellDef>)
PBT_REGISTER(G01_long, &grid_history<LongDef>)
#ifdef HAVE_HUGE
PBT_REGISTER(G01_huge_char, &huge<&grid_history<HugeChar> >)
PBT_REGISTER(G01_huge_mix, &huge<&grid_history<HugeMix> >)
PBT_REGISTER(G01_huge_def, &huge<&grid_history<HugeDef> >)
#endif
#endif
