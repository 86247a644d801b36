// G06: dual callbacks bind each accessor to its own grid, and refuse unequal grids
// unless the cell opts into asymmetric callbacks.
#include "cells.hpp"
#include <memory>
#include <stdexcept>

template<typename CELL> struct IsAsym { static const bool value = false; };
template<> struct IsAsym<CellAsym> { static const bool value = true; };

namespace {

struct Move { int kind; long sx, sy, sz, tx, ty, tz; std::uint64_t tag; };

template<typename CELL>
struct Kernel
{
    const std::vector<Move> *moves;
    std::vector<CELL> *reads;
    int *calls;
    long *layout;   // 6 entries
    const char **ptrs;
    bool *zero_index;
    template<typename A1, typename A2>
    void operator()(A1& a1, A2& a2) const
    {
        ++*calls;
        layout[0] = A1::DIM_X; layout[1] = A1::DIM_Y; layout[2] = A1::DIM_Z;
        layout[3] = A2::DIM_X; layout[4] = A2::DIM_Y; layout[5] = A2::DIM_Z;
        ptrs[0] = a1.data();
        ptrs[1] = a2.data();
        *zero_index = a1.index() == 0 && a2.index() == 0;
        for (std::size_t i = 0; i < moves->size(); ++i) {
            const Move& m = (*moves)[i];
            long i1 = A1::gen_index(m.sx, m.sy, m.sz), i2 = A2::gen_index(m.tx, m.ty, m.tz);
            CELL tmp;
            switch (m.kind) {
            case 0: // first -> second
                a1.index() = i1;
                a2.index() = i2;
                a1 >> tmp;
                a2 << tmp;
                reads->push_back(tmp);
                break;
            case 1: // second -> first
                a1.index() = i1;
                a2.index() = i2;
                a2 >> tmp;
                a1 << tmp;
                reads->push_back(tmp);
                break;
            case 2: // store to second only
                a2.index() = i2;
                a2 << make_cell<CELL>(m.tag);
                break;
            default: // store to first, read second
                a1.index() = i1;
                a1 << make_cell<CELL>(m.tag);
                a2.index() = i2;
                a2 >> tmp;
                reads->push_back(tmp);
                break;
            }
        }
    }
};

template<typename CELL>
struct State
{
    std::unique_ptr<LibFlatArray::soa_grid<CELL> > g;
    Dims d;
    std::vector<CELL> m;
    CELL& at(long x, long y, long z) { return m[std::size_t((z * d.y + y) * d.x + x)]; }
    void make(Dims nd, std::uint64_t& tag)
    {
        d = nd;
        g.reset(new LibFlatArray::soa_grid<CELL>(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z)));
        m.clear();
        for (long z = 0; z < d.z; ++z)
            for (long y = 0; y < d.y; ++y)
                for (long x = 0; x < d.x; ++x) {
                    m.push_back(make_cell<CELL>(tag++));
                    g->set(std::size_t(x), std::size_t(y), std::size_t(z), m.back());
                }
    }
    void check(pbt::Ctx& c, const char *who)
    {
        for (long z = 0; z < d.z; ++z)
            for (long y = 0; y < d.y; ++y)
                for (long x = 0; x < d.x; ++x) {
                    CELL got = g->get(std::size_t(x), std::size_t(y), std::size_t(z));
                    PBT_CHECK(cell_equal(got, at(x, y, z)), "%s grid: cell (%ld,%ld,%ld) is {%s}, model has {%s}", who, x, y, z,
                              show_cell(got).c_str(), show_cell(at(x, y, z)).c_str());
                }
    }
};

template<typename CELL> long cap() { return 300; }
template<> long cap<LongDef>() { return 1 << 20; }
template<> long cap<HugeMix>() { return 1 << 20; }

template<typename CELL>
Dims dims_for(pbt::Ctx& c)
{
    Dims d = DimGen<CELL>::gen(c);
    while (d.n() > cap<CELL>()) { if (d.z > 2) d.z = 2; else if (d.y > 3) d.y = 3; else d.x /= 2; }
    return d;
}

template<typename CELL>
void dual(pbt::Ctx& c)
{
    typedef LibFlatArray::soa_grid<CELL> Grid;
    State<CELL> s1, s2;
    std::uint64_t tag = 1;
    Dims d1 = dims_for<CELL>(c), d2 = d1;
    int relation = int(c.below(4));
    if (relation == 1) {           // unequal, anywhere
        d2 = dims_for<CELL>(c);
    } else if (relation == 2) {    // unequal in exactly one coordinate, often inside the same padded extent
        int which = int(c.below(3));
        Dims e = DimGen<CELL>::extent(d1);
        if (which == 0 && e.x > 1) d2.x = d1.x > 1 ? d1.x - 1 : d1.x + 1;
        if (which == 1 && e.y > 1) d2.y = d1.y > 1 ? d1.y - 1 : d1.y + 1;
        if (which == 2 && e.z > 1) d2.z = d1.z > 1 ? d1.z - 1 : d1.z + 1;
    }
    bool aliased = relation == 3 && c.chance(1, 2);
    bool equal = d1.x == d2.x && d1.y == d2.y && d1.z == d2.z;
    s1.make(d1, tag);
    s2.make(d2, tag);
    State<CELL>& o = aliased ? s1 : s2;
    bool throws = !equal && !IsAsym<CELL>::value && !aliased;
    std::vector<Move> moves;
    int n = int(c.range(1, 12));
    for (int i = 0; i < n; ++i) {
        Move m;
        m.kind = int(c.below(4));
        m.sx = c.skewed(0, d1.x - 1); m.sy = c.skewed(0, d1.y - 1); m.sz = c.skewed(0, d1.z - 1);
        m.tx = c.skewed(0, o.d.x - 1); m.ty = c.skewed(0, o.d.y - 1); m.tz = c.skewed(0, o.d.z - 1);
        m.tag = tag++;
        moves.push_back(m);
    }
    bool const_call = c.below(2) == 1;
    c.note("soa_grid<%s> first(%ld,%ld,%ld), second%s(%ld,%ld,%ld); %s callback, %d moves", Cell<CELL>::name(), d1.x, d1.y, d1.z,
           aliased ? "=first" : "", o.d.x, o.d.y, o.d.z, const_call ? "const" : "non-const", n);
    std::vector<CELL> reads;
    int calls = 0;
    long layout[6] = {0};
    const char *ptrs[2] = {0, 0};
    bool zero_index = true;
    Kernel<CELL> k = {&moves, &reads, &calls, layout, ptrs, &zero_index};
    bool thrown = false;
    try {
        const Grid& cg = *s1.g;
        if (const_call) cg.callback(o.g.get(), k); else s1.g->callback(o.g.get(), k);
    } catch (const std::invalid_argument&) {
        thrown = true;
    }
    c.op();
    PBT_CHECK(thrown == throws, throws ? "dual callback accepted grids of unequal dimensions" : "dual callback refused grids it must accept");
    if (thrown) {
        PBT_CHECK(calls == 0, "refused dual callback still ran the functor %d times", calls);
        c.label("refused");
    } else {
        PBT_CHECK(calls == 1, "functor ran %d times", calls);
        Dims e1 = DimGen<CELL>::extent(d1), e2 = DimGen<CELL>::extent(o.d);
        PBT_CHECK(layout[0] == e1.x && layout[1] == e1.y && layout[2] == e1.z, "first accessor has layout (%ld,%ld,%ld), expected (%ld,%ld,%ld)",
                  layout[0], layout[1], layout[2], e1.x, e1.y, e1.z);
        PBT_CHECK(layout[3] == e2.x && layout[4] == e2.y && layout[5] == e2.z, "second accessor has layout (%ld,%ld,%ld), expected (%ld,%ld,%ld)",
                  layout[3], layout[4], layout[5], e2.x, e2.y, e2.z);
        PBT_CHECK(ptrs[0] == s1.g->data(), "first accessor is not bound to the first grid");
        PBT_CHECK(ptrs[1] == o.g->data(), "second accessor is not bound to the second grid");
        PBT_CHECK(zero_index, "accessors do not start at the first cell");
        std::size_t r = 0;
        for (std::size_t i = 0; i < moves.size(); ++i) {
            const Move& m = moves[i];
            CELL& a = s1.at(m.sx, m.sy, m.sz);
            CELL& b = o.at(m.tx, m.ty, m.tz);
            CELL expect;
            if (m.kind == 0) { expect = a; b = a; }
            else if (m.kind == 1) { expect = b; a = b; }
            else if (m.kind == 2) { b = make_cell<CELL>(m.tag); continue; }
            else { a = make_cell<CELL>(m.tag); expect = b; }
            PBT_CHECK(cell_equal(reads[r], expect), "move %zu (kind %d) read {%s}, expected {%s}", i, m.kind, show_cell(reads[r]).c_str(), show_cell(expect).c_str());
            ++r;
        }
        c.label(aliased ? "same grid twice" : (equal ? "equal dims" : "asymmetric, unequal dims"));
        if (e1.x != e2.x || e1.y != e2.y || e1.z != e2.z) c.label("different layouts");
    }
    s1.check(c, "first");
    s2.check(c, "second");
    if (!thrown && n >= 2) c.nontrivial();
    if (thrown && relation == 2) c.nontrivial();
}

}

#if UNIT == 9
PBT_REGISTER(G06_gen0, &dual<Gen0>)
PBT_REGISTER(G06_gen1, &dual<Gen1>)
PBT_REGISTER(G06_gen2, &dual<Gen2>)
#elif UNIT == 1
PBT_REGISTER(G06_mixed, &dual<CellMixed>)
PBT_REGISTER(G06_str, &dual<CellStr>)
PBT_REGISTER(G06_nest, &dual<CellNest>)
PBT_REGISTER(G06_one, &dual<CellOne>)
PBT_REGISTER(G06_long, &dual<LongDef>)
#ifdef HAVE_HUGE
PBT_REGISTER(G06_huge_char, &huge<&dual<HugeChar> >)
PBT_REGISTER(G06_huge_mix, &huge<&dual<HugeMix> >)
#endif
#else
PBT_REGISTER(G06_asym, &dual<CellAsym>)
#endif
