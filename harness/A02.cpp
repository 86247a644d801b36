// A02: soa_arrays are values: copies (also across capacities) are equal and
// independent, swap exchanges, load() transfers a range, refusals change nothing.
#include "cells.hpp"
#include <memory>
#include <stdexcept>

namespace {

template<typename CELL>
struct Ref
{
    std::vector<CELL> v;
    std::vector<char> known;   // elements a load() skipped over have no specified value
    void clear() { v.clear(); known.clear(); }
    void push(const CELL& x) { v.push_back(x); known.push_back(1); }
};

template<typename CELL, int N>
struct Slot
{
    std::unique_ptr<LibFlatArray::soa_array<CELL, N> > a;
    Ref<CELL> m;
};

template<typename CELL, int N>
void verify(pbt::Ctx& c, Slot<CELL, N>& s, const char *after, int id)
{
    if (!s.a) return;
    const LibFlatArray::soa_array<CELL, N>& a = *s.a;
    PBT_CHECK(a.size() == s.m.v.size(), "after %s: array %d has size %lu, model has %lu", after, id, (unsigned long)a.size(), (unsigned long)s.m.v.size());
    for (std::size_t k = 0; k < s.m.v.size(); ++k) {
        if (!s.m.known[k]) continue;
        CELL v(a[int(k)]);
        PBT_CHECK(cell_equal(v, s.m.v[k]), "after %s: array %d element %zu is {%s}, model has {%s}", after, id, k, show_cell(v).c_str(), show_cell(s.m.v[k]).c_str());
    }
}

template<typename CELL, int A, int B>
struct World
{
    typedef LibFlatArray::soa_array<CELL, A> ArrA;
    typedef LibFlatArray::soa_array<CELL, B> ArrB;
    pbt::Ctx& c;
    Slot<CELL, A> a[2];
    Slot<CELL, B> b[2];
    std::uint64_t tag;
    int copies, mutated;

    explicit World(pbt::Ctx& c) : c(c), tag(1), copies(0), mutated(0) {}

    template<int N> void fill(Slot<CELL, N>& s, int id)
    {
        long n = c.skewed(0, N);
        c.note("array %d: new, capacity %d, %ld elements", id, N, n);
        s.a.reset(new LibFlatArray::soa_array<CELL, N>());
        s.m.clear();
        for (long i = 0; i < n; ++i) {
            CELL v = make_cell<CELL>(tag++);
            *s.a << v;
            s.m.push(v);
        }
    }

    template<int N> void mutate(Slot<CELL, N>& s, int id)
    {
        if (copies) ++mutated;
        std::size_t n = s.m.v.size();
        int k = int(c.below(4));
        if (k == 0 && n < std::size_t(N)) {
            CELL v = make_cell<CELL>(tag++);
            c.note("array %d: push_back", id);
            s.a->push_back(v);
            s.m.push(v);
        } else if (k == 1 && n) {
            c.note("array %d: pop_back", id);
            s.a->pop_back();
            s.m.v.pop_back();
            s.m.known.pop_back();
        } else if (n) {
            std::size_t i = c.below(n);
            CELL v = make_cell<CELL>(tag++);
            c.note("array %d: overwrite element %zu", id, i);
            (*s.a)[int(i)] << v;
            s.m.v[i] = v;
            s.m.known[i] = 1;
        }
    }

    template<int N1, int N2> void copy_construct(Slot<CELL, N1>& t, Slot<CELL, N2>& s, int ti, int si)
    {
        bool too_big = s.m.v.size() > std::size_t(N1), thrown = false, as_const = c.below(2) == 1;
        c.note("array %d = capacity-%d copy constructed from %sarray %d (capacity %d, size %zu)", ti, N1, as_const ? "const " : "", si, N2, s.m.v.size());
        std::unique_ptr<LibFlatArray::soa_array<CELL, N1> > fresh;
        try {
            const LibFlatArray::soa_array<CELL, N2>& cs = *s.a;
            if (as_const) fresh.reset(new LibFlatArray::soa_array<CELL, N1>(cs)); else fresh.reset(new LibFlatArray::soa_array<CELL, N1>(*s.a));
        } catch (const std::out_of_range&) {
            thrown = true;
        }
        PBT_CHECK(thrown == too_big, too_big ? "copy construction beyond capacity was not refused" : "copy construction within capacity was refused");
        if (too_big) { c.label("refused copy construction"); return; }
        t.a = std::move(fresh);
        t.m = s.m;
        ++copies;
        c.label(N1 == N2 ? "copy construction, same capacity" : "copy construction, other capacity");
    }

    template<int N1, int N2> void assign(Slot<CELL, N1>& t, Slot<CELL, N2>& s, int ti, int si)
    {
        bool too_big = s.m.v.size() > std::size_t(N1), thrown = false, as_const = c.below(2) == 1;
        c.note("array %d (capacity %d) = %sarray %d (capacity %d, size %zu)", ti, N1, as_const ? "const " : "", si, N2, s.m.v.size());
        try {
            const LibFlatArray::soa_array<CELL, N2>& cs = *s.a;
            if (as_const) {
                LibFlatArray::soa_array<CELL, N1>& r = (*t.a = cs);
                PBT_CHECK(&r == t.a.get(), "assignment does not return its target");
            } else {
                *t.a = *s.a;
            }
        } catch (const std::out_of_range&) {
            thrown = true;
        }
        PBT_CHECK(thrown == too_big, too_big ? "assignment beyond capacity was not refused" : "assignment within capacity was refused");
        if (too_big) { c.label("refused assignment"); return; }
        if ((void*)&t.m != (void*)&s.m) t.m = s.m;
        ++copies;
        c.label(N1 == N2 ? "assignment, same capacity" : "assignment, other capacity");
    }

    template<int N1, int N2> void load(Slot<CELL, N1>& t, Slot<CELL, N2>& s, int ti, int si)
    {
        if (s.m.v.empty()) return;
        std::size_t from = c.below(s.m.v.size());
        std::size_t num = std::size_t(c.skewed(0, long(s.m.v.size() - from)));
        bool with_offset = c.below(2) == 1;
        std::size_t offset = with_offset ? std::size_t(c.skewed(0, N1 + 4)) : t.m.v.size();
        if (with_offset && c.chance(1, 12)) offset = ~std::size_t(0) - c.below(num + 2); // sums that don't fit a size_t
        bool too_big = offset > std::size_t(N1) || num > std::size_t(N1) - offset, thrown = false;
        // from an array into itself: only without overlap
        if ((void*)&t == (void*)&s && !too_big && offset < from + num && from < offset + num) return;
        c.note("array %d.load(array %d[%zu], %zu%s%s)", ti, si, from, num, with_offset ? ", offset " : "", with_offset ? std::to_string(offset).c_str() : "");
        try {
            if (with_offset) t.a->load((*s.a)[int(from)], num, offset); else t.a->load((*s.a)[int(from)], num);
        } catch (const std::out_of_range&) {
            thrown = true;
        }
        PBT_CHECK(thrown == too_big, too_big ? "load() beyond capacity was not refused" : "load() within capacity was refused");
        if (too_big) { c.label("refused load"); return; }
        while (t.m.v.size() < offset + num) { t.m.v.push_back(CELL()); t.m.known.push_back(0); }
        for (std::size_t k = 0; k < num; ++k) {
            t.m.v[offset + k] = s.m.v[from + k];
            t.m.known[offset + k] = s.m.known[from + k];
        }
        ++copies;
        c.label("load");
    }

    template<int N> void do_swap(Slot<CELL, N>& t, Slot<CELL, N>& s, int ti, int si)
    {
        using std::swap;
        c.note("swap(array %d, array %d)", ti, si);
        swap(*t.a, *s.a);
        if (&t != &s) std::swap(t.m, s.m);
        ++copies;
        c.label("swap");
    }

    void run()
    {
        fill(a[0], 0); fill(a[1], 1); fill(b[0], 2); fill(b[1], 3);
        int steps = int(c.range(1, 14));
        for (int k = 0; k < steps; ++k) {
            c.op();
            int ti = int(c.below(4)), si = int(c.below(4));
            const char *what = "";
            switch (c.below(8)) {
            case 0: what = "fill"; if (ti < 2) fill(a[ti], ti); else fill(b[ti - 2], ti); break;
            case 1:
            case 2: what = "mutation"; if (ti < 2) mutate(a[ti], ti); else mutate(b[ti - 2], ti); break;
            case 3:
                what = "copy construction";
                if (ti == si) break;
                if (ti < 2 && si < 2) copy_construct(a[ti], a[si], ti, si);
                else if (ti < 2) copy_construct(a[ti], b[si - 2], ti, si);
                else if (si < 2) copy_construct(b[ti - 2], a[si], ti, si);
                else copy_construct(b[ti - 2], b[si - 2], ti, si);
                break;
            case 4:
            case 5:
                what = "assignment";
                if (ti < 2 && si < 2) assign(a[ti], a[si], ti, si);
                else if (ti < 2) assign(a[ti], b[si - 2], ti, si);
                else if (si < 2) assign(b[ti - 2], a[si], ti, si);
                else assign(b[ti - 2], b[si - 2], ti, si);
                break;
            case 6:
                what = "load";
                if (ti < 2 && si < 2) load(a[ti], a[si], ti, si);
                else if (ti < 2) load(a[ti], b[si - 2], ti, si);
                else if (si < 2) load(b[ti - 2], a[si], ti, si);
                else load(b[ti - 2], b[si - 2], ti, si);
                break;
            default:
                what = "swap";
                if (ti < 2) do_swap(a[ti], a[si & 1], ti, si & 1); else do_swap(b[ti - 2], b[si & 1], ti, 2 + (si & 1));
                break;
            }
            verify(c, a[0], what, 0);
            verify(c, a[1], what, 1);
            verify(c, b[0], what, 2);
            verify(c, b[1], what, 3);
        }
        if (copies && mutated) { c.nontrivial(); c.label("copied, then one side changed"); }
    }
};

template<typename CELL, int A, int B>
void values(pbt::Ctx& c)
{
    World<CELL, A, B> w(c);
    w.run();
}

}

#if UNIT == 9
PBT_REGISTER(A02_gen0, (&values<Gen0, int(GEN_CAPACITY), int(GEN_CAPACITY2)>))
PBT_REGISTER(A02_gen1, (&values<Gen1, int(GEN_CAPACITY), int(GEN_CAPACITY2)>))
PBT_REGISTER(A02_gen2, (&values<Gen2, int(GEN_CAPACITY), int(GEN_CAPACITY2)>))
#elif UNIT == 1
PBT_REGISTER(A02_one, &values<CellOne, 5, 9>)
PBT_REGISTER(A02_mixed, &values<CellMixed, 8, 24>)
PBT_REGISTER(A02_nest, &values<CellNest, 16, 8>)
#else
PBT_REGISTER(A02_long, &values<LongDef, 33000, 40008>)
PBT_REGISTER(A02_arr, &values<CellArr, 8, 16>)
PBT_REGISTER(A02_str, &values<CellStr, 6, 10>)
#endif
