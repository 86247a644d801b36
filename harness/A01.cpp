// A01: soa_array is a bounded sequence of cells.
#include "cells.hpp"
#include <memory>
#include <stdexcept>

namespace {

template<typename CELL, int N>
void check(pbt::Ctx& c, LibFlatArray::soa_array<CELL, N>& a, const std::vector<CELL>& m, const char *after)
{
    typedef LibFlatArray::soa_array<CELL, N> Array;
    const Array& ca = a;
    PBT_CHECK(ca.size() == m.size(), "after %s: size() is %lu, model has %lu", after, (unsigned long)ca.size(), (unsigned long)m.size());
    PBT_CHECK(ca.capacity() == std::size_t(N), "after %s: capacity() is %lu", after, (unsigned long)ca.capacity());
    PBT_CHECK(ca.byte_size() == m.size() * ref_cell_bytes<CELL>(), "after %s: byte_size() is %lu", after, (unsigned long)ca.byte_size());
    int path = int(c.below(7));
    if (path == 3) {
        // iterate
        typename Array::iterator i = a.begin(), end = a.end();
        std::size_t k = 0;
        for (; i != end; ++i, ++k) {
            PBT_CHECK(k < m.size(), "after %s: iteration runs past the last element", after);
            PBT_CHECK(!(i == end), "iterator both equal and unequal to end()");
            CELL v(i);
            PBT_CHECK(cell_equal(v, m[k]), "after %s: iterated element %zu is {%s}, model has {%s}", after, k, show_cell(v).c_str(), show_cell(m[k]).c_str());
        }
        PBT_CHECK(k == m.size(), "after %s: iteration visited %zu of %zu elements", after, k, m.size());
        PBT_CHECK(i == end, "iterator neither unequal nor equal to end()");
        return;
    }
    for (std::size_t k = 0; k < m.size(); ++k) {
        CELL v;
        if (path == 0) v = CELL(ca[int(k)]);
        else if (path == 1) v = CELL(a[int(k)]);
        else if (path == 2) v = CELL(ca.at(k));
        else if (path == 4) v = CELL(ca.at(int(k)));
        else if (path == 5) v = CELL(a.at(k));
        else v << a.at(int(k));
        PBT_CHECK(cell_equal(v, m[k]), "after %s: element %zu is {%s}, model has {%s}", after, k, show_cell(v).c_str(), show_cell(m[k]).c_str());
    }
    if (!m.empty()) {
        CELL v(a.back());
        PBT_CHECK(cell_equal(v, m.back()), "after %s: back() is {%s}, model has {%s}", after, show_cell(v).c_str(), show_cell(m.back()).c_str());
    }
}

template<typename CELL, int N>
void sequence(pbt::Ctx& c)
{
    typedef LibFlatArray::soa_array<CELL, N> Array;
    std::uint64_t tag = 1;
    std::vector<CELL> m;
    std::unique_ptr<Array> pa;
    int refused = 0, stores = 0;
    switch (c.below(4)) {
    case 0:
        c.note("soa_array<%s, %d> a", Cell<CELL>::name(), N);
        pa.reset(new Array());
        break;
    case 1: {
        long n = c.skewed(0, N);
        c.note("soa_array<%s, %d> a(%ld)", Cell<CELL>::name(), N, n);
        pa.reset(new Array(std::size_t(n)));
        m.assign(std::size_t(n), make_cell<CELL>(0));
        break;
    }
    case 2: {
        long n = c.skewed(0, N);
        CELL v = make_cell<CELL>(tag++);
        c.note("soa_array<%s, %d> a(%ld, {%s})", Cell<CELL>::name(), N, n, show_cell(v).c_str());
        pa.reset(new Array(std::size_t(n), v));
        m.assign(std::size_t(n), v);
        ++stores;
        break;
    }
    default: {
        // too many elements
        long n = N + 1 + c.skewed(0, 40);
        c.note("soa_array<%s, %d> a(%ld, value) must be refused", Cell<CELL>::name(), N, n);
        bool thrown = false;
        try {
            pa.reset(new Array(std::size_t(n), make_cell<CELL>(tag++)));
        } catch (const std::out_of_range&) {
            thrown = true;
        }
        PBT_CHECK(thrown, "construction of %ld elements in a soa_array of capacity %d was not refused", n, N);
        ++refused;
        c.label("refused construction");
        pa.reset(new Array());
    }
    }
    Array& a = *pa;
    check<CELL, N>(c, a, m, "construction");
    int steps = int(c.range(1, N < 30 ? 30 : (N < 1000 ? 60 : 16)));
    for (int s = 0; s < steps; ++s) {
        c.op();
        const char *what = "";
        switch (c.below(8)) {
        case 0:
        case 1:
        case 2: {
            CELL v = make_cell<CELL>(tag++);
            int burst = c.chance(1, 6) ? int(c.range(1, N)) : 1;
            bool one_way = N > 1000, way = one_way && c.below(2);
            c.note("push x%d", burst);
            for (int b = 0; b < burst; ++b) {
                v = make_cell<CELL>(tag++);
                bool full = m.size() == std::size_t(N), thrown = false;
                try {
                    if (one_way ? way : c.below(2) != 0) {
                        a.push_back(v);
                    } else {
                        Array& r = (a << v);
                        PBT_CHECK(&r == &a, "operator<< does not return the array");
                    }
                } catch (const std::out_of_range&) {
                    thrown = true;
                }
                PBT_CHECK(thrown == full, full ? "push into a full soa_array was not refused" : "push into a soa_array with free capacity was refused");
                if (!full) m.push_back(v); else ++refused;
                if (full) c.label("refused push");
            }
            ++stores;
            what = "push";
            break;
        }
        case 3: {
            bool empty = m.empty(), thrown = false;
            c.note("pop_back()%s", empty ? " on empty" : "");
            try {
                a.pop_back();
            } catch (const std::out_of_range&) {
                thrown = true;
            }
            PBT_CHECK(thrown == empty, empty ? "pop_back() of an empty soa_array was not refused" : "pop_back() was refused");
            if (!empty) m.pop_back(); else { ++refused; c.label("refused pop"); }
            what = "pop_back";
            break;
        }
        case 4: {
            if (c.below(3)) break;
            c.note("clear()");
            a.clear();
            m.clear();
            what = "clear";
            break;
        }
        default: {
            if (m.empty()) break;
            std::size_t k = std::size_t(c.skewed(0, long(m.size()) - 1));
            CELL v = make_cell<CELL>(tag++);
            int how = int(c.below(5));
            c.note("write element %zu (path %d)", k, how);
            switch (how) {
            case 0: a[int(k)] = v; break;
            case 1: a.at(k) << v; break;
            case 2: a.at(int(k)) = v; break;
            case 3: { typename Array::iterator i = a.begin(); i += long(k); i << v; break; }
            default: k = m.size() - 1; a.back() << v; break;
            }
            m[k] = v;
            ++stores;
            what = "element write";
            break;
        }
        }
        check<CELL, N>(c, a, m, what);
    }
    if (stores >= 2 && m.size() >= 1) c.nontrivial();
    if (refused) c.label("history with a refused operation");
}

}

#if UNIT == 9
PBT_REGISTER(A01_gen0, (&sequence<Gen0, int(GEN_CAPACITY)>))
PBT_REGISTER(A01_gen1, (&sequence<Gen1, int(GEN_CAPACITY2)>))
PBT_REGISTER(A01_gen2, (&sequence<Gen2, int(GEN_CAPACITY)>))
#elif UNIT == 1
PBT_REGISTER(A01_one1, &sequence<CellOne, 1>)
PBT_REGISTER(A01_one7, &sequence<CellOne, 7>)
PBT_REGISTER(A01_one65, &sequence<CellOne, 65>)
PBT_REGISTER(A01_mixed8, &sequence<CellMixed, 8>)
PBT_REGISTER(A01_mixed40, &sequence<CellMixed, 40>)
#elif UNIT == 2
PBT_REGISTER(A01_long_one, &sequence<CellOne, 33001>)
PBT_REGISTER(A01_long_mix, &sequence<LongDef, 70008>)
PBT_REGISTER(A01_arr8, &sequence<CellArr, 8>)
PBT_REGISTER(A01_arr24, &sequence<CellArr, 24>)
PBT_REGISTER(A01_str2, &sequence<CellStr, 2>)
PBT_REGISTER(A01_str20, &sequence<CellStr, 20>)
PBT_REGISTER(A01_nest16, &sequence<CellNest, 16>)
PBT_REGISTER(A01_many32, &sequence<CellMany, 32>)
#endif
