// V01: soa_vector behaves like std::vector.
#include "cells.hpp"
#include <memory>
#include <stdexcept>

namespace {

template<typename CELL> long max_capacity() { return Cell<CELL>::xs().back(); }
template<> long max_capacity<CellDef>() { return 1073741856; }
template<> long max_capacity<LongDef>() { return 1073741856; }

// how large the vectors of a history get
template<typename CELL> long size_limit() { return 700; }
template<> long size_limit<LongDef>() { return 40000; }

struct Layout
{
    long *out;
    template<typename ACC> void operator()(ACC& a) const { out[0] = ACC::DIM_X; out[1] = ACC::DIM_Y; out[2] = ACC::DIM_Z; }
};

// reads all elements the way a kernel does
template<typename CELL>
struct ReadAll
{
    std::size_t n;
    std::vector<CELL> *out;
    template<typename ACC> void operator()(ACC& a) const
    {
        a.index() = 0;
        for (std::size_t i = 0; i < n; ++i) {
            CELL x;
            a >> x;
            out->push_back(x);
            ++a;
        }
    }
};

template<typename CELL>
struct WriteOne
{
    std::size_t i;
    const CELL *v;
    template<typename ACC> void operator()(ACC& a) const
    {
        a += long(i);
        a << *v;
    }
};

template<typename CELL>
struct Slot
{
    std::unique_ptr<LibFlatArray::soa_vector<CELL> > v;
    std::vector<CELL> m;
    std::size_t cap;     // last capacity seen
};

template<typename CELL>
void verify(pbt::Ctx& c, Slot<CELL>& s, int id, const char *after)
{
    typedef LibFlatArray::soa_vector<CELL> Vec;
    const Vec& v = *s.v;
    PBT_CHECK(v.size() == s.m.size(), "after %s: vector %d has size %lu, model has %lu", after, id, (unsigned long)v.size(), (unsigned long)s.m.size());
    PBT_CHECK(v.empty() == s.m.empty(), "after %s: vector %d: empty() is wrong", after, id);
    PBT_CHECK(v.capacity() >= v.size(), "after %s: vector %d: capacity %lu < size %lu", after, id, (unsigned long)v.capacity(), (unsigned long)v.size());
    s.cap = v.capacity();
    if (c.below(3)) {
        for (std::size_t k = 0; k < s.m.size(); ++k) {
            CELL x = v.get(k);
            PBT_CHECK(cell_equal(x, s.m[k]), "after %s: vector %d element %zu is {%s}, model has {%s}", after, id, k, show_cell(x).c_str(), show_cell(s.m[k]).c_str());
        }
    } else {
        std::vector<CELL> out;
        ReadAll<CELL> r = {s.m.size(), &out};
        if (c.below(2)) s.v->callback(r); else v.callback(r);
        PBT_CHECK(out.size() == s.m.size(), "after %s: callback was not invoked exactly once", after);
        for (std::size_t k = 0; k < s.m.size(); ++k)
            PBT_CHECK(cell_equal(out[k], s.m[k]), "after %s: vector %d element %zu seen through callback is {%s}, model has {%s}", after, id, k, show_cell(out[k]).c_str(), show_cell(s.m[k]).c_str());
    }
}

template<typename CELL>
void history(pbt::Ctx& c)
{
    typedef LibFlatArray::soa_vector<CELL> Vec;
    const long MAX = max_capacity<CELL>();
    const long LIM = MAX < size_limit<CELL>() ? MAX : size_limit<CELL>();
    const long BURST = size_limit<CELL>() > 700 ? 5000 : 700;
    Slot<CELL> slot[2];
    std::uint64_t tag = 1;
    int growth = 0, stores = 0;
    for (int i = 0; i < 2; ++i) {
        slot[i].cap = 0;
        switch (c.below(3)) {
        case 0: c.note("soa_vector<%s> v%d", Cell<CELL>::name(), i); slot[i].v.reset(new Vec()); break;
        case 1: {
            long n = c.skewed(0, LIM < 80 ? LIM : (LIM > 700 ? LIM : 80));
            c.note("soa_vector<%s> v%d(%ld)", Cell<CELL>::name(), i, n);
            slot[i].v.reset(new Vec(std::size_t(n)));
            slot[i].m.assign(std::size_t(n), make_cell<CELL>(0));
            break;
        }
        default: {
            long n = c.skewed(0, LIM < 80 ? LIM : (LIM > 700 ? LIM : 80));
            c.note("soa_vector<%s> v%d(%ld, value)", Cell<CELL>::name(), i, n);
            CELL v = make_cell<CELL>(tag++);
            slot[i].v.reset(new Vec(std::size_t(n), v));
            slot[i].m.assign(std::size_t(n), v);
            ++stores;
        }
        }
        verify(c, slot[i], i, "construction");
    }
    int steps = int(c.range(1, 14));
    for (int k = 0; k < steps; ++k) {
        c.op();
        int id = c.chance(1, 4);
        Slot<CELL>& s = slot[id];
        const char *what = "";
        std::size_t cap0 = s.cap;
        bool assigned = false;
        switch (c.below(11)) {
        case 0:
        case 1: {
            // push up to, at and beyond capacity boundaries
            long n = 1;
            switch (c.below(4)) {
            case 1: n = c.range(1, 6); break;
            case 2: n = long(s.cap) - long(s.m.size()) + c.range(0, 2); break;
            case 3: n = c.range(1, 60); break;
            default: break;
            }
            if (n < 1) n = 1;
            if (n > BURST) n = BURST;
            int how = int(c.below(2));
            c.note("v%d: %s x%ld (size %zu, capacity %zu)", id, how ? "emplace_back" : "push_back", n, s.m.size(), s.cap);
            for (long j = 0; j < n; ++j) {
                CELL v = make_cell<CELL>(tag++);
                bool thrown = false;
                try {
                    if (how) s.v->emplace_back(v); else s.v->push_back(v);
                } catch (const std::out_of_range&) {
                    thrown = true;
                }
                if (thrown) {
                    PBT_CHECK(double(s.m.size()) * 1.25 + 2 >= double(MAX), "push_back at size %zu was refused, the largest configured size is %ld", s.m.size(), MAX);
                    c.label("push_back refused at maximum size");
                    break;
                }
                PBT_CHECK(s.m.size() < std::size_t(MAX), "push_back beyond the largest configured size was not refused");
                s.m.push_back(v);
            }
            ++stores;
            if (s.m.size() > cap0) { ++growth; c.label("growth by push_back"); }
            what = "push_back";
            break;
        }
        case 2: {
            long n = c.range(1, 3);
            c.note("v%d: pop_back x%ld", id, n);
            for (; n && !s.m.empty(); --n) { s.v->pop_back(); s.m.pop_back(); }
            what = "pop_back";
            break;
        }
        case 3:
        case 4: {
            if (s.m.empty()) break;
            std::size_t i = std::size_t(c.skewed(0, long(s.m.size()) - 1));
            CELL v = make_cell<CELL>(tag++);
            int how = int(c.below(2));
            c.note("v%d: set(%zu)%s", id, i, how ? " through callback" : "");
            if (how) { WriteOne<CELL> w = {i, &v}; s.v->callback(w); } else s.v->set(i, v);
            s.m[i] = v;
            ++stores;
            what = "set";
            break;
        }
        case 5:
        case 6: {
            long n = c.below(2) ? c.skewed(0, LIM) : long(s.m.size()) + c.range(-3, 5);
            if (n < 0) n = 0;
            bool thrown = false;
            c.note("v%d: resize(%ld) (size %zu, capacity %zu)", id, n, s.m.size(), s.cap);
            try { s.v->resize(std::size_t(n)); } catch (const std::out_of_range&) { thrown = true; }
            PBT_CHECK(thrown == (n > MAX), "resize(%ld) was %s", n, thrown ? "refused" : "not refused");
            if (!thrown) {
                if (std::size_t(n) > s.m.size()) c.label(std::size_t(n) > cap0 ? "growth by resize" : "resize up within capacity");
                if (std::size_t(n) > cap0) ++growth;
                s.m.resize(std::size_t(n), make_cell<CELL>(0));
            }
            what = "resize";
            break;
        }
        case 7: {
            long n = c.skewed(0, LIM + 40);
            bool thrown = false;
            c.note("v%d: reserve(%ld) (size %zu, capacity %zu)", id, n, s.m.size(), s.cap);
            try { s.v->reserve(std::size_t(n)); } catch (const std::out_of_range&) { thrown = true; }
            if (n > MAX) PBT_CHECK(thrown, "reserve(%ld) beyond the largest configured size was not refused", n);
            else PBT_CHECK(!thrown, "reserve(%ld) was refused", n);
            if (!thrown) PBT_CHECK(s.v->capacity() >= std::size_t(n), "reserve(%ld) left capacity at %lu", n, (unsigned long)s.v->capacity());
            if (!thrown && std::size_t(n) > cap0) { ++growth; c.label("growth by reserve"); }
            if (std::size_t(n) < s.m.size()) c.label("reserve below size");
            if (thrown) c.label("reserve refused");
            what = "reserve";
            break;
        }
        case 8: {
            if (c.below(2)) break;
            c.note("v%d: clear()", id);
            s.v->clear();
            s.m.clear();
            what = "clear";
            break;
        }
        case 9: {
            c.note("v%d = v%d", id, 1 - id);
            *s.v = *slot[1 - id].v;
            s.m = slot[1 - id].m;
            assigned = true;
            what = "assignment";
            c.label("assignment");
            break;
        }
        default: {
            c.note("v%d = copy of v%d", id, 1 - id);
            const Vec& src = *slot[1 - id].v;
            s.v.reset(new Vec(src));
            s.m = slot[1 - id].m;
            assigned = true;
            what = "copy construction";
            c.label("copy construction");
            break;
        }
        }
        if (!assigned) PBT_CHECK(s.v->capacity() >= cap0, "%s shrank the capacity from %zu to %lu", what, cap0, (unsigned long)s.v->capacity());
        verify(c, slot[0], 0, what);
        verify(c, slot[1], 1, what);
    }
    if (growth && stores) { c.nontrivial(); c.label("stored data moved by growth"); }
}

}

#if UNIT == 9
PBT_REGISTER(V01_gen0, &history<Gen0>)
PBT_REGISTER(V01_gen1, &history<Gen1>)
PBT_REGISTER(V01_gen2, &history<Gen2>)
#elif UNIT == 1
PBT_REGISTER(V01_nest, &history<CellNest>)
PBT_REGISTER(V01_many, &history<CellMany>)
PBT_REGISTER(V01_one, &history<CellOne>)
#elif UNIT == 2
PBT_REGISTER(V01_str, &history<CellStr>)
PBT_REGISTER(V01_mixed, &history<CellMixed>)
PBT_REGISTER(V01_arr, &history<CellArr>)
#else
PBT_REGISTER(V01_def, &history<CellDef>)
PBT_REGISTER(V01_long, &history<LongDef>)
#endif
