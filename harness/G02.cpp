// G02: load()/save() exchange cells with a packed struct-of-arrays image.
#include "cells.hpp"
#include <list>

namespace {

// what a caller passes: anything with origin[] and length()
struct Streak
{
    long origin[3];
    long len;
    long length() const { return len; }
};

template<typename CELL>
std::vector<CELL> fill(pbt::Ctx& c, LibFlatArray::soa_grid<CELL>& g, Dims d)
{
    std::vector<CELL> m;
    for (long z = 0; z < d.z; ++z)
        for (long y = 0; y < d.y; ++y)
            for (long x = 0; x < d.x; ++x) {
                m.push_back(make_cell<CELL>(std::uint64_t(1 + m.size())));
                g.set(std::size_t(x), std::size_t(y), std::size_t(z), m.back());
            }
    return m;
}

template<typename CELL>
void check_all(pbt::Ctx& c, const LibFlatArray::soa_grid<CELL>& g, Dims d, const std::vector<CELL>& m, const char *after)
{
    std::size_t i = 0;
    for (long z = 0; z < d.z; ++z)
        for (long y = 0; y < d.y; ++y)
            for (long x = 0; x < d.x; ++x, ++i) {
                CELL got = g.get(std::size_t(x), std::size_t(y), std::size_t(z));
                PBT_CHECK(cell_equal(got, m[i]), "after %s: cell (%ld,%ld,%ld) is {%s}, model has {%s}", after, x, y, z,
                          show_cell(got).c_str(), show_cell(m[i]).c_str());
            }
}

// exact-size heap buffer, so the sanitizer sees any access beyond it; without a
// sanitizer the guard bytes do
struct Buf
{
    static const std::size_t G = 64;
    std::size_t n;
    char *raw;
    explicit Buf(std::size_t n) : n(n)
    {
#ifdef __SANITIZE_ADDRESS__
        raw = static_cast<char*>(std::malloc(n ? n : 1));
#else
        raw = static_cast<char*>(std::malloc(n + 2 * G)) + G;
        std::memset(raw - G, 0x5a, G);
        std::memset(raw + n, 0x5a, G);
#endif
        std::memset(raw, 0x77, n);
    }
    bool intact() const
    {
#ifndef __SANITIZE_ADDRESS__
        for (std::size_t i = 0; i < G; ++i) if (raw[-1 - long(i)] != 0x5a || raw[n + i] != 0x5a) return false;
#endif
        return true;
    }
    ~Buf()
    {
#ifdef __SANITIZE_ADDRESS__
        std::free(raw);
#else
        std::free(raw - G);
#endif
    }
};

template<typename CELL>
std::string diff(const char *got, const char *want, std::size_t n)
{
    std::ostringstream o;
    for (std::size_t i = 0; i < n; ++i)
        if (got[i] != want[i]) {
            o << "first differing byte " << i << " of " << n << " (got " << int((unsigned char)got[i]) << ", reference " << int((unsigned char)want[i]) << ")";
            break;
        }
    return o.str();
}

template<typename CELL> long bulk_cap() { return 600; }
template<> long bulk_cap<LongDef>() { return 200000; }
template<> long bulk_cap<HugeDef>() { return 200000; }
template<> long bulk_cap<HugeMix>() { return 5000; }

template<typename CELL>
void bulk(pbt::Ctx& c)
{
    typedef LibFlatArray::soa_grid<CELL> Grid;
    const std::size_t BYTES = ref_cell_bytes<CELL>();
    Dims d = DimGen<CELL>::gen(c);
    while (d.n() > bulk_cap<CELL>()) { if (d.z > 1) d.z /= 2; else if (d.y > 2) d.y /= 2; else d.x /= 2; }
    if (Cell<CELL>::DIMS == 0 && d.y == 1) d.z = 1;
    c.note("soa_grid<%s> g(%ld, %ld, %ld), all cells distinct", Cell<CELL>::name(), d.x, d.y, d.z);
    Grid g(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z));
    std::vector<CELL> m = fill(c, g, d);
    std::uint64_t tag = 100000;
    int steps = int(c.range(1, 5));
    long moved = 0;
    for (int s = 0; s < steps; ++s) {
        c.op();
        // disjoint streaks, in random order of rows; one or many
        int kind = int(c.below(4)); // 0 save, 1 load, 2 multi save, 3 multi load
        bool multi = kind >= 2, save = (kind & 1) == 0;
        std::vector<Streak> streaks;
        long n = multi ? c.range(0, 5) : 1;
        std::vector<char> used(std::size_t(d.n()), 0);
        long total = 0;
        for (long k = 0; k < n; ++k) {
            Streak st;
            st.origin[0] = c.skewed(0, d.x - 1);
            st.origin[1] = c.skewed(0, d.y - 1);
            st.origin[2] = c.skewed(0, d.z - 1);
            st.len = c.skewed(0, d.x - st.origin[0]);
            long base = (st.origin[2] * d.y + st.origin[1]) * d.x + st.origin[0];
            if (!save) // overlapping targets would make the result order dependent
                for (long j = 0; j < st.len; ++j) if (used[std::size_t(base + j)]) { st.len = j; break; }
            for (long j = 0; j < st.len; ++j) used[std::size_t(base + j)] = 1;
            total += st.len;
            streaks.push_back(st);
            c.note("  streak (%ld, %ld, %ld) x %ld", st.origin[0], st.origin[1], st.origin[2], st.len);
        }
        // the image may be wider than what is transferred
        long stride = multi && c.chance(1, 3) ? total + c.range(1, 7) : total;
        moved += total;
        std::size_t image_bytes = std::size_t(stride) * BYTES;
        Buf ref(image_bytes), buf(image_bytes);
        if (save) {
            long slot = 0;
            for (std::size_t k = 0; k < streaks.size(); ++k)
                for (long j = 0; j < streaks[k].len; ++j, ++slot) {
                    long i = (streaks[k].origin[2] * d.y + streaks[k].origin[1]) * d.x + streaks[k].origin[0] + j;
                    pack(ref.raw, std::size_t(stride), std::size_t(slot), m[std::size_t(i)]);
                }
            const Grid& cg = g;
            if (multi) {
                c.note("g.save(%zu streaks, target, %ld)", streaks.size(), stride);
                if (c.below(2)) {
                    std::list<Streak> l(streaks.begin(), streaks.end());
                    cg.save(l.begin(), l.end(), buf.raw, std::size_t(stride));
                } else {
                    cg.save(streaks.begin(), streaks.end(), buf.raw, std::size_t(stride));
                }
                c.label("multi-streak save");
            } else {
                c.note("g.save(%ld, %ld, %ld, target, %ld)", streaks[0].origin[0], streaks[0].origin[1], streaks[0].origin[2], stride);
                cg.save(std::size_t(streaks[0].origin[0]), std::size_t(streaks[0].origin[1]), std::size_t(streaks[0].origin[2]), buf.raw, std::size_t(stride));
                c.label("save");
            }
            PBT_CHECK(buf.intact(), "save wrote outside its target buffer");
            PBT_CHECK(std::memcmp(buf.raw, ref.raw, image_bytes) == 0, "saved image differs from the packed reference: %s",
                      diff<CELL>(buf.raw, ref.raw, image_bytes).c_str());
            if (c.below(3) == 0) check_all(c, g, d, m, "save");
        } else {
            long slot = 0;
            for (std::size_t k = 0; k < streaks.size(); ++k)
                for (long j = 0; j < streaks[k].len; ++j, ++slot) {
                    long i = (streaks[k].origin[2] * d.y + streaks[k].origin[1]) * d.x + streaks[k].origin[0] + j;
                    CELL v = make_cell<CELL>(tag++);
                    pack(buf.raw, std::size_t(stride), std::size_t(slot), v);
                    m[std::size_t(i)] = v;
                }
            std::memcpy(ref.raw, buf.raw, image_bytes);
            if (multi) {
                c.note("g.load(%zu streaks, source, %ld)", streaks.size(), stride);
                if (c.below(2)) {
                    std::list<Streak> l(streaks.begin(), streaks.end());
                    g.load(l.begin(), l.end(), buf.raw, std::size_t(stride));
                } else {
                    g.load(streaks.begin(), streaks.end(), buf.raw, std::size_t(stride));
                }
                c.label("multi-streak load");
            } else {
                c.note("g.load(%ld, %ld, %ld, source, %ld)", streaks[0].origin[0], streaks[0].origin[1], streaks[0].origin[2], stride);
                g.load(std::size_t(streaks[0].origin[0]), std::size_t(streaks[0].origin[1]), std::size_t(streaks[0].origin[2]), buf.raw, std::size_t(stride));
                c.label("load");
            }
            PBT_CHECK(buf.intact() && std::memcmp(buf.raw, ref.raw, image_bytes) == 0, "load modified its source");
            check_all(c, g, d, m, "load");
        }
    }
    check_all(c, g, d, m, "history");
    if (moved >= 2) c.nontrivial();
}

// save from one grid, load into another of a different size
template<typename CELL>
void transfer(pbt::Ctx& c)
{
    typedef LibFlatArray::soa_grid<CELL> Grid;
    const std::size_t BYTES = ref_cell_bytes<CELL>();
    Dims a = DimGen<CELL>::gen(c), b = DimGen<CELL>::gen(c);
    a.y = a.y > 3 ? 3 : a.y; a.z = a.z > 3 ? 3 : a.z;
    b.y = b.y > 3 ? 3 : b.y; b.z = b.z > 3 ? 3 : b.z;
    if (Cell<CELL>::DIMS == 0) { if (a.y == 1) a.z = 1; if (b.y == 1) b.z = 1; }
    Grid ga(std::size_t(a.x), std::size_t(a.y), std::size_t(a.z)), gb(std::size_t(b.x), std::size_t(b.y), std::size_t(b.z));
    std::vector<CELL> ma = fill(c, ga, a), mb;
    for (long i = 0; i < b.n(); ++i) mb.push_back(make_cell<CELL>(0));
    long n = c.skewed(1, a.x < b.x ? a.x : b.x);
    long xa = c.range(0, a.x - n), xb = c.range(0, b.x - n);
    long ya = c.range(0, a.y - 1), yb = c.range(0, b.y - 1), za = c.range(0, a.z - 1), zb = c.range(0, b.z - 1);
    c.note("%s: ga(%ld,%ld,%ld).save(%ld,%ld,%ld, n=%ld) -> gb(%ld,%ld,%ld).load(%ld,%ld,%ld)", Cell<CELL>::name(), a.x, a.y, a.z, xa, ya, za, n, b.x, b.y, b.z, xb, yb, zb);
    Buf buf(std::size_t(n) * BYTES);
    ga.save(std::size_t(xa), std::size_t(ya), std::size_t(za), buf.raw, std::size_t(n));
    gb.load(std::size_t(xb), std::size_t(yb), std::size_t(zb), buf.raw, std::size_t(n));
    for (long k = 0; k < n; ++k)
        mb[std::size_t((zb * b.y + yb) * b.x + xb + k)] = ma[std::size_t((za * a.y + ya) * a.x + xa + k)];
    check_all(c, ga, a, ma, "transfer (source)");
    check_all(c, gb, b, mb, "transfer (target)");
    c.op();
    c.nontrivial();
    c.label("transfer between grids");
}

}

#if UNIT == 9
PBT_REGISTER(G02_bulk_gen0, &bulk<Gen0>)
PBT_REGISTER(G02_xfer_gen0, &transfer<Gen0>)
#elif UNIT == 1
PBT_REGISTER(G02_bulk_mixed, &bulk<CellMixed>)
PBT_REGISTER(G02_bulk_nest, &bulk<CellNest>)
PBT_REGISTER(G02_bulk_one, &bulk<CellOne>)
PBT_REGISTER(G02_xfer_mixed, &transfer<CellMixed>)
#elif UNIT == 2
PBT_REGISTER(G02_bulk_arr, &bulk<CellArr>)
PBT_REGISTER(G02_bulk_many, &bulk<CellMany>)
PBT_REGISTER(G02_xfer_arr, &transfer<CellArr>)
PBT_REGISTER(G02_xfer_nest, &transfer<CellNest>)
#else
PBT_REGISTER(G02_bulk_def, &bulk<CellDef>)
PBT_REGISTER(G02_bulk_long, &bulk<LongDef>)
PBT_REGISTER(G02_xfer_long, &transfer<LongDef>)
#ifdef HAVE_HUGE
PBT_REGISTER(G02_huge_char, &huge<&bulk<HugeChar> >)
PBT_REGISTER(G02_huge_mix, &huge<&bulk<HugeMix> >)
PBT_REGISTER(G02_huge_def, &huge<&bulk<HugeDef> >)
#endif
#endif
