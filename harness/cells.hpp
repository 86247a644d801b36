// Cell types the container harnesses are instantiated with, and a member visitor
// for each that is written independently of the library's registration macros.
// Members are visited in *registration* order.
#ifndef VERIF_CELLS_HPP
#define VERIF_CELLS_HPP

#include "pbt.hpp"
#include <libflatarray/flat_array.hpp>
#include <libflatarray/api_traits.hpp>
#include <libflatarray/macros.hpp>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>

// ---------------------------------------------------------------- cell types

class CellOne
{
public:
    class API { public: LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((8)(16)(24)) };
    double v;
    CellOne() : v(0) {}
};
LIBFLATARRAY_REGISTER_SOA(CellOne, ((double)(v)))

// mixed sizes, private members, registration order != declaration order, one
// unregistered member
class CellMixed
{
public:
    class API { public: LIBFLATARRAY_CUSTOM_SIZES((8)(16)(40), (1)(4)(9), (1)(3)(6)) };
    LIBFLATARRAY_ACCESS
    friend struct CellMixedVisitor;
    CellMixed() : c(0), d(0), i(0), s(0), b(false), unregistered(77), f(0), l(0) {}
private:
    char c;
    double d;
    int i;
    short s;
    bool b;
    int unregistered;
    float f;
    long l;
};
LIBFLATARRAY_REGISTER_SOA(CellMixed, ((char)(c))((long)(l))((int)(i))((short)(s))((bool)(b))((float)(f))((double)(d)))

class CellArr
{
public:
    class API { public: LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM((8)(24)(40)) };
    double pos[3];
    int id;
    char tag[5];
    float m[2];
    CellArr() : id(0)
    {
        for (int k = 0; k < 3; ++k) pos[k] = 0;
        for (int k = 0; k < 5; ++k) tag[k] = 0;
        for (int k = 0; k < 2; ++k) m[k] = 0;
    }
};
LIBFLATARRAY_REGISTER_SOA(CellArr, ((int)(id))((double)(pos)(3))((char)(tag)(5))((float)(m)(2)))

class CellStr
{
public:
    class API { public: LIBFLATARRAY_CUSTOM_SIZES((8)(16), (1)(3)(5), (1)(2)(4)) };
    std::string name;
    int n;
    std::string labels[2];
    std::vector<int> v;
    CellStr() : n(0) {}
};
LIBFLATARRAY_REGISTER_SOA(CellStr, ((std::string)(name))((int)(n))((std::string)(labels)(2))((std::vector<int>)(v)))

// default size list
class CellDef
{
public:
    float x;
    double y;
    CellDef() : x(0), y(0) {}
};
LIBFLATARRAY_REGISTER_SOA(CellDef, ((float)(x))((double)(y)))

struct NestPt
{
    float x, y;
    NestPt() : x(0), y(0) {}
};

class CellNest
{
public:
    class API { public: LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((8)(16)(64)(136)) };
    NestPt p;
    NestPt q[2];
    unsigned char u;
    unsigned long w[4];
};
LIBFLATARRAY_REGISTER_SOA(CellNest, ((NestPt)(p))((NestPt)(q)(2))((unsigned char)(u))((unsigned long)(w)(4)))

// many members, exercises the preprocessor machinery far beyond the tests' cells
class CellMany
{
public:
    class API { public: LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM((32)(96)) };
    int a0, a1, a2, a3, a4, a5, a6, a7, a8, a9;
    double b0, b1, b2, b3, b4, b5, b6, b7, b8, b9;
    char e0[2], e1[7];
    float f0, f1, f2, f3, f4, f5, f6, f7, f8, f9;
};
LIBFLATARRAY_REGISTER_SOA(
    CellMany,
    ((int)(a0))((int)(a1))((int)(a2))((int)(a3))((int)(a4))((int)(a5))((int)(a6))((int)(a7))((int)(a8))((int)(a9))
    ((double)(b0))((double)(b1))((double)(b2))((double)(b3))((double)(b4))((double)(b5))((double)(b6))((double)(b7))((double)(b8))((double)(b9))
    ((char)(e0)(2))((char)(e1)(7))
    ((float)(f0))((float)(f1))((float)(f2))((float)(f3))((float)(f4))((float)(f5))((float)(f6))((float)(f7))((float)(f8))((float)(f9)))

// ---------------------------------------------------------------- visitors

struct CellMixedVisitor
{
    template<typename C, typename F> static void visit(C& c, F& f)
    {
        f(&c.c, 1); f(&c.l, 1); f(&c.i, 1); f(&c.s, 1); f(&c.b, 1); f(&c.f, 1); f(&c.d, 1);
    }
};

template<typename CELL> struct Cell;

template<> struct Cell<CellOne>
{
    static const char *name() { return "CellOne"; }
    static const int DIMS = 3;
    static std::vector<long> xs() { return {8, 16, 24}; }
    static const bool UNIFORM = true;
    static const bool POD = true;
    template<typename C, typename F> static void visit(C& c, F& f) { f(&c.v, 1); }
};

template<> struct Cell<CellMixed>
{
    static const char *name() { return "CellMixed"; }
    static const int DIMS = 3;
    static std::vector<long> xs() { return {8, 16, 40}; }
    static std::vector<long> ys() { return {1, 4, 9}; }
    static std::vector<long> zs() { return {1, 3, 6}; }
    static const bool UNIFORM = false;
    static const bool POD = true;
    template<typename C, typename F> static void visit(C& c, F& f) { CellMixedVisitor::visit(c, f); }
};

template<> struct Cell<CellArr>
{
    static const char *name() { return "CellArr"; }
    static const int DIMS = 2;
    static std::vector<long> xs() { return {8, 24, 40}; }
    static const bool UNIFORM = true;
    static const bool POD = true;
    template<typename C, typename F> static void visit(C& c, F& f)
    {
        f(&c.id, 1); f(&c.pos[0], 3); f(&c.tag[0], 5); f(&c.m[0], 2);
    }
};

template<> struct Cell<CellStr>
{
    static const char *name() { return "CellStr"; }
    static const int DIMS = 3;
    static std::vector<long> xs() { return {8, 16}; }
    static std::vector<long> ys() { return {1, 3, 5}; }
    static std::vector<long> zs() { return {1, 2, 4}; }
    static const bool UNIFORM = false;
    static const bool POD = false;
    template<typename C, typename F> static void visit(C& c, F& f)
    {
        f(&c.name, 1); f(&c.n, 1); f(&c.labels[0], 2); f(&c.v, 1);
    }
};

template<> struct Cell<CellDef>
{
    static const char *name() { return "CellDef"; }
    static const int DIMS = 0; // picked by the default selector
    static std::vector<long> xs() { return {32, 64, 128, 192, 256, 512, 544, 1056}; }
    static const bool UNIFORM = true;
    static const bool POD = true;
    template<typename C, typename F> static void visit(C& c, F& f) { f(&c.x, 1); f(&c.y, 1); }
};

template<> struct Cell<CellNest>
{
    static const char *name() { return "CellNest"; }
    static const int DIMS = 1;
    static std::vector<long> xs() { return {8, 16, 64, 136}; }
    static const bool UNIFORM = true;
    static const bool POD = true;
    template<typename C, typename F> static void visit(C& c, F& f)
    {
        f(&c.p, 1); f(&c.q[0], 2); f(&c.u, 1); f(&c.w[0], 4);
    }
};

template<> struct Cell<CellMany>
{
    static const char *name() { return "CellMany"; }
    static const int DIMS = 1;
    static std::vector<long> xs() { return {32, 96}; }
    static const bool UNIFORM = true;
    static const bool POD = true;
    template<typename C, typename F> static void visit(C& c, F& f)
    {
        f(&c.a0, 1); f(&c.a1, 1); f(&c.a2, 1); f(&c.a3, 1); f(&c.a4, 1);
        f(&c.a5, 1); f(&c.a6, 1); f(&c.a7, 1); f(&c.a8, 1); f(&c.a9, 1);
        f(&c.b0, 1); f(&c.b1, 1); f(&c.b2, 1); f(&c.b3, 1); f(&c.b4, 1);
        f(&c.b5, 1); f(&c.b6, 1); f(&c.b7, 1); f(&c.b8, 1); f(&c.b9, 1);
        f(&c.e0[0], 2); f(&c.e1[0], 7);
        f(&c.f0, 1); f(&c.f1, 1); f(&c.f2, 1); f(&c.f3, 1); f(&c.f4, 1);
        f(&c.f5, 1); f(&c.f6, 1); f(&c.f7, 1); f(&c.f8, 1); f(&c.f9, 1);
    }
};

class CellAsym
{
public:
    class API : public LibFlatArray::api_traits::has_asymmetric_dual_callback
    {
    public:
        LIBFLATARRAY_CUSTOM_SIZES((8)(16)(24), (1)(4), (1)(3))
    };
    double a;
    int b[3];
    char k;
    CellAsym() : a(0), k(0) { b[0] = b[1] = b[2] = 0; }
};
LIBFLATARRAY_REGISTER_SOA(CellAsym, ((double)(a))((int)(b)(3))((char)(k)))

template<> struct Cell<CellAsym>
{
    static const char *name() { return "CellAsym"; }
    static const int DIMS = 3;
    static std::vector<long> xs() { return {8, 16, 24}; }
    static std::vector<long> ys() { return {1, 4}; }
    static std::vector<long> zs() { return {1, 3}; }
    static const bool UNIFORM = false;
    static const bool POD = true;
    template<typename C, typename F> static void visit(C& c, F& f) { f(&c.a, 1); f(&c.b[0], 3); f(&c.k, 1); }
};

// random cell types (see gen.py)
#ifdef GENSEED
#include <gencells.hpp>
#endif

// ---------------------------------------------------------------- values

// A cell's content is derived from a small tag drawn from the choice stream, so
// one draw per cell keeps histories short to shrink; tag 0 is the
// value-initialised cell.
inline std::uint64_t mixbits(std::uint64_t x)
{
    return pbt::splitmix(x);
}

inline void put(double& t, std::uint64_t h) { t = h ? double(long(h % 2000003) - 1000001) / 64.0 : 0.0; }
inline void put(float& t, std::uint64_t h) { t = h ? float(long(h % 200003) - 100001) / 8.0f : 0.0f; }
inline void put(int& t, std::uint64_t h) { t = int(h); }
inline void put(short& t, std::uint64_t h) { t = short(h); }
inline void put(char& t, std::uint64_t h) { t = char(h); }
inline void put(unsigned char& t, std::uint64_t h) { t = (unsigned char)(h); }
inline void put(bool& t, std::uint64_t h) { t = (h & 1) != 0; }
inline void put(long& t, std::uint64_t h) { t = long(h); }
inline void put(unsigned long& t, std::uint64_t h) { t = (unsigned long)(h); }
inline void put(NestPt& t, std::uint64_t h) { put(t.x, h); put(t.y, h ? h >> 20 : 0); }
inline void put(std::string& t, std::uint64_t h)
{
    if (!h) { t.clear(); return; }
    // spans both the small-string and the heap representation
    std::string s(h % 40, char('a' + h % 26));
    if (!s.empty()) s[s.size() / 2] = char('A' + (h >> 8) % 26);
    t = s;
}
inline void put(std::vector<int>& t, std::uint64_t h)
{
    t.clear();
    if (!h) return;
    for (std::size_t k = 0; k < h % 5; ++k) t.push_back(int(h >> (k + 1)));
}

template<typename M> inline bool same(const M& a, const M& b) { return std::memcmp(&a, &b, sizeof(M)) == 0; }
inline bool same(const std::string& a, const std::string& b) { return a == b; }
inline bool same(const std::vector<int>& a, const std::vector<int>& b) { return a == b; }

inline void show(std::ostream& o, double v) { o << v; }
inline void show(std::ostream& o, float v) { o << v; }
inline void show(std::ostream& o, int v) { o << v; }
inline void show(std::ostream& o, short v) { o << v; }
inline void show(std::ostream& o, char v) { o << int(v); }
inline void show(std::ostream& o, unsigned char v) { o << int(v); }
inline void show(std::ostream& o, bool v) { o << v; }
inline void show(std::ostream& o, long v) { o << v; }
inline void show(std::ostream& o, unsigned long v) { o << v; }
inline void show(std::ostream& o, const NestPt& v) { o << "(" << v.x << "," << v.y << ")"; }
inline void show(std::ostream& o, const std::string& v) { o << '"' << v << '"'; }
inline void show(std::ostream& o, const std::vector<int>& v)
{
    o << "[";
    for (std::size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
    o << "]";
}

struct PutVisitor
{
    std::uint64_t tag;
    int k;
    template<typename M> void operator()(M *m, int n)
    {
        for (int i = 0; i < n; ++i) { ++k; put(m[i], tag ? mixbits(tag * 1000 + std::uint64_t(k)) | 1 << 12 : 0); }
    }
};

template<typename CELL>
CELL make_cell(std::uint64_t tag)
{
    CELL c;
    PutVisitor v = {tag, 0};
    Cell<CELL>::visit(c, v);
    return c;
}

// flattens a cell into per-element byte strings for comparison
struct ShowVisitor
{
    std::ostringstream o;
    template<typename M> void operator()(M *m, int n)
    {
        for (int i = 0; i < n; ++i) { show(o, m[i]); o << ' '; }
    }
};

template<typename CELL>
std::string show_cell(const CELL& cell)
{
    CELL c(cell);
    ShowVisitor v;
    Cell<CELL>::visit(c, v);
    std::string s = v.o.str();
    if (s.size() > 160) s = s.substr(0, 160) + "...";
    return s;
}

struct Collect
{
    std::vector<std::pair<const void*, int> > ptr;
    template<typename M> void operator()(M *m, int n) { ptr.push_back(std::make_pair((const void*)m, n)); }
};

struct CompareVisitor
{
    const Collect *other;
    std::size_t k;
    bool equal;
    template<typename M> void operator()(M *m, int n)
    {
        const M *q = static_cast<const M*>(other->ptr[k++].first);
        for (int i = 0; i < n; ++i) if (!same(m[i], q[i])) equal = false;
    }
};

template<typename CELL>
bool cell_equal(const CELL& a, const CELL& b)
{
    Collect col;
    Cell<CELL>::visit(const_cast<CELL&>(b), col);
    CompareVisitor v = {&col, 0, true};
    Cell<CELL>::visit(const_cast<CELL&>(a), v);
    return v.equal;
}

// ---------------------------------------------------------------- raw images

// Reference for the packed struct-of-arrays image: members in registration order,
// each a contiguous run of `stride` values; an array member is `arity` such runs.
struct PackVisitor
{
    char *image;
    std::size_t stride;
    std::size_t slot;
    std::size_t base;     // bytes per cell before the current member
    bool write;           // cell -> image, else image -> cell
    template<typename M> void operator()(M *m, int n)
    {
        for (int k = 0; k < n; ++k) {
            char *p = image + base * stride + (std::size_t(k) * stride + slot) * sizeof(M);
            if (write) std::memcpy(p, &m[k], sizeof(M)); else std::memcpy((void*)&m[k], p, sizeof(M));
        }
        base += sizeof(M) * std::size_t(n);
    }
};

struct SizeVisitor
{
    std::size_t bytes;
    std::size_t members;
    template<typename M> void operator()(M *, int n) { bytes += sizeof(M) * std::size_t(n); ++members; }
};

template<typename CELL> std::size_t ref_cell_bytes()
{
    CELL c;
    SizeVisitor v = {0, 0};
    Cell<CELL>::visit(c, v);
    return v.bytes;
}

template<typename CELL> std::size_t ref_member_count()
{
    CELL c;
    SizeVisitor v = {0, 0};
    Cell<CELL>::visit(c, v);
    return v.members;
}

template<typename CELL>
void pack(char *image, std::size_t stride, std::size_t slot, const CELL& cell)
{
    CELL c(cell);
    PackVisitor v = {image, stride, slot, 0, true};
    Cell<CELL>::visit(c, v);
}

template<typename CELL>
void unpack(const char *image, std::size_t stride, std::size_t slot, CELL *cell)
{
    PackVisitor v = {const_cast<char*>(image), stride, slot, 0, false};
    Cell<CELL>::visit(*cell, v);
}

// ---------------------------------------------------------------- dimensions

struct Dims { long x, y, z; long n() const { return x * y * z; } };

inline long pick_dim(pbt::Ctx& c, const std::vector<long>& sizes, long cap)
{
    // around a configured size or anywhere below it
    std::vector<long> s;
    for (std::size_t i = 0; i < sizes.size(); ++i) if (sizes[i] <= cap) s.push_back(sizes[i]);
    if (s.empty()) s.push_back(cap);
    long base = s[c.below(s.size())];
    long v;
    switch (c.below(3)) {
    case 0: v = c.range(1, base); break;
    case 1: v = base - long(c.below(2)); break;
    default: v = base < s.back() ? base + 1 : base; break;
    }
    if (v < 1) v = 1;
    if (v > cap) v = cap;
    return v;
}

template<typename CELL, bool UNIFORM> struct DimGenImpl;

template<typename CELL> struct DimGenImpl<CELL, true>
{
    static Dims gen(pbt::Ctx& c)
    {
        Dims d = {1, 1, 1};
        int dims = Cell<CELL>::DIMS;
        if (dims == 0) dims = int(1 + c.below(3));
        std::vector<long> xs = Cell<CELL>::xs();
        // small extents keep cases cheap; now and then a plane or a volume is as wide as the next few sizes
        long limit = dims == 1 ? xs.back() : (dims == 2 ? (c.chance(1, 3) ? 270 : 70) : (c.chance(1, 8) ? 130 : 36));
        long cap = xs.back() < limit ? xs.back() : limit;
        d.x = pick_dim(c, xs, cap);
        if (dims > 1) d.y = c.chance(1, 4) ? pick_dim(c, xs, cap) : c.range(1, cap < 9 ? cap : 9);
        if (dims > 2) d.z = c.chance(1, 8) ? pick_dim(c, xs, cap) : c.range(1, cap < 5 ? cap : 5);
        // lines and planes in all directions
        if (dims > 1 && c.chance(1, 6)) {
            if (c.below(2)) d.x = c.range(1, 2);
            d.y = c.below(2) ? pick_dim(c, xs, cap) : c.range(1, 3);
            if (dims > 2) d.z = c.below(2) ? pick_dim(c, xs, cap) : c.range(1, 3);
        }
        // keep the number of cells moderate
        while (d.n() > 4000) { if (d.z > 4) d.z /= 2; else if (d.y > 4) d.y /= 2; else d.x /= 2; }
        // the default selector maps (x, 1, z>1) to its 1D list, which demands z == 1
        if (Cell<CELL>::DIMS == 0 && d.y == 1) d.z = 1;
        return d;
    }
    // extents the size selection must produce
    static Dims extent(Dims d)
    {
        std::vector<long> xs = Cell<CELL>::xs();
        long m = d.x > d.y ? d.x : d.y;
        if (d.z > m) m = d.z;
        long e = 0;
        for (std::size_t i = 0; i < xs.size() && !e; ++i) if (m <= xs[i]) e = xs[i];
        int dims = Cell<CELL>::DIMS;
        if (dims == 0) dims = d.y > 1 && d.z > 1 ? 3 : (d.y > 1 ? 2 : 1);
        Dims r = {e, dims > 1 ? e : 1, dims > 2 ? e : 1};
        return r;
    }
};

template<typename CELL> struct DimGenImpl<CELL, false>
{
    static Dims gen(pbt::Ctx& c)
    {
        Dims d;
        d.x = pick_dim(c, Cell<CELL>::xs(), Cell<CELL>::xs().back());
        d.y = pick_dim(c, Cell<CELL>::ys(), Cell<CELL>::ys().back());
        d.z = pick_dim(c, Cell<CELL>::zs(), Cell<CELL>::zs().back());
        return d;
    }
    static long up(const std::vector<long>& s, long v)
    {
        for (std::size_t i = 0; i < s.size(); ++i) if (v <= s[i]) return s[i];
        return 0;
    }
    static Dims extent(Dims d)
    {
        Dims r = {up(Cell<CELL>::xs(), d.x), up(Cell<CELL>::ys(), d.y), up(Cell<CELL>::zs(), d.z)};
        return r;
    }
};

template<typename CELL> struct DimGen : DimGenImpl<CELL, Cell<CELL>::UNIFORM> {};

// ---------------------------------------------------------------- large containers

// Layouts whose index and byte arithmetic leaves the 32-bit range although only a few cells exist (untouched memory
// stays unmapped). Sanitizers would map shadow memory for them, so they run in the other variants only.
#if !defined(__SANITIZE_ADDRESS__)
#if defined(__has_feature)
#if !__has_feature(address_sanitizer)
#define HAVE_HUGE 1
#endif
#else
#define HAVE_HUGE 1
#endif
#endif

class HugeChar
{
public:
    class API { public: LIBFLATARRAY_CUSTOM_SIZES((65536), (65536), (2)) };
    char v;
    HugeChar() : v(0) {}
};
LIBFLATARRAY_REGISTER_SOA(HugeChar, ((char)(v)))

template<> struct Cell<HugeChar>
{
    static const char *name() { return "HugeChar"; }
    static std::vector<long> xs() { return {65536}; }
    static std::vector<long> ys() { return {65536}; }
    static std::vector<long> zs() { return {2}; }
    static const int DIMS = 3;
    static const bool UNIFORM = false;
    static const bool POD = true;
    template<typename C, typename F> static void visit(C& c, F& f) { f(&c.v, 1); }
};

class HugeMix
{
public:
    class API { public: LIBFLATARRAY_CUSTOM_SIZES((1024), (1024), (16)(512)) };
    double a;
    char b[3];
    int k;
    double d;
    HugeMix() : a(0), k(0), d(0) { b[0] = b[1] = b[2] = 0; }
};
LIBFLATARRAY_REGISTER_SOA(HugeMix, ((char)(b)(3))((double)(a))((double)(d))((int)(k)))

template<> struct Cell<HugeMix>
{
    static const char *name() { return "HugeMix"; }
    static std::vector<long> xs() { return {1024}; }
    static std::vector<long> ys() { return {1024}; }
    static std::vector<long> zs() { return {16, 512}; }
    static const int DIMS = 3;
    static const bool UNIFORM = false;
    static const bool POD = true;
    template<typename C, typename F> static void visit(C& c, F& f) { f(&c.b[0], 3); f(&c.a, 1); f(&c.d, 1); f(&c.k, 1); }
};

// default sizes, the upper end of the lists
class HugeDef
{
public:
    float x;
    double y;
    HugeDef() : x(0), y(0) {}
};
LIBFLATARRAY_REGISTER_SOA(HugeDef, ((float)(x))((double)(y)))

template<> struct Cell<HugeDef>
{
    static const char *name() { return "HugeDef"; }
    static std::vector<long> xs() { return {1032, 32800}; }
    static const int DIMS = 0;
    static const bool UNIFORM = true;
    static const bool POD = true;
    template<typename C, typename F> static void visit(C& c, F& f) { f(&c.x, 1); f(&c.y, 1); }
};

// default sizes, long rows of a 1D grid
class LongDef
{
public:
    float x;
    short k[3];
    double y;
    LongDef() : x(0), y(0) { k[0] = k[1] = k[2] = 0; }
};
LIBFLATARRAY_REGISTER_SOA(LongDef, ((float)(x))((short)(k)(3))((double)(y)))

template<> struct Cell<LongDef>
{
    static const char *name() { return "LongDef"; }
    static const int DIMS = 1;
    static std::vector<long> xs() { return {2080, 4128, 8224, 16416, 32800, 65568, 131104}; }
    static const bool UNIFORM = true;
    static const bool POD = true;
    template<typename C, typename F> static void visit(C& c, F& f) { f(&c.x, 1); f(&c.k[0], 3); f(&c.y, 1); }
};

template<> struct DimGen<HugeChar>
{
    static Dims gen(pbt::Ctx& c) { Dims d = {c.skewed(1, 40), c.skewed(1, 20), c.range(1, 2)}; return d; }
    static Dims extent(Dims) { Dims r = {65536, 65536, 2}; return r; }
};
template<> struct DimGen<HugeMix>
{
    static Dims gen(pbt::Ctx& c) { Dims d = {c.skewed(1, 30), c.skewed(1, 5), c.below(3) ? c.range(17, 20) : c.range(1, 16)}; return d; }
    static Dims extent(Dims d) { Dims r = {1024, 1024, d.z <= 16 ? 16 : 512}; return r; }
};
template<> struct DimGen<HugeDef>
{
    static Dims gen(pbt::Ctx& c)
    {
        if (c.below(2)) { Dims d = {c.range(16417, 19000), c.range(2, 3), 1}; return d; }
        Dims d = {c.range(521, 1032), c.range(2, 3), c.range(2, 3)};
        return d;
    }
    static Dims extent(Dims d) { Dims r = {d.z > 1 ? 1032 : 32800, d.z > 1 ? 1032 : 32800, d.z > 1 ? 1032 : 1}; return r; }
};
template<> struct DimGen<LongDef>
{
    static Dims gen(pbt::Ctx& c)
    {
        const long B[] = {2080, 4096, 4128, 8224, 16416, 32767, 32800, 65536, 65568};
        long b = B[c.below(9)];
        Dims d = {c.below(3) ? b + c.range(-3, 3) : c.range(1057, b), 1, 1};
        return d;
    }
    static Dims extent(Dims d)
    {
        std::vector<long> xs = Cell<LongDef>::xs();
        Dims r = {0, 1, 1};
        for (std::size_t i = 0; i < xs.size() && !r.x; ++i) if (d.x <= xs[i]) r.x = xs[i];
        return r;
    }
};

#include <malloc.h>

// address space for two such containers
template<void (*FN)(pbt::Ctx&)>
void huge(pbt::Ctx& c)
{
    mallopt(M_PERTURB, 0);
    void *p = std::malloc(std::size_t(15) << 30);
    if (!p) { c.label("skipped: not enough address space"); return; }
    std::free(p);
    FN(c);
}

#endif
