// S02: short_vecs move data faithfully: construction, load, store, gather, scatter, lane access, output.
#include "sv.hpp"
#include <initializer_list>
#include <set>
#include <sys/mman.h>
#include <unistd.h>

namespace {

template<typename T> T bits_any(pbt::Ctx& c)
{
    // arbitrary bit patterns but no signalling NaNs
    if (c.below(2)) return Gen<T>::any(c);
    std::uint64_t b = c.bits();
    T v;
    std::memcpy(&v, &b, sizeof(T));
    if (v != v) v = T(c.range(0, 9));
    return v;
}

template<typename T, std::size_t N, bool OK> struct Index
{
    static void check(pbt::Ctx& c, const short_vec<T, N>& v, const T *m)
    {
        for (std::size_t i = 0; i < N; ++i) {
            PBT_CHECK(identical(T(v[int(i)]), m[i]), "lane %zu read by operator[] is %s, expected %s", i, show(T(v[int(i)])).c_str(), show(m[i]).c_str());
            T g = LibFlatArray::get(v, int(i));
            PBT_CHECK(identical(g, m[i]), "get(vec, %zu) is %s, expected %s", i, show(g).c_str(), show(m[i]).c_str());
        }
        c.label("lane access");
    }
};
template<typename T, std::size_t N> struct Index<T, N, false> { static void check(pbt::Ctx&, const short_vec<T, N>&, const T *) {} };

template<typename T, std::size_t N>
void expect(pbt::Ctx& c, const short_vec<T, N>& v, const T *m, const char *after, std::size_t lead)
{
    typedef short_vec<T, N> V;
    const std::size_t A = AlignOf<V>::value;
    int how = int(c.below(5));
    static const char *names[] = {"store", "operator<<", "store_aligned", "store_nt", "const store"};
    bool aligned = how == 2 || how == 3;
    Buf<T> b(N + 0l, aligned ? (lead / A) * A : lead);
    switch (how) {
    case 0: v.store(b.p); break;
    case 1: b.p << v; break;
    case 2: v.store_aligned(b.p); break;
    case 3: v.store_nt(b.p); break;
    default: { const V w(v); w.store(b.p); }
    }
    for (std::size_t i = 0; i < N; ++i)
        PBT_CHECK(identical(b.p[i], m[i]), "after %s: %s gives %s in lane %zu, expected %s", after, names[how], show(b.p[i]).c_str(), i, show(m[i]).c_str());
    PBT_CHECK(b.intact(), "%s wrote outside its %zu elements", names[how], N);
    PBT_CHECK(SizeOf<V>::value() == N && std::size_t(V::ARITY) == N, "wrong arity");
    Index<T, N, HasIndex<V>::value>::check(c, v, m);
}

template<typename T, std::size_t N>
void moves(pbt::Ctx& c)
{
    typedef short_vec<T, N> V;
    const std::size_t A = AlignOf<V>::value;
    V v;
    T m[N];
    for (std::size_t i = 0; i < N; ++i) m[i] = T(0);
    expect(c, v, m, "default construction", 0);
    int steps = int(c.range(1, 6));
    for (int k = 0; k < steps; ++k) {
        c.op();
        std::size_t lead = std::size_t(c.below(16)) * sizeof(T) % 128;
        const char *what = "";
        switch (c.below(9)) {
        case 0: {
            T s = bits_any<T>(c);
            c.note("v = short_vec(%s)", show(s).c_str());
            v = V(s);
            for (std::size_t i = 0; i < N; ++i) m[i] = s;
            what = "broadcast";
            break;
        }
        case 1:
        case 2:
        case 3: {
            int how = int(c.below(3));
            Buf<T> b(N + 0l, how == 2 ? lead / A * A : lead, 0);
            for (std::size_t i = 0; i < N; ++i) m[i] = b.p[i] = bits_any<T>(c);
            c.note("v %s %s", how == 0 ? "load" : how == 1 ? "construct from pointer" : "load_aligned", showv(m, int(N)).c_str());
            switch (how) {
            case 0: v.load(b.p); break;
            case 1: v = V(static_cast<const T *>(b.p)); break;
            default: v.load_aligned(b.p);
            }
            what = "load";
            break;
        }
        case 4: {
            // initializer lists need a fixed length; more than ARITY elements are allowed
            T x[32];
            for (int i = 0; i < 32; ++i) x[i] = bits_any<T>(c);
            V w = {x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15],
                   x[16], x[17], x[18], x[19], x[20], x[21], x[22], x[23], x[24], x[25], x[26], x[27], x[28], x[29], x[30], x[31]};
            v = w;
            for (std::size_t i = 0; i < N; ++i) m[i] = x[i];
            c.note("v = {%s}", showv(x, int(N)).c_str());
            what = "construction from initializer_list";
            break;
        }
        case 5:
        case 6: {
            // offsets anywhere around the base pointer, repeated ones included
            long span = c.range(1, 200), base = c.range(0, span - 1);
            Buf<T> b(span, lead, 0);
            for (long i = 0; i < span; ++i) b.p[i] = T(i % 97) + T(1);
            Buf<int> off(N + 0l, A >= 64 ? 0 : std::size_t(c.below(8)) * 4, 0);   // AVX512 demands aligned offsets
            bool neg = false;
            for (std::size_t i = 0; i < N; ++i) {
                off.p[i] = int(c.range(0, span - 1) - base);
                neg = neg || off.p[i] < 0;
                m[i] = b.p[base + off.p[i]];
            }
            if (neg) c.label("negative offsets");
            c.note("gather(base + %ld of %ld, %s)", base, span, showv(off.p, int(N)).c_str());
            v.gather(b.p + base, off.p);
            PBT_CHECK(b.intact() && off.intact(), "gather changed memory");
            what = "gather";
            break;
        }
        case 7: {
            long span = c.range(N + 0l, long(N) + 120), base = c.range(0, span - 1);
            Buf<T> b(span, lead);
            std::vector<T> ref(std::size_t(span), T(0));
            for (long i = 0; i < span; ++i) b.p[i] = ref[std::size_t(i)] = T(i + 1000);
            std::vector<int> perm;
            for (long i = 0; i < span; ++i) perm.push_back(int(i));
            Buf<int> off(N + 0l, A >= 64 ? 0 : std::size_t(c.below(8)) * 4, 0);   // AVX512 demands aligned offsets
            for (std::size_t i = 0; i < N; ++i) {
                std::swap(perm[i], perm[i + std::size_t(c.below(std::uint64_t(span) - i))]);
                off.p[i] = perm[i] - int(base);
                ref[std::size_t(perm[i])] = m[i];
            }
            c.note("scatter(base + %ld of %ld, %s)", base, span, showv(off.p, int(N)).c_str());
            v.scatter(b.p + base, off.p);
            for (long i = 0; i < span; ++i)
                PBT_CHECK(identical(b.p[i], ref[std::size_t(i)]), "scatter: element %ld is %s, expected %s", i, show(b.p[i]).c_str(), show(ref[std::size_t(i)]).c_str());
            PBT_CHECK(b.intact() && off.intact(), "scatter wrote outside the designated elements");
            what = "scatter";
            break;
        }
        default: {
            std::ostringstream s, r;
            s << v;
            r << "[";
            for (std::size_t i = 0; i < N; ++i) { if (i) r << ", "; r << m[i]; }
            r << "]";
            c.note("ostream << v");
            PBT_CHECK(s.str() == r.str(), "printed as %s, lanes are %s", s.str().c_str(), r.str().c_str());
            what = "output";
        }
        }
        expect(c, v, m, what, lead);
    }
    c.nontrivial();
}

// Offsets are ints, so a gather reaches 2^31 elements in either direction. The address space is reserved, not
// filled: only the pages of the lanes in question are ever touched.
struct Far
{
    char *base;
    std::size_t bytes;
    explicit Far(std::size_t element) : base(0), bytes(element << 32)
    {
        void *p = mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p != MAP_FAILED) base = static_cast<char *>(p);
    }
    ~Far() { if (base) munmap(base, bytes); }
};

template<typename T, std::size_t N>
void far_moves(pbt::Ctx& c)
{
    typedef short_vec<T, N> V;
    Far f(sizeof(T));
    if (!f.base) {
        c.label("address space exhausted");
        return;
    }
    T *mid = reinterpret_cast<T *>(f.base) + (1l << 31);
    Buf<int> off(N + 0l, 0, 0);
    std::set<int> used;
    for (std::size_t i = 0; i < N; ++i) {
        do {
            long k;
            switch (c.below(4)) {
            case 0: k = c.range(-64, 64); break;
            case 1: k = (1l << c.range(8, 31)) + c.range(-2, 2); break;
            case 2: k = -(1l << c.range(8, 31)) + c.range(-2, 2); break;
            default: k = int(std::uint32_t(c.bits()));
            }
            if (k > 2147483647l) k = 2147483647l;
            if (k < -2147483647l - 1) k = -2147483647l - 1;
            off.p[i] = int(k);
            while (used.count(off.p[i])) off.p[i] = off.p[i] == -2147483647 - 1 ? 2147483647 : off.p[i] - 1;
        } while (used.count(off.p[i]));
        used.insert(off.p[i]);
    }
    c.note("lanes at %s", showv(off.p, int(N)).c_str());
    T m[N], got[N];
    for (std::size_t i = 0; i < N; ++i) m[i] = bits_any<T>(c);
    c.op();
    if (c.below(2)) {
        for (std::size_t i = 0; i < N; ++i) mid[off.p[i]] = m[i];
        V v;
        v.gather(mid, off.p);
        v.store(got);
        for (std::size_t i = 0; i < N; ++i)
            PBT_CHECK(identical(got[i], m[i]), "gather: lane %zu (offset %d) is %s, expected %s", i, off.p[i], show(got[i]).c_str(), show(m[i]).c_str());
        c.label("far gather");
    } else {
        V v(static_cast<const T *>(m));
        v.scatter(mid, off.p);
        for (std::size_t i = 0; i < N; ++i)
            PBT_CHECK(identical(mid[off.p[i]], m[i]), "scatter: element %d (lane %zu) is %s, expected %s", off.p[i], i, show(mid[off.p[i]]).c_str(), show(m[i]).c_str());
        c.label("far scatter");
    }
    c.nontrivial();
}

}

SV_TARGETS(S02, moves)
SV_TARGETS(S02_far, far_moves)
