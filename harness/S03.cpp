// S03: comparisons yield per-lane masks; any, get, count_mask and blend agree with them.
#include "sv.hpp"

namespace {

template<typename V> typename V::mask_type compare(int op, const V& a, const V& b)
{
    switch (op) {
    case 0: return a < b;
    case 1: return a <= b;
    case 2: return a == b;
    case 3: return a > b;
    default: return a >= b;
    }
}
template<typename T> bool ref(int op, T a, T b)
{
    switch (op) {
    case 0: return a < b;
    case 1: return a <= b;
    case 2: return a == b;
    case 3: return a > b;
    default: return a >= b;
    }
}
const char *OPS[] = {"<", "<=", "==", ">", ">="};

template<typename M> bool lane_set(const M& mask, int i) { return LibFlatArray::get(mask, i) != 0; }
template<typename M> bool any_set(const M& mask) { return LibFlatArray::any(mask) != 0; }
#ifdef __ARM_NEON__
// NEON masks are registers with all bits of a lane set or cleared, the library offers no any() or get() for these
template<> bool lane_set<uint32x4_t>(const uint32x4_t& mask, int i) { return mask[i] == 0xFFFFFFFFu; }
template<> bool any_set<uint32x4_t>(const uint32x4_t& mask) { return mask[0] || mask[1] || mask[2] || mask[3]; }
#endif

template<typename T, std::size_t N, bool B> struct Blend
{
    static void check(pbt::Ctx& c, const typename short_vec<T, N>::mask_type& mask, const bool *bits, std::size_t n)
    {
        typedef short_vec<T, N> V;
        T x[N], y[N], got[N];
        for (std::size_t i = 0; i < N; ++i) { x[i] = Gen<T>::any(c); y[i] = Gen<T>::any(c); }
        V a(static_cast<const T *>(x)), b(static_cast<const T *>(y));
        int how = int(c.below(4));
        bool swapped = false;
        switch (how) {
        case 0: { V r(a); r.blend(mask, b); r.store(got); break; }
        case 1: { V r = LibFlatArray::blend(a, b, mask); r.store(got); break; }
        case 2: {
            // blending in a broadcast scalar
            V r(a);
            r.blend(mask, V(y[0]));
            for (std::size_t i = 0; i < N; ++i) y[i] = y[0];
            r.store(got);
            break;
        }
        default: {
            V r(a);
            r.blend(mask, a);
            for (std::size_t i = 0; i < N; ++i) y[i] = x[i];
            r.store(got);
        }
        }
        for (std::size_t i = 0; i < N; ++i) {
            T e = bits[i] ? y[i] : x[i];
            PBT_CHECK(identical(got[i], e), "short_vec<%s, %zu> blend (form %d): lane %zu is %s, mask bit is %d, candidates were %s (clear) and %s (set)", TName<T>::n(), N, how, i,
                      show(got[i]).c_str(), int(bits[i]), show(x[i]).c_str(), show(y[i]).c_str());
        }
        std::size_t cnt = LibFlatArray::count_mask<T, N>(mask);
        PBT_CHECK(cnt == n, "short_vec<%s, %zu>: count_mask gives %zu for a mask with %zu lanes set", TName<T>::n(), N, cnt, n);
        c.label("blend");
    }
};
template<typename T, std::size_t N> struct Blend<T, N, false>
{
    static void check(pbt::Ctx&, const typename short_vec<T, N>::mask_type&, const bool *, std::size_t) {}
};

template<typename T, std::size_t N, bool OK> struct Masks
{
    static void run(pbt::Ctx& c)
    {
        typedef short_vec<T, N> V;
        T x[N], y[N];
        int shape = int(c.below(4));
        for (std::size_t i = 0; i < N; ++i) {
            x[i] = Gen<T>::any(c);
            y[i] = c.below(3) ? Gen<T>::any(c) : x[i];
        }
        // mostly-uniform masks: exactly one lane differs from the rest
        if (shape >= 2) {
            std::size_t odd = std::size_t(c.below(N));
            T lo = T(c.range(-5, 5)), hi = lo + T(1);
            for (std::size_t i = 0; i < N; ++i) { x[i] = shape == 2 ? hi : lo; y[i] = shape == 2 ? lo : hi; }
            std::swap(x[odd], y[odd]);
            c.label("one lane differs");
        }
        int op = int(c.below(5));
        bool bits[N];
        std::size_t n = 0;
        for (std::size_t i = 0; i < N; ++i) { bits[i] = ref(op, x[i], y[i]); n += bits[i]; }
        c.note("%s %s %s", showv(x, int(N)).c_str(), OPS[op], showv(y, int(N)).c_str());
        V a(static_cast<const T *>(x)), b(static_cast<const T *>(y));
        typename V::mask_type mask = compare(op, a, b);
        bool some = any_set(mask);
        PBT_CHECK(some == (n > 0), "short_vec<%s, %zu>: any(a %s b) is %d although %zu lanes satisfy it", TName<T>::n(), N, OPS[op], int(some), n);
        for (std::size_t i = 0; i < N; ++i)
            PBT_CHECK(lane_set(mask, int(i)) == bits[i], "short_vec<%s, %zu>: lane %zu of %s %s %s is reported %s", TName<T>::n(), N, i, show(x[i]).c_str(), OPS[op], show(y[i]).c_str(),
                      bits[i] ? "false" : "true");
        Blend<T, N, HasBlend<V>::value>::check(c, mask, bits, n);
        if (n == 0) c.label("no lane set");
        if (n == N) c.label("all lanes set");
        if (n > 0 && n < N) c.label("mixed mask");
        c.op();
        if ((n > 0 && n < N) || N == 1) c.nontrivial();
    }
};
template<typename T, std::size_t N> struct Masks<T, N, false> { static void run(pbt::Ctx& c) { c.label("no comparisons offered"); } };

// any() of a vector itself: is there a non-zero lane? (Instruction sets differ with respect to negative zeroes.)
template<typename T, std::size_t N, bool OK> struct AnyLane
{
    static void run(pbt::Ctx& c)
    {
        typedef short_vec<T, N> V;
        T x[N];
        std::size_t n = 0, want = c.below(3) == 0 ? std::size_t(c.below(N + 1)) : std::size_t(c.below(2));
        for (std::size_t i = 0; i < N; ++i) x[i] = T(0);
        for (std::size_t k = 0; k < want; ++k) {
            T v = Gen<T>::any(c);
            if (!(v == T(0))) x[c.below(N)] = v;
        }
        for (std::size_t i = 0; i < N; ++i) n += !(x[i] == T(0));
        c.note("any%s", showv(x, int(N)).c_str());
        V a(static_cast<const T *>(x));
        bool got = a.any() != 0, free_function = LibFlatArray::any(a) != 0;
        PBT_CHECK(got == (n > 0) && free_function == got, "short_vec<%s, %zu>: any() of %s is %d (member) and %d (function)", TName<T>::n(), N, showv(x, int(N)).c_str(), int(got), int(free_function));
        c.label("any() of a vector");
        c.op();
        if (n > 0) c.nontrivial();
    }
};
template<typename T, std::size_t N> struct AnyLane<T, N, false> { static void run(pbt::Ctx& c) { c.label("vector offers no any()"); } };

template<typename T, std::size_t N>
void masks(pbt::Ctx& c) { if (c.below(4) == 0) AnyLane<T, N, HasAny<short_vec<T, N> >::value>::run(c); else Masks<T, N, HasCompare<short_vec<T, N> >::value>::run(c); }

}

#if UNIT == 3
PBT_REGISTER(S03_int_1, (&masks<int, 1>))
#else
SV_TARGETS(S03, masks)
#endif
