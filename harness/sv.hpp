// Common parts of the short_vec checks.
#ifndef VERIF_SV_HPP
#define VERIF_SV_HPP

#include "pbt.hpp"
#include <cmath>
#include <limits>
#include <sstream>
#include <type_traits>
#include <libflatarray/short_vec.hpp>
#include <libflatarray/streaming_short_vec.hpp>

using LibFlatArray::short_vec;

template<typename T> struct TName;
template<> struct TName<float> { static const char *n() { return "float"; } };
template<> struct TName<double> { static const char *n() { return "double"; } };
template<> struct TName<int> { static const char *n() { return "int"; } };

template<typename T> bool same(T a, T b) { return a == b ? (a != 0 || std::signbit(a) == std::signbit(b)) : (a != a && b != b); }
template<> inline bool same<int>(int a, int b) { return a == b; }

// bit identity: what plain data movement must preserve
template<typename T> bool identical(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }

template<typename T> std::string show(T v) { char b[64]; std::snprintf(b, sizeof b, "%.17g", double(v)); return b; }
template<typename T> std::string showv(const T *p, int n)
{
    std::string r = "[";
    for (int i = 0; i < n; ++i) { if (i) r += ", "; r += show(p[i]); }
    return r + "]";
}

// n objects of T at a chosen misalignment, with canaries on both sides, or flush with the end of the heap block so that ASan sees reads beyond it
template<typename T>
struct Buf
{
    char *raw;
    T *p;
    long n;
    std::size_t total, lead;
    Buf(long n_, std::size_t lead_, std::size_t tail = 64) : n(n_), lead(lead_)
    {
        total = 128 + lead + sizeof(T) * std::size_t(n) + tail;
        void *q = 0;
        if (posix_memalign(&q, 128, total)) std::abort();
        raw = static_cast<char *>(q);
        std::memset(raw, 0x5C, total);
        p = reinterpret_cast<T *>(raw + 128 + lead);
    }
    ~Buf() { std::free(raw); }
    bool intact() const
    {
        const char *b = reinterpret_cast<const char *>(p);
        for (const char *c = raw; c != b; ++c) if (*c != 0x5C) return false;
        for (const char *c = b + sizeof(T) * std::size_t(n); c != raw + total; ++c) if (*c != 0x5C) return false;
        return true;
    }
private:
    Buf(const Buf&);
    void operator=(const Buf&);
};

template<typename T> struct Gen
{
    // any finite value, specials included
    static T any(pbt::Ctx& c)
    {
        switch (c.below(8)) {
        case 0: return T(c.range(0, 20));
        case 1: return T(-c.range(0, 20));
        case 2: return T(c.range(-100000, 100000)) / T(7);
        case 3: return std::ldexp(T(1) + T(c.below(1u << 20)) / T(1u << 20), int(c.range(-60, 60)));
        case 4: return -std::ldexp(T(1) + T(c.below(1u << 20)) / T(1u << 20), int(c.range(-60, 60)));
        case 5: return T(0.5) + T(c.range(-8, 8));
        case 6: return T(c.range(-1000, 1000));
        default: {
            static const T s[] = {T(0), -T(0), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(),
                                  std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::max()};
            return s[c.below(9)];
        }
        }
    }
};

template<> struct Gen<int>
{
    static int any(pbt::Ctx& c)
    {
        switch (c.below(7)) {
        case 0: return int(c.range(0, 20));
        case 1: return int(-c.range(0, 20));
        case 2: return int(c.range(-1000, 1000));
        case 3: return int(c.range(-46340, 46340));
        case 4: return int(c.range(-(1l << 30), 1l << 30));
        case 5: return int(1u << c.below(31));
        default: return int(std::uint32_t(c.bits()));
        }
    }
};

// feature detection: not every specialisation offers every operation
template<typename V, typename = void> struct HasIndex : std::false_type {};
template<typename V> struct HasIndex<V, decltype(void(std::declval<const V&>()[0]))> : std::true_type {};
template<typename V, typename = void> struct HasCompare : std::false_type {};
template<typename V> struct HasCompare<V, decltype(void(static_cast<typename V::mask_type>(std::declval<const V&>() < std::declval<const V&>())))> : std::true_type {};
template<typename V, typename = void> struct HasBlend : std::false_type {};
template<typename V> struct HasBlend<V, decltype(void(std::declval<V&>().blend(std::declval<const typename V::mask_type&>(), std::declval<const V&>())))> : std::true_type {};

template<typename V, typename = void> struct HasAny : std::false_type {};
template<typename V> struct HasAny<V, decltype(void(static_cast<bool>(std::declval<const V&>().any())))> : std::true_type {};

template<typename V, typename = void> struct SizeOf { static std::size_t value() { return V::ARITY; } };
template<typename V> struct SizeOf<V, decltype(void(V::size()))> { static std::size_t value() { return V::size(); } };

#ifdef SV_FOREIGN
template<typename V> struct AlignOf { static const std::size_t value = 128; };
#else
template<typename V> struct AlignOf { static const std::size_t value = std::size_t(V::strategy::template alignment<float>::ALIGNMENT); };
#endif

// the lanes of a vector, read the most basic way
template<typename T, std::size_t N>
void lanes(T *out, const short_vec<T, N>& v)
{
    v.store(out);
}

#define SV_TARGETS(PROP, FN)                    \
    SV_T(PROP, FN, 1) SV_T(PROP, FN, 2) SV_T(PROP, FN, 4) SV_T(PROP, FN, 8) SV_T(PROP, FN, 16) SV_T(PROP, FN, 32)
#define SV_CAT_(A, B, C, D) A##_##B##_##C
#define SV_T(PROP, FN, N) SV_T2(PROP, FN, SV_TYPE, N)
#define SV_T2(PROP, FN, TY, N) SV_T3(PROP, FN, TY, N)
#define SV_T3(PROP, FN, TY, N) PBT_REGISTER(PROP##_##TY##_##N, (&FN<TY, N>))

#if UNIT == 1
#define SV_TYPE float
#elif UNIT == 2
#define SV_TYPE double
#else
#define SV_TYPE int
#endif

#endif
