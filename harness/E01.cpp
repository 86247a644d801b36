// E01: selected vector types fit the machine, the working set and their stated alignment.
#include "sv.hpp"
#include <libflatarray/flat_array.hpp>
#include <libflatarray/alignment.hpp>
#include <libflatarray/estimate_optimum_short_vec_type.hpp>
#include <libflatarray/ilp_to_arity.hpp>

class E4 { public: float a; };
class E8 { public: double a; };
class E24 { public: double a, b; int c[2]; };
class E40 { public: double a[4]; char c; };
LIBFLATARRAY_REGISTER_SOA(E4, ((float)(a)))
LIBFLATARRAY_REGISTER_SOA(E8, ((double)(a)))
LIBFLATARRAY_REGISTER_SOA(E24, ((double)(a))((double)(b))((int)(c)(2)))
LIBFLATARRAY_REGISTER_SOA(E40, ((double)(a)(4))((char)(c)))

namespace {

// bits of a vector register of the targeted machine
#if defined(__AVX512F__)
const int BITS = 512;
#elif defined(__AVX__)
const int BITS = 256;
#elif defined(__SSE__)
const int BITS = 128;
#else
const int BITS = 0;
#endif

template<typename V> struct Streams { static const bool value = false; };
template<typename T, std::size_t N> struct Streams<LibFlatArray::streaming_short_vec<T, N> > { static const bool value = true; };

template<typename V> struct Element;
template<template<typename, std::size_t> class S, typename T, std::size_t N> struct Element<S<T, N> > { typedef T type; static const std::size_t arity = N; };

// aligned accesses work at every multiple of the stated alignment
template<typename T, typename V>
void exercise(pbt::Ctx& c)
{
    const std::size_t N = Element<V>::arity, A = LibFlatArray::alignment<V>::VALUE;
    Buf<T> in(long(N), A * c.below(4)), out(long(N), A * c.below(4));
    c.note("%zu lanes of %s at %zu and %zu bytes past a 64 byte boundary, alignment %zu", N, TName<T>::n(), in.lead, out.lead, A);
    for (std::size_t i = 0; i < N; ++i) in.p[i] = T(c.range(-1000, 1000));
    T raw[N];
    V v(T(0));
    v.load_aligned(in.p);
    V w(v);
    int how = int(c.below(3));
    if (how == 0) w.store_aligned(out.p); else if (how == 1) w.store_nt(out.p); else w.store(out.p);
    for (std::size_t i = 0; i < N; ++i)
        PBT_CHECK(out.p[i] == in.p[i], "lane %zu is %s, expected %s", i, show(out.p[i]).c_str(), show(in.p[i]).c_str());
    PBT_CHECK(out.intact(), "store wrote outside of its lanes");
    (void)raw;
}

struct Row
{
    const char *text;
    std::size_t arity, value_arity, expected_arity;
    bool streams, expected_streams, right_type;
    std::size_t alignment, expected_alignment;
    void (*exercise)(pbt::Ctx&);
};

template<typename T, int UNROLL, typename E>
Row row(bool streams, const char *text)
{
    typedef typename E::VALUE V;
    Row r;
    r.text = text;
    r.arity = E::ARITY;
    r.value_arity = Element<V>::arity;
    r.expected_arity = std::size_t(UNROLL) * (BITS ? BITS / 8 / sizeof(T) : 1);
    r.streams = Streams<V>::value;
    r.expected_streams = streams;
    r.right_type = std::is_same<typename Element<V>::type, T>::value && LibFlatArray::ilp_to_arity<T, UNROLL>::ARITY == r.expected_arity;
    r.alignment = LibFlatArray::alignment<V>::VALUE;
    r.expected_alignment = LibFlatArray::alignment<short_vec<T, Element<V>::arity> >::VALUE;
    r.exercise = &exercise<T, V>;
    return r;
}

#include <genestimates.hpp>

}

PBT_TARGET(E01_estimates)
{
    const std::size_t N = sizeof(gen_rows) / sizeof(gen_rows[0]);
    const Row& r = gen_rows[c.below(N)];
    c.note("estimate_optimum_short_vec_type<%s>", r.text);
    PBT_CHECK(r.arity == r.expected_arity && r.value_arity == r.expected_arity, "%s: arity is %zu (type: %zu), a register holds %d bits, expected %zu", r.text, r.arity, r.value_arity, BITS, r.expected_arity);
    PBT_CHECK(r.right_type, "%s: wrong element type, or ilp_to_arity disagrees", r.text);
    PBT_CHECK(r.streams == r.expected_streams, "%s: %s stores were selected", r.text, r.streams ? "streaming" : "plain");
    PBT_CHECK(r.alignment == r.expected_alignment, "%s: alignments of plain and streaming vectors differ", r.text);
    c.label(r.streams ? "streaming" : "plain");
    r.exercise(c);
    c.op();
    c.nontrivial();
}

namespace {

struct IlpRow { const char *type; std::size_t size, ilp, arity; };

template<typename T, std::size_t ILP> struct IlpRows
{
    static void add(std::vector<IlpRow>& rows, const char *type)
    {
        IlpRows<T, ILP - 1>::add(rows, type);
        IlpRow r = {type, sizeof(T), ILP, LibFlatArray::ilp_to_arity<T, ILP>::ARITY};
        rows.push_back(r);
    }
};
template<typename T> struct IlpRows<T, 0> { static void add(std::vector<IlpRow>&, const char *) {} };

const std::vector<IlpRow>& ilp_rows()
{
    static std::vector<IlpRow> rows;
    if (rows.empty()) {
#define ILP_TYPE(T) IlpRows<T, 40>::add(rows, #T);
        ILP_TYPE(char) ILP_TYPE(unsigned char) ILP_TYPE(bool) ILP_TYPE(short) ILP_TYPE(unsigned short) ILP_TYPE(int) ILP_TYPE(unsigned)
        ILP_TYPE(long) ILP_TYPE(unsigned long) ILP_TYPE(long long) ILP_TYPE(float) ILP_TYPE(double) ILP_TYPE(long double)
    }
    return rows;
}

}

// the arity follows from the element's size and the unrolling factor alone, also for types that have no short_vec (yet)
PBT_TARGET(E01_ilp)
{
    const IlpRow& r = ilp_rows()[c.below(ilp_rows().size())];
    std::size_t expected = r.ilp * (BITS ? BITS / 8 / r.size : 1);
    c.note("ilp_to_arity<%s, %zu>", r.type, r.ilp);
    PBT_CHECK(r.arity == expected, "ilp_to_arity<%s, %zu>::ARITY is %zu, %zu elements of %zu bytes fill %zu registers of %d bits", r.type, r.ilp, r.arity, expected, r.size, r.ilp, BITS);
    c.op();
    c.nontrivial();
}
