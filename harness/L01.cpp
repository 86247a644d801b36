// L01: loop peelers visit every index of the range exactly once, full vectors only at aligned positions.
#include "sv.hpp"
#include <libflatarray/loop_peeler.hpp>
#include <libflatarray/flat_array.hpp>

namespace {

struct Log
{
    pbt::Ctx *c;
    std::vector<int> visits;      // per index, relative to lo
    long lo, hi;                  // range of the loop
    std::size_t arity;            // the full arity
    long scalar_calls, vector_calls;
    long vector_items;
    void visit(long x, std::size_t width)
    {
        if (width > 1) {
            if (x % long(width)) c->fail("a full vector was processed at index %ld, which is not a multiple of %zu", x, width);
            vector_items += long(width);
        }
        for (long i = x; i < x + long(width); ++i) {
            if (i < lo || i >= hi) c->fail("index %ld was visited (width %zu), the loop covers [%ld, %ld)", i, width, lo, hi);
            ++visits[std::size_t(i - lo)];
        }
    }
    void finish(long x) const
    {
        for (long i = lo; i < hi; ++i)
            if (visits[std::size_t(i - lo)] != 1) c->fail("index %ld of [%ld, %ld) was visited %d times", i, lo, hi, visits[std::size_t(i - lo)]);
        // (lo rounded up might not be representable)
        long skip = lo % long(arity) ? long(arity) - lo % long(arity) : 0, last = hi / long(arity) * long(arity);
        long want = hi - lo > skip && last > lo + skip ? last - (lo + skip) : 0;
        if (arity > 1 && vector_items != want) c->fail("%ld of %ld vectorizable iterations of [%ld, %ld) were vectorized (arity %zu)", vector_items, want, lo, hi, arity);
        if (x != (hi > lo ? hi : lo)) c->fail("the counter ended at %ld, expected %ld", x, hi > lo ? hi : lo);
    }
};

// a kernel, as users write it
template<typename SHORT_VEC, typename COUNTER>
void kernel(COUNTER& x, COUNTER end, Log *log)
{
    for (; x < end; x += COUNTER(SHORT_VEC::ARITY)) log->visit(long(x), SHORT_VEC::ARITY);
}

template<typename SV>
void log_scope(SV) {}

template<typename T, std::size_t N, typename COUNTER>
void in_template(COUNTER& x, COUNTER end, Log *log)
{
    typedef short_vec<T, N> SV;
    LIBFLATARRAY_LOOP_PEELER_TEMPLATE(SV, COUNTER, x, end, kernel, log);
}

template<typename T, std::size_t N, typename COUNTER>
void in_template_streaming(COUNTER& x, COUNTER end, Log *log)
{
    typedef LibFlatArray::streaming_short_vec<T, N> SV;
    LIBFLATARRAY_LOOP_PEELER_TEMPLATE(SV, COUNTER, x, end, kernel, log);
}

// bounds and counters as expressions
struct Cursor
{
    long pos;
    long& index() { return pos; }
};

template<typename T, std::size_t N>
void in_template_expr(Cursor& cur, long a, long b, bool pick, Log *log)
{
    typedef short_vec<T, N> SV;
    if (pick) {
        LIBFLATARRAY_LOOP_PEELER_TEMPLATE(SV, long, cur.index(), pick ? a + b : a, kernel, log);
    } else {
        LIBFLATARRAY_LOOP_PEELER_TEMPLATE(SV, long, *&cur.pos, a - -b, kernel, log);
    }
}

template<std::size_t N> void plain(long& x, long end, Log *log);
#define PLAIN(N)                                                        \
    template<> void plain<N>(long& x, long end, Log *log)               \
    {                                                                   \
        typedef short_vec<double, N> SV;                                \
        LIBFLATARRAY_LOOP_PEELER(SV, long, x, end, kernel, log);        \
    }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16) PLAIN(32)

struct Lambda
{
    Log *log;
    template<typename SV, typename X, typename E>
    void operator()(SV, X *x, const E& end) const
    {
        for (; *x < X(end); *x += X(SV::ARITY)) log->visit(long(*x), SV::ARITY);
    }
};

template<typename T, std::size_t N>
void peel(pbt::Ctx& c)
{
    Log log;
    log.c = &c;
    log.arity = N;
    log.scalar_calls = log.vector_calls = log.vector_items = 0;
    int how = int(c.below(10));
    // indices up to the limits of the counter's type
    int bits = how == 2 || how == 6 ? 31 : how == 7 ? 32 : 63;
    const long limit = long((1UL << bits) - 1);
    long base = 0;
    bool end_of_type = false;
    switch (c.below(6)) {
    case 3: base = c.range(0, 100000) * long(N); break;
    case 4: {
        int b = int(c.range(15, bits - 1));
        base = (1L << b) - c.range(0, 10) * long(N);
        if (c.below(2)) base += c.range(0, (1L << b) / long(N) - 20) * long(N);
        c.label(b >= 32 ? "indices beyond 32 bits" : "large indices");
        break;
    }
    case 5: end_of_type = true; c.label("last indices of the counter's type"); break;
    default: base = c.range(0, 3) * long(N);
    }
    if (end_of_type) {
        log.hi = limit - c.range(0, 2 * long(N));
        log.lo = c.below(8) == 7 ? log.hi : log.hi - c.range(0, 4 * long(N) + 1);
    } else {
        log.lo = base + c.range(0, 2 * long(N));
        log.hi = c.below(8) == 7 ? log.lo : log.lo + c.range(0, 4 * long(N) + 1);
    }
    log.visits.assign(std::size_t(log.hi - log.lo), 0);
    static const char *names[] = {"LOOP_PEELER_TEMPLATE, long", "LOOP_PEELER_TEMPLATE, size_t", "LOOP_PEELER_TEMPLATE, int", "LOOP_PEELER_TEMPLATE, streaming", "LOOP_PEELER",
                                  "loop_peeler(), long", "loop_peeler(), size_t/int", "loop_peeler(), unsigned", "loop_peeler(), size_t/long", "LOOP_PEELER_TEMPLATE, expressions"};
    c.note("%s: [%ld, %ld) with arity %zu", names[how], log.lo, log.hi, N);
    c.op();
    switch (how) {
    case 0: { long x = log.lo; in_template<T, N, long>(x, log.hi, &log); log.finish(x); break; }
    case 1: { std::size_t x = std::size_t(log.lo); in_template<T, N, std::size_t>(x, std::size_t(log.hi), &log); log.finish(long(x)); break; }
    case 2: { int x = int(log.lo); in_template<T, N, int>(x, int(log.hi), &log); log.finish(x); break; }
    case 3: { long x = log.lo; in_template_streaming<T, N, long>(x, log.hi, &log); log.finish(x); break; }
    case 4: { long x = log.lo; plain<N>(x, log.hi, &log); log.finish(x); break; }
    case 5: { long x = log.lo; Lambda l = {&log}; LibFlatArray::loop_peeler<short_vec<T, N> >(&x, log.hi, l); log.finish(x); break; }
    case 6: { std::size_t x = std::size_t(log.lo); int e = int(log.hi); Lambda l = {&log}; LibFlatArray::loop_peeler<short_vec<T, N> >(&x, e, l); log.finish(long(x)); break; }
    case 9: {
        Cursor cur = {log.lo};
        long b = c.range(0, log.hi);
        in_template_expr<T, N>(cur, log.hi - b, b, c.below(2) == 1, &log);
        log.finish(cur.pos);
        break;
    }
    case 8: { std::size_t x = std::size_t(log.lo); Lambda l = {&log}; LibFlatArray::loop_peeler<short_vec<T, N> >(&x, log.hi, l); log.finish(long(x)); break; }
    default: {
        unsigned x = unsigned(log.lo), e = unsigned(log.hi);
        Lambda l = {&log};
        LibFlatArray::loop_peeler<LibFlatArray::streaming_short_vec<T, N> >(&x, e, l);
        log.finish(long(x));
    }
    }
    c.label(names[how]);
    bool inner = log.lo / long(N) == log.hi / long(N) && log.lo % long(N) && log.hi > log.lo;
    if (inner) c.label("range inside one vector");
    if (log.vector_items) c.label("scalar prologue/epilogue and vector part");
    if (log.hi > log.lo) c.nontrivial();
}

// an actual computation, so that the vectorized and scalar parts have to agree on data
template<typename SV, typename COUNTER, typename T>
void axpy(COUNTER& x, COUNTER end, T *out, const T *in, const T a)
{
    for (; x < end; x += COUNTER(SV::ARITY)) {
        SV v(in + x);
        v += SV(T(a));
        (out + x) << v;
    }
}

template<typename T, std::size_t N>
void compute(pbt::Ctx& c)
{
    typedef short_vec<T, N> SV;
    long lo = c.range(0, 2 * long(N)), hi = lo + c.range(0, 4 * long(N));
    Buf<T> in(hi + c.range(0, 3), 0, 0), out(hi, std::size_t(c.below(4)) * sizeof(T));
    for (long i = 0; i < in.n; ++i) in.p[i] = T(i * 3);
    for (long i = 0; i < hi; ++i) out.p[i] = T(-1);
    T a = T(c.range(1, 9));
    c.note("out[i] = in[i] + %s for i in [%ld, %ld), arity %zu", show(a).c_str(), lo, hi, N);
    long x = lo;
    T *o = out.p;
    const T *in_ptr = in.p;
    LIBFLATARRAY_LOOP_PEELER_TEMPLATE(SV, long, x, hi, axpy, o, in_ptr, a);
    for (long i = 0; i < hi; ++i) {
        T want = i < lo ? T(-1) : T(i * 3) + a;
        PBT_CHECK(out.p[i] == want, "element %ld is %s, expected %s (range [%ld, %ld), arity %zu)", i, show(out.p[i]).c_str(), show(want).c_str(), lo, hi, N);
    }
    PBT_CHECK(out.intact(), "wrote outside the output array");
    c.op();
    if (hi > lo) c.nontrivial();
}

}

SV_TARGETS(L01_visits, peel)
SV_TARGETS(L01_compute, compute)
