// S05: streaming_short_vec computes and stores what short_vec does.
#include "sv.hpp"
#include <libflatarray/loop_peeler.hpp>

namespace {

using LibFlatArray::streaming_short_vec;

// what a kernel sees of the types a loop peeler hands to it
struct Seen
{
    bool wrong_type, wrong_values;
    long scalars, vectors;
};

template<typename SV, typename T, std::size_t N, bool STREAMING>
void look(Seen *seen)
{
    typedef typename std::conditional<STREAMING, streaming_short_vec<T, SV::ARITY>, short_vec<T, SV::ARITY> >::type Want;
    if (!std::is_same<SV, Want>::value) seen->wrong_type = true;
    if (SV::ARITY == 1) seen->scalars += 1;
    else seen->vectors += 1;
}

template<typename T, std::size_t N, bool STREAMING>
struct Peel
{
    typedef typename std::conditional<STREAMING, streaming_short_vec<T, N>, short_vec<T, N> >::type Vec;

    template<typename SV>
    static void kernel(long& x, long end, Seen *seen)
    {
        for (; x < end; x += long(SV::ARITY)) look<SV, T, N, STREAMING>(seen);
    }

    struct Lambda
    {
        Seen *seen;
        template<typename SV, typename X, typename E>
        void operator()(SV, X *x, const E& end) const
        {
            for (; *x < X(end); *x += X(SV::ARITY)) look<SV, T, N, STREAMING>(seen);
        }
    };

    static void run(pbt::Ctx& c)
    {
        long lo = c.range(0, 3 * long(N)), hi = lo + c.range(0, 5 * long(N));
        Seen seen = {false, false, 0, 0};
        long x = lo;
        bool macro = c.below(2) == 1;
        c.note("%s over [%ld, %ld) with %sshort_vec<%s, %zu>", macro ? "LOOP_PEELER_TEMPLATE" : "loop_peeler()", lo, hi, STREAMING ? "streaming_" : "", TName<T>::n(), N);
        if (macro) {
            Seen *s = &seen;
            LIBFLATARRAY_LOOP_PEELER_TEMPLATE(Vec, long, x, hi, kernel, s);
        } else {
            Lambda l = {&seen};
            LibFlatArray::loop_peeler<Vec>(&x, hi, l);
        }
        PBT_CHECK(!seen.wrong_type, "a loop peeler for %sshort_vec<%s, %zu> handed a vector of another family or element type to its kernel", STREAMING ? "streaming_" : "", TName<T>::n(), N);
        c.label("sibling types");
    }
};

template<typename T, std::size_t N>
void siblings(pbt::Ctx& c)
{
    if (c.below(3)) Peel<T, N, true>::run(c);
    else Peel<T, N, false>::run(c);
    c.op();
    c.nontrivial();
}

// comparisons and blends, where offered
template<typename V, typename W, bool OK> struct Select
{
    static void run(pbt::Ctx&, V&, W&, const V&, int) {}
};
template<typename V, typename W> struct Select<V, W, true>
{
    static void run(pbt::Ctx& c, V& v, W& w, const V& o, int op)
    {
        typename V::mask_type a, b;
        switch (op) {
        case 0: a = v < o; b = w < o; break;
        case 1: a = v <= o; b = w <= o; break;
        case 2: a = v == o; b = w == o; break;
        case 3: a = v > o; b = w > o; break;
        default: a = v >= o; b = w >= o;
        }
        for (std::size_t i = 0; i < V::ARITY; ++i)
            PBT_CHECK((LibFlatArray::get(a, int(i)) != 0) == (LibFlatArray::get(b, int(i)) != 0), "comparison %d of a streaming_short_vec differs from short_vec in lane %zu", op, i);
        v.blend(a, o);
        w.blend(b, o);
    }
};

template<typename T, std::size_t N>
void streaming(pbt::Ctx& c)
{
    typedef short_vec<T, N> V;
    typedef streaming_short_vec<T, N> W;
    const std::size_t A = AlignOf<V>::value;
    V v;
    W w;
    T x[32];
    int steps = int(c.range(1, 6));
    for (int k = 0; k < steps; ++k) {
        c.op();
        for (int i = 0; i < 32; ++i) x[i] = std::is_same<T, int>::value ? T(c.range(-100, 100)) : Gen<T>::any(c);
        V o(static_cast<const T *>(x));
        switch (c.below(16)) {
        case 0: c.note("broadcast %s", show(x[0]).c_str()); v = V(x[0]); w = W(x[0]); break;
        case 1: c.note("construct from pointer"); v = V(static_cast<const T *>(x)); w = W(static_cast<const T *>(x)); break;
        case 2: c.note("load"); v.load(x); w.load(x); break;
        case 3: {
            c.note("from initializer_list");
            v = V(static_cast<const T *>(x));
            W q = {x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15],
                   x[16], x[17], x[18], x[19], x[20], x[21], x[22], x[23], x[24], x[25], x[26], x[27], x[28], x[29], x[30], x[31]};
            w = q;
            break;
        }
        case 4: c.note("= v + o"); v = V(v + o); w = W(w + o); break;
        case 5: c.note("= v - o"); v = V(v - o); w = w - o; break;
        case 6: {
            c.note("*= o");
            T t[N], z[N];
            v.store(t);
            bool ok = true;
            for (std::size_t i = 0; i < N; ++i) ok = ok && (!std::is_same<T, int>::value || (t[i] < T(10000000) && t[i] > T(-10000000)));
            if (!ok) break;
            v *= o;
            w *= o;
            break;
        }
        case 7: c.note("+= o"); v += o; w += o; break;
        case 8: c.note("-= o"); v -= o; w -= o; break;
        case 9: c.note("load_aligned"); { Buf<T> q(N + 0l, 0, 0); for (std::size_t i = 0; i < N; ++i) q.p[i] = x[i]; v.load_aligned(q.p); w.load_aligned(q.p); } break;
        case 10: c.note("compare and blend"); Select<V, W, HasCompare<V>::value && HasBlend<V>::value && !std::is_same<T, int>::value>::run(c, v, w, o, int(c.below(5))); break;
        case 11: {
            c.note("= v / o");
            bool ok = true;
            for (std::size_t i = 0; i < N; ++i) ok = ok && x[i] != T(0);
            if (!ok) break;
            V q(v / o);
            W p(w / o);
            v = q;
            w = p;
            break;
        }
        case 12: c.note("copy"); { W q(w); w = W(x[1]); w = q; } break;
        case 13: c.note("scatter"); {
            alignas(64) int off[N];
            for (std::size_t i = 0; i < N; ++i) off[i] = int(2 * ((i * 7 + 3) % N));
            Buf<T> q(2 * N + 0l, 0), p(2 * N + 0l, 0);
            for (std::size_t i = 0; i < 2 * N; ++i) q.p[i] = p.p[i] = T(3);
            v.scatter(q.p, off);
            w.scatter(p.p, off);
            for (std::size_t i = 0; i < 2 * N; ++i)
                PBT_CHECK(identical(q.p[i], p.p[i]) || same(q.p[i], p.p[i]), "scatter of a streaming_short_vec<%s, %zu> leaves %s in element %zu, short_vec %s", TName<T>::n(), N, show(p.p[i]).c_str(), i, show(q.p[i]).c_str());
            PBT_CHECK(p.intact(), "scatter wrote outside of its elements");
            break;
        }
        case 14: {
            c.note("sqrt");
            using LibFlatArray::sqrt;
            for (std::size_t i = 0; i < N; ++i) x[i] = T(c.range(0, 100)) * T(c.range(0, 100));
            v = V(static_cast<const T *>(x));
            w = W(static_cast<const T *>(x));
            v = V(sqrt(v));
            w = W(sqrt(w));
            break;
        }
        default: {
            c.note("gather");
            alignas(64) int off[N];
            for (std::size_t i = 0; i < N; ++i) off[i] = int(c.below(32));
            v.gather(x, off);
            w.gather(x, off);
        }
        }
        // integers must not overflow
        if (std::is_same<T, int>::value) {
            T t[N];
            v.store(t);
            for (std::size_t i = 0; i < N; ++i)
                if (t[i] > T(1000000000) || t[i] < T(-1000000000)) return;
        }
        int how = int(c.below(4));
        std::size_t lead = std::size_t(c.below(4)) * A % 128;
        static const char *names[] = {"store", "store_aligned", "operator<<", "store_nt"};
        Buf<T> b(N + 0l, lead), r(N + 0l, lead);
        v.store(r.p);
        switch (how) {
        case 0: w.store(b.p); break;
        case 1: w.store_aligned(b.p); break;
        case 2: b.p << w; break;
        default: w.store_nt(b.p);
        }
        for (std::size_t i = 0; i < N; ++i)
            PBT_CHECK(identical(b.p[i], r.p[i]) || same(b.p[i], r.p[i]), "streaming_short_vec<%s, %zu>::%s gives %s in lane %zu, short_vec holds %s", TName<T>::n(), N, names[how],
                      show(b.p[i]).c_str(), i, show(r.p[i]).c_str());
        PBT_CHECK(b.intact(), "streaming %s wrote outside its %zu elements", names[how], N);
        c.label(names[how]);
    }
    c.nontrivial();
}

}

SV_TARGETS(S05, streaming)
#ifndef SV_FOREIGN
SV_TARGETS(S05_siblings, siblings)
#endif
