// S01: short_vec arithmetic is element-wise scalar arithmetic.
#include "sv.hpp"

namespace {

template<typename T> bool fits(char op, T a, T b, T *r)
{
    switch (op) {
    case '+': *r = a + b; break;
    case '-': *r = a - b; break;
    default: *r = a * b;
    }
    return true;
}
template<> bool fits<int>(char op, int a, int b, int *r)
{
    switch (op) {
    case '+': return !__builtin_add_overflow(a, b, r);
    case '-': return !__builtin_sub_overflow(a, b, r);
    default: return !__builtin_mul_overflow(a, b, r);
    }
}

template<typename V> V apply(char op, const V& a, const V& b)
{
    switch (op) {
    case '+': return a + b;
    case '-': return a - b;
    default: return a * b;
    }
}

template<typename V> void assign(char op, V& a, const V& b)
{
    switch (op) {
    case '+': a += b; break;
    case '-': a -= b; break;
    default: a *= b;
    }
}

template<typename T, typename V> V scalar_first(char op, T a, const V& b)
{
    switch (op) {
    case '+': return a + b;
    case '-': return a - b;
    default: return a * b;
    }
}

template<typename T, std::size_t N>
void arith(pbt::Ctx& c)
{
    typedef short_vec<T, N> V;
    const int R = 4;
    // registers
    V v[R];
    T m[R][N];
    for (int r = 0; r < R; ++r) {
        if (c.below(4) == 3) {
            T s = Gen<T>::any(c);
            v[r] = V(s);
            for (std::size_t i = 0; i < N; ++i) m[r][i] = s;
        } else {
            for (std::size_t i = 0; i < N; ++i) m[r][i] = Gen<T>::any(c);
            v[r].load(m[r]);
        }
        c.note("r%d = %s", r, showv(m[r], int(N)).c_str());
    }
    int steps = int(c.range(1, 8));
    int done = 0;
    for (int k = 0; k < steps; ++k) {
        c.op();
        static const char ops[] = {'+', '-', '*'};
        char op = ops[c.below(3)];
        int d = int(c.below(R)), a = int(c.below(R)), b = int(c.below(R));
        int form = int(c.below(4));
        T s = 0;
        if (form == 1) a = d;
        if (form >= 2) s = Gen<T>::any(c);
        // operands of this step; integer lanes that would overflow are replaced
        T ra[N], rb[N], res[N];
        for (std::size_t i = 0; i < N; ++i) { ra[i] = form == 2 ? s : m[a][i]; rb[i] = form == 3 ? s : m[b][i]; }
        bool ok = true;
        for (std::size_t i = 0; i < N; ++i) ok = ok && fits(op, ra[i], rb[i], &res[i]);
        if (!ok) {
            if (form >= 2) { s = T(c.range(-3, 3)); }
            T *lhs = m[a], *rhs = m[b];
            for (std::size_t i = 0; i < N; ++i) {
                if (form != 2) { lhs[i] = T(long(lhs[i]) % 40000); }
                if (form != 3) { rhs[i] = T(long(rhs[i]) % 40000); }
            }
            v[a].load(m[a]);
            v[b].load(m[b]);
            ok = true;
            for (std::size_t i = 0; i < N; ++i) { ra[i] = form == 2 ? s : m[a][i]; rb[i] = form == 3 ? s : m[b][i]; ok = ok && fits(op, ra[i], rb[i], &res[i]); }
            if (!ok) continue;
        }
        switch (form) {
        case 0:
            c.note("r%d = r%d %c r%d", d, a, op, b);
            v[d] = apply(op, v[a], v[b]);
            break;
        case 1:
            c.note("r%d %c= r%d", d, op, b);
            assign(op, v[d], v[b]);
            if (b == d) c.label("compound assignment with itself");
            break;
        case 2:
            c.note("r%d = %s %c r%d", d, show(s).c_str(), op, b);
            v[d] = scalar_first(op, s, v[b]);
            break;
        default:
            c.note("r%d = r%d %c %s", d, a, op, show(s).c_str());
            v[d] = apply<V>(op, v[a], V(s));
        }
        for (std::size_t i = 0; i < N; ++i) m[d][i] = res[i];
        ++done;
        for (int r = 0; r < R; ++r) {
            T got[N];
            lanes(got, v[r]);
            for (std::size_t i = 0; i < N; ++i)
                PBT_CHECK(same(got[i], m[r][i]), "short_vec<%s, %zu>: after step %d lane %zu of r%d is %s, scalar arithmetic (%s %c %s) gives %s", TName<T>::n(), N, k, i, r,
                          show(got[i]).c_str(), r == d ? show(ra[i]).c_str() : "unchanged", r == d ? op : ' ', r == d ? show(rb[i]).c_str() : "", show(m[r][i]).c_str());
        }
    }
    if (done >= 2) c.nontrivial();
}

}

SV_TARGETS(S01, arith)
