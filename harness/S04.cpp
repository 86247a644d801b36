// S04: division and square roots: accuracy for floating point, C++ semantics for integers.
#include "sv.hpp"

namespace {

template<typename T> struct Tol;
// single precision divisions may be estimated
#if defined(__ARM_NEON__) && defined(VERIF_INCREASED_PRECISION)
// one more step of refinement
template<> struct Tol<float> { static double div() { return 1.0 / (1 << 20); } static double sqrt() { return 1.0 / (1 << 20); } };
#elif defined(__ARM_NEON__)
// roots too
template<> struct Tol<float> { static double div() { return 1.0 / 1024; } static double sqrt() { return 1.0 / (1 << 13); } };
#else
template<> struct Tol<float> { static double div() { return 1.0 / 1024; } static double sqrt() { return 1.0 / (1 << 20); } };
#endif
template<> struct Tol<double> { static double div() { return 1e-14; } static double sqrt() { return 1e-14; } };

template<typename T> T moderate(pbt::Ctx& c, bool positive)
{
    T v;
    switch (c.below(4)) {
    case 0: v = T(c.range(1, 20)); break;
    case 1: v = T(c.range(1, 100000)) / T(7); break;
    case 2: v = std::ldexp(T(1) + T(c.below(1u << 20)) / T(1u << 20), int(c.range(-40, 40))); break;
    default: v = T(c.range(1, 1000)) * T(c.range(1, 1000)); break;
    }
    return !positive && c.below(2) ? -v : v;
}

bool close(double got, double want, double tol)
{
    if (want != want) return got != got;
    if (std::isinf(want) || std::isinf(got)) return got == want;
    return std::fabs(got - want) <= tol * std::fabs(want);
}

template<typename T, std::size_t N>
void check(pbt::Ctx& c, const T *got, const double *want, double tol, const T *x, const T *y, const char *what)
{
    for (std::size_t i = 0; i < N; ++i)
        PBT_CHECK(close(double(got[i]), want[i], tol), "short_vec<%s, %zu>: %s for x = %s, y = %s gives %s in lane %zu, exact value %.17g, allowed relative error %g", TName<T>::n(), N, what,
                  show(x[i]).c_str(), show(y[i]).c_str(), show(got[i]).c_str(), i, want[i], tol);
}

template<typename T, std::size_t N>
void real(pbt::Ctx& c)
{
    typedef short_vec<T, N> V;
    T x[N], y[N], got[N];
    double want[N];
    int op = int(c.below(11));
    bool root = op >= 4;
    for (std::size_t i = 0; i < N; ++i) {
        x[i] = moderate<T>(c, op == 4 || op == 5 || op == 8 || op == 9);
        y[i] = moderate<T>(c, root);
        // zeros: numerators of divisions, roots
        if (c.below(16) == 15 && op < 8) x[i] = T(0);
    }
    if (op == 2) for (std::size_t i = 1; i < N; ++i) x[i] = x[0];
    if (op == 3 || op == 9) for (std::size_t i = 1; i < N; ++i) y[i] = y[0];
    V a(static_cast<const T *>(x)), b(static_cast<const T *>(y));
    const double TD = Tol<T>::div();
    c.note("x = %s, y = %s", showv(x, int(N)).c_str(), showv(y, int(N)).c_str());
    c.op();
    switch (op) {
    case 0: { c.note("x / y"); V r = a / b; r.store(got); break; }
    case 1: { c.note("x /= y"); V r(a); r /= b; r.store(got); break; }
    case 2: { c.note("scalar / y"); V r = x[0] / b; r.store(got); break; }
    case 3: { c.note("x / scalar"); V r = a / V(y[0]); r.store(got); break; }
    case 4: { c.note("sqrt(x)"); V r = sqrt(a); r.store(got); break; }
    case 5: { c.note("x.sqrt()"); V r = a.sqrt(); r.store(got); break; }
    case 6: { c.note("x / sqrt(y)"); V r = a / sqrt(b); r.store(got); break; }
    case 7: { c.note("x /= sqrt(y)"); V r(a); r /= sqrt(b); r.store(got); break; }
    case 8: { c.note("sqrt(x) / y"); V r = sqrt(a) / b; r.store(got); break; }
    case 9: { c.note("sqrt(x) / scalar"); V r = sqrt(a) / y[0]; r.store(got); break; }
    default: {
        c.note("x / x, numerator and denominator the same object");
        V r(a);
        r /= r;
        r.store(got);
        for (std::size_t i = 0; i < N; ++i) y[i] = x[i];
    }
    }
    for (std::size_t i = 0; i < N; ++i) {
        double X = double(x[i]), Y = double(y[i]);
        switch (op) {
        case 4: case 5: want[i] = std::sqrt(X); break;
        case 6: case 7: want[i] = X / std::sqrt(Y); break;
        case 8: case 9: want[i] = std::sqrt(X) / Y; break;
        default: want[i] = X / Y;
        }
    }
    static const char *names[] = {"x / y", "x /= y", "scalar / y", "x / scalar", "sqrt(x)", "x.sqrt()", "x / sqrt(y)", "x /= sqrt(y)", "sqrt(x) / y", "sqrt(x) / scalar", "x / x"};
    check<T, N>(c, got, want, op == 4 || op == 5 ? Tol<T>::sqrt() : TD, x, y, names[op]);
    c.label(names[op]);
    c.nontrivial();
}

template<typename T, std::size_t N>
void integer(pbt::Ctx& c)
{
    typedef short_vec<int, N> V;
    int x[N], y[N], got[N];
    int op = int(c.below(8));
    for (std::size_t i = 0; i < N; ++i) {
        switch (op) {
        case 0: case 1: case 2: case 3:
            x[i] = Gen<int>::any(c);
            switch (c.below(4)) {
            case 0: y[i] = int(c.range(1, 9)); break;
            case 1: y[i] = int(-c.range(1, 9)); break;
            case 2: y[i] = int(c.range(1, 50000)); break;
            default: y[i] = Gen<int>::any(c);
            }
            if (c.below(4) == 3) {
                // just below, at and above a multiple of the denominator
                long q = c.range(-40000, 40000);
                long p = q * long(y[i] % 50000) + c.range(-1, 1);
                x[i] = int(p);
                y[i] = y[i] % 50000;
            }
            if (y[i] == 0) y[i] = 3;
            if (x[i] == std::numeric_limits<int>::min() && y[i] == -1) y[i] = 1;
            break;
        case 4: case 5: {
            // perfect squares
            int r = int(c.range(0, 2000));
            x[i] = r * r;
            y[i] = r;
            break;
        }
        default: {
            // multiples of roots of perfect squares
            int r = int(c.range(1, 500)), k = int(c.range(-200, 200));
            x[i] = r * k;
            y[i] = r * r;
        }
        }
    }
    if (op == 2) for (std::size_t i = 1; i < N; ++i) x[i] = x[0];
    if (op == 3) for (std::size_t i = 1; i < N; ++i) y[i] = y[0];
    if (op == 2 || op == 3)
        for (std::size_t i = 0; i < N; ++i)
            if (x[i] == std::numeric_limits<int>::min() && y[i] == -1) return;
    c.note("x = %s, y = %s", showv(x, int(N)).c_str(), showv(y, int(N)).c_str());
    V a(static_cast<const int *>(x)), b(static_cast<const int *>(y));
    c.op();
    switch (op) {
    case 0: { V r = a / b; r.store(got); break; }
    case 1: { V r(a); r /= b; r.store(got); break; }
    case 2: { V r = x[0] / b; r.store(got); break; }
    case 3: { V r = a / V(y[0]); r.store(got); break; }
    case 4: { V r = sqrt(a); r.store(got); break; }
    case 5: { V r = a.sqrt(); r.store(got); break; }
    case 6: { V r = a / sqrt(b); r.store(got); break; }
    default: { V r(a); r /= sqrt(b); r.store(got); }
    }
    static const char *names[] = {"x / y", "x /= y", "scalar / y", "x / scalar", "sqrt(x)", "x.sqrt()", "x / sqrt(y)", "x /= sqrt(y)"};
    for (std::size_t i = 0; i < N; ++i) {
        int want = op < 4 ? x[i] / y[i] : op < 6 ? y[i] : x[i] / int(std::sqrt(double(y[i])) + 0.5);
        PBT_CHECK(got[i] == want, "short_vec<int, %zu>: %s for x = %d, y = %d gives %d in lane %zu, expected %d", N, names[op], x[i], y[i], got[i], i, want);
    }
    c.label(names[op]);
    c.nontrivial();
}

}

#if UNIT == 3
SV_TARGETS(S04, integer)
#else
SV_TARGETS(S04, real)
#endif
