// C01: containers share no hidden state: threads that use different containers, only read the same ones or store to different
// cells through accessors obtain exactly what they would obtain alone.
#include "cells.hpp"
#include <libflatarray/flat_array.hpp>
#include <libflatarray/aligned_allocator.hpp>
#include <libflatarray/loop_peeler.hpp>
#include <libflatarray/member_ptr_to_offset.hpp>
#include <atomic>
#include <memory>
#include <sstream>
#include <thread>

namespace {

struct Op { int kind, repeat; std::uint64_t seed; };

// all threads leave it at the same time
class Gate
{
public:
    explicit Gate(int n) : left(n) {}
    void pass() { left.fetch_sub(1); while (left.load() > 0) std::this_thread::yield(); }
private:
    std::atomic<int> left;
};

// what a thread found wrong
struct Findings
{
    std::string text;
    bool bad(const std::string& s) { if (text.empty()) text = s; return false; }
};

inline std::size_t pick(std::uint64_t& r, std::size_t n) { return std::size_t(pbt::splitmix(r) % n); }

template<typename CELL>
struct SumKernel
{
    const std::vector<CELL> *m;
    Dims d;
    std::uint64_t seed;
    int repeat;
    bool *ok;
    template<typename A> void operator()(A& a) const
    {
        std::uint64_t r = seed;
        for (int i = 0; i < repeat; ++i) {
            std::size_t k = pick(r, m->size());
            a.index() = A::gen_index(long(k) % d.x, long(k) / d.x % d.y, long(k) / d.x / d.y);
            CELL x;
            a >> x;
            if (!cell_equal(x, (*m)[k])) *ok = false;
        }
    }
};

// moves cells of the first grid to the second one
template<typename CELL>
struct MoveKernel
{
    Dims d;
    template<typename A, typename B> void operator()(A& a, B& b) const
    {
        for (long z = 0; z < d.z; ++z)
            for (long y = 0; y < d.y; ++y) {
                a.index() = A::gen_index(0L, y, z);
                b.index() = B::gen_index(0L, y, z);
                for (long x = 0; x < d.x; ++x) {
                    CELL t;
                    a >> t;
                    b << t;
                    ++a;
                    ++b;
                }
            }
    }
};

// what all threads may read
template<typename CELL>
struct Shared
{
    Dims d;
    std::unique_ptr<LibFlatArray::soa_grid<CELL> > grid;
    std::vector<CELL> grid_model;
    LibFlatArray::soa_array<CELL, 40> array;
    std::vector<CELL> array_model;
    LibFlatArray::soa_vector<CELL> vector;
    std::vector<CELL> vector_model;
};

template<typename CELL>
bool grid_holds(const LibFlatArray::soa_grid<CELL>& g, Dims d, const std::vector<CELL>& m, std::uint64_t& r, int samples)
{
    for (int i = 0; i < samples; ++i) {
        std::size_t k = pick(r, m.size());
        if (!cell_equal(g.get(k % std::size_t(d.x), k / std::size_t(d.x) % std::size_t(d.y), k / std::size_t(d.x * d.y)), m[k])) return false;
    }
    return true;
}

template<typename T, int ARITY>
bool vectors(std::uint64_t& r, std::uint64_t tag)
{
    typedef LibFlatArray::short_vec<T, ARITY> V;
    alignas(64) T a[ARITY], b[ARITY], got[ARITY];
    T expected[ARITY];
    int offsets[ARITY];
    for (int i = 0; i < ARITY; ++i) {
        a[i] = T(pick(r, 30) + tag % 30);
        b[i] = T(1 << pick(r, 5));
        offsets[i] = int(pick(r, ARITY));
        expected[i] = (a[i] * b[i] + T(7) - b[i]) * b[i];
    }
    V v(&a[0]), w(&b[0]), x(T(7));
    v = (v * w + x - w) * w;
    v.store(&got[0]);
    for (int i = 0; i < ARITY; ++i) if (got[i] != expected[i]) return false;
    V g;
    g.gather(&a[0], &offsets[0]);
    g.store_aligned(&got[0]);
    for (int i = 0; i < ARITY; ++i) if (got[i] != a[offsets[i]]) return false;
    w.scatter(&got[0], &offsets[0]);
    for (int i = 0; i < ARITY; ++i) {
        int last = -1;
        for (int j = 0; j < ARITY; ++j) if (int(offsets[j]) == i) last = j;
        if (last >= 0 && got[i] != b[last]) return false;
    }
    return true;
}

template<typename CELL, bool POD> struct Images
{
    static bool check(const Shared<CELL>& s, LibFlatArray::soa_grid<CELL>& own, std::uint64_t& r, Findings& f)
    {
        const Dims d = s.d;
        std::size_t y = pick(r, std::size_t(d.y)), z = pick(r, std::size_t(d.z)), n = std::size_t(d.x);
        std::vector<char> image(n * ref_cell_bytes<CELL>() + 16, 0x5C), expected(image);
        s.grid->save(0, y, z, image.data(), n);
        for (std::size_t x = 0; x < n; ++x) pack(expected.data(), n, x, s.grid_model[(z * std::size_t(d.y) + y) * n + x]);
        if (image != expected) return f.bad("save() of a shared grid yields a wrong image");
        own.resize(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z));
        own.load(0, y, z, image.data(), n);
        for (std::size_t x = 0; x < n; ++x)
            if (!cell_equal(own.get(x, y, z), s.grid_model[(z * std::size_t(d.y) + y) * n + x])) return f.bad("load() into a thread's own grid stores a wrong cell");
        return true;
    }
};
template<typename CELL> struct Images<CELL, false> { static bool check(const Shared<CELL>&, LibFlatArray::soa_grid<CELL>&, std::uint64_t&, Findings&) { return true; } };

template<typename V> void twice(long& i, long end, const double *in, double *out)
{
    for (; i + long(V::ARITY) <= end; i += long(V::ARITY)) {
        V v(in + i);
        v *= V(2.0);
        v.store(out + i);
    }
}

// push_back() may ask for a fifth more than there is
template<typename CELL>
bool may_grow(std::size_t n) { return std::max(double(n) + 1, double(n) * 1.2) <= double(Cell<CELL>::xs().back()); }

template<typename CELL>
bool perform(const Op& op, const Shared<CELL>& s, LibFlatArray::soa_grid<CELL>& own, std::uint64_t tag, Findings& f)
{
    std::uint64_t r = op.seed;
    const Dims d = s.d;
    for (int k = 0; k < op.repeat; ++k) switch (op.kind) {
    case 0:
        if (!grid_holds(*s.grid, d, s.grid_model, r, 6)) return f.bad("get() of a shared grid yields a wrong cell");
        break;
    case 1: {
        std::size_t y = pick(r, std::size_t(d.y)), z = pick(r, std::size_t(d.z)), x = pick(r, std::size_t(d.x)), n = 1 + pick(r, std::size_t(d.x) - x);
        std::vector<CELL> cells(n, make_cell<CELL>(tag));
        const LibFlatArray::soa_grid<CELL>& g = *s.grid;
        g.get(x, y, z, cells.data(), n);
        for (std::size_t i = 0; i < n; ++i)
            if (!cell_equal(cells[i], s.grid_model[(z * std::size_t(d.y) + y) * std::size_t(d.x) + x + i])) return f.bad("batch get() of a shared grid yields a wrong cell");
        break;
    }
    case 2:
        if (!Images<CELL, Cell<CELL>::POD>::check(s, own, r, f)) return false;
        break;
    case 3: {
        bool ok = true;
        SumKernel<CELL> kernel = {&s.grid_model, d, pbt::splitmix(r), 8, &ok};
        const LibFlatArray::soa_grid<CELL>& g = *s.grid;
        g.callback(kernel);
        if (!ok) return f.bad("a callback on a shared grid sees a wrong cell");
        break;
    }
    case 4: {
        LibFlatArray::soa_grid<CELL> copy(*s.grid);
        if (!grid_holds(copy, d, s.grid_model, r, 6)) return f.bad("a copy of a shared grid holds a wrong cell");
        own = *s.grid;
        if (!grid_holds(own, d, s.grid_model, r, 6)) return f.bad("a grid assigned from a shared grid holds a wrong cell");
        break;
    }
    case 5: {
        own.resize(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z));
        const LibFlatArray::soa_grid<CELL>& g = *s.grid;
        g.callback(&own, MoveKernel<CELL>{d});
        if (!grid_holds(own, d, s.grid_model, r, 6)) return f.bad("a dual callback from a shared grid stored a wrong cell");
        break;
    }
    case 6: {
        // a grid of its own
        Dims e = {1 + long(pick(r, std::size_t(d.x))), 1 + long(pick(r, std::size_t(d.y))), 1 + long(pick(r, std::size_t(d.z)))};
        if (Cell<CELL>::DIMS == 0 && e.y == 1) e.z = 1;
        own.resize(std::size_t(e.x), std::size_t(e.y), std::size_t(e.z));
        std::vector<CELL> m(std::size_t(e.n()), make_cell<CELL>(0));
        CELL v = make_cell<CELL>(tag + pbt::splitmix(r) % 1000);
        for (long z = 0; z < e.z; ++z) for (long y = 0; y < e.y; ++y) {
            own.broadcast(0, std::size_t(y), std::size_t(z), v, std::size_t(e.x));
            for (long x = 0; x < e.x; ++x) m[std::size_t((z * e.y + y) * e.x + x)] = v;
        }
        for (int i = 0; i < 6; ++i) {
            std::size_t q = pick(r, m.size());
            m[q] = make_cell<CELL>(tag + pbt::splitmix(r) % 1000);
            own.set(q % std::size_t(e.x), q / std::size_t(e.x) % std::size_t(e.y), q / std::size_t(e.x * e.y), &m[q], 1);
        }
        if (!grid_holds(own, e, m, r, 12)) return f.bad("a thread's own grid holds a wrong cell");
        break;
    }
    case 7: {
        for (int i = 0; i < 6; ++i) {
            std::size_t q = pick(r, s.array_model.size());
            CELL x;
            if (i % 2) s.array[int(q)] >> x; else s.array.at(q) >> x;
            if (!cell_equal(x, s.array_model[q])) return f.bad("reading a shared soa_array yields a wrong cell");
        }
        LibFlatArray::soa_array<CELL, 40> a(s.array);
        LibFlatArray::soa_array<CELL, 56> b;
        b = s.array;
        CELL v = make_cell<CELL>(tag + pbt::splitmix(r) % 1000);
        a.pop_back();
        a.push_back(v);
        b << v;
        for (std::size_t i = 0; i < s.array_model.size(); ++i) {
            CELL x, y;
            a[int(i)] >> x;
            b[int(i)] >> y;
            if (!cell_equal(x, i + 1 == s.array_model.size() ? v : s.array_model[i])) return f.bad("a copy of a shared soa_array holds a wrong cell");
            if (!cell_equal(y, s.array_model[i])) return f.bad("an soa_array assigned from a shared one holds a wrong cell");
        }
        break;
    }
    case 8: {
        for (int i = 0; i < 6; ++i) {
            std::size_t q = pick(r, s.vector_model.size());
            if (!cell_equal(s.vector.get(q), s.vector_model[q])) return f.bad("get() of a shared soa_vector yields a wrong element");
        }
        bool ok = true;
        SumKernel<CELL> kernel = {&s.vector_model, {long(s.vector_model.size()), 1, 1}, pbt::splitmix(r), 8, &ok};
        s.vector.callback(kernel);
        if (!ok) return f.bad("a callback on a shared soa_vector sees a wrong element");
        LibFlatArray::soa_vector<CELL> v(s.vector);
        std::vector<CELL> m(s.vector_model);
        std::size_t grow = pick(r, 12);
        for (std::size_t i = 0; i < grow && may_grow<CELL>(m.size()); ++i) {
            m.push_back(make_cell<CELL>(tag + i));
            v.push_back(m.back());
        }
        for (std::size_t i = 0; i < m.size(); ++i)
            if (!cell_equal(v.get(i), m[i])) return f.bad("a thread's own soa_vector holds a wrong element");
        break;
    }
    case 9: {
        LibFlatArray::aligned_allocator<double, 64> alloc;
        double *in[3], *out[3];
        std::size_t n[3];
        for (int i = 0; i < 3; ++i) {
            n[i] = 1 + pick(r, 70);
            in[i] = alloc.allocate(n[i]);
            out[i] = alloc.allocate(n[i]);
            for (std::size_t j = 0; j < n[i]; ++j) in[i][j] = double(tag % 1000) + double(j) + 100.0 * i;
        }
        bool ok = true;
        for (int i = 0; i < 3; ++i) {
            long at = 0;
            typedef LibFlatArray::short_vec<double, 8> V;
            LIBFLATARRAY_LOOP_PEELER(V, long, at, long(n[i]), twice, in[i], out[i]);
        }
        for (int i = 0; i < 3; ++i) {
            for (std::size_t j = 0; j < n[i]; ++j) if (out[i][j] != 2 * (double(tag % 1000) + double(j) + 100.0 * i)) ok = false;
            alloc.deallocate(in[i], n[i]);
            alloc.deallocate(out[i], n[i]);
        }
        if (!ok) return f.bad("vectors computed in a thread's own memory are wrong");
        break;
    }
    case 10:
        if (!vectors<double, 4>(r, tag) || !vectors<double, 8>(r, tag) || !vectors<float, 8>(r, tag) || !vectors<float, 16>(r, tag) || !vectors<int, 8>(r, tag)) return f.bad("a thread's own vectors hold wrong lanes");
        break;
    default: {
        float lanes[4] = {float(tag % 100), 1, 2, 3};
        LibFlatArray::short_vec<float, 4> v(&lanes[0]);
        std::stringstream got, expected;
        got << v;
        expected << "[" << lanes[0] << ", 1, 2, 3]";
        if (got.str() != expected.str()) return f.bad("printing a thread's own vector yields " + got.str());
        break;
    }
    }
    return true;
}

const char *KINDS[] = {"get shared grid", "batch get shared grid", "save shared grid", "callback on shared grid", "copy shared grid", "dual callback from shared grid", "own grid",
                       "shared and own arrays", "shared and own vectors", "allocations and loops", "vectors", "printing"};

template<typename CELL>
Dims shared_dims(pbt::Ctx& c)
{
    Dims d = DimGen<CELL>::gen(c);
    while (d.n() > 160) { if (d.z > 2) d.z = 2; else if (d.y > 3) d.y = 3; else d.x /= 2; }
    if (Cell<CELL>::DIMS == 0 && d.y == 1) d.z = 1;
    return d;
}

template<typename CELL>
void fill(LibFlatArray::soa_grid<CELL>& g, Dims d, std::vector<CELL>& m, std::uint64_t tag)
{
    m.clear();
    for (long z = 0; z < d.z; ++z) for (long y = 0; y < d.y; ++y) for (long x = 0; x < d.x; ++x) {
        m.push_back(make_cell<CELL>(tag++));
        g.set(std::size_t(x), std::size_t(y), std::size_t(z), m.back());
    }
}

template<typename CELL>
void threads(pbt::Ctx& c)
{
    Shared<CELL> s;
    s.d = shared_dims<CELL>(c);
    int n = int(2 + c.below(3));
    c.note("shared: soa_grid<%s>(%ld, %ld, %ld), a soa_array and a soa_vector; %d threads", Cell<CELL>::name(), s.d.x, s.d.y, s.d.z, n);
    s.grid.reset(new LibFlatArray::soa_grid<CELL>(std::size_t(s.d.x), std::size_t(s.d.y), std::size_t(s.d.z)));
    fill(*s.grid, s.d, s.grid_model, 1);
    std::size_t na = 1 + c.below(40), nv = 1 + c.below(std::uint64_t(std::min(30L, Cell<CELL>::xs().back())));
    while (nv > 1 && !may_grow<CELL>(nv - 1)) --nv;
    for (std::size_t i = 0; i < na; ++i) { s.array_model.push_back(make_cell<CELL>(5000 + i)); s.array.push_back(s.array_model.back()); }
    for (std::size_t i = 0; i < nv; ++i) { s.vector_model.push_back(make_cell<CELL>(7000 + i)); s.vector.push_back(s.vector_model.back()); }

    std::vector<std::vector<Op> > programs(static_cast<std::size_t>(n));
    for (int t = 0; t < n; ++t) {
        std::size_t len = 1 + c.below(5);
        for (std::size_t k = 0; k < len; ++k) {
            Op op = {int(c.below(12)), int(1 + c.below(8)), c.below(1u << 20)};
            if (k == 0) op.repeat += 4;
            programs[std::size_t(t)].push_back(op);
            c.note("thread %d: %d times: %s (%lu)", t, op.repeat, KINDS[op.kind], (unsigned long)op.seed);
            c.label(KINDS[op.kind]);
            c.op();
        }
    }
    std::vector<Findings> findings(static_cast<std::size_t>(n));
    Gate gate(n);
    std::vector<std::thread> pool;
    for (int t = 0; t < n; ++t)
        pool.push_back(std::thread([&, t] {
            LibFlatArray::soa_grid<CELL> own(1, 1, 1);
            const std::vector<Op>& p = programs[std::size_t(t)];
            gate.pass();
            for (std::size_t k = 0; k < p.size(); ++k)
                if (!perform(p[k], const_cast<const Shared<CELL>&>(s), own, std::uint64_t(10000 * (t + 1)), findings[std::size_t(t)])) break;
        }));
    for (std::size_t t = 0; t < pool.size(); ++t) pool[t].join();
    for (int t = 0; t < n; ++t) PBT_CHECK(findings[std::size_t(t)].text.empty(), "thread %d of %d: %s", t, n, findings[std::size_t(t)].text.c_str());
    // the shared containers are as they were
    for (std::size_t k = 0; k < s.grid_model.size(); ++k)
        PBT_CHECK(cell_equal(s.grid->get(k % std::size_t(s.d.x), k / std::size_t(s.d.x) % std::size_t(s.d.y), k / std::size_t(s.d.x * s.d.y)), s.grid_model[k]), "the shared grid was changed by readers (cell %zu)", k);
    c.nontrivial();
}

// threads inside of a callback: copies of the accessors move independently, different cells may be stored at the same time
template<typename CELL>
struct ParallelKernel
{
    Dims d;
    int n;
    bool by_rows;
    bool light;
    int *calls;

    template<typename A, typename B> void operator()(A& a, B& b) const
    {
        ++*calls;
        Gate gate(n);
        std::vector<std::thread> pool;
        for (int t = 0; t < n; ++t) {
            pool.push_back(std::thread([this, &gate, t](A mine, B target) {
                gate.pass();
                work(mine, target, t);
            }, a, b));
        }
        for (std::size_t t = 0; t < pool.size(); ++t) pool[t].join();
    }

    template<typename A, typename B> void work(A& a, B& b, int t) const
    {
        for (long k = 0; k < d.n(); ++k) {
            long x = k % d.x, y = k / d.x % d.y, z = k / d.x / d.y;
            if ((by_rows ? y + z * d.y : k) % n != t) continue;
            // the cell to the right, with wrap-around
            a.index() = A::gen_index((x + 1) % d.x, y, z);
            b.index() = B::gen_index(x, y, z);
            CELL c;
            if (light) {
                typedef LibFlatArray::const_soa_accessor_light<CELL, A::DIM_X, A::DIM_Y, A::DIM_Z, 0> L;
                L(a.data(), a.index()) >> c;
                typedef LibFlatArray::soa_accessor_light<CELL, B::DIM_X, B::DIM_Y, B::DIM_Z, 0> M;
                M(b.data(), b.index()) << c;
            } else {
                a >> c;
                b << c;
            }
        }
    }
};

template<typename CELL>
void kernels(pbt::Ctx& c)
{
    Dims d = shared_dims<CELL>(c);
    int n = int(2 + c.below(3)), calls = 0, sweeps = int(1 + c.below(3));
    bool by_rows = c.below(2) == 1, light = c.below(3) == 2;
    c.note("soa_grid<%s>(%ld, %ld, %ld), %d sweeps by %d threads, %s cells%s", Cell<CELL>::name(), d.x, d.y, d.z, sweeps, n, by_rows ? "rows of" : "alternating", light ? ", light accessors" : "");
    LibFlatArray::soa_grid<CELL> a(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z)), b(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z));
    std::vector<CELL> m;
    fill(a, d, m, 1);
    for (int i = 0; i < sweeps; ++i) {
        ParallelKernel<CELL> kernel = {d, n, by_rows, light, &calls};
        a.callback(&b, kernel);
        std::vector<CELL> next(m);
        for (long k = 0; k < d.n(); ++k) next[std::size_t(k)] = m[std::size_t(k - k % d.x + (k % d.x + 1) % d.x)];
        m.swap(next);
        swap(a, b);
        c.op();
    }
    PBT_CHECK(calls == sweeps, "callback ran %d times, expected %d", calls, sweeps);
    for (std::size_t k = 0; k < m.size(); ++k) {
        CELL got = a.get(k % std::size_t(d.x), k / std::size_t(d.x) % std::size_t(d.y), k / std::size_t(d.x * d.y));
        PBT_CHECK(cell_equal(got, m[k]), "cell %zu is {%s}, expected {%s}", k, show_cell(got).c_str(), show_cell(m[k]).c_str());
    }
    c.label(by_rows ? "rows shared out" : "adjacent cells shared out");
    if (d.n() >= 2) c.nontrivial();
}

// threads store different elements of one array and of one vector
template<typename CELL>
struct SliceKernel
{
    int n;
    long size;
    std::uint64_t tag;
    template<typename A> void operator()(A& a) const
    {
        Gate gate(n);
        std::vector<std::thread> pool;
        for (int t = 0; t < n; ++t)
            pool.push_back(std::thread([this, &gate, t](A mine) {
                gate.pass();
                for (long k = t; k < size; k += n) {
                    mine.index() = A::gen_index(k, 0L, 0L);
                    mine << make_cell<CELL>(tag + std::uint64_t(k));
                }
            }, a));
        for (std::size_t t = 0; t < pool.size(); ++t) pool[t].join();
    }
};

template<typename CELL>
void elements(pbt::Ctx& c)
{
    long na = 1 + long(c.below(48)), nv = 1 + long(c.below(std::uint64_t(std::min(30L, Cell<CELL>::xs().back()))));
    while (nv > 1 && !may_grow<CELL>(std::size_t(nv - 1))) --nv;
    int n = int(2 + c.below(3)), rounds = int(1 + c.below(3)), way = int(c.below(3));
    c.note("%d threads store the elements of soa_array<%s> (size %ld, %s) and soa_vector (size %ld), %d rounds", n, Cell<CELL>::name(), na, way == 0 ? "operator[]" : way == 1 ? "at()" : "accessors", nv, rounds);
    LibFlatArray::soa_array<CELL, 48> a;
    LibFlatArray::soa_vector<CELL> v;
    for (long i = 0; i < na; ++i) a.push_back(make_cell<CELL>(std::uint64_t(i)));
    for (long i = 0; i < nv; ++i) v.push_back(make_cell<CELL>(std::uint64_t(i)));
    for (int k = 0; k < rounds; ++k) {
        std::uint64_t tag = 1000 * std::uint64_t(k + 1);
        Gate gate(n);
        std::vector<std::thread> pool;
        for (int t = 0; t < n; ++t)
            pool.push_back(std::thread([&, t] {
                gate.pass();
                for (long i = t; i < na; i += n) {
                    CELL x = make_cell<CELL>(tag + std::uint64_t(i));
                    if (way == 0) a[int(i)] << x;
                    else if (way == 1) a.at(std::size_t(i)) << x;
                    else { auto it = a.begin(); it += long(i); it << x; }
                }
            }));
        for (std::size_t t = 0; t < pool.size(); ++t) pool[t].join();
        SliceKernel<CELL> kernel = {n, nv, tag};
        v.callback(kernel);
        c.op();
        for (long i = 0; i < na; ++i) {
            CELL got;
            a[int(i)] >> got;
            PBT_CHECK(cell_equal(got, make_cell<CELL>(tag + std::uint64_t(i))), "round %d: array element %ld is {%s}", k, i, show_cell(got).c_str());
        }
        for (long i = 0; i < nv; ++i)
            PBT_CHECK(cell_equal(v.get(std::size_t(i)), make_cell<CELL>(tag + std::uint64_t(i))), "round %d: vector element %ld is {%s}", k, i, show_cell(v.get(std::size_t(i))).c_str());
    }
    if (na > 1) c.nontrivial();
}

}

#if UNIT == 9
PBT_REGISTER(C01_threads_gen0, &threads<Gen0>)
PBT_REGISTER(C01_threads_gen2, &threads<Gen2>)
PBT_REGISTER(C01_kernels_gen1, &kernels<Gen1>)
PBT_REGISTER(C01_elements_gen2, &elements<Gen2>)
#elif UNIT == 1
PBT_REGISTER(C01_threads_mixed, &threads<CellMixed>)
PBT_REGISTER(C01_threads_str, &threads<CellStr>)
PBT_REGISTER(C01_kernels_mixed, &kernels<CellMixed>)
PBT_REGISTER(C01_elements_str, &elements<CellStr>)
#else
PBT_REGISTER(C01_threads_asym, &threads<CellAsym>)
PBT_REGISTER(C01_threads_arr, &threads<CellArr>)
PBT_REGISTER(C01_kernels_str, &kernels<CellStr>)
PBT_REGISTER(C01_kernels_def, &kernels<CellDef>)
PBT_REGISTER(C01_elements_arr, &elements<CellArr>)
#endif
