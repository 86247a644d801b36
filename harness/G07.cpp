// G07: operations that fail (size not available, memory exhausted) leave containers intact.
#include "tracked.hpp"
#include <memory>
#include <new>
#include <stdexcept>

namespace heap {
long fail_at = -1;      // fail the n-th allocation from now on; -1: never
bool counting = false;
long live = 0;
long served = 0;
}

void *operator new(std::size_t n)
{
    if (heap::counting) {
        if (heap::fail_at == 0) throw std::bad_alloc();
        if (heap::fail_at > 0) --heap::fail_at;
        ++heap::served;
    }
    void *p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    ++heap::live;
    return p;
}
void operator delete(void *p) noexcept { if (p) { --heap::live; std::free(p); } }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }

// a member that owns memory: copying it may fail
class Owner
{
public:
    Owner() : p(0) {}
    Owner(const Owner& o) : p(o.p ? new long(*o.p) : 0) {}
    Owner& operator=(const Owner& o)
    {
        long *q = o.p ? new long(*o.p) : 0;
        delete p;
        p = q;
        return *this;
    }
    ~Owner() { delete p; }
    void set(long v) { delete p; p = v ? new long(v) : 0; }
    long get() const { return p ? *p : 0; }
private:
    long *p;
};

class CellHeap
{
public:
    class API { public: LIBFLATARRAY_CUSTOM_SIZES((8)(16)(40), (1)(4)(9), (1)(3)(6)) };
    int n;
    Owner o;
    double d;
    Owner q[2];
    CellHeap() : n(0), d(0) {}
};
LIBFLATARRAY_REGISTER_SOA(CellHeap, ((Owner)(o))((int)(n))((Owner)(q)(2))((double)(d)))

template<> struct Cell<CellHeap>
{
    static const char *name() { return "CellHeap"; }
    static const int DIMS = 3;
    static std::vector<long> xs() { return {8, 16, 40}; }
    static std::vector<long> ys() { return {1, 4, 9}; }
    static std::vector<long> zs() { return {1, 3, 6}; }
    static const bool UNIFORM = false;
    static const bool POD = false;
    template<typename C, typename F> static void visit(C& c, F& f) { f(&c.o, 1); f(&c.n, 1); f(&c.q[0], 2); f(&c.d, 1); }
};

inline void put(Owner& t, std::uint64_t h) { t.set(long(h)); }
inline bool same(const Owner& a, const Owner& b) { return a.get() == b.get(); }
inline void show(std::ostream& o, const Owner& v) { o << "*" << v.get(); }

namespace {

// every element of a cell is either that of one cell or that of another
struct EitherVisitor
{
    const Collect *a, *b;
    std::size_t k;
    bool ok;
    template<typename M> void operator()(M *m, int n)
    {
        const M *p = static_cast<const M*>(a->ptr[k].first), *q = static_cast<const M*>(b->ptr[k].first);
        ++k;
        for (int i = 0; i < n; ++i) if (!same(m[i], p[i]) && !same(m[i], q[i])) ok = false;
    }
};

template<typename CELL>
bool either(CELL x, CELL a, CELL b)
{
    Collect ca, cb;
    Cell<CELL>::visit(a, ca);
    Cell<CELL>::visit(b, cb);
    EitherVisitor v = {&ca, &cb, 0, true};
    Cell<CELL>::visit(x, v);
    return v.ok;
}

// which allocation of an operation fails: cells that own memory allocate when they are copied
template<typename CELL> long pick_failure(pbt::Ctx& c, long) { return c.chance(1, 2) ? long(c.below(2)) : -1; }
template<> long pick_failure<CellHeap>(pbt::Ctx& c, long cells) { return c.chance(1, 2) ? c.skewed(0, 3 * cells + 2) : -1; }

struct Inject
{
    explicit Inject(long n) { heap::fail_at = n; heap::served = 0; heap::counting = true; }
    ~Inject() { heap::counting = false; heap::fail_at = -1; }
};

// dimensions no configured size can hold, in at least one coordinate
template<typename CELL>
Dims bad_dims(pbt::Ctx& c)
{
    Dims d = DimGen<CELL>::gen(c);
    std::vector<long> xs = Cell<CELL>::xs();
    int which = int(c.below(3));
    long over = 1 + long(c.below(3) ? c.below(3) : c.below(100000));
    std::vector<long> lim = {xs.back(), xs.back(), xs.back()};
    if (!Cell<CELL>::UNIFORM) {
        // filled in by the specialisation below
    } else if (Cell<CELL>::DIMS < 3) {
        lim[2] = 1;
        if (Cell<CELL>::DIMS < 2) lim[1] = 1;
    }
    if (which == 0) d.x = lim[0] + over;
    if (which == 1) d.y = lim[1] + over;
    if (which == 2) d.z = lim[2] + over;
    return d;
}

template<typename CELL> Dims bad_custom_dims(pbt::Ctx& c)
{
    Dims d = DimGen<CELL>::gen(c);
    int which = int(c.below(3));
    long over = 1 + long(c.below(3) ? c.below(3) : c.below(100000));
    if (which == 0) d.x = 40 + over;
    if (which == 1) d.y = 9 + over;
    if (which == 2) d.z = 6 + over;
    return d;
}

template<> Dims bad_dims<CellMixed>(pbt::Ctx& c) { return bad_custom_dims<CellMixed>(c); }
template<> Dims bad_dims<CellHeap>(pbt::Ctx& c) { return bad_custom_dims<CellHeap>(c); }

template<typename CELL>
struct Slot
{
    std::unique_ptr<LibFlatArray::soa_grid<CELL> > g;
    Dims d;
    std::vector<CELL> m;
};

template<typename CELL>
void verify(pbt::Ctx& c, Slot<CELL>& s, const char *after)
{
    if (!s.g) return;
    const LibFlatArray::soa_grid<CELL>& g = *s.g;
    PBT_CHECK(long(g.dim_x()) == s.d.x && long(g.dim_y()) == s.d.y && long(g.dim_z()) == s.d.z, "after %s: dims are (%lu,%lu,%lu), expected (%ld,%ld,%ld)",
              after, (unsigned long)g.dim_x(), (unsigned long)g.dim_y(), (unsigned long)g.dim_z(), s.d.x, s.d.y, s.d.z);
    if (s.d.n() == 0) return;
    Dims e = DimGen<CELL>::extent(s.d);
    PBT_CHECK(long(g.extent_x()) == e.x && long(g.extent_y()) == e.y && long(g.extent_z()) == e.z, "after %s: extents are (%lu,%lu,%lu)", after,
              (unsigned long)g.extent_x(), (unsigned long)g.extent_y(), (unsigned long)g.extent_z());
    PBT_CHECK(g.byte_size() == std::size_t(e.n()) * ref_cell_bytes<CELL>(), "after %s: byte_size is %lu", after, (unsigned long)g.byte_size());
    std::size_t i = 0;
    for (long z = 0; z < s.d.z; ++z)
        for (long y = 0; y < s.d.y; ++y)
            for (long x = 0; x < s.d.x; ++x, ++i) {
                CELL got = g.get(std::size_t(x), std::size_t(y), std::size_t(z));
                PBT_CHECK(cell_equal(got, s.m[i]), "after %s: cell (%ld,%ld,%ld) is {%s}, expected {%s}", after, x, y, z, show_cell(got).c_str(), show_cell(s.m[i]).c_str());
            }
}

// After a failed allocation the grid may have dropped its cells, but then it must say so.
template<typename CELL>
void resync(pbt::Ctx& c, Slot<CELL>& s, const char *after, Dims target)
{
    const LibFlatArray::soa_grid<CELL>& g = *s.g;
    Dims now = {long(g.dim_x()), long(g.dim_y()), long(g.dim_z())};
    bool kept = now.x == s.d.x && now.y == s.d.y && now.z == s.d.z;
    bool empty = now.n() == 0;
    (void)target;
    PBT_CHECK(kept || empty, "%s: dims are neither the old ones nor empty: (%ld,%ld,%ld)", after, now.x, now.y, now.z);
    if (!kept) { s.d = now; s.m.clear(); c.label("failure emptied the grid"); } else c.label("failure kept the grid");
}

template<typename CELL>
void grid_faults(pbt::Ctx& c)
{
    typedef LibFlatArray::soa_grid<CELL> Grid;
    long live0 = heap::live;
    int failures = 0;
    {
        Slot<CELL> s[2];
        std::uint64_t tag = 1;
        int steps = int(c.range(2, 12));
        for (int k = 0; k < steps; ++k) {
            c.op();
            int id = int(c.below(2));
            Slot<CELL>& a = s[id];
            Slot<CELL>& b = s[1 - id];
            const char *what = "";
            unsigned op = unsigned(c.below(8));
            if (!a.g) op = 0;
            if (!b.g && (op == 5 || op == 6)) op = 3;
            long inject = pick_failure<CELL>(c, op == 5 || op == 6 ? b.d.n() : a.d.n());
            switch (op) {
            case 0: {
                what = "construction";
                Dims d = DimGen<CELL>::gen(c);
                c.note("g%d = soa_grid<%s>(%ld,%ld,%ld), failing allocation %ld", id, Cell<CELL>::name(), d.x, d.y, d.z, inject);
                std::unique_ptr<Grid> n;
                bool thrown = false;
                void *mem = std::malloc(sizeof(Grid));
                Grid *ng = 0;
                try {
                    Inject in(inject);
                    ng = new (mem) Grid(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z));
                } catch (const std::bad_alloc&) {
                    thrown = true;
                }
                if (thrown) { ++failures; c.label("failed construction"); }
                else {
                    ng->~Grid();
                    a.g.reset(new Grid(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z)));
                    a.d = d;
                    a.m.assign(std::size_t(d.n()), make_cell<CELL>(0));
                }
                std::free(mem);
                break;
            }
            case 1: {
                what = "construction with unavailable size";
                Dims d = bad_dims<CELL>(c);
                c.note("soa_grid<%s>(%ld,%ld,%ld) must be refused", Cell<CELL>::name(), d.x, d.y, d.z);
                bool thrown = false;
                try { Grid g(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z)); } catch (const std::exception&) { thrown = true; }
                PBT_CHECK(thrown, "construction with (%ld,%ld,%ld) was not refused", d.x, d.y, d.z);
                ++failures;
                c.label("refused construction");
                break;
            }
            case 2: {
                what = "resize to unavailable size";
                Dims d = bad_dims<CELL>(c);
                c.note("g%d.resize(%ld,%ld,%ld) must be refused", id, d.x, d.y, d.z);
                bool thrown = false;
                try { a.g->resize(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z)); } catch (const std::exception&) { thrown = true; }
                PBT_CHECK(thrown, "resize to (%ld,%ld,%ld) was not refused", d.x, d.y, d.z);
                ++failures;
                c.label("refused resize");
                break;
            }
            case 3: {
                what = "resize";
                Dims d = DimGen<CELL>::gen(c);
                c.note("g%d.resize(%ld,%ld,%ld), failing allocation %ld", id, d.x, d.y, d.z, inject);
                bool same_dims = d.x == a.d.x && d.y == a.d.y && d.z == a.d.z, thrown = false;
                try {
                    Inject in(inject);
                    a.g->resize(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z));
                } catch (const std::bad_alloc&) {
                    thrown = true;
                }
                if (thrown) { ++failures; resync(c, a, "failed resize", d); c.label("failed resize"); }
                else if (!same_dims) { a.d = d; a.m.assign(std::size_t(d.n()), make_cell<CELL>(0)); }
                break;
            }
            case 4: {
                what = "fill";
                if (a.d.n() == 0) break;
                long y = c.skewed(0, a.d.y - 1), z = c.skewed(0, a.d.z - 1);
                unsigned how = unsigned(c.below(3));
                long x0 = how == 0 ? c.range(0, a.d.x - 1) : 0, n = how == 0 ? 1 : a.d.x;
                c.note("g%d: %s row (%ld, %ld), failing allocation %ld", id, how == 0 ? "set one cell of" : how == 1 ? "fill" : "broadcast to", y, z, inject);
                std::vector<CELL> row;
                for (long x = 0; x < n; ++x) row.push_back(how == 2 && x ? row[0] : make_cell<CELL>(tag++));
                bool thrown = false;
                try {
                    Inject in(inject);
                    if (how == 0) a.g->set(std::size_t(x0), std::size_t(y), std::size_t(z), row[0]);
                    else if (how == 1) a.g->set(0, std::size_t(y), std::size_t(z), &row[0], row.size());
                    else a.g->broadcast(0, std::size_t(y), std::size_t(z), row[0], row.size());
                } catch (const std::bad_alloc&) {
                    thrown = true;
                }
                if (thrown) { ++failures; c.label("failed set"); what = "failed fill"; }
                for (long x = 0; x < n; ++x) {
                    CELL& old = a.m[std::size_t((z * a.d.y + y) * a.d.x + x0 + x)];
                    if (thrown) {
                        CELL now = a.g->get(std::size_t(x0 + x), std::size_t(y), std::size_t(z));
                        PBT_CHECK(either(now, old, row[std::size_t(x)]), "after failed set: cell (%ld,%ld,%ld) is {%s}, neither {%s} nor {%s}", x0 + x, y, z, show_cell(now).c_str(), show_cell(old).c_str(), show_cell(row[std::size_t(x)]).c_str());
                        old = now;
                    } else old = row[std::size_t(x)];
                }
                break;
            }
            case 5: {
                what = "assignment";
                c.note("g%d = g%d, failing allocation %ld", id, 1 - id, inject);
                bool thrown = false;
                try {
                    Inject in(inject);
                    *a.g = *b.g;
                } catch (const std::bad_alloc&) {
                    thrown = true;
                }
                if (thrown) { ++failures; resync(c, a, "failed assignment", b.d); c.label("failed assignment"); }
                else { a.d = b.d; a.m = b.m; }
                break;
            }
            case 6: {
                what = "copy construction";
                c.note("copy of g%d, failing allocation %ld", 1 - id, inject);
                bool thrown = false;
                void *mem = std::malloc(sizeof(Grid));
                Grid *n = 0;
                try {
                    Inject in(inject);
                    n = new (mem) Grid(*b.g);
                } catch (const std::bad_alloc&) {
                    thrown = true;
                }
                if (thrown) { ++failures; c.label("failed copy construction"); }
                else n->~Grid();
                std::free(mem);
                break;
            }
            default:
                what = "destruction";
                c.note("destroy g%d", id);
                a.g.reset();
                a.m.clear();
            }
            verify(c, s[0], what);
            verify(c, s[1], what);
        }
    }
    PBT_CHECK(heap::live == live0, "%ld allocations were not returned", heap::live - live0);
    if (failures) c.nontrivial();
}

// soa_vectors: an operation that fails changes nothing
template<typename CELL>
void vector_faults(pbt::Ctx& c)
{
    typedef LibFlatArray::soa_vector<CELL> V;
    long live0 = heap::live;
    int failures = 0;
    {
        std::unique_ptr<V> v[2];
        std::vector<CELL> m[2];
        v[0].reset(new V());
        v[1].reset(new V());
        std::uint64_t tag = 1;
        int steps = int(c.range(2, 14));
        for (int k = 0; k < steps; ++k) {
            c.op();
            int id = int(c.below(2));
            V& a = *v[id];
            std::vector<CELL>& ma = m[id];
            ma.reserve(64);
            long inject = Cell<CELL>::POD ? (c.chance(1, 2) ? long(c.below(3)) : -1) : pick_failure<CELL>(c, long(ma.size()));
            const char *what = "";
            bool thrown = false;
            switch (c.below(8)) {
            case 0: {
                what = "push_back";
                long n = c.range(1, 12);
                c.note("v%d.push_back x%ld, failing allocation %ld", id, n, inject);
                for (; n && !thrown; --n) {
                    CELL e = make_cell<CELL>(tag++);
                    try { Inject in(inject); a.push_back(e); } catch (const std::bad_alloc&) { thrown = true; } catch (const std::out_of_range&) { thrown = true; }
                    if (!thrown) ma.push_back(e);
                }
                break;
            }
            case 1: {
                what = "resize";
                long n = c.skewed(0, 44);
                c.note("v%d.resize(%ld), failing allocation %ld", id, n, inject);
                try { Inject in(inject); a.resize(std::size_t(n)); } catch (const std::bad_alloc&) { thrown = true; } catch (const std::out_of_range&) { thrown = true; }
                PBT_CHECK(thrown || n <= 40, "resize(%ld) was not refused", n);
                if (!thrown) ma.resize(std::size_t(n), make_cell<CELL>(0));
                break;
            }
            case 2: {
                what = "reserve";
                long n = c.skewed(0, 44);
                c.note("v%d.reserve(%ld), failing allocation %ld", id, n, inject);
                try { Inject in(inject); a.reserve(std::size_t(n)); } catch (const std::bad_alloc&) { thrown = true; } catch (const std::out_of_range&) { thrown = true; }
                PBT_CHECK(thrown || n <= 40, "reserve(%ld) was not refused", n);
                break;
            }
            case 3: {
                what = "assignment";
                c.note("v%d = v%d, failing allocation %ld", id, 1 - id, inject);
                try { Inject in(inject); a = *v[1 - id]; } catch (const std::bad_alloc&) { thrown = true; }
                if (!thrown) ma = m[1 - id];
                break;
            }
            case 4: {
                bool filled = c.below(2) == 1;
                long n = c.skewed(0, 44);
                CELL e = make_cell<CELL>(tag++);
                what = filled ? "construction" : "copy construction";
                if (filled) c.note("vector(%ld, element), failing allocation %ld", n, inject); else c.note("copy of v%d, failing allocation %ld", id, inject);
                std::vector<CELL> want(filled ? std::vector<CELL>(std::size_t(n), e) : ma);
                void *mem = std::malloc(sizeof(V));
                V *w = 0;
                try {
                    Inject in(inject);
                    w = filled ? new (mem) V(std::size_t(n), e) : new (mem) V(a);
                } catch (const std::bad_alloc&) { thrown = true; } catch (const std::out_of_range&) { thrown = true; }
                PBT_CHECK(!w || !filled || n <= 40, "vector(%ld, element) was not refused", n);
                if (w) {
                    PBT_CHECK(w->size() == want.size(), "%s: size is %lu instead of %zu", what, (unsigned long)w->size(), want.size());
                    for (std::size_t i = 0; i < want.size(); ++i) PBT_CHECK(cell_equal(w->get(i), want[i]), "%s: element %zu differs", what, i);
                    w->~V();
                }
                std::free(mem);
                break;
            }
            case 5: {
                what = "pop_back";
                if (ma.empty()) break;
                c.note("v%d.pop_back(), failing allocation %ld", id, inject);
                try { Inject in(inject); a.pop_back(); } catch (const std::bad_alloc&) { thrown = true; }
                if (!thrown) ma.pop_back();
                break;
            }
            default: {
                what = "set";
                if (ma.empty()) break;
                std::size_t i = c.below(ma.size());
                CELL e = make_cell<CELL>(tag++);
                c.note("v%d.set(%zu), failing allocation %ld", id, i, inject);
                try { Inject in(inject); a.set(i, e); } catch (const std::bad_alloc&) { thrown = true; }
                if (thrown) {
                    CELL now = a.get(i);
                    PBT_CHECK(either(now, ma[i], e), "after failed set: element %zu is {%s}, neither {%s} nor {%s}", i, show_cell(now).c_str(), show_cell(ma[i]).c_str(), show_cell(e).c_str());
                    ma[i] = now;
                } else ma[i] = e;
            }
            }
            if (thrown) { ++failures; c.label(what); }
            for (int j = 0; j < 2; ++j) {
                PBT_CHECK(v[j]->size() == m[j].size(), "after %s%s: size of v%d is %lu, model has %zu", thrown ? "failed " : "", what, j, (unsigned long)v[j]->size(), m[j].size());
                for (std::size_t i = 0; i < m[j].size(); ++i) {
                    CELL x = v[j]->get(i);
                    PBT_CHECK(cell_equal(x, m[j][i]), "after %s%s: element %zu of v%d is {%s}, model has {%s}", thrown ? "failed " : "", what, i, j, show_cell(x).c_str(), show_cell(m[j][i]).c_str());
                }
            }
        }
    }
    PBT_CHECK(heap::live == live0, "%ld allocations were not returned", heap::live - live0);
    if (failures) c.nontrivial();
}

}

#if UNIT == 1
PBT_REGISTER(G07_mixed, &grid_faults<CellMixed>)
PBT_REGISTER(G07_nest, &grid_faults<CellNest>)
PBT_REGISTER(G07_vector, &vector_faults<CellMixed>)
#else
PBT_REGISTER(G07_one, &grid_faults<CellOne>)
PBT_REGISTER(G07_arr, &grid_faults<CellArr>)
PBT_REGISTER(G07_heap, &grid_faults<CellHeap>)
PBT_REGISTER(G07_vector_heap, &vector_faults<CellHeap>)
#endif
