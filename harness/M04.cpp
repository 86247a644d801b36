// M04: containers keep their cells in memory from the ALLOCATOR they were given, and give all of it back.
#include "tracked.hpp"
#include <libflatarray/soa_vector.hpp>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>

namespace {

struct exhausted : std::runtime_error { exhausted() : std::runtime_error("pool is exhausted") {} };

// the memory pool behind all instances of an allocator type
struct Pool
{
    struct Block { std::size_t n; char *raw; std::size_t skew; };
    static const std::size_t GUARD = 64;
    pbt::Ctx *c;
    std::map<char*, Block> live;
    long fail_at;          // refuse the n-th request from now on; -1: never
    std::size_t skew;
    bool odd;              // odd: std::bad_alloc, else another exception
    long requests;

    char *get(std::size_t n)
    {
        if (fail_at == 0) { fail_at = -1; if (odd) throw std::bad_alloc(); throw exhausted(); }
        if (fail_at > 0) --fail_at;
        ++requests;
        // blocks are aligned for any type (and no better: the address modulo 4096 differs from request to request)
        skew = (skew * 7 + 16 * 13) % 4096 / 16 * 16;
        if (skew % 64 == 0) skew += 16;
        Block b;
        b.n = n;
        b.skew = skew;
        if (posix_memalign(reinterpret_cast<void**>(&b.raw), 4096, n + 4096 + 2 * GUARD)) throw std::bad_alloc();
        char *p = b.raw + GUARD + b.skew;
        std::memset(p - GUARD, 0x5c, GUARD);
        std::memset(p, 0xa5, n);
        std::memset(p + n, 0x5c, GUARD);
        live[p] = b;
        return p;
    }
    void intact(char *p, const Block& b)
    {
        for (std::size_t i = 0; i < GUARD; ++i) {
            if (p[long(i) - long(GUARD)] != 0x5c) c->fail("byte %ld in front of a block of %zu bytes was overwritten", long(GUARD) - long(i), b.n);
            if (p[b.n + i] != 0x5c) c->fail("byte %zu behind a block of %zu bytes was overwritten", i, b.n);
        }
    }
    void put(char *p, std::size_t n)
    {
        std::map<char*, Block>::iterator i = live.find(p);
        if (i == live.end()) { c->fail("deallocate(%p, %zu) of memory that isn't allocated", (void*)p, n); }
        if (i->second.n != n) c->fail("deallocate() of a block of %zu bytes with size %zu", i->second.n, n);
        intact(p, i->second);
        std::memset(p, 0xdd, n);
        std::free(i->second.raw);
        live.erase(i);
    }
    void reset(pbt::Ctx *ctx)
    {
        c = ctx;
        for (std::map<char*, Block>::iterator i = live.begin(); i != live.end(); ++i) std::free(i->second.raw);
        live.clear();
        fail_at = -1;
        skew = 16;
        odd = false;
        requests = 0;
    }
};

Pool pools[2];

// the least an allocator offers
template<typename T, int WHICH>
struct PoolAllocator
{
    typedef T value_type;
    T *allocate(std::size_t n) { return reinterpret_cast<T*>(pools[WHICH].get(n * sizeof(T))); }
    void deallocate(T *p, std::size_t n) { pools[WHICH].put(reinterpret_cast<char*>(p), n * sizeof(T)); }
};

struct FailNext
{
    Pool& p;
    FailNext(Pool& p, long n, bool odd) : p(p) { p.fail_at = n; p.odd = odd; }
    ~FailNext() { p.fail_at = -1; }
};

template<typename CELL>
struct Slot
{
    typedef LibFlatArray::soa_grid<CELL, PoolAllocator<char, 0> > Grid;
    std::unique_ptr<Grid> g;
    Dims d;
    std::vector<CELL> m;
};

template<typename CELL, typename GRID>
void verify_grid(pbt::Ctx& c, GRID& g, Dims d, const std::vector<CELL>& m, const char *after)
{
    PBT_CHECK(long(g.dim_x()) == d.x && long(g.dim_y()) == d.y && long(g.dim_z()) == d.z, "after %s: dims are (%lu,%lu,%lu), expected (%ld,%ld,%ld)", after,
              (unsigned long)g.dim_x(), (unsigned long)g.dim_y(), (unsigned long)g.dim_z(), d.x, d.y, d.z);
    std::size_t i = 0;
    const GRID& cg = g;
    for (long z = 0; z < d.z; ++z)
        for (long y = 0; y < d.y; ++y)
            for (long x = 0; x < d.x; ++x, ++i) {
                CELL got = cg.get(std::size_t(x), std::size_t(y), std::size_t(z));
                PBT_CHECK(cell_equal(got, m[i]), "after %s: cell (%ld,%ld,%ld) is {%s}, expected {%s}", after, x, y, z, show_cell(got).c_str(), show_cell(m[i]).c_str());
            }
}

// every grid has one block of its own, of the size it states, and there are no others
template<typename GRID>
void owns(pbt::Ctx& c, Pool& pool, std::map<const char*, int>& seen, GRID& g, int id, const char *after)
{
    const char *p = g.data();
    if (!p) { PBT_CHECK(g.dim_x() * g.dim_y() * g.dim_z() == 0, "after %s: container %d has cells, but no memory", after, id); return; }
    std::map<char*, Pool::Block>::iterator b = pool.live.find(const_cast<char*>(p));
    PBT_CHECK(b != pool.live.end(), "after %s: the data of container %d isn't a block of its allocator", after, id);
    PBT_CHECK(b->second.n >= g.byte_size(), "after %s: container %d has a block of %zu bytes, but byte_size() is %zu", after, id, b->second.n, std::size_t(g.byte_size()));
    PBT_CHECK(!seen.count(p), "after %s: containers %d and %d share a block", after, id, seen[p]);
    seen[p] = id;
}

template<typename CELL>
struct CopyFunctor
{
    Dims d;
    template<typename A, typename B> void operator()(A& a, B& b) const
    {
        for (long z = 0; z < d.z; ++z)
            for (long y = 0; y < d.y; ++y)
                for (long x = 0; x < d.x; ++x) {
                    a.index() = A::gen_index(x, y, z);
                    b.index() = B::gen_index(x, y, z);
                    CELL v;
                    v << a;
                    b << v;
                }
    }
};

template<typename CELL>
void grid_pool(pbt::Ctx& c)
{
    typedef typename Slot<CELL>::Grid Grid;
    pools[0].reset(&c);
    int moves = 0, failures = 0;
    {
        Slot<CELL> s[3];
        std::uint64_t tag = 1;
        int steps = int(c.range(2, 14));
        for (int k = 0; k < steps; ++k) {
            c.op();
            int id = int(c.below(3)), oid = int((id + 1 + int(c.below(2))) % 3);
            Slot<CELL>& a = s[id];
            Slot<CELL>& b = s[oid];
            const char *what = "";
            unsigned op = unsigned(c.below(9));
            if (!a.g) op = b.g && c.below(2) ? 6 : 0;
            if (!b.g && op >= 4 && op <= 7) op = 1;
            long inject = c.chance(1, 5) ? long(c.below(2)) : -1;
            bool odd = c.below(2) == 1, thrown = false;
            Dims before = a.d;
            switch (op) {
            case 0: {
                what = "construction";
                Dims d = DimGen<CELL>::gen(c);
                c.note("g%d = grid(%ld,%ld,%ld), failing request %ld", id, d.x, d.y, d.z, inject);
                std::unique_ptr<Grid> n;
                try { FailNext f(pools[0], inject, odd); n.reset(new Grid(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z))); }
                catch (const std::bad_alloc&) { thrown = true; } catch (const exhausted&) { thrown = true; }
                if (!thrown) { a.g.swap(n); a.d = d; a.m.assign(std::size_t(d.n()), make_cell<CELL>(0)); }
                c.label(thrown ? "failed construction" : "construction");
                break;
            }
            case 1: {
                what = "resize";
                Dims d = DimGen<CELL>::gen(c);
                c.note("g%d.resize(%ld,%ld,%ld), failing request %ld", id, d.x, d.y, d.z, inject);
                bool same_dims = d.x == a.d.x && d.y == a.d.y && d.z == a.d.z;
                try { FailNext f(pools[0], inject, odd); a.g->resize(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z)); }
                catch (const std::bad_alloc&) { thrown = true; } catch (const exhausted&) { thrown = true; }
                if (!thrown && !same_dims) { a.d = d; a.m.assign(std::size_t(d.n()), make_cell<CELL>(0)); }
                c.label(thrown ? "failed resize" : "resize");
                break;
            }
            case 2: case 3: {
                what = "fill";
                if (a.d.n() == 0) break;
                long y = c.skewed(0, a.d.y - 1), z = c.skewed(0, a.d.z - 1);
                c.note("g%d: fill row (%ld, %ld)", id, y, z);
                std::vector<CELL> row;
                for (long x = 0; x < a.d.x; ++x) row.push_back(make_cell<CELL>(tag++));
                a.g->set(0, std::size_t(y), std::size_t(z), &row[0], row.size());
                for (long x = 0; x < a.d.x; ++x) a.m[std::size_t((z * a.d.y + y) * a.d.x + x)] = row[std::size_t(x)];
                break;
            }
            case 4: {
                what = "assignment";
                c.note("g%d = g%d, failing request %ld", id, oid, inject);
                try { FailNext f(pools[0], inject, odd); *a.g = *b.g; }
                catch (const std::bad_alloc&) { thrown = true; } catch (const exhausted&) { thrown = true; }
                if (!thrown) { a.d = b.d; a.m = b.m; ++moves; }
                c.label(thrown ? "failed assignment" : "assignment");
                break;
            }
            case 5: {
                bool free_function = c.below(2) == 1;
                what = "swap";
                c.note("swap(g%d, g%d)", id, oid);
                using std::swap;
                if (free_function) swap(*a.g, *b.g); else a.g->swap(*b.g);
                swap(a.d, b.d);
                swap(a.m, b.m);
                ++moves;
                c.label("swap");
                break;
            }
            case 6: {
                what = "copy construction";
                c.note("g%d = grid(g%d), failing request %ld", id, oid, inject);
                std::unique_ptr<Grid> n;
                const Grid& src = *b.g;
                try { FailNext f(pools[0], inject, odd); n.reset(new Grid(src)); }
                catch (const std::bad_alloc&) { thrown = true; } catch (const exhausted&) { thrown = true; }
                if (!thrown) { a.g.swap(n); a.d = b.d; a.m = b.m; ++moves; }
                c.label(thrown ? "failed copy construction" : "copy construction");
                break;
            }
            case 7: {
                what = "dual callback";
                if (a.d.n() == 0) break;
                c.note("dual callback from g%d", id);
                // with a grid of another allocator
                LibFlatArray::soa_grid<CELL> other(std::size_t(a.d.x), std::size_t(a.d.y), std::size_t(a.d.z));
                CopyFunctor<CELL> f = {a.d};
                const Grid& src = *a.g;
                src.callback(&other, f);
                verify_grid(c, other, a.d, a.m, "dual callback to a grid with the default allocator");
                if (b.d.x == a.d.x && b.d.y == a.d.y && b.d.z == a.d.z) {
                    other.callback(b.g.get(), f);
                    b.m = a.m;
                    ++moves;
                }
                c.label("dual callback");
                break;
            }
            default:
                what = "destruction";
                c.note("destroy g%d", id);
                a.g.reset();
                a.m.clear();
            }
            if (thrown) {
                ++failures;
                // what a failed request may leave behind: the old cells or none
                if (a.g && (a.g->dim_x() != std::size_t(before.x) || a.g->dim_y() != std::size_t(before.y) || a.g->dim_z() != std::size_t(before.z))) {
                    PBT_CHECK(a.g->dim_x() * a.g->dim_y() * a.g->dim_z() == 0, "%s that failed left dims (%lu,%lu,%lu)", what,
                              (unsigned long)a.g->dim_x(), (unsigned long)a.g->dim_y(), (unsigned long)a.g->dim_z());
                    a.d.x = long(a.g->dim_x()); a.d.y = long(a.g->dim_y()); a.d.z = long(a.g->dim_z());
                    a.m.clear();
                }
            }
            std::map<const char*, int> seen;
            for (int i = 0; i < 3; ++i) {
                if (!s[i].g) continue;
                owns(c, pools[0], seen, *s[i].g, i, what);
                verify_grid(c, *s[i].g, s[i].d, s[i].m, what);
            }
            PBT_CHECK(pools[0].live.size() == seen.size(), "after %s: %zu blocks are allocated, %zu are in use", what, pools[0].live.size(), seen.size());
            for (std::map<char*, Pool::Block>::iterator i = pools[0].live.begin(); i != pools[0].live.end(); ++i) pools[0].intact(i->first, i->second);
        }
    }
    PBT_CHECK(pools[0].live.empty(), "%zu blocks were never returned", pools[0].live.size());
    if (moves || failures) c.nontrivial();
}

struct DataOf
{
    std::vector<const char*> *spots;
    template<typename ACCESSOR> void operator()(ACCESSOR& acc) const { spots->push_back(acc.data()); }
};

template<typename CELL>
void vector_pool(pbt::Ctx& c)
{
    typedef LibFlatArray::soa_vector<CELL, PoolAllocator<char, 0> > V;
    pools[0].reset(&c);
    long limit = Cell<CELL>::xs().back() < 300 ? Cell<CELL>::xs().back() : 300;
    int grown = 0, failures = 0;
    {
        std::unique_ptr<V> v[2];
        std::vector<CELL> m[2];
        std::uint64_t tag = 1;
        v[0].reset(new V());
        v[1].reset(new V());
        int steps = int(c.range(2, 14));
        for (int k = 0; k < steps; ++k) {
            c.op();
            int id = int(c.below(2));
            V& a = *v[id];
            std::vector<CELL>& ma = m[id];
            long inject = c.chance(1, 4) ? long(c.below(2)) : -1;
            bool odd = c.below(2) == 1, thrown = false;
            const char *what = "";
            long requests = pools[0].requests;
            switch (c.below(8)) {
            case 0: case 1: {
                what = "push_back";
                long n = c.skewed(1, 40);
                c.note("v%d.push_back x%ld, failing request %ld", id, n, inject);
                for (; n && !thrown && long(ma.size()) < limit; --n) {
                    CELL e = make_cell<CELL>(tag++);
                    try { FailNext f(pools[0], inject, odd); a.push_back(e); }
                    catch (const std::bad_alloc&) { thrown = true; } catch (const exhausted&) { thrown = true; }
                    if (!thrown) ma.push_back(e);
                }
                break;
            }
            case 2: {
                what = "resize";
                long n = c.skewed(0, limit);
                c.note("v%d.resize(%ld), failing request %ld", id, n, inject);
                try { FailNext f(pools[0], inject, odd); a.resize(std::size_t(n)); }
                catch (const std::bad_alloc&) { thrown = true; } catch (const exhausted&) { thrown = true; }
                if (!thrown) ma.resize(std::size_t(n), make_cell<CELL>(0));
                break;
            }
            case 3: {
                what = "reserve";
                long n = c.skewed(0, limit);
                c.note("v%d.reserve(%ld), failing request %ld", id, n, inject);
                try { FailNext f(pools[0], inject, odd); a.reserve(std::size_t(n)); }
                catch (const std::bad_alloc&) { thrown = true; } catch (const exhausted&) { thrown = true; }
                PBT_CHECK(thrown || long(a.capacity()) >= n, "after reserve(%ld): capacity is %lu", n, (unsigned long)a.capacity());
                break;
            }
            case 4: {
                what = "copy";
                c.note("v%d = vector(v%d), failing request %ld", 1 - id, id, inject);
                std::unique_ptr<V> n;
                try { FailNext f(pools[0], inject, odd); n.reset(new V(a)); }
                catch (const std::bad_alloc&) { thrown = true; } catch (const exhausted&) { thrown = true; }
                if (!thrown) { v[1 - id].swap(n); m[1 - id] = ma; }
                break;
            }
            case 5: {
                what = "assignment";
                c.note("v%d = v%d, failing request %ld", 1 - id, id, inject);
                try { FailNext f(pools[0], inject, odd); *v[1 - id] = a; }
                catch (const std::bad_alloc&) { thrown = true; } catch (const exhausted&) { thrown = true; }
                if (!thrown) m[1 - id] = ma;
                break;
            }
            case 6: {
                what = "pop_back/clear";
                if (c.below(4) == 0) { c.note("v%d.clear()", id); a.clear(); ma.clear(); }
                else if (!ma.empty()) { c.note("v%d.pop_back()", id); a.pop_back(); ma.pop_back(); }
                break;
            }
            default: {
                what = "set";
                if (ma.empty()) break;
                std::size_t i = c.below(ma.size());
                ma[i] = make_cell<CELL>(tag++);
                a.set(i, ma[i]);
            }
            }
            c.label(thrown ? "failed request" : what);
            failures += thrown;
            grown += pools[0].requests > requests;
            std::map<const char*, int> seen;
            for (int j = 0; j < 2; ++j) {
                V& w = *v[j];
                PBT_CHECK(w.size() == m[j].size() && w.capacity() >= w.size(), "after %s: v%d has size %lu, capacity %lu, model %zu", what, j, (unsigned long)w.size(), (unsigned long)w.capacity(), m[j].size());
                for (std::size_t i = 0; i < m[j].size(); ++i) {
                    CELL x = w.get(i);
                    PBT_CHECK(cell_equal(x, m[j][i]), "after %s%s: element %zu of v%d is {%s}, model has {%s}", thrown ? "failed " : "", what, i, j, show_cell(x).c_str(), show_cell(m[j][i]).c_str());
                }
                std::vector<const char*> base;
                DataOf r = {&base};
                w.callback(r);
                if (base.size() == 1 && !base[0] && m[j].empty()) continue;
                PBT_CHECK(base.size() == 1 && pools[0].live.count(const_cast<char*>(base[0])), "after %s: the elements of v%d aren't in a block of its allocator", what, j);
                PBT_CHECK(!seen.count(base[0]), "after %s: both vectors use one block", what);
                seen[base[0]] = j;
            }
            PBT_CHECK(pools[0].live.size() == seen.size(), "after %s: %zu blocks are allocated, %zu are in use", what, pools[0].live.size(), seen.size());
            for (std::map<char*, Pool::Block>::iterator i = pools[0].live.begin(); i != pools[0].live.end(); ++i) pools[0].intact(i->first, i->second);
        }
    }
    PBT_CHECK(pools[0].live.empty(), "%zu blocks were never returned", pools[0].live.size());
    if (grown >= 2 || failures) c.nontrivial();
}

}

#if UNIT == 1
PBT_REGISTER(M04_mixed, &grid_pool<CellMixed>)
PBT_REGISTER(M04_nest, &grid_pool<CellNest>)
PBT_REGISTER(M04_one, &grid_pool<CellOne>)
#else
PBT_REGISTER(M04_arr, &grid_pool<CellArr>)
PBT_REGISTER(M04_str, &grid_pool<CellStr>)
PBT_REGISTER(M04_vector_mixed, &vector_pool<CellMixed>)
PBT_REGISTER(M04_vector_many, &vector_pool<CellMany>)
#endif
