// M01: member objects inside containers have proper lifetimes.
#include "tracked.hpp"
#include <memory>
#include <stdexcept>

namespace {

struct Baseline
{
    std::size_t n;
    Baseline() { Registry::get().live.clear(); Registry::get().error[0] = 0; n = 0; }
};

typedef LibFlatArray::soa_grid<CellTracked> Grid;

struct GridProbe
{
    Dims d;
    const std::vector<long> *tags;
    std::string *problem;
    template<typename ACC> void operator()(ACC& acc) const
    {
        std::size_t i = 0;
        for (long z = 0; z < d.z; ++z)
            for (long y = 0; y < d.y; ++y)
                for (long x = 0; x < d.x; ++x, ++i) {
                    acc.index() = ACC::gen_index(x, y, z);
                    std::string p = tracked_problem(tracked_refs(acc), (*tags)[i]);
                    if (!p.empty()) {
                        char buf[80];
                        std::snprintf(buf, sizeof(buf), "cell (%ld,%ld,%ld): ", x, y, z);
                        *problem = buf + p;
                        return;
                    }
                }
    }
};

struct Copier
{
    long x;
    const CellTracked *v;
    template<typename ACC> void operator()(ACC& acc) const
    {
        acc.index() = ACC::gen_index(x, 0, 0);
        acc << *v;
    }
};

struct GSlot { std::unique_ptr<Grid> g; Dims d; std::vector<long> tags; };

}

PBT_TARGET(M01_grid)
{
    Baseline base;
    int ops = 0, rebuilds = 0;
    {
        GSlot s[2];
        long tag = 1;
        int steps = int(c.range(1, 12));
        for (int k = 0; k < steps; ++k) {
            c.op();
            int id = int(c.below(2));
            GSlot& a = s[id];
            GSlot& b = s[1 - id];
            unsigned op = unsigned(c.below(10));
            if (!a.g) op = 0;
            if (!b.g && (op == 5 || op == 6 || op == 7)) op = 4;
            const char *what = "";
            switch (op) {
            case 0:
                a.d = DimGen<CellTracked>::gen(c);
                c.note("g%d = soa_grid(%ld,%ld,%ld)", id, a.d.x, a.d.y, a.d.z);
                a.g.reset(new Grid(std::size_t(a.d.x), std::size_t(a.d.y), std::size_t(a.d.z)));
                a.tags.assign(std::size_t(a.d.n()), 0);
                what = "construction";
                break;
            case 1: {
                long x = c.skewed(0, a.d.x - 1), y = c.skewed(0, a.d.y - 1), z = c.skewed(0, a.d.z - 1);
                c.note("g%d.set(%ld,%ld,%ld)", id, x, y, z);
                a.g->set(std::size_t(x), std::size_t(y), std::size_t(z), tracked_cell(tag));
                a.tags[std::size_t((z * a.d.y + y) * a.d.x + x)] = tag++;
                what = "set";
                break;
            }
            case 2: {
                long x = c.skewed(0, a.d.x - 1), n = c.skewed(0, a.d.x - x);
                int bc = int(c.below(2));
                c.note("g%d.%s(%ld,0,0, %ld cells)", id, bc ? "broadcast" : "set", x, n);
                std::vector<CellTracked> v;
                for (long i = 0; i < n; ++i) {
                    v.push_back(tracked_cell(tag));
                    a.tags[std::size_t(x + i)] = tag;
                    if (!bc) ++tag;
                }
                if (bc) a.g->broadcast(std::size_t(x), 0, 0, tracked_cell(tag++), std::size_t(n));
                else if (n) a.g->set(std::size_t(x), 0, 0, &v[0], std::size_t(n));
                what = "batch set";
                break;
            }
            case 3: {
                long x = c.skewed(0, a.d.x - 1), n = c.skewed(0, a.d.x - x);
                std::vector<CellTracked> v(std::size_t(n) + 1);
                a.g->get(std::size_t(x), 0, 0, &v[0], std::size_t(n));
                for (long i = 0; i < n; ++i) {
                    long t = a.tags[std::size_t(x + i)];
                    PBT_CHECK(v[std::size_t(i)].a.value == t * 10 && v[std::size_t(i)].n == int(t), "get returned a wrong cell");
                }
                what = "batch get";
                break;
            }
            case 4: {
                Dims d = DimGen<CellTracked>::gen(c);
                c.note("g%d.resize(%ld,%ld,%ld)", id, d.x, d.y, d.z);
                bool same_dims = d.x == a.d.x && d.y == a.d.y && d.z == a.d.z;
                a.g->resize(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z));
                if (!same_dims) a.tags.assign(std::size_t(d.n()), 0);
                a.d = d;
                ++rebuilds;
                what = "resize";
                break;
            }
            case 5:
                c.note("g%d = g%d", id, 1 - id);
                *a.g = *b.g;
                a.d = b.d;
                a.tags = b.tags;
                ++rebuilds;
                what = "assignment";
                break;
            case 6:
                c.note("g%d = copy of g%d", id, 1 - id);
                a.g.reset(new Grid(*b.g));
                a.d = b.d;
                a.tags = b.tags;
                ++rebuilds;
                what = "copy construction";
                break;
            case 7:
                c.note("swap");
                a.g->swap(*b.g);
                std::swap(a.d, b.d);
                std::swap(a.tags, b.tags);
                ++rebuilds;
                what = "swap";
                break;
            case 8: {
                long x = c.skewed(0, a.d.x - 1);
                c.note("g%d: store through accessor at x=%ld", id, x);
                CellTracked v = tracked_cell(tag);
                Copier f = {x, &v};
                a.g->callback(f);
                a.tags[std::size_t(x)] = tag++;
                what = "accessor store";
                break;
            }
            default:
                c.note("destroy g%d", id);
                a.g.reset();
                ++rebuilds;
                what = "destruction";
            }
            ++ops;
            c.label(what);
            CHECK_REGISTRY(what);
            for (int i = 0; i < 2; ++i) {
                if (!s[i].g) continue;
                std::string problem;
                GridProbe p = {s[i].d, &s[i].tags, &problem};
                s[i].g->callback(p);
                PBT_CHECK(problem.empty(), "after %s: grid %d, %s", what, i, problem.c_str());
            }
        }
    }
    CHECK_REGISTRY("final destruction");
    PBT_CHECK(Registry::get().live.size() == base.n, "%zu member objects outlive their containers", Registry::get().live.size());
    if (ops >= 3 && rebuilds) c.nontrivial();
}

namespace {
template<typename ARR>
void check_array(pbt::Ctx& c, ARR& a, const std::vector<long>& tags, const char *what)
{
    PBT_CHECK(a.size() == tags.size(), "after %s: size is %lu, expected %zu", what, (unsigned long)a.size(), tags.size());
    for (std::size_t i = 0; i < tags.size(); ++i) {
        typename ARR::iterator acc = a.at(i);
        std::string p = tracked_problem(tracked_refs(acc), tags[i]);
        PBT_CHECK(p.empty(), "after %s: element %zu: %s", what, i, p.c_str());
    }
}
}

PBT_TARGET(M01_array)
{
    typedef LibFlatArray::soa_array<CellTracked, 8> A;
    typedef LibFlatArray::soa_array<CellTracked, 12> B;
    Baseline base;
    int ops = 0, rebuilds = 0;
    {
        std::unique_ptr<A> a[2];
        std::unique_ptr<B> b;
        std::vector<long> ta[2], tb;
        long tag = 1;
        a[0].reset(new A());
        a[1].reset(new A(3, tracked_cell(tag)));
        ta[1].assign(3, tag++);
        b.reset(new B(std::size_t(2)));
        tb.assign(2, 0);
        int steps = int(c.range(1, 16));
        for (int k = 0; k < steps; ++k) {
            c.op();
            int id = int(c.below(2));
            const char *what = "";
            switch (c.below(11)) {
            case 0:
            case 1:
                what = "push";
                c.note("a%d push", id);
                if (ta[id].size() < 8) { *a[id] << tracked_cell(tag); ta[id].push_back(tag++); }
                if (tb.size() < 12 && c.below(2)) { *b << tracked_cell(tag); tb.push_back(tag++); }
                break;
            case 2:
                what = "pop_back";
                c.note("a%d pop", id);
                if (!ta[id].empty()) { a[id]->pop_back(); ta[id].pop_back(); }
                break;
            case 3:
                what = "clear";
                c.note("a%d clear", id);
                a[id]->clear();
                ta[id].clear();
                break;
            case 4:
                what = "assignment";
                c.note("a%d = a%d", id, 1 - id);
                *a[id] = *a[1 - id];
                ta[id] = ta[1 - id];
                ++rebuilds;
                break;
            case 5: {
                what = "copy construction";
                c.note("a%d copy constructed from a%d", id, 1 - id);
                const A& src = *a[1 - id];
                a[id].reset(new A(src));
                ta[id] = ta[1 - id];
                ++rebuilds;
                break;
            }
            case 6: {
                what = "swap";
                using std::swap;
                c.note("swap");
                swap(*a[0], *a[1]);
                std::swap(ta[0], ta[1]);
                ++rebuilds;
                break;
            }
            case 7: {
                what = "assignment from larger";
                c.note("a%d = b", id);
                bool thrown = false;
                try { *a[id] = *b; } catch (const std::out_of_range&) { thrown = true; }
                PBT_CHECK(thrown == (tb.size() > 8), "assignment from larger capacity: thrown=%d", thrown);
                if (!thrown) ta[id] = tb; else c.label("refused");
                ++rebuilds;
                break;
            }
            case 8: {
                what = "construction from larger";
                c.note("a%d constructed from b", id);
                bool thrown = false;
                try { std::unique_ptr<A> n(new A(*b)); a[id] = std::move(n); } catch (const std::out_of_range&) { thrown = true; }
                PBT_CHECK(thrown == (tb.size() > 8), "construction from larger capacity: thrown=%d", thrown);
                if (!thrown) ta[id] = tb; else c.label("refused");
                ++rebuilds;
                break;
            }
            case 9: {
                what = "load";
                if (tb.empty()) break;
                std::size_t from = c.below(tb.size()), num = c.below(tb.size() - from + 1);
                if (ta[id].size() + num > 8) break;
                c.note("a%d.load(b[%zu], %zu)", id, from, num);
                a[id]->load((*b)[int(from)], num);
                ta[id].insert(ta[id].end(), tb.begin() + long(from), tb.begin() + long(from + num));
                break;
            }
            default:
                what = "refused construction";
                c.note("construct 9 elements in capacity 8");
                bool thrown = false;
                try { A x(9, tracked_cell(tag)); } catch (const std::out_of_range&) { thrown = true; }
                PBT_CHECK(thrown, "construction beyond capacity not refused");
                c.label("refused");
            }
            ++ops;
            c.label(what);
            CHECK_REGISTRY(what);
            check_array(c, *a[0], ta[0], what);
            check_array(c, *a[1], ta[1], what);
            check_array(c, *b, tb, what);
        }
    }
    CHECK_REGISTRY("final destruction");
    PBT_CHECK(Registry::get().live.size() == base.n, "%zu member objects outlive their containers", Registry::get().live.size());
    if (ops >= 3 && rebuilds) c.nontrivial();
}

namespace {
struct LastProbe
{
    long x;
    TrackedRefs *refs;
    template<typename ACC> void operator()(ACC& acc) const
    {
        acc.index() = ACC::gen_index(x, 0, 0);
        *refs = tracked_refs(acc);
    }
};
}

PBT_TARGET(M01_vector)
{
    typedef LibFlatArray::soa_vector<CellTracked> V;
    Baseline base;
    int ops = 0, rebuilds = 0;
    {
        std::unique_ptr<V> v[2];
        std::vector<long> t[2];
        long tag = 1;
        for (int i = 0; i < 2; ++i) {
            long n = c.skewed(0, 24);
            c.note("v%d(%ld)", i, n);
            v[i].reset(new V(std::size_t(n)));
            t[i].assign(std::size_t(n), 0);
        }
        int steps = int(c.range(1, 14));
        for (int k = 0; k < steps; ++k) {
            c.op();
            int id = int(c.below(2));
            const char *what = "";
            switch (c.below(8)) {
            case 0:
            case 1: {
                what = "push_back";
                long n = c.range(1, 9);
                c.note("v%d push x%ld", id, n);
                for (; n && t[id].size() < 24; --n) {
                    try { v[id]->push_back(tracked_cell(tag)); } catch (const std::out_of_range&) { break; }
                    t[id].push_back(tag++);
                    ++rebuilds;
                }
                break;
            }
            case 2:
                what = "pop_back";
                c.note("v%d pop", id);
                for (long n = c.range(1, 3); n && !t[id].empty(); --n) {
                    // what the members of the last element hold is released with it
                    TrackedRefs last;
                    LastProbe p = {long(t[id].size()) - 1, &last};
                    v[id]->callback(p);
                    long old = t[id].back();
                    v[id]->pop_back();
                    t[id].pop_back();
                    for (int i = 0; i < 3 && old; ++i)
                        PBT_CHECK(!Registry::get().live.count(last.t[i]) || last.t[i]->value != old * 10 + i,
                                  "after pop_back: member object %d of the removed element %zu still holds its value", i, t[id].size());
                }
                break;
            case 3: {
                what = "resize";
                long n = c.skewed(0, 24);
                c.note("v%d resize %ld", id, n);
                v[id]->resize(std::size_t(n));
                t[id].resize(std::size_t(n), 0);
                ++rebuilds;
                break;
            }
            case 4: {
                what = "reserve";
                long n = c.skewed(0, 24);
                c.note("v%d reserve %ld", id, n);
                v[id]->reserve(std::size_t(n));
                ++rebuilds;
                break;
            }
            case 5:
                what = "clear";
                if (c.below(2)) { v[id]->clear(); t[id].clear(); }
                break;
            case 6:
                what = "assignment";
                c.note("v%d = v%d", id, 1 - id);
                *v[id] = *v[1 - id];
                t[id] = t[1 - id];
                ++rebuilds;
                break;
            default: {
                what = "copy construction";
                c.note("v%d copy of v%d", id, 1 - id);
                const V& src = *v[1 - id];
                v[id].reset(new V(src));
                t[id] = t[1 - id];
                ++rebuilds;
            }
            }
            ++ops;
            c.label(what);
            CHECK_REGISTRY(what);
            for (int i = 0; i < 2; ++i) {
                std::string problem;
                Dims d = {long(t[i].size()), 1, 1};
                GridProbe p = {d, &t[i], &problem};
                v[i]->callback(p);
                PBT_CHECK(problem.empty(), "after %s: vector %d, %s", what, i, problem.c_str());
                PBT_CHECK(v[i]->size() == t[i].size(), "after %s: vector %d size", what, i);
            }
        }
    }
    CHECK_REGISTRY("final destruction");
    PBT_CHECK(Registry::get().live.size() == base.n, "%zu member objects outlive their containers", Registry::get().live.size());
    if (ops >= 3 && rebuilds) c.nontrivial();
}
