// D01: the device containers (soa_grid with device functors, cuda_array) behave as their host counterparts;
// run on an emulated device (cuda/cuda.h) with launches rewritten textually (shims.py).
#include <cuda.h>
#include "cells.hpp"
#include <libflatarray/cuda_array.hpp>
#include <libflatarray/cuda_allocator.hpp>

namespace {

struct Streak
{
    long origin[3];
    long len;
    long length() const { return len; }
};

void device_ok(pbt::Ctx& c, const char *after)
{
    PBT_CHECK(cuda_emu::dev().error[0] == 0, "after %s: %s", after, cuda_emu::dev().error);
}

template<typename CELL>
void device_grid(pbt::Ctx& c)
{
    typedef LibFlatArray::soa_grid<CELL, LibFlatArray::cuda_allocator<char>, true> Grid;
    const std::size_t BYTES = ref_cell_bytes<CELL>();
    cuda_emu::dev().order = c.below(1 << 20);
    long live0 = long(cuda_emu::dev().live.size());
    {
    Dims d = DimGen<CELL>::gen(c);
    while (d.n() > 1600) { if (d.z > 1) d.z /= 2; else if (d.y > 2) d.y /= 2; else d.x /= 2; }
    if (Cell<CELL>::DIMS == 0 && d.y == 1) d.z = 1;
    std::vector<CELL> m(std::size_t(d.n()), make_cell<CELL>(0));
    bool later = c.chance(1, 4);
    c.note("device grid<%s> g(%ld, %ld, %ld)%s", Cell<CELL>::name(), d.x, d.y, d.z, later ? " by resize()" : "");
    Grid g(later ? 0 : std::size_t(d.x), later ? 0 : std::size_t(d.y), later ? 0 : std::size_t(d.z));
    if (later) g.resize(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z));
    device_ok(c, "construction");
    std::uint64_t tag = 1;
    int steps = int(c.range(1, 8)), writes = 0;
#define AT(X, Y, Z) m[std::size_t(((Z) * d.y + (Y)) * d.x + (X))]
    for (int s = 0; s < steps; ++s) {
        c.op();
        long x = c.skewed(0, d.x - 1), y = c.skewed(0, d.y - 1), z = c.skewed(0, d.z - 1);
        std::size_t ux(x), uy(y), uz(z);
        const Grid& cg = g;
        const char *what = "";
        switch (c.below(9)) {
        case 0: {
            CELL v = make_cell<CELL>(tag++);
            c.note("g.set(%ld, %ld, %ld, {%s})", x, y, z, show_cell(v).c_str());
            g.set(ux, uy, uz, v);
            AT(x, y, z) = v;
            ++writes;
            what = "set";
            break;
        }
        case 1: {
            long n = c.skewed(0, d.x - x);
            std::vector<CELL> v(std::size_t(n) + 1);
            for (long k = 0; k < n; ++k) v[std::size_t(k)] = make_cell<CELL>(tag++);
            c.note("g.set(%ld, %ld, %ld, cells, %ld)", x, y, z, n);
            g.set(ux, uy, uz, &v[0], std::size_t(n));
            for (long k = 0; k < n; ++k) AT(x + k, y, z) = v[std::size_t(k)];
            writes += n > 0;
            what = "batch set";
            break;
        }
        case 2: {
            long n = c.skewed(0, d.x - x);
            CELL v = make_cell<CELL>(tag++);
            c.note("g.broadcast(%ld, %ld, %ld, {%s}, %ld)", x, y, z, show_cell(v).c_str(), n);
            g.broadcast(ux, uy, uz, v, std::size_t(n));
            for (long k = 0; k < n; ++k) AT(x + k, y, z) = v;
            writes += n > 0;
            what = "broadcast";
            break;
        }
        case 3: {
            c.note("g.get(%ld, %ld, %ld)", x, y, z);
            CELL got = cg.get(ux, uy, uz);
            device_ok(c, "get");
            PBT_CHECK(cell_equal(got, AT(x, y, z)), "get(%ld,%ld,%ld) gave {%s}, model has {%s}", x, y, z, show_cell(got).c_str(), show_cell(AT(x, y, z)).c_str());
            what = "get";
            break;
        }
        case 4: {
            long n = c.skewed(0, d.x - x);
            c.note("g.get(%ld, %ld, %ld, cells, %ld)", x, y, z, n);
            std::vector<CELL> v(std::size_t(n) + 2, make_cell<CELL>(8888));
            cg.get(ux, uy, uz, &v[1], std::size_t(n));
            device_ok(c, "batch get");
            PBT_CHECK(cell_equal(v[0], make_cell<CELL>(8888)) && cell_equal(v[std::size_t(n + 1)], make_cell<CELL>(8888)), "batch get wrote outside its target");
            for (long k = 0; k < n; ++k)
                PBT_CHECK(cell_equal(v[std::size_t(k + 1)], AT(x + k, y, z)), "batch get(%ld,%ld,%ld) gave {%s}, model has {%s}", x + k, y, z,
                          show_cell(v[std::size_t(k + 1)]).c_str(), show_cell(AT(x + k, y, z)).c_str());
            what = "batch get";
            break;
        }
        case 5: case 6: { // packed images, one row or several streaks
            bool multi = c.below(2) != 0, save = c.below(2) != 0;
            std::vector<Streak> st;
            std::vector<char> used(std::size_t(d.n()), 0);
            long total = 0, ns = multi ? c.range(0, 4) : 1;
            for (long k = 0; k < ns; ++k) {
                Streak q;
                q.origin[0] = c.skewed(0, d.x - 1);
                q.origin[1] = c.skewed(0, d.y - 1);
                q.origin[2] = c.skewed(0, d.z - 1);
                q.len = c.skewed(0, d.x - q.origin[0]);
                long base = (q.origin[2] * d.y + q.origin[1]) * d.x + q.origin[0];
                if (!save) for (long j = 0; j < q.len; ++j) if (used[std::size_t(base + j)]) { q.len = j; break; }
                for (long j = 0; j < q.len; ++j) used[std::size_t(base + j)] = 1;
                total += q.len;
                st.push_back(q);
            }
            c.note("%s of %lu streaks, %ld cells%s", save ? "save" : "load", (unsigned long)st.size(), total, multi ? " (iterators)" : "");
            std::vector<char> ref(std::size_t(total) * BYTES + 1, 0x77), buf(ref);
            long slot = 0;
            for (std::size_t k = 0; k < st.size(); ++k)
                for (long j = 0; j < st[k].len; ++j, ++slot) {
                    CELL& cell = AT(st[k].origin[0] + j, st[k].origin[1], st[k].origin[2]);
                    if (!save) cell = make_cell<CELL>(tag++);
                    pack(&ref[0], std::size_t(total), std::size_t(slot), cell);
                }
            if (save) {
                if (multi) cg.save(st.begin(), st.end(), &buf[0], std::size_t(total));
                else cg.save(std::size_t(st[0].origin[0]), std::size_t(st[0].origin[1]), std::size_t(st[0].origin[2]), &buf[0], std::size_t(total));
                device_ok(c, "save");
                for (std::size_t i = 0; i < ref.size(); ++i)
                    PBT_CHECK(buf[i] == ref[i], "save: byte %lu of %lu is %d, reference image has %d", (unsigned long)i, (unsigned long)ref.size() - 1, buf[i], ref[i]);
            } else {
                if (multi) g.load(st.begin(), st.end(), &ref[0], std::size_t(total));
                else g.load(std::size_t(st[0].origin[0]), std::size_t(st[0].origin[1]), std::size_t(st[0].origin[2]), &ref[0], std::size_t(total));
                ++writes;
            }
            what = save ? "save" : "load";
            break;
        }
        case 7: {
            Dims nd = DimGen<CELL>::gen(c);
            while (nd.n() > 1600) { if (nd.z > 1) nd.z /= 2; else if (nd.y > 2) nd.y /= 2; else nd.x /= 2; }
            if (Cell<CELL>::DIMS == 0 && nd.y == 1) nd.z = 1;
            c.note("g.resize(%ld, %ld, %ld)", nd.x, nd.y, nd.z);
            bool eq = nd.x == d.x && nd.y == d.y && nd.z == d.z;
            g.resize(std::size_t(nd.x), std::size_t(nd.y), std::size_t(nd.z));
            if (!eq) {
                d = nd;
                m.assign(std::size_t(d.n()), make_cell<CELL>(0));
            }
            what = "resize";
            break;
        }
        default: { // raw image of the device memory: layout as on the host
            c.note("copy g.data() to the host");
            PBT_CHECK(g.byte_size() == g.extent_x() * g.extent_y() * g.extent_z() * BYTES, "byte_size() is %lu", (unsigned long)g.byte_size());
            std::vector<char> raw(g.byte_size());
            cudaMemcpy(&raw[0], cg.data(), raw.size(), cudaMemcpyDeviceToHost);
            device_ok(c, "copying data()");
            std::size_t ex = g.extent_x(), ey = g.extent_y(), n = ex * ey * g.extent_z();
            for (long zz = 0; zz < d.z; ++zz) for (long yy = 0; yy < d.y; ++yy) for (long xx = 0; xx < d.x; ++xx) {
                CELL cell = make_cell<CELL>(7);
                unpack(&raw[0], n, (std::size_t(zz) * ey + std::size_t(yy)) * ex + std::size_t(xx), &cell);
                PBT_CHECK(cell_equal(cell, AT(xx, yy, zz)), "device memory of cell (%ld,%ld,%ld) holds {%s}, model has {%s}", xx, yy, zz,
                          show_cell(cell).c_str(), show_cell(AT(xx, yy, zz)).c_str());
            }
            what = "raw copy";
            break;
        }
        }
        c.label(what);
        device_ok(c, what);
        PBT_CHECK(long(g.dim_x()) == d.x && long(g.dim_y()) == d.y && long(g.dim_z()) == d.z, "after %s: wrong dimensions", what);
    }
    for (long z = 0; z < d.z; ++z)
        for (long y = 0; y < d.y; ++y) {
            std::vector<CELL> row(std::size_t(d.x), make_cell<CELL>(9999));
            static_cast<const Grid&>(g).get(0, std::size_t(y), std::size_t(z), &row[0], std::size_t(d.x));
            device_ok(c, "final read");
            for (long x = 0; x < d.x; ++x)
                PBT_CHECK(cell_equal(row[std::size_t(x)], AT(x, y, z)), "at the end: cell (%ld,%ld,%ld) is {%s}, model has {%s}", x, y, z,
                          show_cell(row[std::size_t(x)]).c_str(), show_cell(AT(x, y, z)).c_str());
        }
    if (writes >= 2) c.nontrivial();
    }
    device_ok(c, "destruction");
    PBT_CHECK(long(cuda_emu::dev().live.size()) == live0, "%ld device allocations leaked", long(cuda_emu::dev().live.size()) - live0);
}

struct Pod
{
    double a;
    int b[4];
};

template<typename T> T val(std::uint64_t t) { return T(t); }
template<> Pod val<Pod>(std::uint64_t t) { Pod p; std::memset(&p, 0, sizeof(p)); p.a = double(t) / 3; p.b[0] = int(t); p.b[1] = -int(t); p.b[2] = 7; p.b[3] = int(t * 5); return p; }

template<typename T> struct Slot { T v; bool known; };

// a cuda_array against std::vector; elements added by resize() without a value are unspecified
template<typename T>
void device_array(pbt::Ctx& c)
{
    typedef LibFlatArray::cuda_array<T> Array;
    typedef std::vector<Slot<T> > Model;
    cuda_emu::dev().order = c.below(1 << 20);
    long live0 = long(cuda_emu::dev().live.size());
    {
        std::uint64_t tag = 1;
        const int N = 3;
        Array *a[N];
        Model m[N];
        int grew = 0;
        for (int k = 0; k < N; ++k) a[k] = 0;
        int steps = int(c.range(1, 16));
        for (int s = 0; s < steps + N; ++s) {
            c.op();
            int k = s < N ? s : int(c.below(N));
            long n = c.chance(1, 6) ? c.range(500, 1100) : c.skewed(0, 40);
            std::size_t un(n);
            const char *what = "";
            int kind = a[k] == 0 ? int(c.below(6)) : 6 + int(c.below(9));
            Slot<T> none = {val<T>(0), false};
            switch (kind) {
            case 0: a[k] = new Array(); m[k].clear(); what = "default construction"; break;
            case 1: a[k] = new Array(un); m[k].assign(un, none); what = "construction from a size"; break;
            case 2: {
                Slot<T> v = {val<T>(tag++), true};
                a[k] = new Array(un, v.v);
                m[k].assign(un, v);
                what = "construction from size and value";
                break;
            }
            case 3: case 4: {
                std::vector<T> h;
                m[k].clear();
                for (long i = 0; i < n; ++i) { Slot<T> v = {val<T>(tag++), true}; h.push_back(v.v); m[k].push_back(v); }
                if (kind == 3) a[k] = new Array(h);
                else { T dummy; a[k] = new Array(n ? &h[0] : &dummy, un); }
                what = kind == 3 ? "construction from a vector" : "construction from host data";
                break;
            }
            case 5: {
                int o = k && a[k - 1] ? k - 1 : -1;
                if (o < 0) { a[k] = new Array(un); m[k].assign(un, none); what = "construction from a size"; }
                else { a[k] = new Array(*a[o]); m[k] = m[o]; what = "copy construction"; }
                break;
            }
            case 6: {
                int o = int(c.below(N));
                if (!a[o]) o = k;
                *a[k] = *a[o];
                m[k] = m[o];
                c.note("a%d = a%d", k, o);
                what = "assignment";
                break;
            }
            case 7: a[k]->resize(un); grew += un > m[k].size(); m[k].resize(un, none); what = "resize"; break;
            case 8: case 9: {
                Slot<T> v = {val<T>(tag++), true};
                a[k]->resize(un, v.v);
                grew += un > m[k].size();
                m[k].resize(un, v);
                what = "resize with value";
                break;
            }
            case 10: a[k]->reserve(un); PBT_CHECK(a[k]->capacity() >= un, "capacity() is %lu after reserve(%ld)", (unsigned long)a[k]->capacity(), n); what = "reserve"; break;
            case 11: case 12: {
                std::vector<T> h;
                for (std::size_t i = 0; i < m[k].size(); ++i) { m[k][i].v = val<T>(tag++); m[k][i].known = true; h.push_back(m[k][i].v); }
                h.push_back(val<T>(0));
                a[k]->load(&h[0]);
                what = "load";
                break;
            }
            case 13: delete a[k]; a[k] = 0; m[k].clear(); what = "destruction"; break;
            default: { // through a kernel's eyes: the raw device pointer
                if (!m[k].empty()) {
                    std::size_t i = c.below(m[k].size());
                    T v = val<T>(tag++);
                    cudaMemcpy(a[k]->data() + i, &v, sizeof(T), cudaMemcpyHostToDevice);
                    m[k][i].v = v;
                    m[k][i].known = true;
                }
                what = "write through data()";
                break;
            }
            }
            c.note("a%d: %s (%ld)", k, what, n);
            c.label(what);
            device_ok(c, what);
            for (int j = 0; j < N; ++j) if (a[j]) {
                const Array& r = *a[j];
                PBT_CHECK(r.size() == m[j].size(), "after %s: a%d.size() is %lu, model has %lu", what, j, (unsigned long)r.size(), (unsigned long)m[j].size());
                PBT_CHECK(r.capacity() >= r.size(), "after %s: a%d.capacity() < size()", what, j);
                PBT_CHECK(r.byte_size() == m[j].size() * sizeof(T), "after %s: a%d.byte_size() is %lu", what, j, (unsigned long)r.byte_size());
                PBT_CHECK(r.capacity() == 0 || cuda_emu::dev().valid(r.data(), r.capacity() * sizeof(T)), "after %s: a%d doesn't own capacity() elements of device memory", what, j);
                for (int q = 0; q < j; ++q)
                    PBT_CHECK(!a[q] || r.capacity() == 0 || a[q]->data() != r.data(), "after %s: a%d and a%d share memory", what, q, j);
                std::vector<T> h(m[j].size() + 2, val<T>(123));
                r.save(&h[1]);
                device_ok(c, "save");
                T guard = val<T>(123);
                PBT_CHECK(std::memcmp(&h[0], &guard, sizeof(T)) == 0 && std::memcmp(&h[m[j].size() + 1], &guard, sizeof(T)) == 0, "save() wrote outside its target");
                for (std::size_t i = 0; i < m[j].size(); ++i)
                    PBT_CHECK(!m[j][i].known || std::memcmp(&h[i + 1], &m[j][i].v, sizeof(T)) == 0, "after %s on a%d: element %lu of a%d is wrong", what, k, (unsigned long)i, j);
            }
        }
        for (int k = 0; k < N; ++k) delete a[k];
        if (grew) c.nontrivial();
    }
    device_ok(c, "destruction");
    PBT_CHECK(long(cuda_emu::dev().live.size()) == live0, "%ld device allocations leaked", long(cuda_emu::dev().live.size()) - live0);
}

}

#if UNIT == 9
PBT_REGISTER(D01_gen0, &device_grid<Gen0>)
PBT_REGISTER(D01_gen3, &device_grid<Gen3>)
static_assert(std::is_trivially_copyable<Gen0>::value && std::is_trivially_copyable<Gen3>::value, "device cells are copied byte by byte");
#elif UNIT == 1
PBT_REGISTER(D01_one, &device_grid<CellOne>)
PBT_REGISTER(D01_mixed, &device_grid<CellMixed>)
PBT_REGISTER(D01_arr, &device_grid<CellArr>)
#elif UNIT == 2
PBT_REGISTER(D01_def, &device_grid<CellDef>)
PBT_REGISTER(D01_many, &device_grid<CellMany>)
PBT_REGISTER(D01_nest, &device_grid<CellNest>)
#else
PBT_REGISTER(D01_array_double, &device_array<double>)
PBT_REGISTER(D01_array_char, &device_array<char>)
PBT_REGISTER(D01_array_pod, &device_array<Pod>)
#endif
