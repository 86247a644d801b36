// M02: whatever is registered, the SoA layout is gap-free, in registration order, and described truthfully.
#include "cells.hpp"
#include <libflatarray/aggregated_member_size.hpp>
#include <libflatarray/member_ptr_to_offset.hpp>
#include <libflatarray/number_of_members.hpp>
#include <stdexcept>

namespace {

struct Layout
{
    std::vector<std::size_t> start, size, arity;   // bytes per cell before each member, of one element, elements
    std::size_t total;
    Layout() : total(0) {}
    template<typename P> void operator()(P, std::size_t s, int n)
    {
        start.push_back(total);
        size.push_back(s);
        arity.push_back(std::size_t(n));
        total += s * std::size_t(n);
    }
};

template<typename CELL> const Layout& layout()
{
    static Layout *l = 0;
    if (!l) { l = new Layout(); Cell<CELL>::pointers(*l); }
    return *l;
}

struct Offsets
{
    pbt::Ctx *c;
    const Layout *l;
    std::size_t k;
    long only;
    template<typename P> void operator()(P p, std::size_t, int)
    {
        std::size_t i = k++;
        if (only >= 0 && long(i) != only) return;
        long got = -1;
        try {
            got = LibFlatArray::member_ptr_to_offset()(p);
        } catch (const std::invalid_argument& e) {
            c->fail("member_ptr_to_offset() rejects registered member %zu: %s", i, e.what());
        }
        if (std::size_t(got) != l->start[i]) c->fail("member_ptr_to_offset() of member %zu gives %ld, members before it take %zu bytes", i, got, l->start[i]);
    }
};

struct Refused
{
    pbt::Ctx *c;
    int n;
    template<typename P> void operator()(P p)
    {
        bool threw = false;
        try {
            long got = LibFlatArray::member_ptr_to_offset()(p);
            c->note("got offset %ld", got);
        } catch (const std::invalid_argument&) {
            threw = true;
        }
        if (!threw) c->fail("member_ptr_to_offset() accepts a member that was not registered");
        ++n;
    }
};

// addresses relative to the data, given the strides of the layout
struct Addresses
{
    pbt::Ctx *c;
    const Layout *l;
    const char *data, *who;
    long prod, index;
    long count;
    void operator()(const char *p, int member, int element)
    {
        long want = prod * long(l->start[std::size_t(member)] + std::size_t(element) * l->size[std::size_t(member)]) + index * long(l->size[std::size_t(member)]);
        if (p - data != want)
            c->fail("%s: element %d of member %d of the cell at index %ld lies at byte %ld, expected %ld (%ld cells)", who, element, member, index, long(p - data), want, prod);
        ++count;
    }
};

struct Neighbours
{
    pbt::Ctx *c;
    const char *who;
    long dx, dy, dz;
    void operator()(const char *p, const char *base, long x, long y, long z, long size)
    {
        long want = (x + dx * (y + dy * z)) * size;
        if (p - base != want) c->fail("%s: [coord<%ld, %ld, %ld>] is %ld bytes away in a %ldx%ldx%ld layout, expected %ld", who, x, y, z, long(p - base), dx, dy, dz, want);
    }
};

template<typename CELL>
struct Probe
{
    pbt::Ctx *c;
    Dims d;
    const char *data;
    std::size_t bytes;
    bool relative;

    // RAW: the accessor grants access to members by number and offset
    template<bool RAW, typename A> void look(A& acc, long i, const char *who) const
    {
        typedef typename std::remove_const<A>::type ACC;
        Addresses a = {c, &layout<CELL>(), data, who, long(ACC::DIM_X) * long(ACC::DIM_Y) * long(ACC::DIM_Z), i, 0};
        Cell<CELL>::addresses(acc, a);
        Cell<CELL>::runtime_addresses(acc, a);
        raw(acc, a, std::integral_constant<bool, RAW>());
        if (a.prod != long(ACC::DIM_PROD)) c->fail("%s: DIM_PROD is %ld for %ld cells", who, long(ACC::DIM_PROD), a.prod);
        if (a.prod * long(layout<CELL>().total) != long(bytes)) c->fail("%s: layout of %ld cells of %zu bytes in a grid with %zu bytes", who, a.prod, layout<CELL>().total, bytes);
        if (acc.data() != data) c->fail("%s: data() isn't the grid's", who);
        if (relative) {
            Neighbours n = {c, who, long(ACC::DIM_X), long(ACC::DIM_Y), long(ACC::DIM_Z)};
            Cell<CELL>::neighbours(acc, n);
            raw_rel(acc, n, std::integral_constant<bool, RAW>());
        }
    }
    template<typename A> void raw(A& acc, Addresses& a, std::true_type) const { Cell<CELL>::raw_addresses(acc, a); }
    template<typename A> void raw(A&, Addresses&, std::false_type) const {}
    template<typename A> void raw_rel(A& acc, Neighbours& n, std::true_type) const { Cell<CELL>::raw_neighbours(acc, n); }
    template<typename A> void raw_rel(A&, Neighbours&, std::false_type) const {}

    template<typename A> long pick() const
    {
        long x = c->skewed(0, d.x - 1), y = c->skewed(0, d.y - 1), z = c->skewed(0, d.z - 1);
        c->note("at (%ld, %ld, %ld)", x, y, z);
        return x + long(A::DIM_X) * (y + long(A::DIM_Y) * z);
    }

    template<long X, long Y, long Z, long I> void operator()(LibFlatArray::soa_accessor<CELL, X, Y, Z, I>& acc) const
    {
        typedef LibFlatArray::soa_accessor<CELL, X, Y, Z, I> A;
        long i = pick<A>();
        acc.index() = i;
        look<true>(acc, i, "soa_accessor");
        LibFlatArray::soa_accessor_light<CELL, X, Y, Z, I> light(acc.data(), i);
        look<true>(light, i, "soa_accessor_light");
        const LibFlatArray::const_soa_accessor<CELL, X, Y, Z, I> con(acc.data(), i);
        look<false>(con, i, "const_soa_accessor");
        const LibFlatArray::const_soa_accessor_light<CELL, X, Y, Z, I> conlight(acc.data(), i);
        look<false>(conlight, i, "const_soa_accessor_light");
        acc.index() = 0;
    }
    template<long X, long Y, long Z, long I> void operator()(LibFlatArray::const_soa_accessor<CELL, X, Y, Z, I>& acc) const
    {
        long i = pick<LibFlatArray::const_soa_accessor<CELL, X, Y, Z, I> >();
        acc.index() = i;
        look<false>(acc, i, "const_soa_accessor");
        acc.index() = 0;
    }
};

template<typename CELL>
void registered(pbt::Ctx& c)
{
    const Layout& l = layout<CELL>();
    c.note("%s", Cell<CELL>::name());
    switch (c.below(4)) {
    case 0: {
        PBT_CHECK(std::size_t(LibFlatArray::number_of_members<CELL>::VALUE) == l.size.size(), "number_of_members is %ld, %zu were registered", long(LibFlatArray::number_of_members<CELL>::VALUE), l.size.size());
        PBT_CHECK(std::size_t(LibFlatArray::aggregated_member_size<CELL>::VALUE) == l.total, "aggregated_member_size is %ld, members take %zu bytes",
                  long(LibFlatArray::aggregated_member_size<CELL>::VALUE), l.total);
        Offsets o = {&c, &l, 0, long(c.below(l.size.size()))};
        c.note("offset of member %ld", o.only);
        Cell<CELL>::pointers(o);
        Refused r = {&c, 0};
        Cell<CELL>::unregistered(r);
        if (r.n) c.label("unregistered members refused");
        c.label("metadata");
        break;
    }
    case 1: {
        // arrays
        typedef LibFlatArray::soa_array<CELL, int(GEN_CAPACITY)> Array;
        Array a(GEN_CAPACITY);
        long i = c.skewed(0, long(GEN_CAPACITY) - 1);
        c.note("soa_array<%d> element %ld", int(GEN_CAPACITY), i);
        Addresses s = {&c, &l, a.data(), "soa_array", long(GEN_CAPACITY), i, 0};
        auto acc = a[int(i)];
        Cell<CELL>::addresses(acc, s);
        Cell<CELL>::runtime_addresses(acc, s);
        Cell<CELL>::raw_addresses(acc, s);
        const Array& ca = a;
        auto cacc = ca[int(i)];
        s.who = "const soa_array";
        Cell<CELL>::addresses(cacc, s);
        Cell<CELL>::runtime_addresses(cacc, s);
        PBT_CHECK(a.byte_size() == l.total * GEN_CAPACITY, "byte_size() is %zu", a.byte_size());
        c.label("array");
        break;
    }
    default: {
        Dims d = DimGen<CELL>::gen(c);
        bool con = c.below(2), rel = c.below(2);
        c.note("grid (%ld, %ld, %ld)", d.x, d.y, d.z);
        LibFlatArray::soa_grid<CELL> g(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z));
        Probe<CELL> p = {&c, d, g.data(), g.byte_size(), rel};
        const LibFlatArray::soa_grid<CELL>& cg = g;
        if (con) cg.callback(p); else g.callback(p);
        c.label(con ? "const grid" : "grid");
    }
    }
    c.op();
    if (l.size.size() > 1 || l.arity[0] > 1) c.nontrivial();
}

}

PBT_REGISTER(M02_gen0, &registered<Gen0>)
PBT_REGISTER(M02_gen1, &registered<Gen1>)
PBT_REGISTER(M02_gen2, &registered<Gen2>)
