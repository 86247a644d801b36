// G03: all accessor flavours address the same element; coord<> neighbours are the
// cells at the given relative position.
#include "cells.hpp"
#include <libflatarray/member_ptr_to_offset.hpp>

namespace {

// Each cell's members encode its position, so any misaddressed access is visible.
class Pos
{
public:
    class API { public: LIBFLATARRAY_CUSTOM_SIZES((8)(24), (4)(7), (3)(5)) };
    float f;
    int id;
    double arr[3];
    short s;
    char pad[4];
    Pos() : f(0), id(0), s(0) { for (int i = 0; i < 3; ++i) arr[i] = 0; for (int i = 0; i < 4; ++i) pad[i] = 0; }
};

class PosU
{
public:
    class API { public: LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM((8)(16)) };
    float f;
    int id;
    double arr[3];
    short s;
    char pad[4];
};

// addresses beyond 32 bits
class PosH
{
public:
    class API { public: LIBFLATARRAY_CUSTOM_SIZES((512), (512), (16)(1024)) };
    float f;
    int id;
    double arr[3];
    short s;
    char pad[4];
};

}

LIBFLATARRAY_REGISTER_SOA(PosH, ((double)(arr)(3))((int)(id))((char)(pad)(4))((short)(s))((float)(f)))
LIBFLATARRAY_REGISTER_SOA(Pos, ((double)(arr)(3))((float)(f))((int)(id))((char)(pad)(4))((short)(s)))
LIBFLATARRAY_REGISTER_SOA(PosU, ((short)(s))((char)(pad)(4))((int)(id))((double)(arr)(3))((float)(f)))

namespace {

template<typename C> void encode(C *p, long x, long y, long z)
{
    long k = (z * 64 + y) * 64 + x + 1;
    p->f = float(k) + 0.25f;
    p->id = int(k * 7);
    p->s = short(k % 32000);
    for (int i = 0; i < 3; ++i) p->arr[i] = double(k * 10 + i);
    for (int i = 0; i < 4; ++i) p->pad[i] = char((k * 5 + i) % 127);
}

// positions in the order of registration
template<typename C> struct Member;
template<> struct Member<Pos> { static const long F = 1, ID = 2, S = 4; };
template<> struct Member<PosU> { static const long F = 4, ID = 2, S = 0; };
template<> struct Member<PosH> { static const long F = 4, ID = 1, S = 3; };

template<typename C> bool encodes(const C& p, long x, long y, long z)
{
    C q;
    encode(&q, x, y, z);
    bool r = p.f == q.f && p.id == q.id && p.s == q.s;
    for (int i = 0; i < 3; ++i) r = r && p.arr[i] == q.arr[i];
    for (int i = 0; i < 4; ++i) r = r && p.pad[i] == q.pad[i];
    return r;
}

// read every member one by one through an accessor
template<typename C, typename ACC>
void read_members(C *p, ACC& a, int how)
{
    p->f = a.f();
    p->id = a.id();
    p->s = a.s();
    if (how & 1) {
        for (int i = 0; i < 3; ++i) p->arr[i] = a.arr()[std::size_t(i)];
        for (int i = 0; i < 4; ++i) p->pad[i] = a.pad()[std::size_t(i)];
    } else {
        p->arr[0] = a.template arr<0>(); p->arr[1] = a.template arr<1>(); p->arr[2] = a.template arr<2>();
        p->pad[0] = a.template pad<0>(); p->pad[1] = a.template pad<1>(); p->pad[2] = a.template pad<2>(); p->pad[3] = a.template pad<3>();
    }
}

template<typename C, typename ACC>
void write_members(const C& p, ACC& a, int how)
{
    a.f() = p.f;
    a.id() = p.id;
    a.s() = p.s;
    if (how & 1) {
        for (int i = 0; i < 3; ++i) a.arr()[std::size_t(i)] = p.arr[i];
        for (int i = 0; i < 4; ++i) a.pad()[std::size_t(i)] = p.pad[i];
    } else {
        a.template arr<0>() = p.arr[0]; a.template arr<1>() = p.arr[1]; a.template arr<2>() = p.arr[2];
        a.template pad<0>() = p.pad[0]; a.template pad<1>() = p.pad[1]; a.template pad<2>() = p.pad[2]; a.template pad<3>() = p.pad[3];
    }
}

template<typename C>
struct Probe
{
    pbt::Ctx *ctx;
    Dims d;

    template<long DX, long DY, long DZ, long X, long Y, long Z>
    void neighbour(LibFlatArray::soa_accessor<C, DX, DY, DZ, 0>& acc, long x, long y, long z, const char *who) const
    {
        pbt::Ctx& c = *ctx;
        long nx = x + X, ny = y + Y, nz = z + Z;
        if (nx < 0 || ny < 0 || nz < 0 || nx >= d.x || ny >= d.y || nz >= d.z) return;
        acc.index() = acc.gen_index(x, y, z);
        int how = int(c.below(2));
        C p;
        {
            LibFlatArray::soa_accessor_light<C, LIBFLATARRAY_PARAMS_FULL(X, Y, Z, DX, DY, DZ, 0)> n = acc[LibFlatArray::coord<X, Y, Z>()];
            read_members(&p, n, how);
            PBT_CHECK(encodes(p, nx, ny, nz), "%s: accessor[coord<%ld,%ld,%ld>] at (%ld,%ld,%ld) in a %ldx%ldx%ld layout does not read cell (%ld,%ld,%ld)",
                      who, X, Y, Z, x, y, z, DX, DY, DZ, nx, ny, nz);
            C q;
            n >> q;
            PBT_CHECK(encodes(q, nx, ny, nz), "light accessor >> cell disagrees at coord<%ld,%ld,%ld>", X, Y, Z);
            // one-element images
            std::vector<char> img(LibFlatArray::aggregated_member_size<C>::VALUE + 1, 0x33);
            n.save(&img[0], 1);
            PBT_CHECK(img.back() == 0x33, "light accessor save overran a one-element image");
            C blank;
            n << blank;
            n.load(&img[0], 1);
            C r;
            read_members(&r, n, 1 - how);
            PBT_CHECK(encodes(r, nx, ny, nz), "light accessor save/load of one cell does not restore it (coord<%ld,%ld,%ld>)", X, Y, Z);
            C conv = C(n);
            PBT_CHECK(encodes(conv, nx, ny, nz), "conversion of soa_accessor_light to a cell disagrees at coord<%ld,%ld,%ld>", X, Y, Z);
            C raw(conv);
            raw.f = n.template access_member<float, Member<C>::F>();
            raw.id = n.template access_member<int, Member<C>::ID>();
            raw.s = *reinterpret_cast<short *>(n.access_member(sizeof(short), LibFlatArray::member_ptr_to_offset()(&C::s)));
            PBT_CHECK(encodes(raw, nx, ny, nz), "access_member() of soa_accessor_light at coord<%ld,%ld,%ld> reaches another cell", X, Y, Z);
            // whole pieces of a row
            bool packed = c.chance(1, 3);
            long cnt = c.range(0, d.x - nx), off = packed ? 0 : c.range(0, 3), stride = packed ? cnt : cnt + off + c.range(0, 3);
            std::size_t B = LibFlatArray::aggregated_member_size<C>::VALUE;
            std::vector<char> row(B * std::size_t(stride) + 1, 0x44), row2(row), row3(row), row4(row);
            n.save(&row[0], std::size_t(cnt), std::size_t(off), std::size_t(stride));
            typedef LibFlatArray::soa_accessor<C, DX, DY, DZ, 0> A;
            A full(acc.data(), A::gen_index(nx, ny, nz));
            full.save(&row2[0], std::size_t(cnt), std::size_t(off), std::size_t(stride));
            PBT_CHECK(row == row2, "soa_accessor_light::save(count %ld, offset %ld, stride %ld) at coord<%ld,%ld,%ld> and soa_accessor::save disagree", cnt, off, stride, X, Y, Z);
            const LibFlatArray::const_soa_accessor<C, LIBFLATARRAY_PARAMS_FULL(X, Y, Z, DX, DY, DZ, 0)> k1(acc.data(), acc.index());
            k1.save(&row3[0], std::size_t(cnt), std::size_t(off), std::size_t(stride));
            long at = acc.index();
            const LibFlatArray::const_soa_accessor_light<C, LIBFLATARRAY_PARAMS_FULL(X, Y, Z, DX, DY, DZ, 0)> k2(acc.data(), at);
            k2.save(&row4[0], std::size_t(cnt), std::size_t(off), std::size_t(stride));
            PBT_CHECK(row3 == row2 && row4 == row2, "save(count %ld, offset %ld, stride %ld) of const accessors at coord<%ld,%ld,%ld> disagrees", cnt, off, stride, X, Y, Z);
            if (off == 0 && stride == cnt && cnt) {
                std::vector<char> pk(row.size(), 0x44);
                if (how) n.save(&pk[0], std::size_t(cnt)); else k2.save(&pk[0], std::size_t(cnt));
                PBT_CHECK(pk == row, "save(count %ld) and save(count, 0, count) disagree", cnt);
            }
            for (long i = 0; i < cnt; ++i) { A t(acc.data(), A::gen_index(nx + i, ny, nz)); t << blank; }
            if (off == 0 && stride == cnt && c.below(2)) n.load(&row[0], std::size_t(cnt));
            else n.load(&row[0], std::size_t(cnt), std::size_t(off), std::size_t(stride));
            for (long i = 0; i < cnt; ++i) {
                A t(acc.data(), A::gen_index(nx + i, ny, nz));
                read_members(&r, t, how);
                PBT_CHECK(encodes(r, nx + i, ny, nz), "soa_accessor_light::load(count %ld, offset %ld, stride %ld) at coord<%ld,%ld,%ld> does not restore element %ld", cnt, off, stride, X, Y, Z, i);
            }
            if (nx > 0) {
                C q2;
                auto nn = n[LibFlatArray::coord<-1, 0, 0>()];
                read_members(&q2, nn, how);
                PBT_CHECK(encodes(q2, nx - 1, ny, nz), "nested coord<%ld,%ld,%ld>+<-1,0,0> of a light accessor misses its cell", X, Y, Z);
            }
            // light accessors follow the accessor they stem from
            long step = c.range(0, d.x - 1 - (nx > x ? nx : x));
            if (how) n += step; else for (long i = 0; i < step; ++i) ++n;
            read_members(&r, n, how);
            PBT_CHECK(encodes(r, nx + step, ny, nz), "soa_accessor_light advanced by %ld from coord<%ld,%ld,%ld> misses its cell", step, X, Y, Z);
            acc.index() = acc.gen_index(x, y, z);
            auto same = acc[LibFlatArray::coord<X, Y, Z>()];
            PBT_CHECK((n == same) && !(n != same), "two light accessors of one accessor compare unequal");
            // copies between rows
            long len = c.range(0, d.x - (nx > x ? nx : x));
            std::vector<C> keep;
            for (long i = 0; i < len; ++i) { A t(acc.data(), A::gen_index(x + i, y, z)); keep.push_back(C(t)); }
            bool overlap = ny == y && nz == z;
            if (!overlap) {
                A here(acc.data(), A::gen_index(x, y, z));
                if (how) here.copy_members(n, std::size_t(len));
                else { A src(acc.data(), A::gen_index(nx, ny, nz)); here.copy_members(src, std::size_t(len)); }
                for (long i = 0; i < len; ++i) {
                    A t(acc.data(), A::gen_index(x + i, y, z));
                    read_members(&r, t, how);
                    PBT_CHECK(encodes(r, nx + i, ny, nz), "copy_members(%ld cells) from coord<%ld,%ld,%ld>: element %ld is wrong", len, X, Y, Z, i);
                    t << keep[std::size_t(i)];
                }
                std::vector<C> there;
                for (long i = 0; i < len; ++i) { A t(acc.data(), A::gen_index(nx + i, ny, nz)); there.push_back(C(t)); }
                A src(acc.data(), A::gen_index(x, y, z));
                n.copy_members(src, std::size_t(len));
                for (long i = 0; i < len; ++i) {
                    A t(acc.data(), A::gen_index(nx + i, ny, nz));
                    read_members(&r, t, how);
                    PBT_CHECK(encodes(r, x + i, y, z), "light copy_members(%ld cells) to coord<%ld,%ld,%ld>: element %ld is wrong", len, X, Y, Z, i);
                    t << there[std::size_t(i)];
                }
            }
        }
        {
            typedef LibFlatArray::const_soa_accessor<C, DX, DY, DZ, 0> CA;
            typedef LibFlatArray::const_soa_accessor<C, LIBFLATARRAY_PARAMS_FULL(X, Y, Z, DX, DY, DZ, 0)> CN;
            const CA ca(acc.data(), acc.index());
            const CN cn = ca[LibFlatArray::coord<X, Y, Z>()];
            read_members(&p, cn, how);
            PBT_CHECK(encodes(p, nx, ny, nz), "%s: const_soa_accessor[coord<%ld,%ld,%ld>] at (%ld,%ld,%ld) does not read cell (%ld,%ld,%ld)",
                      who, X, Y, Z, x, y, z, nx, ny, nz);
            // a const accessor that could write
            const LibFlatArray::soa_accessor<C, DX, DY, DZ, 0> constant(acc.data(), acc.index());
            auto relative = constant[LibFlatArray::coord<X, Y, Z>()];
            read_members(&p, relative, how);
            PBT_CHECK(encodes(p, nx, ny, nz), "%s: const soa_accessor[coord<%ld,%ld,%ld>] at (%ld,%ld,%ld) does not read cell (%ld,%ld,%ld)", who, X, Y, Z, x, y, z, nx, ny, nz);
            long index = acc.index();
            typedef LibFlatArray::const_soa_accessor_light<C, DX, DY, DZ, 0> CL;
            typedef LibFlatArray::const_soa_accessor_light<C, LIBFLATARRAY_PARAMS_FULL(X, Y, Z, DX, DY, DZ, 0)> CLN;
            const CL cl(acc.data(), index);
            const CLN cln = cl[LibFlatArray::coord<X, Y, Z>()];
            read_members(&p, cln, how);
            PBT_CHECK(encodes(p, nx, ny, nz), "%s: const_soa_accessor_light[coord<%ld,%ld,%ld>] at (%ld,%ld,%ld) does not read cell (%ld,%ld,%ld)",
                      who, X, Y, Z, x, y, z, nx, ny, nz);
            C viaop;
            cln >> viaop;
            PBT_CHECK(encodes(viaop, nx, ny, nz), "const_soa_accessor_light >> cell disagrees at coord<%ld,%ld,%ld>", X, Y, Z);
            C conv = C(cn);
            PBT_CHECK(encodes(conv, nx, ny, nz), "conversion of const_soa_accessor to a cell disagrees at coord<%ld,%ld,%ld>", X, Y, Z);
            std::vector<char> i1(LibFlatArray::aggregated_member_size<C>::VALUE, 0), i2(i1), i3(i1);
            acc[LibFlatArray::coord<X, Y, Z>()].save(&i1[0], 1);
            cn.save(&i2[0], 1);
            cln.save(&i3[0], 1);
            PBT_CHECK(i1 == i2 && i1 == i3, "save() through the accessor flavours disagrees at coord<%ld,%ld,%ld>", X, Y, Z);
            // nested displacement composes
            if (nx + 1 < d.x) {
                C q;
                auto nn = cn[LibFlatArray::coord<1, 0, 0>()];
                read_members(&q, nn, how);
                // light accessors are anchored at compile-time offsets; displacements accumulate
                PBT_CHECK(encodes(q, nx + 1, ny, nz), "nested coord<%ld,%ld,%ld>+<1,0,0> at (%ld,%ld,%ld) misses its cell", X, Y, Z, x, y, z);
            }
        }
        c.op();
    }

    template<long DX, long DY, long DZ>
    void operator()(LibFlatArray::soa_accessor<C, DX, DY, DZ, 0>& acc) const
    {
        pbt::Ctx& c = *ctx;
        typedef LibFlatArray::soa_accessor<C, DX, DY, DZ, 0> A;
        typedef LibFlatArray::const_soa_accessor<C, DX, DY, DZ, 0> CA;
        long x = c.skewed(0, d.x - 1), y = c.skewed(0, d.y - 1), z = c.skewed(0, d.z - 1);
        c.note("probe (%ld, %ld, %ld) in layout %ldx%ldx%ld", x, y, z, DX, DY, DZ);
        PBT_CHECK(A::DIM_X == DX && A::DIM_Y == DY && A::DIM_Z == DZ && A::DIM_PROD == DX * DY * DZ, "accessor reports wrong dims");
        PBT_CHECK(A::gen_index(x, y, z) == A::gen_index(std::size_t(x), std::size_t(y), std::size_t(z)), "gen_index overloads disagree");
        PBT_CHECK(A::gen_index(x, y, z) == CA::gen_index(x, y, z), "gen_index of accessor and const accessor disagree");
        C p;
        int how = int(c.below(4));
        // plain accessor
        acc.index() = A::gen_index(x, y, z);
        read_members(&p, acc, how);
        PBT_CHECK(encodes(p, x, y, z), "soa_accessor at (%ld,%ld,%ld) reads a different cell", x, y, z);
        // const view of it
        const A& ca = acc;
        PBT_CHECK(ca.f() == p.f && ca.id() == p.id && ca.s() == p.s, "const soa_accessor disagrees with soa_accessor");
        // const accessor
        CA con(acc.data(), acc.index());
        read_members(&p, con, how);
        PBT_CHECK(encodes(p, x, y, z), "const_soa_accessor at (%ld,%ld,%ld) reads a different cell", x, y, z);
        C q;
        con >> q;
        PBT_CHECK(encodes(q, x, y, z), "const_soa_accessor >> cell disagrees");
        // advancing: += and ++ walk along x
        long k = c.range(0, d.x - 1 - x);
        A walk(acc.data(), A::gen_index(x, y, z));
        CA cwalk(acc.data(), A::gen_index(x, y, z));
        if (how & 2) { walk += k; cwalk += k; } else for (long i = 0; i < k; ++i) { ++walk; ++cwalk; }
        read_members(&p, walk, how);
        PBT_CHECK(encodes(p, x + k, y, z), "accessor advanced by %ld from (%ld,%ld,%ld) reads a different cell", k, x, y, z);
        read_members(&p, cwalk, how);
        PBT_CHECK(encodes(p, x + k, y, z), "const accessor advanced by %ld from (%ld,%ld,%ld) reads a different cell", k, x, y, z);
        PBT_CHECK(walk.index() == A::gen_index(x + k, y, z), "index after advancing");
        A other(acc.data(), A::gen_index(x + k, y, z));
        PBT_CHECK((walk == other) && !(walk != other), "equal accessors compare unequal");
        PBT_CHECK((k == 0) == (acc == other) && (k != 0) == (acc != other), "accessor comparison wrong for distance %ld", k);
        {
            CA x1(acc.data(), A::gen_index(x, y, z)), x2(acc.data(), A::gen_index(x + k, y, z));
            PBT_CHECK((x1 == x2) == (k == 0) && (x1 != x2) == (k != 0), "const accessor comparison wrong for distance %ld", k);
            std::vector<char> elsewhere(64, 0);
            A e1(&elsewhere[0], acc.index());
            CA e2(&elsewhere[0], acc.index());
            long same_index = acc.index();
            LibFlatArray::soa_accessor_light<C, DX, DY, DZ, 0> l1(acc.data(), same_index), l2(&elsewhere[0], same_index);
            LibFlatArray::const_soa_accessor_light<C, DX, DY, DZ, 0> l3(acc.data(), same_index), l4(&elsewhere[0], same_index), l5(acc.data(), same_index);
            PBT_CHECK(!(acc == e1) && (acc != e1) && !(x1 == e2) && (x1 != e2), "accessors of different grids compare equal");
            PBT_CHECK(!(l1 == l2) && (l1 != l2) && !(l3 == l4) && (l3 != l4) && (l3 == l5) && !(l3 != l5), "comparison of light accessors is wrong");
            C raw;
            read_members(&raw, acc, how);
            raw.f = acc.template access_member<float, Member<C>::F>();
            raw.s = acc.template access_member<short, Member<C>::S>();
            raw.id = *reinterpret_cast<int *>(acc.access_member(sizeof(int), LibFlatArray::member_ptr_to_offset()(&C::id)));
            PBT_CHECK(encodes(raw, x, y, z), "access_member() at (%ld,%ld,%ld) reaches another cell", x, y, z);
            CA c1(acc.data(), acc.index());
            LibFlatArray::const_soa_accessor_light<C, DX, DY, DZ, 0> c2(acc.data(), same_index);
            LibFlatArray::soa_accessor_light<C, DX, DY, DZ, 0> c3(acc.data(), same_index);
            PBT_CHECK(encodes(C(c1), x, y, z) && encodes(C(c2), x, y, z) && encodes(C(c3), x, y, z) && encodes(C(acc), x, y, z), "conversions to a cell disagree at (%ld,%ld,%ld)", x, y, z);
            if (how & 2) { c2 += k; } else for (long i = 0; i < k; ++i) ++c2;
            PBT_CHECK(encodes(C(c2), x + k, y, z), "const_soa_accessor_light advanced by %ld from (%ld,%ld,%ld) reads a different cell", k, x, y, z);
            PBT_CHECK(c3.index() == A::gen_index(x + k, y, z), "light accessors over one index disagree on it");
        }
        // writes through one flavour are seen by the others and touch nothing else
        {
            A w(acc.data(), A::gen_index(x, y, z));
            C val, saved;
            read_members(&saved, w, how);
            encode(&val, x + 1, y + 2, z + 3);
            write_members(val, w, how);
            read_members(&p, con, 1 - (how & 1));
            PBT_CHECK(encodes(p, x + 1, y + 2, z + 3), "write through soa_accessor not seen by const_soa_accessor");
            write_members(saved, w, 1 - (how & 1));
        }
        {
            // in the middle of a row, through the neighbour to the left
            if (x > 0) {
                acc.index() = A::gen_index(x - 1, y, z);
                LibFlatArray::soa_accessor_light<C, DX, DY, DZ, 1> light = acc[LibFlatArray::coord<1, 0, 0>()];
                C val;
                encode(&val, x + 2, y, z + 1);
                if (how & 1) light << val; else light = val;
                A r(acc.data(), A::gen_index(x, y, z));
                read_members(&p, r, how);
                PBT_CHECK(encodes(p, x + 2, y, z + 1), "write through soa_accessor_light[coord<1,0,0>] landed elsewhere");
                encode(&val, x, y, z);
                write_members(val, light, how);
            }
        }
        // multi-element copy with offset and stride
        {
            // consecutive cells, also beyond the row if it fills the layout
            long n = d.x - x;
            if (d.x == DX) n += (d.y - 1 - y) * DX;
            if (d.x == DX && d.y == DY) n += (d.z - 1 - z) * DX * DY;
            if (n > d.x - x && c.below(2)) { n = c.range(d.x - x, n < 3000 ? n : 3000); c.label("transfer across rows"); }
            else n = c.below(4) ? d.x - x : c.range(0, d.x - x);
            bool brief = c.below(2);
            long off = brief ? 0 : c.range(0, 3), stride = brief ? n : n + off + c.range(0, 3);
            std::size_t B = LibFlatArray::aggregated_member_size<C>::VALUE;
            std::vector<char> img(B * std::size_t(stride) + 1, 0x44), img2(img);
            A w(acc.data(), A::gen_index(x, y, z));
            CA cw(acc.data(), A::gen_index(x, y, z));
            if (brief) { w.save(&img[0], std::size_t(n)); cw.save(&img2[0], std::size_t(n)); }
            else {
                w.save(&img[0], std::size_t(n), std::size_t(off), std::size_t(stride));
                cw.save(&img2[0], std::size_t(n), std::size_t(off), std::size_t(stride));
            }
            PBT_CHECK(img == img2, "soa_accessor::save and const_soa_accessor::save(count %ld, offset %ld, stride %ld) disagree", n, off, stride);
            PBT_CHECK(img.back() == 0x44, "accessor save overran its image");
            long touched = 0;
            for (std::size_t i = 0; i < img.size(); ++i) touched += img[i] != 0x44;
            PBT_CHECK(touched <= long(B) * n, "accessor save wrote more than the requested elements");
            C blank;
            for (long i = 0; i < n; ++i) { A t(acc.data(), A::gen_index(x, y, z) + i); t << blank; }
            if (brief) w.load(&img[0], std::size_t(n)); else w.load(&img[0], std::size_t(n), std::size_t(off), std::size_t(stride));
            for (long i = 0; i < n; ++i) {
                A t(acc.data(), A::gen_index(x, y, z) + i);
                read_members(&p, t, how);
                long k = A::gen_index(x, y, z) + i;
                PBT_CHECK(encodes(p, k % DX, k / DX % DY, k / DX / DY), "accessor save/load(count %ld, offset %ld, stride %ld) does not restore element %ld", n, off, stride, i);
            }
        }
        const char *who = "grid";
        neighbour<DX, DY, DZ, 0, 0, 0>(acc, x, y, z, who);
        neighbour<DX, DY, DZ, 1, 0, 0>(acc, x, y, z, who);
        neighbour<DX, DY, DZ, -1, 0, 0>(acc, x, y, z, who);
        neighbour<DX, DY, DZ, 0, 1, 0>(acc, x, y, z, who);
        neighbour<DX, DY, DZ, 0, -1, 0>(acc, x, y, z, who);
        neighbour<DX, DY, DZ, 0, 0, 1>(acc, x, y, z, who);
        neighbour<DX, DY, DZ, 0, 0, -1>(acc, x, y, z, who);
        neighbour<DX, DY, DZ, 2, -1, 1>(acc, x, y, z, who);
        neighbour<DX, DY, DZ, -2, 1, -1>(acc, x, y, z, who);
        neighbour<DX, DY, DZ, -1, -2, 2>(acc, x, y, z, who);
        neighbour<DX, DY, DZ, 3, 2, -2>(acc, x, y, z, who);
        acc.index() = 0;
    }
};

template<typename C>
void probe(pbt::Ctx& c, Dims d, int probes)
{
    LibFlatArray::soa_grid<C> g(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z));
    c.note("grid (%ld, %ld, %ld), every member encodes its position", d.x, d.y, d.z);
    for (long z = 0; z < d.z; ++z)
        for (long y = 0; y < d.y; ++y)
            for (long x = 0; x < d.x; ++x) {
                C p;
                encode(&p, x, y, z);
                g.set(std::size_t(x), std::size_t(y), std::size_t(z), p);
            }
    Probe<C> f = {&c, d};
    for (int i = 0; i < probes; ++i) g.callback(f);
    // nothing else was disturbed
    for (long z = 0; z < d.z; ++z)
        for (long y = 0; y < d.y; ++y)
            for (long x = 0; x < d.x; ++x)
                PBT_CHECK(encodes(g.get(std::size_t(x), std::size_t(y), std::size_t(z)), x, y, z), "cell (%ld,%ld,%ld) was disturbed by accesses to other cells", x, y, z);
    if (d.x > 2 && d.y > 2 && d.z > 2) c.nontrivial();
    else if (d.x > 2 && (d.y > 1 || d.z > 1)) { c.nontrivial(); c.label("flat grid"); }
}

}

// indices beyond 32 bits: every flavour, absolute and relative
namespace {
struct Far
{
    pbt::Ctx *ctx;
    Dims d;
    static char enc(long x, long y, long z) { return char(1 + (x * 7 + y * 31 + z * 113) % 120); }

    template<long X, long Y, long Z, long DX, long DY, long DZ>
    void rel(LibFlatArray::soa_accessor<HugeChar, DX, DY, DZ, 0>& acc, long x, long y, long z) const
    {
        pbt::Ctx& c = *ctx;
        long nx = x + X, ny = y + Y, nz = z + Z;
        if (nx < 0 || ny < 0 || nz < 0 || nx >= d.x || ny >= d.y || nz >= d.z) return;
        acc.index() = acc.gen_index(x, y, z);
        char want = enc(nx, ny, nz);
        PBT_CHECK((acc[LibFlatArray::coord<X, Y, Z>()].v() == want), "accessor[coord<%ld,%ld,%ld>] at (%ld,%ld,%ld) misses its cell", X, Y, Z, x, y, z);
        const LibFlatArray::const_soa_accessor<HugeChar, DX, DY, DZ, 0> ca(acc.data(), acc.index());
        PBT_CHECK((ca[LibFlatArray::coord<X, Y, Z>()].v() == want), "const accessor[coord<%ld,%ld,%ld>] at (%ld,%ld,%ld) misses its cell", X, Y, Z, x, y, z);
        long index = acc.index();
        const LibFlatArray::const_soa_accessor_light<HugeChar, DX, DY, DZ, 0> cl(acc.data(), index);
        PBT_CHECK((cl[LibFlatArray::coord<X, Y, Z>()].v() == want), "light accessor[coord<%ld,%ld,%ld>] at (%ld,%ld,%ld) misses its cell", X, Y, Z, x, y, z);
        c.op();
    }

    template<long DX, long DY, long DZ>
    void operator()(LibFlatArray::soa_accessor<HugeChar, DX, DY, DZ, 0>& acc) const
    {
        pbt::Ctx& c = *ctx;
        typedef LibFlatArray::soa_accessor<HugeChar, DX, DY, DZ, 0> A;
        long x = c.skewed(0, d.x - 1), y = c.skewed(0, d.y - 1), z = c.range(0, d.z - 1);
        c.note("probe (%ld, %ld, %ld)", x, y, z);
        PBT_CHECK(A::gen_index(x, y, z) == (z * DY + y) * DX + x, "gen_index(%ld,%ld,%ld) is %ld", x, y, z, long(A::gen_index(x, y, z)));
        PBT_CHECK(A::DIM_PROD == DX * DY * DZ, "DIM_PROD is %ld", long(A::DIM_PROD));
        acc.index() = 0;
        acc += (z * DY + y) * DX + x;
        PBT_CHECK(acc.v() == enc(x, y, z), "accessor advanced to (%ld,%ld,%ld) reads another cell", x, y, z);
        A b(acc.data(), 0);
        PBT_CHECK((acc == b) == (x == 0 && y == 0 && z == 0) && (acc != b) != (acc == b), "comparison of far accessors");
        rel<0, 0, 0>(acc, x, y, z); rel<0, 0, 1>(acc, x, y, z); rel<0, 0, -1>(acc, x, y, z);
        rel<1, 1, 1>(acc, x, y, z); rel<-1, 2, -1>(acc, x, y, z); rel<2, -1, 1>(acc, x, y, z);
        rel<1, -2, -1>(acc, x, y, z); rel<0, 3, 0>(acc, x, y, z); rel<-1, -3, 0>(acc, x, y, z);
        acc.index() = 0;
    }
};

void far_probe(pbt::Ctx& c)
{
    Dims d = {c.range(1, 9), c.range(1, 6), c.below(5) ? 2 : 1};
    LibFlatArray::soa_grid<HugeChar> g(std::size_t(d.x), std::size_t(d.y), std::size_t(d.z));
    for (long z = 0; z < d.z; ++z) for (long y = 0; y < d.y; ++y) for (long x = 0; x < d.x; ++x) {
        HugeChar h;
        h.v = Far::enc(x, y, z);
        g.set(std::size_t(x), std::size_t(y), std::size_t(z), h);
    }
    c.note("grid (%ld, %ld, %ld) in a 65536x65536x2 layout", d.x, d.y, d.z);
    Far f = {&c, d};
    for (int i = 0; i < 4; ++i) g.callback(f);
    if (d.z > 1 && d.n() > 4) c.nontrivial();
}

void huge_probe(pbt::Ctx& c)
{
    Dims d = {c.range(1, 12), c.range(1, 6), c.below(4) ? c.range(17, 20) : c.range(1, 16)};
    probe<PosH>(c, d, int(c.range(1, 4)));
}
}

#if UNIT == 1
PBT_TARGET(G03_custom)
{
    Dims d = {pick_dim(c, {8, 24}, 24), pick_dim(c, {4, 7}, 7), pick_dim(c, {3, 5}, 5)};
    probe<Pos>(c, d, int(c.range(1, 4)));
}
#ifdef HAVE_HUGE
PBT_REGISTER(G03_huge_far, &huge<&far_probe>)
#endif

#else
PBT_TARGET(G03_uniform)
{
    Dims d = {pick_dim(c, {8, 16}, 16), pick_dim(c, {8, 16}, 16), pick_dim(c, {8}, 10)};
    probe<PosU>(c, d, int(c.range(1, 4)));
}
#ifdef HAVE_HUGE
PBT_REGISTER(G03_huge_mix, &huge<&huge_probe>)
#endif
#endif
