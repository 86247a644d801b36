// A member type that records its own lifetime, and a cell built from it.
#ifndef VERIF_TRACKED_HPP
#define VERIF_TRACKED_HPP

#include "cells.hpp"
#include <set>

struct Registry
{
    std::set<const void*> live;
    char error[256];
    static Registry& get() { static Registry r; return r; }
    Registry() { error[0] = 0; }
    void fail(const char *what, const void *p)
    {
        if (!error[0]) std::snprintf(error, sizeof(error), "%s (object at %p)", what, p);
    }
};

struct Tracked
{
    const Tracked *self;   // detects bytewise relocation
    long value;

    Tracked() : self(this), value(0) { enter(); }
    explicit Tracked(long v) : self(this), value(v) { enter(); }
    Tracked(const Tracked& o) : self(this), value(o.check("copied from")) { enter(); }
    Tracked& operator=(const Tracked& o)
    {
        check("assigned to");
        value = o.check("assigned from");
        return *this;
    }
    ~Tracked()
    {
        check("destroyed");
        Registry::get().live.erase(this);
        self = 0;
        value = -1;
    }
    void enter()
    {
        if (!Registry::get().live.insert(this).second) Registry::get().fail("constructed on top of a live object", this);
    }
    long check(const char *how) const
    {
        Registry& r = Registry::get();
        if (!r.live.count(this)) {
            char buf[80];
            std::snprintf(buf, sizeof(buf), "%s, but not alive", how);
            r.fail(buf, this);
            return 0;
        }
        if (self != this) {
            char buf[80];
            std::snprintf(buf, sizeof(buf), "%s, but its bytes were moved from elsewhere", how);
            r.fail(buf, this);
        }
        return value;
    }
};

class CellTracked
{
public:
    class API { public: LIBFLATARRAY_CUSTOM_SIZES((8)(16)(24), (1)(3), (1)(2)) };
    Tracked a;
    int n;
    Tracked b[2];
    CellTracked() : n(0) {}
};
LIBFLATARRAY_REGISTER_SOA(CellTracked, ((Tracked)(a))((int)(n))((Tracked)(b)(2)))

template<> struct Cell<CellTracked>
{
    static const char *name() { return "CellTracked"; }
    static const int DIMS = 3;
    static std::vector<long> xs() { return {8, 16, 24}; }
    static std::vector<long> ys() { return {1, 3}; }
    static std::vector<long> zs() { return {1, 2}; }
    static const bool UNIFORM = false;
    static const bool POD = false;
};

inline CellTracked tracked_cell(long tag)
{
    CellTracked c;
    c.a.value = tag * 10;
    c.n = int(tag);
    c.b[0].value = tag * 10 + 1;
    c.b[1].value = tag * 10 + 2;
    return c;
}

// collects the addresses and values of one cell's members from an accessor
struct TrackedRefs { const Tracked *t[3]; int n; };

template<typename ACC>
TrackedRefs tracked_refs(ACC& acc)
{
    TrackedRefs r;
    r.t[0] = &acc.a();
    r.t[1] = &acc.b()[0];
    r.t[2] = &acc.b()[1];
    r.n = acc.n();
    return r;
}

inline std::string tracked_problem(const TrackedRefs& r, long tag)
{
    char buf[200];
    for (int k = 0; k < 3; ++k) {
        if (!Registry::get().live.count(r.t[k])) { std::snprintf(buf, sizeof(buf), "member object %d is not alive", k); return buf; }
        long want = tag ? tag * 10 + k : 0;
        if (r.t[k]->self != r.t[k]) { std::snprintf(buf, sizeof(buf), "member object %d holds relocated bytes", k); return buf; }
        if (r.t[k]->value != want) { std::snprintf(buf, sizeof(buf), "member object %d has value %ld, expected %ld", k, r.t[k]->value, want); return buf; }
    }
    if (r.n != int(tag)) { std::snprintf(buf, sizeof(buf), "plain member is %d, expected %ld", r.n, tag); return buf; }
    return "";
}

#define CHECK_REGISTRY(AFTER) PBT_CHECK(!Registry::get().error[0], "during %s: %s", AFTER, Registry::get().error)

#endif
