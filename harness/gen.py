"""Generator of random cell types: python3 gen.py SEED > gencells.hpp (deterministic per seed).

Each seed yields four cell classes (the first and last trivially copyable) with random members (types, arrays, order of registration, visibility, members that are
not registered) and random size configurations, plus everything the harnesses need to know about them, written without use of
the library's macros.
"""
import random, sys

SCALARS = ["double", "float", "int", "short", "char", "unsigned char", "bool", "long", "unsigned long", "NestPt"]
OBJECTS = ["std::string", "std::vector<int>"]


def ascending(r, n, lo, hi, step):
    pool = list(range((lo + step - 1) // step * step, hi + 1, step))
    return sorted(r.sample(pool, min(n, len(pool))))


def lst(v):
    return "".join("(%d)" % x for x in v)


def cell(r, name, pod):
    kind = r.choice(["small"] * 5 + ["mid"] * 3 + ["large"])
    n = {"small": r.randint(1, 5), "mid": r.randint(6, 16), "large": r.randint(30, 50)}[kind]
    types = SCALARS if pod else SCALARS + OBJECTS * 2
    # few distinct types make the selection by member pointer type harder
    if r.random() < 0.4:
        types = r.sample(types, 2)
        if not pod and not any(t in OBJECTS for t in types):
            types[0] = r.choice(OBJECTS)
    members = []
    for i in range(n):
        t = r.choice(types)
        a = 0
        if r.random() < (0.35 if n < 20 else 0.1):
            a = r.choice([1, 2, 3, 3, 4, 5, 8, 9, 17]) if t not in OBJECTS else r.randint(1, 3)
        members.append((t, "m%d" % i, a))
    if not pod and not any(t in OBJECTS for t, _, _ in members):
        members.append(("std::string", "m%d" % n, 0))
    hidden = []
    for i in range(r.choice([0, 0, 1, 2])):
        hidden.append((r.choice([m[0] for m in members]), "h%d" % i, r.choice([0, 0, 3])))
    decl = members + hidden
    r.shuffle(decl)
    reg = list(members)
    if r.random() < 0.7:
        r.shuffle(reg)
    private = r.random() < 0.4

    sizes = r.choice(["1d", "2d", "3d", "custom", "custom", "custom"])
    ys = zs = None
    if sizes == "1d":
        xs = ascending(r, r.randint(1, 5), 8, 200, 8)
        api, dims, uniform = "LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM(%s)" % lst(xs), 1, True
    elif sizes == "2d":
        xs = ascending(r, r.randint(1, 4), 4, 40, 4)
        api, dims, uniform = "LIBFLATARRAY_CUSTOM_SIZES_2D_UNIFORM(%s)" % lst(xs), 2, True
    elif sizes == "3d":
        xs = ascending(r, r.randint(1, 4), 2, 20, 2)
        api, dims, uniform = "LIBFLATARRAY_CUSTOM_SIZES_3D_UNIFORM(%s)" % lst(xs), 3, True
    else:
        k = 3 if n < 20 else 2
        xs = ascending(r, r.randint(1, k), 8, 48, 8)
        ys = ascending(r, r.randint(1, k), 1, 9, 1)
        zs = ascending(r, r.randint(1, 2), 1, 6, 1)
        api, dims, uniform = "LIBFLATARRAY_CUSTOM_SIZES(%s, %s, %s)" % (lst(xs), lst(ys), lst(zs)), 3, False

    o = []
    o.append("class %s\n{\npublic:" % name)
    o.append("    class API { public: %s };" % api)
    o.append("    LIBFLATARRAY_ACCESS\n    template<typename> friend struct Cell;")
    o.append("    %s()\n    {" % name)
    for t, m, a in decl:
        if t in OBJECTS:
            continue
        v = "NestPt()" if t == "NestPt" else "%s(0)" % ("(" + t + ")" if " " in t else t) if " " not in t else "0"
        if a:
            o.append("        for (int k = 0; k < %d; ++k) %s[k] = %s;" % (a, m, v))
        else:
            o.append("        %s = %s;" % (m, v))
    o.append("    }")
    if private:
        o.append("private:")
    for t, m, a in decl:
        o.append("    %s %s%s;" % (t, m, "[%d]" % a if a else ""))
    o.append("};")
    o.append("LIBFLATARRAY_REGISTER_SOA(%s, %s)" % (name, "".join("((%s)(%s)%s)" % (t, m, "(%d)" % a if a else "") for t, m, a in reg)))
    o.append("template<> struct Cell<%s>\n{" % name)
    o.append('    static const char *name() { return "%s [%s; %s%s]"; }' % (
        name, " ".join("%s%s" % (t, "[%d]" % a if a else "") for t, m, a in reg)[:300], api.replace("LIBFLATARRAY_CUSTOM_SIZES", "sizes"), "; private" if private else ""))
    o.append("    static const int DIMS = %d;" % dims)
    o.append("    static std::vector<long> xs() { return {%s}; }" % ", ".join(map(str, xs)))
    if ys:
        o.append("    static std::vector<long> ys() { return {%s}; }" % ", ".join(map(str, ys)))
        o.append("    static std::vector<long> zs() { return {%s}; }" % ", ".join(map(str, zs)))
    o.append("    static const bool UNIFORM = %s;\n    static const bool POD = %s;" % (str(uniform).lower(), str(not any(t in OBJECTS for t, _, _ in members)).lower()))
    o.append("    template<typename C, typename F> static void visit(C& c, F& f)\n    {")
    for t, m, a in reg:
        o.append("        f(&c.%s%s, %d);" % (m, "[0]" if a else "", a or 1))
    o.append("    }")
    # registered members by pointer, in registration order: f(pointer, element size, arity)
    o.append("    template<typename F> static void pointers(F& f)\n    {")
    for t, m, a in reg:
        o.append("        f(&%s::%s, sizeof(%s), %d);" % (name, m, t, a or 1))
    o.append("    }")
    o.append("    template<typename F> static void unregistered(F& f)\n    {")
    for t, m, a in hidden:
        o.append("        f(&%s::%s);" % (name, m))
    o.append("    }")
    # addresses of all elements as an accessor reports them: f(address, member, element)
    o.append("    template<typename A, typename F> static void addresses(A& acc, F& f)\n    {")
    for i, (t, m, a) in enumerate(reg):
        if a:
            for k in range(a):
                o.append("        f((const char *)&acc.template %s<%d>(), %d, %d);" % (m, k, i, k))
        else:
            o.append("        f((const char *)&acc.%s(), %d, 0);" % (m, i))
    o.append("    }")
    # array members element by element at run time
    o.append("    template<typename A, typename F> static void runtime_addresses(A& acc, F& f)\n    {")
    for i, (t, m, a) in enumerate(reg):
        if a:
            o.append("        for (int k = 0; k < %d; ++k) f((const char *)&acc.%s()[k], %d, k);" % (a, m, i))
    o.append("    }")
    # members by their number and by their offset, without naming them
    o.append("    template<typename A, typename F> static void raw_addresses(A& acc, F& f)\n    {")
    for i, (t, m, a) in enumerate(reg):
        o.append("        f((const char *)&acc.template access_member<%s, %d>(), %d, 0);" % (t, i, i))
        o.append("        f((const char *)acc.access_member(long(sizeof(%s)), LibFlatArray::member_ptr_to_offset()(&%s::%s)), %d, 0);" % (t, name, m, i))
    o.append("    }")
    # elements of cells at some relative coordinates: f(address there, address here, coordinates, element size)
    def rel():
        d = [r.choice([-3, -2, -1, -1, 0, 0, 1, 1, 2, 3, 5]) for _ in range(3)]
        if dims < 3:
            d[2] = 0
        if dims < 2:
            d[1] = 0
        return tuple(d)
    o.append("    template<typename A, typename F> static void neighbours(A& acc, F& f)\n    {")
    for i in range(14):
        d = rel()
        t, m, a = reg[0] if i == 0 else r.choice(reg)
        if a:
            k = r.randrange(a)
            here = there = "template %s<%d>()" % (m, k)
            if r.random() < 0.5:
                there = "%s()[%d]" % (m, k)
        else:
            here = there = m + "()"
        o.append("        f((const char *)&acc[LibFlatArray::coord<%d, %d, %d>()].%s, (const char *)&acc.%s, %d, %d, %d, long(sizeof(%s)));" % (
            d + (there, here) + d + (t,)))
    o.append("    }")
    # the same for accessors that allow access by number and offset
    o.append("    template<typename A, typename F> static void raw_neighbours(A& acc, F& f)\n    {")
    for i in range(8):
        d = rel()
        k = r.randrange(len(reg))
        t, m, a = reg[k]
        here = "(const char *)&acc.%s" % ("template %s<0>()" % m if a else m + "()")
        there = "acc[LibFlatArray::coord<%d, %d, %d>()]." % d
        if r.random() < 0.5:
            there = "(const char *)&" + there + "template access_member<%s, %d>()" % (t, k)
        else:
            there = "(const char *)" + there + "access_member(long(sizeof(%s)), LibFlatArray::member_ptr_to_offset()(&%s::%s))" % (t, name, m)
        o.append("        f(%s, %s, %d, %d, %d, long(sizeof(%s)));" % ((there, here) + d + (t,)))
    o.append("    }")
    o.append("};")
    return "\n".join(o)


def generate(seed):
    r = random.Random("cells-%d" % seed)
    o = ["// random cell types, seed %d" % seed]
    o.append(cell(r, "Gen0", True))
    o.append(cell(r, "Gen1", r.random() < 0.5))
    o.append(cell(r, "Gen2", False))
    o.append("static const std::size_t GEN_CAPACITY = %d;" % r.choice([8, 16, 40, 64, 104]))
    o.append("static const std::size_t GEN_CAPACITY2 = %d;" % r.choice([24, 48, 80]))
    o.append(cell(r, "Gen3", True))
    return "\n".join(o) + "\n"


def estimates(seed):
    """Random instantiations of estimate_optimum_short_vec_type."""
    r = random.Random("estimates-%d" % seed)
    o = ["// random kernels, seed %d" % seed]
    rows = []
    sizes = {"E8": 8, "E24": 24, "E40": 40, "E4": 4}
    for i in range(48):
        cargo = r.choice(["float", "double", "int"])
        elem = r.choice(sorted(sizes))
        d = [r.choice([1, 8, 32, 64, 192, 544, 1032, 2080, 16416, 32800]) for _ in range(3)]
        if r.random() < 0.3:
            d[2] = 1
        if i % 6 == 0:
            # working sets of 4 GB and more, right at powers of two
            d = [1 << r.randint(10, 13), 1 << r.randint(8, 11), 1 << r.randint(9, 11)]
            elem = r.choice(["E4", "E8"])
            if r.random() < 0.5:
                d[2] += 1
        unroll = r.choice([1, 2, 2])
        work = d[0] * d[1] * d[2] * sizes[elem]
        how = r.randint(0, 3)
        cache = None
        if how == 0 and work < 2**30:
            cache = max(1, work + r.choice([-1, 0, 1, 2]))       # right at the edge
        elif how == 1:
            cache = 1 << r.randint(10, 30)
        if (work // (cache or (1 << 25))) >= 2**31:
            cache = None
            d[2] = 1
            work = d[0] * d[1] * d[2] * sizes[elem]
            if work // (1 << 25) >= 2**31:
                continue
        acc = r.choice(["soa_accessor", "const_soa_accessor"])
        targs = "%s, LibFlatArray::%s<%s, %d, %d, %d, 0>, %d%s" % (cargo, acc, elem, d[0], d[1], d[2], unroll, ", %d" % cache if cache else "")
        if unroll == 2 and not cache and r.random() < 0.5:
            targs = targs[:targs.rindex(",")]
        rows.append('    row<%s, %d, LibFlatArray::estimate_optimum_short_vec_type<%s > >(%s, %s),' % (
            cargo, unroll, targs, "true" if work >= (cache or (1 << 25)) else "false", quote(targs + " with a working set of %d bytes" % work)))
    o.append("static const Row gen_rows[] = {")
    o += rows
    o.append("};")
    return "\n".join(o) + "\n"


def token(r):
    k = r.randint(0, 6)
    if k == 0:
        return str(r.randint(0, 99999))
    if k == 1:
        return "std::vector<%s>" % r.choice(["int", "long", "foo"])
    if k == 2:
        return "(t%d)(n%d)" % (r.randint(0, 99), r.randint(0, 99))
    if k == 3:
        return "(t%d)(n%d)(%d)" % (r.randint(0, 99), r.randint(0, 99), r.randint(1, 9))
    if k == 4:
        return "x%d + f(%d)" % (r.randint(0, 999), r.randint(0, 9))
    if k == 5:
        return '"s%d"' % r.randint(0, 999)
    return "id%d" % r.randint(0, 9999)


def lists(seed):
    """Lists of every supported length with random elements, and each macro of preprocessor.hpp applied in every admissible way."""
    r = random.Random("lists-%d" % seed)
    o = ["// random lists, seed %d" % seed]
    e = []

    def entry(expr, expected, n):
        e.append("    {%s, GEN_STR(%s), %s, %d}," % (quote(expr), expr, quote(expected), n))

    for n in range(0, 52):
        toks = [token(r) for _ in range(n)]
        text = "".join("(%s)" % t for t in toks)
        o.append("#define GEN_LIST_%d %s" % (n, text))
        L = "GEN_LIST_%d" % n
        entry("LIBFLATARRAY_SIZE(%s)" % L, str(n), n)
        for i in range(n):
            entry("LIBFLATARRAY_ELEM(%d, %s)" % (i, L), toks[i], n)
        if n:
            arg = "arg%d" % r.randint(0, 99)
            entry("LIBFLATARRAY_FOR_EACH(GEN_LAMBDA, %s, %s)" % (arg, L), "".join("<%d|%s|%s>" % (i, arg, t) for i, t in enumerate(toks)), n)
            entry("LIBFLATARRAY_DEQUEUE(%s)" % L, "".join("(%s)" % t for t in toks[1:]), n)
            entry("LIBFLATARRAY_SIZE(LIBFLATARRAY_DEQUEUE(%s))" % L, str(n - 1), n)
        for k in range(0, 51):
            a, b = token(r), token(r)
            entry("LIBFLATARRAY_IF_SHORTER(%s, %d, %s, %s)" % (L, k, a, b), a if n < k else b, n)
    o.append("#define GEN_LAMBDA(INDEX, ARG, ELEMENT) <INDEX|ARG|ELEMENT>")
    o.append("#define GEN_STR_(...) #__VA_ARGS__\n#define GEN_STR(...) GEN_STR_(__VA_ARGS__)")
    o.append("static const GenEntry gen_entries[] = {")
    o += e
    o.append("};")
    return "\n".join(o) + "\n"


def quote(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


if __name__ == "__main__":
    sys.stdout.write(generate(int(sys.argv[1])))
