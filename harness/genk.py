"""Generator of random kernels (K01): python3 genk.py SEED > genkernels.hpp (deterministic per seed).

Each seed yields two cell classes and a few kernels per class. A kernel comes twice: vectorised, the way the examples of the library
write theirs (loop peeler, short_vecs loaded from and stored to members at relative coordinates), and as plain scalar code on an array of cells.
Magnitudes are tracked, so that all results are exact integers whatever the order of evaluation.
"""
import random
import re

LIMIT = {"float": 1 << 22, "double": 1 << 40, "int": 1 << 28}


class Kernel:
    def __init__(self, r, cell, name, members, dims, asym, pointwise):
        self.r, self.cell, self.name, self.members, self.dims, self.asym, self.pointwise = r, cell, name, members, dims, asym, pointwise
        arith = [m for m in members if m[0] in LIMIT]
        types = sorted(set(m[0] for m in arith))
        # mostly floating point
        self.T = r.choice([t for t in types if t != "int"] * 3 + types)
        self.mine = [m for m in arith if m[0] == self.T]
        self.ints = [m for m in arith if m[0] == "int"]
        self.R = [0, 0, 0]
        self.vec, self.ref, self.vars = [], [], []
        self.story = []
        self.light = r.random() < 0.3
        self.build()

    def literal(self, k):
        return {"float": "%d.0f", "double": "%d.0", "int": "%d"}[self.T] % k

    def coord(self):
        if self.pointwise:
            return (0, 0, 0)
        c = [self.r.choice([0, 0, 0, 1, -1, -1, 1, 2, -2, 3]) for _ in range(3)]
        for i in range(self.dims, 3):
            c[i] = 0
        for i in range(3):
            self.R[i] = max(self.R[i], abs(c[i]))
        return tuple(c)

    def element(self, members):
        """(expression for the vectorised code, for scalar code)"""
        m = self.r.choice(members)
        if m[2]:
            k = self.r.randint(0, m[2] - 1)
            return ("%s()[%d]" % (m[1], k) if self.r.random() < 0.5 else "template %s<%d>()" % (m[1], k)), "%s[%d]" % (m[1], k)
        return m[1] + "()", m[1]

    def address(self, c, e):
        acc = self.r.choice(["a", "la", "la", "ca", "cla"] if self.light else ["a", "a", "ca"])
        if c == (0, 0, 0) and self.r.random() < 0.5:
            return "&%s.%s" % (acc, e)
        if self.r.random() < 0.2:
            # relative to a relative accessor
            d = tuple(self.r.choice([0, 0, 1, -1, 2]) if i < self.dims else 0 for i in range(3))
            return "&%s[LibFlatArray::coord<%d, %d, %d>()][LibFlatArray::coord<%d, %d, %d>()].%s" % ((acc,) + d + tuple(c[i] - d[i] for i in range(3)) + (e,))
        return "&%s[LibFlatArray::coord<%d, %d, %d>()].%s" % ((acc,) + c + (e,))

    def old(self, c, e):
        return "o(x + %d, y + %d, z + %d).%s" % (c + (e,))

    def load(self, v):
        r = self.r
        c = self.coord()
        ev, es = self.element(self.mine)
        p = self.address(c, ev)
        how = r.randint(0, 4)
        if how == 0:
            s = "V %s(%s);" % (v, p)
        elif how == 1:
            s = "V %s = %s;" % (v, p)
        elif how == 2:
            s = "V %s; %s.load(%s);" % (v, v, p)
        elif how == 3 and c[0] == 0:
            # rows start at multiples of the arity, so do the positions of full vectors
            s = "V %s; if (V::ARITY > 1) %s.load_aligned(%s); else %s.load(%s);" % (v, v, p, v, p)
        else:
            s = "V %s; %s = %s;" % (v, v, p)
        self.vec.append(s)
        self.ref.append("T %s = %s;" % (v, self.old(c, es)))
        return 8

    def gather(self, v):
        c = self.coord()
        ev, es = self.element(self.mine)
        m = self.r.choice([m for m in self.ints if not m[2]])
        k = 0 if self.pointwise else self.r.randint(1, 3)
        # neighbours chosen by an integer member: -k .. k cells to the right
        self.R[0] = max(self.R[0], abs(c[0]) + k)
        self.vec.append("alignas(64) int off_%s[V::ARITY];" % v)
        self.vec.append("for (int e = 0; e < int(V::ARITY); ++e) off_%s[e] = e + (&a.%s())[e] %% %d;" % (v, m[1], k + 1))
        self.vec.append("V %s; %s.gather(%s, off_%s);" % (v, v, self.address(c, ev), v))
        self.ref.append("T %s = o(x + %d + o(x, y, z).%s %% %d, y + %d, z + %d).%s;" % (v, c[0], m[1], k + 1, c[1], c[2], es))
        return 8

    def build(self):
        r, T = self.r, self.T
        for i in range(r.randint(1, 3)):
            v = "v%d" % len(self.vars)
            b = self.gather(v) if any(not m[2] for m in self.ints) and r.random() < 0.2 else self.load(v)
            self.vars.append([v, b])
        for i in range(r.randint(2, 14)):
            v = r.choice(self.vars)
            w = r.choice(self.vars)
            kind = r.randint(0, 12)
            fits = lambda b: b < LIMIT[T]
            if kind <= 3 and fits(v[1] + 8):
                # buf += &acc.member()
                c = self.coord()
                ev, es = self.element(self.mine)
                op = r.choice("+++-")
                p = self.address(c, ev)
                self.vec.append(("%s %s= %s;" if r.random() < 0.6 else "%s %s= V(%s);") % (v[0], op, p))
                self.ref.append("%s %s= %s;" % (v[0], op, self.old(c, es)))
                v[1] += 8
            elif kind == 4 and fits(v[1] * 5):
                k = r.choice([-3, -1, 2, 3, 5])
                self.vec.append("%s *= V(%s);" % (v[0], self.literal(k)))
                self.ref.append("%s *= %s;" % (v[0], self.literal(k)))
                v[1] *= 5
            elif kind == 5 and fits(v[1] + 3 * w[1]):
                n = "v%d" % len(self.vars)
                k = r.choice([-2, 2, 3])
                self.vec.append("V %s = %s + %s * V(%s);" % (n, v[0], w[0], self.literal(k)))
                self.ref.append("T %s = %s + %s * %s;" % (n, v[0], w[0], self.literal(k)))
                self.vars.append([n, v[1] + 3 * w[1]])
            elif kind == 6 and fits(v[1] * w[1]):
                n = "v%d" % len(self.vars)
                self.vec.append("V %s = %s * %s;" % (n, v[0], w[0]))
                self.ref.append("T %s = %s * %s;" % (n, v[0], w[0]))
                self.vars.append([n, v[1] * w[1]])
            elif kind == 7 and fits(v[1] + w[1]):
                op = r.choice("+-")
                self.vec.append("%s %s= %s;" % (v[0], op, w[0]))
                self.ref.append("%s %s= %s;" % (v[0], op, w[0]))
                v[1] += w[1]
            elif kind in (8, 9) and T != "int":
                op = r.choice(["<", "<=", ">", ">=", "=="])
                other = w[0] if w is not v else "V(%s)" % self.literal(r.randint(-3, 3))
                sc = other[2:-1] if other.startswith("V(") else other
                if r.random() < 0.5:
                    # the comparison uses the old value of both
                    self.vec.append("%s.blend(%s %s %s, %s);" % (v[0], v[0], op, other, other))
                else:
                    self.vec.append("%s = LibFlatArray::blend(%s, %s, %s %s %s);" % (v[0], v[0], other, v[0], op, other))
                self.ref.append("if (%s %s %s) %s = %s;" % (v[0], op, sc, v[0], sc))
                v[1] = max(v[1], w[1])
            elif kind == 10 and T != "int":
                # rare case handled per lane, as in the SPH example
                k = r.randint(2, 7)
                op = r.choice(["<", ">"])
                kk = k if op == ">" else -k
                self.vec.append("if (LibFlatArray::any(%s %s V(%s))) { alignas(128) T lanes[V::ARITY]; for (int e = 0; e < int(V::ARITY); ++e) { lanes[e] = get(%s, e); if (lanes[e] %s %s) lanes[e] = %s; } %s.load(lanes); }" % (
                    v[0], op, self.literal(kk), v[0], op, self.literal(kk), self.literal(kk), v[0]))
                self.ref.append("if (%s %s %s) %s = %s;" % (v[0], op, self.literal(kk), v[0], self.literal(kk)))
            elif kind == 11 and fits(v[1] + 8) and len(self.vars) < 8:
                n = "v%d" % len(self.vars)
                b = self.gather(n) if any(not m[2] for m in self.ints) and r.random() < 0.5 else self.load(n)
                self.vars.append([n, b])
            elif kind == 12 and fits(v[1] * 4 + 2):
                n = "v%d" % len(self.vars)
                k = r.choice([2, 4])
                self.vec.append("V %s = %s * %s - V(%s);" % (n, self.literal(k), v[0], self.literal(2)) if r.random() < 0.5 else "V %s = %s - V(%s); %s *= V(%s); %s += V(%s);" % (
                    n, v[0], self.literal(0), n, self.literal(k), n, self.literal(-2)))
                self.ref.append("T %s = %s * %s - %s;" % (n, self.literal(k), v[0], self.literal(2)))
                self.vars.append([n, v[1] * 4 + 2])
        # stores: values are folded back into -8 .. 8, so that sweeps can be repeated
        used = set()
        folds = []
        for i in range(r.randint(1, 3)):
            v = r.choice(self.vars[-3:] + self.vars)
            ev, es = self.element(self.mine)
            if es in used:
                continue
            used.add(es)
            p = "&b." + ev
            how = r.randint(0, 4)
            if how == 0:
                s = "%s << %s;" % (p, v[0])
            elif how == 1:
                s = "%s.store(%s);" % (v[0], p)
            elif how == 2:
                s = "if (V::ARITY > 1) %s.store_aligned(%s); else %s.store(%s);" % (v[0], p, v[0], p)
            elif how == 3:
                s = "if (V::ARITY > 1) %s.store_nt(%s); else %s << %s;" % (v[0], p, p, v[0])
            else:
                s = "%s << %s;" % (p, v[0])
            self.vec.append(s)
            self.ref.append("n.%s = %s;" % (es, v[0]))
            folds.append(es)
        self.folds = folds
        self.choose_type()
        self.choose_loop()

    def choose_type(self):
        r, T = self.r, self.T
        how = r.randint(0, 4)
        if how <= 1 and T != "int":
            unroll = r.choice([1, 2, 2])
            cache = r.choice(["", "", ", 512", ", 4096", ", %d" % (1 << 16)])
            self.V = "typename LibFlatArray::estimate_optimum_short_vec_type<%s, A, %d%s>::VALUE" % (T, unroll, cache)
        else:
            n = r.choice({"float": [4, 8, 16, 32], "double": [2, 4, 8, 16, 32], "int": [4, 8, 16, 32]}[T] * 3 + [1])
            self.V = "LibFlatArray::%s<%s, %d>" % (r.choice(["short_vec", "short_vec", "streaming_short_vec"]), T, n)

    def choose_loop(self):
        r = self.r
        self.counter = r.choice(["long", "std::size_t", "int", "long"])
        self.loop = r.choice(["macro", "macro", "lambda"])
        self.own_index = self.loop == "lambda" and not self.asym and r.random() < 0.4
        if self.own_index:
            self.counter = "long"

    def code(self):
        r = self.r
        o = []
        o.append("// %s" % self.V)
        o.append("struct %s\n{" % self.name)
        o.append("    typedef %s CELL;\n    typedef %s T;" % (self.cell, self.T))
        o.append("    static const long RX = %d, RY = %d, RZ = %d;" % tuple(self.R))
        o.append("    static const bool POINTWISE = %s;" % ("true" if self.pointwise else "false"))
        # data of soa_array isn't aligned
        text = self.V + " ".join(self.vec)
        o.append("    static const bool ALIGNED = %s;" % ("true" if re.search(r"streaming|estimate|_aligned|store_nt", text) else "false"))
        o.append('    static const char *name() { return "%s: %s %s loop over %s%s%s, members of type %s, stencil %dx%dx%d"; }' % (
            self.name, self.V.replace("typename LibFlatArray::", "").replace("LibFlatArray::", ""), self.loop, "the index of the accessor" if self.own_index else self.counter,
            ", light accessors" if self.light else "", ", in place" if self.pointwise else "", self.T, 2 * self.R[0] + 1, 2 * self.R[1] + 1, 2 * self.R[2] + 1))
        o.append("    long x0, x1, y0, y1, z0, z1;\n")
        o.append("    template<typename V, typename COUNTER, typename A, typename B> void update(COUNTER& x, COUNTER end, long y, long z, A& a, B& b) const\n    {")
        o.append("        const A& ca = a;\n        a.index() = A::gen_index(long(x), y, z);\n        b.index() = B::gen_index(long(x), y, z);")
        if self.light:
            o.append("        LibFlatArray::soa_accessor_light<CELL, A::DIM_X, A::DIM_Y, A::DIM_Z, 0> la(a.data(), a.index());")
            o.append("        LibFlatArray::const_soa_accessor_light<CELL, A::DIM_X, A::DIM_Y, A::DIM_Z, 0> cla(a.data(), a.index());")
        o.append("        for (; x < end; x += COUNTER(V::ARITY)) {")
        for s in self.vec:
            o.append("            " + s)
        o.append("            a += long(V::ARITY);\n            b += long(V::ARITY);\n        }\n    }\n")
        if self.own_index:
            # the accessor's own index is the counter, rows are addressed by its start
            o.append("    template<typename V, typename A, typename B> void line(long end, A& a, B& b) const\n    {")
            if self.light:
                o.append("        LibFlatArray::soa_accessor_light<CELL, A::DIM_X, A::DIM_Y, A::DIM_Z, 0> la(a.data(), a.index());")
                o.append("        LibFlatArray::const_soa_accessor_light<CELL, A::DIM_X, A::DIM_Y, A::DIM_Z, 0> cla(a.data(), a.index());")
            o.append("        const A& ca = a;\n        for (; a.index() < end; a += long(V::ARITY)) {\n            b.index() = a.index();")
            for s in self.vec:
                o.append("            " + s)
            o.append("        }\n    }\n")
        o.append("    template<typename A, typename B> void operator()(A a, B b) const\n    {")
        o.append("        typedef %s V;" % self.V)
        o.append("        for (long z = z0; z < z1; ++z) for (long y = y0; y < y1; ++y) {")
        if self.own_index:
            o.append("            a.index() = A::gen_index(x0, y, z);")
            o.append("            LibFlatArray::loop_peeler<V>(&a.index(), A::gen_index(x1, y, z), [this, &a, &b](auto v, long * /* x */, long end) { this->template line<decltype(v)>(end, a, b); });")
        elif self.loop == "macro":
            o.append("            %s x = %s(x0), end = %s(x1);" % (self.counter, self.counter, self.counter))
            # update has four parameters, the macro passes the element type of the peeler only
            o.append("            LIBFLATARRAY_LOOP_PEELER_TEMPLATE(V, %s, x, end, update, y, z, a, b);" % self.counter)
        else:
            o.append("            %s x = %s(x0), end = %s(x1);" % (self.counter, self.counter, self.counter))
            o.append("            LibFlatArray::loop_peeler<V>(&x, end, [this, y, z, &a, &b](auto v, %s *px, %s stop) { this->template update<decltype(v)>(*px, stop, y, z, a, b); });" % (self.counter, self.counter))
        o.append("        }\n    }\n")
        o.append("    // in place\n    template<typename A> void operator()(A a) const { A b(a); (*this)(a, b); }\n")
        o.append("    template<typename O> static void scalar(const O& o, CELL& n, long x, long y, long z)\n    {")
        for s in self.ref:
            o.append("        " + s)
        o.append("    }")
        o.append("    // members the kernel stores\n    template<typename F> static void stored(CELL& n, F f)\n    {")
        for es in self.folds:
            o.append("        f(n.%s);" % es)
        o.append("    }")
        o.append("};")
        return "\n".join(o) + "\n"


def cell(r, name):
    others = ["char", "short", "long", "bool", "unsigned char"]
    n = r.randint(1, 6)
    members = []
    for i in range(n):
        t = r.choice(["float", "double", "float", "double", "int", r.choice(others)])
        members.append((t, "m%d" % i, r.choice([0, 0, 0, 0, 1, 2, 3, 5])))
    main = r.choice(["float", "double"])
    members.insert(r.randint(0, len(members)), (main, "t", 0))
    if r.random() < 0.6:
        members.insert(r.randint(0, len(members)), ("int", "k", 0))
    dims = r.choice([1, 2, 3, 3])
    xs = sorted(r.sample([64, 128, 192], r.choice([1, 2])))
    if dims == 1:
        api, ys, zs = "LIBFLATARRAY_CUSTOM_SIZES_1D_UNIFORM(%s)" % "".join("(%d)" % x for x in xs), None, None
    elif dims == 2:
        ys, zs = r.choice([[8], [13], [5, 8], [5, 13], [8, 13]]), [1]
    else:
        ys, zs = r.choice([[8], [13], [5, 8], [5, 13], [8, 13]]), r.choice([[7], [4, 7], [9]])
    if dims > 1:
        api = "LIBFLATARRAY_CUSTOM_SIZES(%s, %s, %s)" % tuple("".join("(%d)" % x for x in l) for l in (xs, ys, zs))
    asym = len(xs) * len(ys or [1]) * len(zs or [1]) <= 4 and r.random() < 0.4
    o = ["class %s\n{\npublic:\n    class API%s { public: %s };\n    LIBFLATARRAY_ACCESS" % (name, " : public LibFlatArray::api_traits::has_asymmetric_dual_callback" if asym else "", api)]
    o.append("    %s()\n    {" % name)
    for t, m, a in members:
        o.append("        for (int i = 0; i < %d; ++i) %s[i] = %s(0);" % (a, m, t.replace("unsigned char", "char")) if a else "        %s = 0;" % m)
    o.append("    }")
    for t, m, a in members:
        o.append("    %s %s%s;" % (t, m, "[%d]" % a if a else ""))
    o.append("};")
    reg = list(members)
    r.shuffle(reg)
    o.append("LIBFLATARRAY_REGISTER_SOA(%s, %s)" % (name, "".join("((%s)(%s)%s)" % (t, m, "(%d)" % a if a else "") for t, m, a in reg)))
    o.append("template<> struct Cell<%s>\n{" % name)
    o.append('    static const char *name() { return "%s [%s; %s]"; }' % (name, " ".join("%s%s" % (t, "[%d]" % a if a else "") for t, m, a in reg), api.replace("LIBFLATARRAY_CUSTOM_SIZES", "sizes") + (", asymmetric" if asym else "")))
    o.append("    static const bool ASYMMETRIC = %s;" % ("true" if asym else "false"))
    o.append("    static const int DIMS = %d;\n    static const bool UNIFORM = %s;\n    static const bool POD = true;" % (dims, "true" if dims == 1 else "false"))
    o.append("    static std::vector<long> xs() { return {%s}; }" % ", ".join(map(str, xs)))
    o.append("    static std::vector<long> ys() { return {%s}; }" % ", ".join(map(str, ys or [1])))
    o.append("    static std::vector<long> zs() { return {%s}; }" % ", ".join(map(str, zs or [1])))
    o.append("    template<typename C, typename F> static void visit(C& c, F& f)\n    {")
    for t, m, a in reg:
        o.append("        f(&c.%s%s, %d);" % (m, "[0]" if a else "", a or 1))
    o.append("    }\n};")
    return members, dims, asym, "\n".join(o) + "\n"


def kernels(seed):
    r = random.Random("kernels-%d" % seed)
    o = ["// random kernels, seed %d" % seed]
    for i in range(2):
        members, dims, asym, text = cell(r, "K%d" % i)
        o.append(text)
        for j in range(4):
            o.append(Kernel(r, "K%d" % i, "Kernel%d_%d" % (i, j), members, dims, asym, j == 3).code())
    return "\n".join(o) + "\n"


if __name__ == "__main__":
    import sys
    print(kernels(int(sys.argv[1])))
