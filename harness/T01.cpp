// T01: the benchmark testbed runs exactly the selected benchmarks and reports them in well-formed rows.
#include "pbt.hpp"

#include <cmath>
#include <cstdio>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <unistd.h>
#include <vector>

#include <libflatarray/testbed/benchmark.hpp>
#include <libflatarray/testbed/cpu_benchmark.hpp>
#include <libflatarray/testbed/evaluate.hpp>
#include <libflatarray/testbed/gpu_benchmark.hpp>

int bench_current_device;
char bench_device_name[8][256];

namespace {

int cpuinfo_fd = -1, likwid_fd = -1, out_fd = -1;

std::string fd_path(int fd)
{
    char buf[64];
    std::snprintf(buf, sizeof(buf), "/proc/self/fd/%d", fd);
    return buf;
}

// the machine's clock and name as the library sees them (0/empty: the real ones)
long long clock_shift;
std::string host_name;

bool redirect(const char *path) { return cpuinfo_fd >= 0 && path && std::strcmp(path, "/proc/cpuinfo") == 0; }

}

// files the library opens: /proc/cpuinfo is replaced by a generated one
extern "C" FILE *fopen(const char *path, const char *mode)
{
    typedef FILE *(*fn)(const char*, const char*);
    static fn real = (fn)dlsym(RTLD_NEXT, "fopen");
    return redirect(path) ? real(fd_path(cpuinfo_fd).c_str(), mode) : real(path, mode);
}
extern "C" FILE *fopen64(const char *path, const char *mode)
{
    typedef FILE *(*fn)(const char*, const char*);
    static fn real = (fn)dlsym(RTLD_NEXT, "fopen64");
    return redirect(path) ? real(fd_path(cpuinfo_fd).c_str(), mode) : real(path, mode);
}
extern "C" int open(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = flags & O_CREAT ? va_arg(ap, int) : 0;
    va_end(ap);
    return openat(AT_FDCWD, redirect(path) ? fd_path(cpuinfo_fd).c_str() : path, flags, mode);
}
extern "C" int open64(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = flags & O_CREAT ? va_arg(ap, int) : 0;
    va_end(ap);
    return openat64(AT_FDCWD, redirect(path) ? fd_path(cpuinfo_fd).c_str() : path, flags, mode);
}

// the clock (shifted to any date) and the name of the machine
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
    int r = int(syscall(SYS_clock_gettime, id, ts));
    if (r == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) ts->tv_sec += clock_shift;
    return r;
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
extern "C" time_t time(time_t *t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
extern "C" int uname(struct utsname *u) noexcept
{
    int r = int(syscall(SYS_uname, u));
    if (r == 0 && !host_name.empty()) std::snprintf(u->nodename, sizeof(u->nodename), "%s", host_name.c_str());
    return r;
}
extern "C" int gethostname(char *buf, size_t n) noexcept
{
    struct utsname u;
    if (uname(&u)) return -1;
    std::size_t need = std::strlen(u.nodename) + 1;
    std::memcpy(buf, u.nodename, need < n ? need : n);
    if (need > n) { errno = ENAMETOOLONG; return -1; }
    return 0;
}

namespace {

void put(int fd, const std::string& s)
{
    if (ftruncate(fd, 0)) std::abort();
    std::size_t done = 0;
    while (done < s.size()) {
        ssize_t k = pwrite(fd, s.data() + done, s.size() - done, off_t(done));
        if (k <= 0) std::abort();
        done += std::size_t(k);
    }
}

// everything written to standard output while this lives
class Capture
{
public:
    Capture()
    {
        std::cout.flush();
        std::fflush(stdout);
        if (out_fd < 0) out_fd = memfd_create("out", 0);
        if (ftruncate(out_fd, 0)) std::abort();
        lseek(out_fd, 0, SEEK_SET);
        saved = dup(1);
        dup2(out_fd, 1);
    }
    std::string get()
    {
        stop();
        std::string s(std::size_t(lseek(out_fd, 0, SEEK_END)), 0);
        if (!s.empty() && pread(out_fd, &s[0], s.size(), 0) != ssize_t(s.size())) std::abort();
        return s;
    }
    ~Capture() { stop(); }
private:
    int saved;
    void stop()
    {
        if (saved < 0) return;
        std::cout.flush();
        std::fflush(stdout);
        dup2(saved, 1);
        close(saved);
        saved = -1;
    }
};

std::string trim(const std::string& s)
{
    std::size_t a = s.find_first_not_of(' ');
    if (a == std::string::npos) return "";
    return s.substr(a, s.find_last_not_of(' ') - a + 1);
}

std::vector<std::string> split(const std::string& s, char d)
{
    std::vector<std::string> ret(1);
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == d) ret.push_back("");
        else ret.back() += s[i];
    }
    return ret;
}

std::string word(pbt::Ctx& c, long max)
{
    static const char chars[] = "aAbcXYZ019_-+()@/.";
    std::string s;
    for (long i = c.range(1, max); i > 0; --i) s += chars[c.below(sizeof(chars) - 1)];
    return s;
}

// words with single blanks in between
std::string name(pbt::Ctx& c, long words, long max)
{
    std::string s = word(c, max);
    for (long i = c.range(1, words); i > 1; --i) s += " " + word(c, max);
    return s;
}

struct Trace
{
    std::string order, family, species, unit, device;
    double perf;
    int runs;
    std::vector<int> dim;
} trace;

struct Bench : public LibFlatArray::benchmark
{
    std::string order() { return trace.order; }
    std::string family() { return trace.family; }
    std::string species() { return trace.species; }
    std::string unit() { return trace.unit; }
    std::string device() { return trace.device; }
    double performance(std::vector<int> dim)
    {
        ++trace.runs;
        trace.dim = dim;
        return trace.perf;
    }
};

struct CpuBench : public LibFlatArray::cpu_benchmark
{
    std::string family() { return trace.family; }
    std::string species() { return trace.species; }
    std::string unit() { return trace.unit; }
    double performance(std::vector<int> dim) { ++trace.runs; trace.dim = dim; return trace.perf; }
};

struct GpuBench : public LibFlatArray::gpu_benchmark
{
    std::string family() { return trace.family; }
    std::string species() { return trace.species; }
    std::string unit() { return trace.unit; }
    double performance(std::vector<int> dim) { ++trace.runs; trace.dim = dim; return trace.perf; }
};

// sets the stage for device(), returns what it has to yield
std::string machine(pbt::Ctx& c)
{
    if (cpuinfo_fd < 0) {
        cpuinfo_fd = memfd_create("cpuinfo", 0);
        likwid_fd = memfd_create("likwid", 0);
        setenv("PATH", (std::string(BENCH_BIN) + ":" + getenv("PATH")).c_str(), 1);
        char buf[20];
        std::snprintf(buf, sizeof(buf), "%d", likwid_fd);
        setenv("VERIF_LIKWID_FD", buf, 1);
    }

    // likwid-topology
    std::string text, type, title;
    int lines = c.below(2) ? int(c.range(1, 8)) : 0;
    for (int i = 0; i < lines; ++i) {
        switch (c.below(6)) {
        case 0:
            if (title.empty()) { title = name(c, 5, 12); text += "CPU name:," + std::string(c.below(2), ' ') + title; } else text += "Cores per socket:,4";
            break;
        case 1:
            if (type.empty()) { type = name(c, 3, 12); text += "CPU type:," + std::string(c.below(2), ' ') + type; } else text += "Sockets:,2";
            break;
        case 2: text += "TABLE,Topology,1," + std::string(std::size_t(c.range(0, 60)), '-'); break;
        case 3: text += std::string(c.below(2) ? "CPU type:" : "CPU name:"); break;   // no value
        case 4: text += word(c, 300) + "," + word(c, 30); break;
        default: break;                                                                   // blank line
        }
        std::size_t commas = std::size_t(c.below(4));
        if (text.empty() || text[text.size() - 1] != ':') text += std::string(commas, ',');
        if (i + 1 < lines || !c.chance(1, 4)) text += "\n";
    }
    put(likwid_fd, text);
    c.note("likwid-topology prints %zu bytes:\n%s", text.size(), text.c_str());

    // /proc/cpuinfo
    std::string info, cpu;
    int n = int(c.range(0, 12));
    for (int i = 0; i < n; ++i) {
        static const char *plain[] = {"processor\t: 0", "cpu family\t: 6", "cpu MHz\t\t: 2400.017", "cpu cores\t: 8", "power management:", "", "model\t\t: 85", "bugs\t\t:", "address sizes\t: 46 bits physical, 48 bits virtual", "Features\t: fp asimd", "flags\t\t: fpu vme"};
        std::string line;
        switch (c.below(6)) {
        case 4: {
            std::string v = c.chance(1, 4) ? "" : name(c, 6, 10);
            line = "model name\t:" + std::string(c.below(2) || v.empty() ? "" : " ") + v + std::string(c.below(3) / 2, ' ');
            if (cpu.empty()) cpu = v;
            break;
        }
        case 5: {
            std::string v = c.chance(1, 4) ? "" : name(c, 4, 10);
            line = "cpu" + std::string(std::size_t(c.range(1, 2)), '\t') + ": " + v;
            if (cpu.empty()) cpu = v;
            break;
        }
        case 3:
            line = "flags\t\t: " + name(c, 100, 12);
            if (c.chance(1, 6)) { line += " " + std::string(std::size_t(c.range(1, 9000)), 'x'); c.label("long line in /proc/cpuinfo"); }
            break;
        default: line = plain[c.below(sizeof(plain) / sizeof(plain[0]))];
        }
        info += line;
        if (i + 1 < n || !c.chance(1, 4)) info += "\n";
    }
    put(cpuinfo_fd, info);
    c.note("/proc/cpuinfo holds %zu bytes:\n%s", info.size(), info.c_str());

    if (!type.empty() && !title.empty()) {
        c.label("CPU from likwid-topology");
        return type + ", " + title;
    }
    c.label(cpu.empty() ? "CPU unknown" : "CPU from /proc/cpuinfo");
    return cpu.empty() ? "unknown CPU" : cpu;
}

int open_fds()
{
    int n = 0;
    for (int i = 3; i < 64; ++i) n += fcntl(i, F_GETFD) != -1;
    return n;
}

}

PBT_TARGET(T01_device)
{
    std::string want = machine(c);
    int before = open_fds();
    CpuBench b;
    std::string got = b.device();
    PBT_CHECK(got == want, "device() yields '%s', expected '%s'", got.c_str(), want.c_str());
    PBT_CHECK(open_fds() == before, "device() leaves %d descriptors open", open_fds() - before);
    PBT_CHECK(b.order() == "CPU", "order() of a CPU benchmark is '%s'", b.order().c_str());
    c.op();
    c.nontrivial();
}

PBT_TARGET(T01_rows)
{
    static bool zone = false;
    if (!zone) { setenv("TZ", "XYZ-9", 1); tzset(); zone = true; }

    std::string filter = c.below(3) ? word(c, 3) : "", rev = c.below(8) == 7 ? word(c, 40) : word(c, 12);
    LibFlatArray::evaluate eval(filter, rev);
    Capture head;
    eval.print_header();
    std::string header = head.get();
    PBT_CHECK(header.size() > 1 && header[0] == '#' && header.find('\n') == header.size() - 1, "the header is not one comment line: %s", header.c_str());
    static const char *titles[] = {"#rev", "date", "host", "device", "order", "family", "species", "dimensions", "perf", "unit"};
    std::vector<std::string> h = split(header.substr(0, header.size() - 1), ';');
    PBT_CHECK(h.size() == 10, "the header has %zu fields", h.size());
    for (int i = 0; i < 10; ++i) PBT_CHECK(trim(h[std::size_t(i)]) == titles[i], "field %d of the header is '%s'", i, h[std::size_t(i)].c_str());

    bool any = false;
    for (int k = int(c.range(1, 3)); k > 0; --k) {
        c.op();
        int kind = int(c.below(3));
        trace = Trace();
        trace.family = name(c, 3, 8);
        switch (c.below(4)) {
        case 0: trace.family += filter; break;
        case 1: trace.family = filter + trace.family; break;
        case 2: trace.family.insert(trace.family.size() / 2, filter); break;
        default: break;
        }
        trace.species = word(c, 6);
        trace.unit = name(c, 2, 5);
        trace.runs = 0;
        long mant = c.range(-999999, 999999);
        trace.perf = double(mant) * std::pow(10.0, double(c.range(-30, 30)));
        std::vector<int> dim;
        for (long i = c.range(0, 4); i > 0; --i) dim.push_back(int(c.skewed(-3, 2000000000)));
        bool output = !c.chance(1, 5), selected = trace.family.find(filter) != std::string::npos;
        if (kind == 0) { trace.order = word(c, 6); trace.device = name(c, 4, 9); }
        if (kind == 1) { trace.order = "CPU"; trace.device = machine(c); }
        if (kind == 2) {
            trace.order = "GPU";
            for (int i = 0; i < 8; ++i) std::snprintf(bench_device_name[i], 256, "%s %d", name(c, 2, 9).c_str(), i);
            bench_current_device = int(c.below(8));
            trace.device = bench_device_name[bench_current_device];
        }
        c.note("evaluate('%s', '%s')(family '%s', species '%s', order '%s', device '%s', %g %s, %zu dimensions, output %d)", filter.c_str(), rev.c_str(), trace.family.c_str(), trace.species.c_str(), trace.order.c_str(),
               trace.device.c_str(), trace.perf, trace.unit.c_str(), dim.size(), output);

        host_name = c.below(4) ? word(c, c.below(3) ? 20 : 64) : "";
        clock_shift = 0;
        switch (c.below(4)) {
        case 0: break;
        case 1: clock_shift = c.range(-86400, 86400); c.label("other time of the day"); break;
        default:
            clock_shift = c.range(0, 4000000000L) - long(std::time(0));
            if (c.below(3) == 0) {
                // the last seconds of a year or of February
                std::tm b;
                std::memset(&b, 0, sizeof(b));
                b.tm_year = int(c.range(70, 190));
                b.tm_mon = c.below(2) ? 12 : 2;
                b.tm_mday = 1;
                clock_shift = timegm(&b) - 2 + long(c.below(5)) - long(std::time(0)) ;
            }
            c.label("other date");
        }
        struct Reset { ~Reset() { clock_shift = 0; host_name.clear(); } } reset;
        std::time_t t0 = std::time(0);
        Capture cap;
        switch (kind) {
        case 0: if (output) eval(Bench(), dim); else eval(Bench(), dim, false); break;
        case 1: eval(CpuBench(), dim, output); break;
        default: eval(GpuBench(), dim, output); break;
        }
        std::string text = cap.get();
        std::time_t t1 = std::time(0);

        PBT_CHECK(trace.runs == (selected ? 1 : 0), "the benchmark ran %d times, filter '%s', family '%s'", trace.runs, filter.c_str(), trace.family.c_str());
        PBT_CHECK(!selected || trace.dim == dim, "the benchmark ran with other dimensions than given");
        if (!selected || !output) {
            PBT_CHECK(text.empty(), "unexpected output: %s", text.c_str());
            c.label(selected ? "run without output" : "not selected");
            continue;
        }
        any = true;
        c.label("row");
        PBT_CHECK(!text.empty() && text.find('\n') == text.size() - 1, "the report is not a single line: %s", text.c_str());
        std::vector<std::string> f = split(text.substr(0, text.size() - 1), ';');
        PBT_CHECK(f.size() == 10, "the row has %zu fields: %s", f.size(), text.c_str());
        std::string dims = "(";
        for (std::size_t i = 0; i < dim.size(); ++i) dims += (i ? ", " : "") + std::to_string(dim[i]);
        dims += ")";
        char host[2048] = "";
        gethostname(host, sizeof(host) - 1);
        std::string want[] = {rev, "", host, trace.device, trace.order, trace.family, trace.species, dims, "", trace.unit};
        bool fits = true;
        for (std::size_t i = 0; i < 10; ++i) {
            if (i == 1 || i == 8) continue;
            PBT_CHECK(trim(f[i]) == trim(want[i]), "field '%s' is '%s', expected '%s'", titles[i], f[i].c_str(), want[i].c_str());
        }
        for (std::size_t i = 0; i < 9; ++i)
            if (trim(f[i]).size() + (i ? 2 : 1) > h[i].size()) fits = false;
        char *end;
        std::string number = trim(f[8]);
        double p = std::strtod(number.c_str(), &end);
        PBT_CHECK(*end == 0 && std::abs(p - trace.perf) <= 1e-5 * std::abs(trace.perf), "field 'perf' is '%s', expected %.10g", f[8].c_str(), trace.perf);
        std::tm tm;
        std::memset(&tm, 0, sizeof(tm));
        std::string date = trim(f[1]);
        const char *rest = strptime(date.c_str(), "%Y-%b-%d %H:%M:%S", &tm);
        std::time_t t = timegm(&tm);
        PBT_CHECK(rest && *rest == 0 && t >= t0 - 1 && t <= t1 + 1, "field 'date' is '%s', which is %ld seconds off the time of the run (UTC)", f[1].c_str(), long(t - t0));
        if (fits) {
            c.label("row lines up with the header");
            for (std::size_t i = 0, a = 0, b = 0; i < 9; ++i) {
                a += f[i].size();
                b += h[i].size();
                PBT_CHECK(a == b, "column %zu ends at %zu in the row and at %zu in the header", i, a, b);
            }
        }
    }
    if (any) c.nontrivial();
}
