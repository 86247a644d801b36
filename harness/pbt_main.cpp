// Runner for pbt.hpp (see there). Usage:
//   bin --target T --seed S --salt STR --begin A --end B --out result.json [--hashes f]
//   bin --target T --replay-values file        exit 0 holds, 1 fails
//   bin --target T --replay-run --seed S --salt STR --begin A --end B
//   bin --list
#include "pbt.hpp"
#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

Shared *sh = 0;
bool (*supported)() = 0;
bool fuzz_mode = false;

static void fuzz_dump();

void Ctx::fail(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(sh->msg, sizeof(sh->msg), fmt, ap);
    va_end(ap);
    sh->failed = 1;
    if (fuzz_mode) {
        fuzz_dump();
        std::fprintf(stderr, "PROPERTY FAILED: %s\n", sh->msg);
        std::abort();
    }
    _exit(EXIT_FAILED);
}

static void make_shared()
{
    void *p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { std::perror("mmap"); _exit(3); }
    sh = static_cast<Shared*>(p);
}

static void fuzz_dump()
{
    const char *out = std::getenv("PBT_FUZZ_DUMP");
    if (!out) return;
    FILE *f = std::fopen(out, "w");
    if (!f) return;
    for (std::uint32_t i = 0; i < sh->n; ++i) std::fprintf(f, "%llu\n", (unsigned long long)sh->vals[i]);
    std::fclose(f);
}

static Target *find(const std::string& n)
{
    for (Target *t = Target::head(); t; t = t->next) if (n == t->name) return t;
    return 0;
}

}

#ifdef PBT_LIBFUZZER

extern "C" void __sanitizer_set_death_callback(void (*)(void));

extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t *data, std::size_t size)
{
    using namespace pbt;
    static Target *t = 0;
    if (!t) {
        make_shared();
        fuzz_mode = true;
        const char *name = std::getenv("PBT_TARGET");
        t = name ? find(name) : Target::head();
        if (!t) { std::fprintf(stderr, "no target\n"); _exit(3); }
        __sanitizer_set_death_callback(fuzz_dump);
    }
    sh->n = 0;
    Ctx c;
    c.mode = Ctx::BYTES;
    c.bytes = data;
    c.bytes_n = size;
    t->fn(c);
    return 0;
}

#else

namespace pbt {

static const int CASE_CPU_LIMIT_S = 30;

static void arm(int seconds)
{
    struct itimerval it;
    std::memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &it, 0);
}

static double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
}

static std::uint64_t hash_str(const std::string& s, std::uint64_t h)
{
    for (std::size_t i = 0; i < s.size(); ++i) h = (h ^ std::uint8_t(s[i])) * 1099511628211ull;
    return h;
}

struct Outcome { bool failed; std::string kind, msg; };

static Outcome classify(int status)
{
    Outcome o;
    o.failed = true;
    std::ostringstream s;
    if (WIFEXITED(status)) {
        if (WEXITSTATUS(status) == 0) { o.failed = false; return o; }
        if (WEXITSTATUS(status) == EXIT_FAILED && sh->failed) { o.kind = "property"; o.msg = sh->msg; return o; }
        s << "process exited with status " << WEXITSTATUS(status) << " (sanitizer report or unexpected exit)";
        o.kind = "abnormal-exit";
    } else if (WIFSIGNALED(status)) {
        if (WTERMSIG(status) == SIGPROF) {
            s << "case did not terminate within " << CASE_CPU_LIMIT_S << " s of CPU time";
            o.kind = "hang";
        } else {
            s << "killed by signal " << WTERMSIG(status) << " (" << strsignal(WTERMSIG(status)) << ")";
            o.kind = "signal";
        }
    }
    o.msg = s.str();
    return o;
}

static void run_one(Target *t, Ctx& c)
{
    sh->n = 0;
    sh->failed = 0;
    try {
        t->fn(c);
    } catch (const std::exception& e) {
        c.fail("unexpected exception escaped: %s", e.what());
    } catch (...) {
        c.fail("unexpected exception escaped");
    }
}

static void redirect_stderr(const std::string& errfile)
{
    int fd = open(errfile.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
}

static Outcome run_values(Target *t, const std::vector<std::uint64_t>& vals, bool verbose, const std::string& errfile,
                          std::vector<std::uint64_t> *recorded = 0)
{
    sh->failed = 0;
    sh->n = 0;
    sh->decoded_len = 0;
    sh->decoded[0] = 0;
    pid_t p = fork();
    if (p < 0) { std::perror("fork"); _exit(3); }
    if (p == 0) {
        redirect_stderr(errfile);
        arm(CASE_CPU_LIMIT_S);
        Ctx c;
        c.mode = Ctx::REPLAY;
        c.replay = vals.data();
        c.replay_n = vals.size();
        c.verbose = verbose;
        run_one(t, c);
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Outcome o = classify(st);
    if (recorded) recorded->assign(sh->vals, sh->vals + sh->n);
    return o;
}

static std::uint64_t case_seed(std::uint64_t seed, const std::string& salt, const std::string& target, std::uint64_t i)
{
    std::uint64_t h = hash_str(target, hash_str(salt, 1469598103934665603ull ^ (seed * 0x9e3779b97f4a7c15ull)));
    h ^= i * 0xd1342543de82ef95ull;
    std::uint64_t s = h;
    splitmix(s);
    return splitmix(s);
}

// runs cases [a, b) in one forked process
static Outcome run_range(Target *t, std::uint64_t seed, const std::string& salt, std::uint64_t a, std::uint64_t b,
                         const std::string& errfile, const std::string& hashes, int n_samples, const std::string& sample_file,
                         double deadline)
{
    sh->finished = 0;
    sh->current = a;
    pid_t p = fork();
    if (p < 0) { std::perror("fork"); _exit(3); }
    if (p == 0) {
        redirect_stderr(errfile);
        std::unordered_set<std::uint64_t> seen;
        for (std::uint64_t i = a; i < b; ++i) {
            if (deadline > 0 && (i & 15) == 0 && now() > deadline) break;
            sh->current = i;
            arm(CASE_CPU_LIMIT_S);
            Ctx c;
            c.rng = case_seed(seed, salt, t->name, i);
            if (n_samples > 0 && i - a < std::uint64_t(n_samples)) {
                c.verbose = true;
                sh->decoded_len = 0;
                sh->decoded[0] = 0;
            }
            run_one(t, c);
            if (c.is_nontrivial) {
                sh->nontrivial_cases = sh->nontrivial_cases + 1;
                seen.insert(c.hash);
            }
            if (c.verbose) {
                FILE *f = std::fopen(sample_file.c_str(), "a");
                if (f) {
                    std::fprintf(f, "%s%s\x01", c.is_nontrivial ? "N" : "T", sh->decoded);
                    std::fclose(f);
                }
            }
            sh->finished = sh->finished + 1;
        }
        if (!hashes.empty()) {
            FILE *f = std::fopen(hashes.c_str(), "wb");
            if (f) {
                std::vector<std::uint64_t> v(seen.begin(), seen.end());
                if (!v.empty()) std::fwrite(v.data(), 8, v.size(), f);
                std::fclose(f);
            }
        }
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return classify(st);
}

typedef std::vector<std::uint64_t> Vals;

struct Shrinker {
    Target *t;
    std::string errfile;
    double deadline;
    int runs;
    Vals best;

    bool attempt(const Vals& cand)
    {
        if (now() > deadline || runs > 6000) return false;
        ++runs;
        Vals rec;
        Outcome o = run_values(t, cand, false, errfile, &rec);
        if (!o.failed || o.kind == "hang") return false;
        if (rec.size() > cand.size()) rec = cand;
        // the recorded list is canonical (values reduced, unused tail dropped)
        if (rec.size() < best.size() || (rec.size() == best.size() && rec < best)) { best = rec; return true; }
        if (cand.size() < best.size()) { best = cand; return true; }
        return false;
    }

    bool exhausted() const { return now() > deadline || runs > 6000; }

    void run()
    {
        bool progress = true;
        while (progress && !exhausted()) {
            progress = false;
            for (std::size_t k = std::max<std::size_t>(best.size() / 2, 1); k >= 1; k /= 2) {
                for (std::size_t i = 0; i + k <= best.size() && !exhausted();) {
                    Vals cnd(best);
                    cnd.erase(cnd.begin() + long(i), cnd.begin() + long(i + k));
                    if (attempt(cnd)) progress = true; else i += std::max<std::size_t>(k / 2, 1);
                }
                if (k == 1) break;
            }
            for (std::size_t k = std::max<std::size_t>(best.size() / 2, 1); k >= 1; k /= 2) {
                for (std::size_t i = 0; i + k <= best.size() && !exhausted(); i += k) {
                    Vals cnd(best);
                    bool any = false;
                    for (std::size_t j = i; j < i + k; ++j) { any = any || cnd[j]; cnd[j] = 0; }
                    if (any && attempt(cnd)) progress = true;
                }
                if (k == 1) break;
            }
            for (std::size_t i = 0; i < best.size() && !exhausted(); ++i) {
                std::uint64_t lo = 0, hi = best[i];
                while (lo < hi && !exhausted()) {
                    std::uint64_t mid = lo + (hi - lo) / 2;
                    Vals cnd(best);
                    if (i >= cnd.size()) break;
                    cnd[i] = mid;
                    if (attempt(cnd)) { progress = true; if (i >= best.size()) break; hi = std::min(mid, best[i]); }
                    else lo = mid + 1;
                }
            }
            // lower one value and delete its successor (length prefixes)
            for (std::size_t i = 0; i + 1 < best.size() && !exhausted(); ++i) {
                if (!best[i]) continue;
                for (std::size_t d = 1; d <= 4 && i + d < best.size(); ++d) {
                    Vals cnd(best);
                    cnd[i] -= 1;
                    cnd.erase(cnd.begin() + long(i + d));
                    if (attempt(cnd)) { progress = true; break; }
                }
            }
        }
    }
};

static std::string json(const std::string& s)
{
    std::ostringstream o;
    o << '"';
    for (std::size_t i = 0; i < s.size(); ++i) {
        unsigned char ch = (unsigned char)s[i];
        if (ch == '"' || ch == '\\') o << '\\' << s[i];
        else if (ch == '\n') o << "\\n";
        else if (ch < 32 || ch >= 127) { char b[8]; std::snprintf(b, 8, "\\u%04x", ch); o << b; }
        else o << s[i];
    }
    o << '"';
    return o.str();
}

static std::string slurp(const std::string& f, std::size_t limit)
{
    std::ifstream in(f.c_str());
    std::stringstream s;
    s << in.rdbuf();
    std::string r = s.str();
    if (r.size() > limit) r.resize(limit);
    return r;
}

}

int main(int argc, char **argv)
{
    using namespace pbt;
    std::string target, salt, out, hashes, replay_values;
    std::uint64_t seed = 1, begin = 0, end = 100;
    int samples = 0;
    double budget = 0, shrink_s = 40;
    bool replay_run = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--list") { for (Target *t = Target::head(); t; t = t->next) std::printf("%s\n", t->name); return 0; }
        else if (a == "--target") target = next();
        else if (a == "--seed") seed = std::strtoull(next().c_str(), 0, 10);
        else if (a == "--salt") salt = next();
        else if (a == "--begin") begin = std::strtoull(next().c_str(), 0, 10);
        else if (a == "--end") end = std::strtoull(next().c_str(), 0, 10);
        else if (a == "--out") out = next();
        else if (a == "--hashes") hashes = next();
        else if (a == "--samples") samples = std::atoi(next().c_str());
        else if (a == "--budget") budget = std::atof(next().c_str());
        else if (a == "--shrink-seconds") shrink_s = std::atof(next().c_str());
        else if (a == "--replay-values") replay_values = next();
        else if (a == "--replay-run") replay_run = true;
        else { std::fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
    }
    if (supported && !supported()) {
        if (!out.empty()) { std::ofstream o(out.c_str()); o << "{\"skipped\": true}\n"; }
        std::printf("SKIPPED: instruction set not available on this CPU\n");
        return 0;
    }
    Target *t = find(target);
    if (!t) { std::fprintf(stderr, "no such target: %s\n", target.c_str()); return 3; }
    make_shared();
    char tmpl[] = "/tmp/pbt_err_XXXXXX";
    int efd = mkstemp(tmpl);
    if (efd >= 0) close(efd);
    std::string errfile = tmpl;
    std::string sample_file = errfile + ".s";

    if (!replay_values.empty()) {
        std::ifstream in(replay_values.c_str());
        Vals v;
        std::uint64_t x;
        while (in >> x) v.push_back(x);
        Outcome o = run_values(t, v, true, errfile);
        std::printf("%s", sh->decoded);
        if (o.failed) {
            std::printf("FAILS: %s\n%s\n", o.msg.c_str(), slurp(errfile, 6000).c_str());
        } else {
            std::printf("HOLDS\n");
        }
        unlink(errfile.c_str());
        return o.failed ? 1 : 0;
    }
    if (replay_run) {
        Outcome o = run_range(t, seed, salt, begin, end, errfile, "", 0, "", 0);
        if (o.failed) std::printf("FAILS at case %llu: %s\n%s\n", (unsigned long long)sh->current, o.msg.c_str(), slurp(errfile, 6000).c_str());
        else std::printf("HOLDS\n");
        unlink(errfile.c_str());
        return o.failed ? 1 : 0;
    }

    double t0 = now();
    Outcome o = run_range(t, seed, salt, begin, end, errfile, hashes, samples, sample_file, budget > 0 ? t0 + budget : 0);
    std::ofstream js(out.c_str());
    js << "{\"target\": " << json(target) << ", \"salt\": " << json(salt) << ", \"evaluations\": " << sh->finished + (o.failed ? 1 : 0)
       << ", \"nontrivial\": " << sh->nontrivial_cases << ", \"ops\": " << sh->ops << ", \"wall\": " << (now() - t0);
    js << ", \"labels\": {";
    for (int i = 0; i < MAX_LABELS && sh->label_name[i][0]; ++i)
        js << (i ? ", " : "") << json(sh->label_name[i]) << ": " << sh->label_count[i];
    js << "}, \"samples\": [";
    {
        std::string s = slurp(sample_file, 1 << 20);
        bool first = true;
        std::size_t p = 0;
        while (p < s.size()) {
            std::size_t q = s.find('\x01', p);
            if (q == std::string::npos) break;
            std::string one = s.substr(p + 1, q - p - 1);
            if (s[p] == 'N') { if (one.size() > 1500) one = one.substr(0, 1500) + " ..."; js << (first ? "" : ", ") << json(one); first = false; }
            p = q + 1;
        }
    }
    js << "]";
    unlink(sample_file.c_str());
    if (o.failed) {
        std::string stderr_text = slurp(errfile, 6000);
        std::uint64_t idx = sh->current;
        Vals orig(sh->vals, sh->vals + sh->n);
        // confirm in isolation
        int fails = 0;
        for (int k = 0; k < 3; ++k) fails += run_values(t, orig, false, errfile).failed ? 1 : 0;
        if (fails == 3) {
            Shrinker s;
            s.t = t;
            s.errfile = errfile;
            s.deadline = now() + shrink_s;
            s.runs = 0;
            s.best = orig;
            if (o.kind != "hang") s.run();
            int again = 0;
            for (int k = 0; k < 3; ++k) again += run_values(t, s.best, false, errfile).failed ? 1 : 0;
            Vals fin = again == 3 ? s.best : orig;
            Outcome fo = run_values(t, fin, true, errfile);
            std::string dec = sh->decoded;
            js << ", \"failure\": {\"kind\": " << json(fo.kind) << ", \"mode\": \"values\", \"case\": " << idx
               << ", \"message\": " << json(fo.msg) << ", \"original_message\": " << json(o.msg)
               << ", \"stderr\": " << json(slurp(errfile, 6000)) << ", \"decoded\": " << json(dec)
               << ", \"shrink_runs\": " << s.runs << ", \"original_size\": " << orig.size() << ", \"values\": [";
            for (std::size_t i = 0; i < fin.size(); ++i) js << (i ? "," : "") << fin[i];
            js << "]}";
        } else {
            // state carried between cases: replay the whole prefix
            int again = 0;
            for (int k = 0; k < 3; ++k) again += run_range(t, seed, salt, begin, idx + 1, errfile, "", 0, "", 0).failed ? 1 : 0;
            js << ", \"failure\": {\"kind\": " << json(o.kind) << ", \"mode\": \"run\", \"confirmed\": " << again
               << ", \"begin\": " << begin << ", \"end\": " << idx + 1 << ", \"message\": " << json(o.msg)
               << ", \"stderr\": " << json(stderr_text) << ", \"isolated_fails\": " << fails << "}";
        }
    }
    js << "}\n";
    js.close();
    unlink(errfile.c_str());
    return 0;
}

#endif
