// Property-based testing engine: choice-sequence generation, crash isolation by
// fork, automatic shrinking, replay files, classification counters.
//
// A target is a function over a Ctx. Every random decision is drawn from the Ctx
// and recorded as an integer; a case *is* its list of integers. Shrinking edits
// that list; replaying feeds it back. 0 is always the simplest choice.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace pbt {

const std::size_t MAX_CHOICES = 1 << 16;
const int MAX_LABELS = 96;
const int EXIT_FAILED = 42;

struct Shared {
    volatile std::uint64_t current;     // index of the case being executed
    volatile std::uint64_t finished;    // cases completed
    volatile std::uint32_t n;           // number of recorded choices of the current case
    volatile std::uint32_t failed;
    char msg[8192];
    std::uint64_t vals[MAX_CHOICES];
    char label_name[MAX_LABELS][64];
    std::uint64_t label_count[MAX_LABELS];
    volatile std::uint64_t nontrivial_cases;
    volatile std::uint64_t ops;
    char decoded[1 << 17];
    volatile std::uint32_t decoded_len;
};

extern Shared *sh;

inline std::uint64_t splitmix(std::uint64_t& s)
{
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

class Ctx
{
public:
    enum Mode { RANDOM, REPLAY, BYTES };

    Mode mode;
    std::uint64_t rng;
    const std::uint64_t *replay;
    std::size_t replay_n;
    std::size_t pos;
    const std::uint8_t *bytes;
    std::size_t bytes_n;
    bool verbose;
    bool is_nontrivial;
    std::uint64_t hash;

    Ctx() :
        mode(RANDOM), rng(0), replay(0), replay_n(0), pos(0), bytes(0), bytes_n(0), verbose(false),
        is_nontrivial(false), hash(1469598103934665603ull)
    {}

    // uniform in [0, n); n >= 1
    std::uint64_t below(std::uint64_t n)
    {
        std::uint64_t v = 0;
        switch (mode) {
        case RANDOM:
            v = splitmix(rng);
            if (n) v %= n;
            break;
        case REPLAY:
            v = pos < replay_n ? replay[pos] : 0;
            if (n) v %= n;
            break;
        case BYTES: {
            int need = n == 0 ? 8 : (n <= 256 ? 1 : (n <= 65536 ? 2 : (n <= (1ull << 32) ? 4 : 8)));
            for (int i = 0; i < need; ++i) {
                std::uint64_t b = 0;
                if (bytes_n) { b = *bytes++; --bytes_n; }
                v |= b << (8 * i);
            }
            if (n) v %= n;
            break;
        }
        }
        ++pos;
        if (sh->n < MAX_CHOICES) {
            sh->vals[sh->n] = v;
            sh->n = sh->n + 1;
        }
        hash = (hash ^ v) * 1099511628211ull;
        hash ^= hash >> 29;
        return v;
    }

    std::uint64_t bits() { return below(0); }

    // inclusive; shrinks towards lo
    long range(long lo, long hi)
    {
        return lo + long(below(std::uint64_t(hi - lo) + 1));
    }

    // true with probability num/den; shrinks to false
    bool chance(unsigned num, unsigned den)
    {
        return below(den) >= den - num;
    }

    template<typename T>
    const T& pick(const std::vector<T>& v)
    {
        return v[below(v.size())];
    }

    // [lo, hi], biased towards both ends and small values
    long skewed(long lo, long hi)
    {
        switch (below(4)) {
        case 0: return range(lo, hi < lo + 3 ? hi : lo + 3);
        case 1: return range(lo, hi);
        case 2: return hi - long(below(std::uint64_t(hi - lo < 3 ? hi - lo : 3) + 1));
        default: return range(lo, lo + (hi - lo) / 2);
        }
    }

    void label(const char *name)
    {
        for (int i = 0; i < MAX_LABELS; ++i) {
            if (sh->label_name[i][0] == 0) {
                std::strncpy(sh->label_name[i], name, 63);
            }
            if (std::strncmp(sh->label_name[i], name, 63) == 0) {
                ++sh->label_count[i];
                return;
            }
        }
    }

    void op() { sh->ops = sh->ops + 1; }

    void nontrivial() { is_nontrivial = true; }

    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        if (!verbose) return;
        va_list ap;
        va_start(ap, fmt);
        std::size_t left = sizeof(sh->decoded) - sh->decoded_len;
        if (left > 8) {
            int k = std::vsnprintf(sh->decoded + sh->decoded_len, left - 2, fmt, ap);
            if (k > 0) {
                std::size_t kk = std::size_t(k) < left - 3 ? std::size_t(k) : left - 3;
                sh->decoded_len = sh->decoded_len + std::uint32_t(kk);
                sh->decoded[sh->decoded_len] = '\n';
                sh->decoded_len = sh->decoded_len + 1;
                sh->decoded[sh->decoded_len] = 0;
            }
        }
        va_end(ap);
    }

    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

typedef void (*TargetFn)(Ctx&);

struct Target {
    const char *name;
    TargetFn fn;
    Target *next;
    static Target *&head() { static Target *h = 0; return h; }
    Target(const char *n, TargetFn f) : name(n), fn(f), next(head()) { head() = this; }
};

// optional runtime guard (e.g. CPU lacks the instruction set): return false to skip
extern bool (*supported)();

} // namespace pbt

#define PBT_TARGET(NAME)                                        \
    static void pbt_target_##NAME(pbt::Ctx& c);                 \
    static pbt::Target pbt_reg_##NAME(#NAME, pbt_target_##NAME); \
    static void pbt_target_##NAME(pbt::Ctx& c)

#define PBT_REGISTER(NAME, ...)                                        \
    static pbt::Target pbt_reg_##NAME(#NAME, __VA_ARGS__);

#define PBT_CHECK(COND, ...)                    \
    do { if (!(COND)) { c.fail(__VA_ARGS__); } } while (0)

#endif
