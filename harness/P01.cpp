// P01: the preprocessor's list macros.
#include "pbt.hpp"
#include <cctype>
#include <string>
#include <libflatarray/preprocessor.hpp>

namespace {

struct GenEntry
{
    const char *expression, *actual, *expected;
    int length;
};

#include <genlists.hpp>

std::string squeeze(const char *s)
{
    std::string r;
    for (; *s; ++s) if (!std::isspace((unsigned char)*s)) r += *s;
    return r;
}

}

PBT_TARGET(P01_lists)
{
    const std::size_t N = sizeof(gen_entries) / sizeof(gen_entries[0]);
    // several expansions per case
    for (int i = 0; i < 4; ++i) {
        const GenEntry& e = gen_entries[c.below(N)];
        c.note("%s, a list of %d elements", e.expression, e.length);
        PBT_CHECK(squeeze(e.actual) == squeeze(e.expected), "%s expands to\n  %s\nexpected\n  %s", e.expression, e.actual, e.expected);
        c.op();
        if (e.length > 1) c.nontrivial();
    }
}
