// M03: aligned_allocator hands out aligned, disjoint, fully usable blocks and gives all of it back.
#include "pbt.hpp"
#include <libflatarray/aligned_allocator.hpp>
#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <unordered_map>
#include <vector>

// Underlying heap: returns chunks at any address offset, surrounded by canaries.
namespace heap {
bool on = false;
std::size_t skew = 0;
struct Chunk { char *raw; std::size_t n, pre; };
const std::size_t GUARD = 64, BEFORE = 256, PAGE = 4096;
std::map<char*, Chunk> *chunks = 0;
char problem[200];
std::size_t last_request = 0;

void *get(std::size_t n)
{
    bool was = on;
    on = false;
    last_request = n;
    if (n > (std::size_t(1) << 40)) { on = was; throw std::bad_alloc(); }
    Chunk ch;
    // the address modulo 4096 is exactly the skew
    void *raw = 0;
    ch.pre = PAGE + skew;
    ch.n = n;
    if (posix_memalign(&raw, PAGE, n + ch.pre + GUARD)) { on = was; throw std::bad_alloc(); }
    ch.raw = static_cast<char*>(raw);
    std::memset(ch.raw + ch.pre - BEFORE, 0x5a, BEFORE + n + GUARD);
    char *p = ch.raw + ch.pre;
    (*chunks)[p] = ch;
    on = was;
    return p;
}

void check(const Chunk& ch)
{
    for (std::size_t i = ch.pre - BEFORE; i < ch.pre; ++i) if (ch.raw[i] != 0x5a) { std::snprintf(problem, sizeof(problem), "memory %zu bytes before the underlying chunk was overwritten", ch.pre - i); return; }
    for (std::size_t i = 0; i < GUARD; ++i) if (ch.raw[ch.pre + ch.n + i] != 0x5a) { std::snprintf(problem, sizeof(problem), "memory %zu bytes behind the underlying chunk (of %zu bytes) was overwritten", i, ch.n); return; }
}

void put(void *q)
{
    bool was = on;
    on = false;
    std::map<char*, Chunk>::iterator it = chunks->find(static_cast<char*>(q));
    if (it == chunks->end()) {
        std::snprintf(problem, sizeof(problem), "a pointer was returned to the heap that does not stem from it");
    } else {
        check(it->second);
        std::free(it->second.raw);
        chunks->erase(it);
    }
    on = was;
}
}

void *operator new(std::size_t n)
{
    if (heap::on) return heap::get(n);
    void *p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void *p) noexcept { if (!p) return; if (heap::on) heap::put(p); else std::free(p); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }

struct On { On() { heap::on = true; } ~On() { heap::on = false; } };

namespace {

struct Odd { char c[24]; };

template<typename T, std::size_t ALIGN>
void blocks(pbt::Ctx& c)
{
    typedef LibFlatArray::aligned_allocator<T, ALIGN> Alloc;
    heap::problem[0] = 0;
    std::map<char*, heap::Chunk> chunks;
    heap::chunks = &chunks;
    struct B { T *p; std::size_t n; unsigned char fill; };
    std::vector<B> live;
    int steps = int(c.range(1, 20)), most = 0;
    for (int s = 0; s < steps; ++s) {
        c.op();
        if (live.empty() || c.below(5) < 3) {
            std::size_t n = c.chance(1, 8) ? std::size_t(c.range(1000, 9000)) : std::size_t(c.skewed(0, 70));
            switch (c.below(3)) {
            case 0: heap::skew = c.below(2 * ALIGN); break;
            case 1: heap::skew = ALIGN - c.below(ALIGN < 24 ? ALIGN : 24); break;
            default: heap::skew = ALIGN - (ALIGN < 64 ? 0 : 8 * c.below(6));
            }
            c.note("allocate(%zu), underlying heap skewed by %zu", n, heap::skew);
            T *p;
            std::size_t chunks_before = chunks.size();
            {
                On o;
                p = Alloc().allocate(n);
            }
            PBT_CHECK(p != 0, "allocate(%zu) returned a null pointer", n);
            PBT_CHECK(reinterpret_cast<std::size_t>(p) % ALIGN == 0, "allocate(%zu) returned %p, not aligned to %zu", n, (void*)p, ALIGN);
            char *lo = reinterpret_cast<char*>(p), *hi = lo + n * sizeof(T);
            bool inside = chunks.size() == chunks_before; // served by another heap: nothing to compare with
            for (std::map<char*, heap::Chunk>::iterator i = chunks.begin(); i != chunks.end(); ++i)
                if (lo >= i->first && hi <= i->first + i->second.n) inside = true;
            PBT_CHECK(inside, "block of %zu elements is not contained in memory obtained from the heap", n);
            for (std::size_t i = 0; i < live.size(); ++i) {
                char *l2 = reinterpret_cast<char*>(live[i].p), *h2 = l2 + live[i].n * sizeof(T);
                PBT_CHECK(hi <= l2 || lo >= h2, "blocks overlap");
            }
            B b = {p, n, (unsigned char)(1 + s)};
            std::memset((void*)p, b.fill, n * sizeof(T));
            live.push_back(b);
            if (int(live.size()) > most) most = int(live.size());
        } else {
            std::size_t i = c.below(live.size());
            B b = live[i];
            c.note("deallocate(block %zu of %zu elements)", i, b.n);
            for (std::size_t k = 0; k < b.n * sizeof(T); ++k)
                PBT_CHECK(reinterpret_cast<unsigned char*>(b.p)[k] == b.fill, "content of a block changed at byte %zu of %zu", k, b.n * sizeof(T));
            {
                On o;
                Alloc().deallocate(b.p, b.n);
            }
            live.erase(live.begin() + long(i));
        }
        PBT_CHECK(!heap::problem[0], "%s", heap::problem);
        for (std::map<char*, heap::Chunk>::iterator i = chunks.begin(); i != chunks.end(); ++i) heap::check(i->second);
        PBT_CHECK(!heap::problem[0], "%s", heap::problem);
    }
    for (std::size_t i = 0; i < live.size(); ++i) {
        for (std::size_t k = 0; k < live[i].n * sizeof(T); ++k)
            PBT_CHECK(reinterpret_cast<unsigned char*>(live[i].p)[k] == live[i].fill, "content of a block changed at byte %zu", k);
        On o;
        Alloc().deallocate(live[i].p, live[i].n);
    }
    PBT_CHECK(!heap::problem[0], "%s", heap::problem);
    PBT_CHECK(chunks.empty(), "%zu underlying chunks were not returned", chunks.size());
    { On o; Alloc().deallocate(0, std::size_t(c.below(100))); }
    PBT_CHECK(!heap::problem[0], "deallocate(0): %s", heap::problem);
    // requests whose byte size is not representable
    std::size_t huge = (std::size_t(-1) / sizeof(T)) - std::size_t(c.below(200)) + (sizeof(T) > 1 ? std::size_t(c.below(400)) : 0);
    bool refused = false;
    T *p = 0;
    try {
        On o;
        p = Alloc().allocate(huge);
    } catch (const std::bad_alloc&) {
        refused = true;
        heap::on = false;
    }
    (void)p;
    PBT_CHECK(refused, "allocate(%zu) of %zu-byte elements succeeded with a chunk of %zu bytes", huge, sizeof(T), heap::last_request);
    if (most >= 2) c.nontrivial();
    c.label(most >= 2 ? "several live blocks" : "one live block");
    heap::chunks = 0;
}

// the allocator must serve standard containers
template<typename T, std::size_t ALIGN>
void in_vector(pbt::Ctx& c)
{
    std::vector<T, LibFlatArray::aligned_allocator<T, ALIGN> > v;
    std::vector<T> m;
    int steps = int(c.range(1, 30));
    for (int s = 0; s < steps; ++s) {
        c.op();
        switch (c.below(4)) {
        case 0: v.push_back(T(s + 1)); m.push_back(T(s + 1)); break;
        case 1: { std::size_t n = c.below(200); v.resize(n); m.resize(n); break; }
        case 2: v.insert(v.begin(), 3, T(s)); m.insert(m.begin(), 3, T(s)); break;
        default: { std::vector<T, LibFlatArray::aligned_allocator<T, ALIGN> > w(v); v.swap(w); break; }
        }
        PBT_CHECK(v.size() == m.size() && std::equal(m.begin(), m.end(), v.begin()), "std::vector with aligned_allocator lost data");
        PBT_CHECK(v.empty() || reinterpret_cast<std::size_t>(&v[0]) % ALIGN == 0, "std::vector's data is not aligned");
    }
    if (m.size() > 4) c.nontrivial();
}

// an element that knows whether it lives, and where
long living = 0;
const char *element_problem = 0;
struct Element
{
    int v;
    const Element *self;
    explicit Element(int v = 0) : v(v), self(this) { ++living; }
    Element(const Element& o) : v(o.v), self(this) { if (o.self != &o) element_problem = "an element was copied from memory that holds none"; ++living; }
    Element& operator=(const Element& o)
    {
        if (o.self != &o) element_problem = "an element was assigned from memory that holds none";
        if (self != this) element_problem = "an element was assigned to memory that holds none";
        v = o.v;
        return *this;
    }
    ~Element() { if (self != this) element_problem = "memory was destroyed that holds no element"; self = 0; --living; }
    bool operator==(const Element& o) const { return v == o.v; }
    bool operator<(const Element& o) const { return v < o.v; }
};

template<typename C> typename C::iterator nth(C& c, std::size_t n) { typename C::iterator i = c.begin(); std::advance(i, long(n)); return i; }

// sequences: C uses the allocator, M is the same container with the standard one; IN_FRONT: has push_front()
template<typename C> void front(C& s, const Element& e, std::true_type) { s.push_front(e); }
template<typename C> void front(C& s, const Element& e, std::false_type) { s.insert(s.begin(), e); }

template<typename C, typename M, bool IN_FRONT>
void sequence(pbt::Ctx& c)
{
    heap::problem[0] = 0;
    element_problem = 0;
    std::map<char*, heap::Chunk> chunks;
    heap::chunks = &chunks;
    heap::skew = c.below(200);
    long before = living;
    std::integral_constant<bool, IN_FRONT> f;
    {
        M m, m2;
        C *s = 0, *s2 = 0;
        { On o; s = new C; s2 = new C; }
        int steps = int(c.range(1, 25));
        for (int k = 0; k < steps; ++k) {
            c.op();
            if (c.chance(1, 4)) heap::skew = c.below(200);
            int op = int(c.below(12)), v = int(c.below(1000));
            std::size_t n = std::size_t(c.skewed(0, 150)), at = m.empty() ? 0 : c.below(m.size() + 1), at2 = c.below(m.size() - at + 1) + at;
            c.note("operation %d (value %d, number %zu, positions %zu to %zu of %zu)", op, v, n, at, at2, m.size());
            switch (op) {
            case 0: m.push_back(Element(v)); { On o; s->push_back(Element(v)); } break;
            case 1: front(m, Element(v), f); { On o; front(*s, Element(v), f); } break;
            case 2: m.insert(nth(m, at), n, Element(v)); { On o; s->insert(nth(*s, at), n, Element(v)); } break;
            case 3: m.erase(nth(m, at), nth(m, at2)); { On o; s->erase(nth(*s, at), nth(*s, at2)); } break;
            case 4: m.resize(n, Element(v)); { On o; s->resize(n, Element(v)); } break;
            case 5: m.assign(n, Element(v)); { On o; s->assign(n, Element(v)); } break;
            case 6: m2 = m; { On o; *s2 = *s; } break;
            case 7: std::swap(m, m2); { On o; std::swap(*s, *s2); } break;
            case 8: m.clear(); { On o; s->clear(); } break;
            case 9: if (!m.empty()) { m.pop_back(); On o; s->pop_back(); } break;
            case 10: m2 = std::move(m); m = M(); { On o; *s2 = std::move(*s); *s = C(); } break;
            default: m.insert(m.end(), m2.begin(), m2.end()); { On o; s->insert(s->end(), s2->begin(), s2->end()); } break;
            }
            PBT_CHECK(!heap::problem[0], "%s", heap::problem);
            PBT_CHECK(!element_problem, "%s", element_problem);
            PBT_CHECK(s->size() == m.size() && std::equal(m.begin(), m.end(), s->begin()), "after operation %d the container differs from the same one with std::allocator", op);
            PBT_CHECK(s2->size() == m2.size() && std::equal(m2.begin(), m2.end(), s2->begin()), "after operation %d the other container differs from the same one with std::allocator", op);
            PBT_CHECK(s->get_allocator() == s2->get_allocator(), "two allocators of one type compare unequal");
            PBT_CHECK(living == before + 2 * long(m.size() + m2.size()), "%ld elements live, expected %ld", living - before, 2 * long(m.size() + m2.size()));
            if (m.size() > 2) c.nontrivial();
        }
        On o;
        delete s;
        delete s2;
    }
    PBT_CHECK(!heap::problem[0], "%s", heap::problem);
    PBT_CHECK(!element_problem, "%s", element_problem);
    PBT_CHECK(living == before, "%ld elements were never destroyed", living - before);
    PBT_CHECK(chunks.empty(), "%zu underlying chunks were not returned", chunks.size());
    heap::chunks = 0;
}

template<typename C, typename M>
void dictionary(pbt::Ctx& c)
{
    heap::problem[0] = 0;
    element_problem = 0;
    std::map<char*, heap::Chunk> chunks;
    heap::chunks = &chunks;
    heap::skew = c.below(200);
    long before = living;
    {
        M m;
        C *s = 0;
        { On o; s = new C; }
        int steps = int(c.range(1, 60));
        for (int k = 0; k < steps; ++k) {
            c.op();
            int key = int(c.below(40)), op = int(c.below(5));
            c.note("operation %d on key %d", op, key);
            switch (op) {
            case 0: case 1: m[key] = Element(k); { On o; (*s)[key] = Element(k); } break;
            case 2: m.erase(key); { On o; s->erase(key); } break;
            case 3: { On o; C t(*s); t[key] = Element(-k); s->swap(t); s->swap(t); } break;
            default: if (c.chance(1, 6)) { m.clear(); On o; s->clear(); } break;
            }
            PBT_CHECK(!heap::problem[0], "%s", heap::problem);
            PBT_CHECK(!element_problem, "%s", element_problem);
            PBT_CHECK(s->size() == m.size(), "the container holds %zu elements, expected %zu", s->size(), m.size());
            for (typename M::iterator i = m.begin(); i != m.end(); ++i) {
                typename C::iterator j = s->find(i->first);
                PBT_CHECK(j != s->end() && j->second == i->second, "the container lost key %d", i->first);
            }
            PBT_CHECK(living == before + 2 * long(m.size()), "%ld elements live, expected %ld", living - before, 2 * long(m.size()));
            if (m.size() > 3) c.nontrivial();
        }
        On o;
        delete s;
    }
    PBT_CHECK(!heap::problem[0], "%s", heap::problem);
    PBT_CHECK(living == before, "%ld elements were never destroyed", living - before);
    PBT_CHECK(chunks.empty(), "%zu underlying chunks were not returned", chunks.size());
    heap::chunks = 0;
}

template<typename T, std::size_t ALIGN> struct Al { typedef LibFlatArray::aligned_allocator<T, ALIGN> A; };
typedef std::pair<const int, Element> Entry;

// objects shared across threads of control, allocated along with their counters
void shared(pbt::Ctx& c)
{
    heap::problem[0] = 0;
    element_problem = 0;
    std::map<char*, heap::Chunk> chunks;
    heap::chunks = &chunks;
    long before = living;
    {
        std::vector<std::shared_ptr<Element> > all;
        int steps = int(c.range(1, 20));
        for (int k = 0; k < steps; ++k) {
            c.op();
            heap::skew = c.below(200);
            if (c.chance(2, 3)) {
                std::shared_ptr<Element> p;
                { On o; p = std::allocate_shared<Element>(Al<Element, 64>::A(), k); }
                PBT_CHECK(p->v == k && p->self == p.get(), "allocate_shared() did not construct its element");
                all.push_back(p);
            } else if (!all.empty()) {
                std::size_t i = c.below(all.size());
                std::shared_ptr<Element> p;
                p.swap(all[i]);
                all.erase(all.begin() + long(i));
                On o;
                p.reset();
            }
            PBT_CHECK(!heap::problem[0], "%s", heap::problem);
            PBT_CHECK(living == before + long(all.size()), "%ld elements live, expected %ld", living - before, long(all.size()));
            if (all.size() > 1) c.nontrivial();
        }
        while (!all.empty()) {
            std::shared_ptr<Element> p(all.back());
            all.pop_back();
            On o;
            p.reset();
        }
    }
    PBT_CHECK(!heap::problem[0], "%s", heap::problem);
    PBT_CHECK(!element_problem, "%s", element_problem);
    PBT_CHECK(living == before, "%ld elements were never destroyed", living - before);
    PBT_CHECK(chunks.empty(), "%zu underlying chunks were not returned", chunks.size());
    heap::chunks = 0;
}

}

PBT_REGISTER(M03_char_1, &blocks<char, 1>)
PBT_REGISTER(M03_char_2, &blocks<char, 2>)
PBT_REGISTER(M03_char_4, &blocks<char, 4>)
PBT_REGISTER(M03_char_8, &blocks<char, 8>)
PBT_REGISTER(M03_char_16, &blocks<char, 16>)
PBT_REGISTER(M03_char_64, &blocks<char, 64>)
PBT_REGISTER(M03_char_4096, &blocks<char, 4096>)
PBT_REGISTER(M03_int_16, &blocks<int, 16>)
PBT_REGISTER(M03_double_32, &blocks<double, 32>)
PBT_REGISTER(M03_double_512, &blocks<double, 512>)
PBT_REGISTER(M03_odd_24, &blocks<Odd, 24>)
PBT_REGISTER(M03_odd_128, &blocks<Odd, 128>)
PBT_REGISTER(M03_vec_double_64, &in_vector<double, 64>)
PBT_REGISTER(M03_vec_int_32, &in_vector<int, 32>)
PBT_REGISTER(M03_seq_vector, (&sequence<std::vector<Element, Al<Element, 64>::A>, std::vector<Element>, false>))
PBT_REGISTER(M03_seq_deque, (&sequence<std::deque<Element, Al<Element, 32>::A>, std::deque<Element>, true>))
PBT_REGISTER(M03_seq_list, (&sequence<std::list<Element, Al<Element, 128>::A>, std::list<Element>, true>))
PBT_REGISTER(M03_map, (&dictionary<std::map<int, Element, std::less<int>, Al<Entry, 64>::A>, std::map<int, Element> >))
PBT_REGISTER(M03_unordered_map, (&dictionary<std::unordered_map<int, Element, std::hash<int>, std::equal_to<int>, Al<Entry, 256>::A>, std::map<int, Element> >))
PBT_REGISTER(M03_shared, &shared)
