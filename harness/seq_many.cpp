// Many handles and many references: counts around the limits of narrow integers.
// PART 0: handles, PART 1: the counters themselves
#include "families.h"
#if PART == 0
struct World { uint64_t nothing; };
static bool expected; static int ndied;
struct T {
    uint64_t magic = 0x7A17;
    ~T() {
        if (magic != 0x7A17) sq::fail("life", "destroyed twice or damaged");
        magic = 0;
        if (!expected) sq::fail("life", "the object is destroyed while there are owners");
        ++ndied;
    }
};
constexpr int MAX = 131080;
alignas(16) static unsigned char smem[MAX * sizeof(SP<T>)], wmem[MAX * sizeof(WP<T>)];
static SP<T>& S(int i) { return std::launder(reinterpret_cast<SP<T>*>(smem))[i]; }
static WP<T>& V(int i) { return std::launder(reinterpret_cast<WP<T>*>(wmem))[i]; }
struct Op { int strong, weak, how, order; };
static std::vector<Op> ops;
static const char* const hows[] = {"copied", "copied one from the other", "locked"};
static const char* const orders[] = {"oldest first", "latest first"};
struct Config { const char* name; std::vector<int> s, w; };
static std::vector<Config>& confs() {
    static std::vector<Config> v = {
        {"many strong handles", {1, 2, 3, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 131073}, {0, 1}},
        {"many weak handles", {1, 2}, {0, 1, 2, 3, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072}},
        {"many handles of both kinds", {1, 254, 255, 256, 257, 65535, 65536, 65537}, {1, 254, 255, 256, 257, 65534, 65535, 65536, 65537}},
    };
    return v;
}
extern "C" {
int h_nconfigs() { return int(confs().size()); }
const char* h_config_name(int c) { static std::string s; s = std::string(FAM_NAME) + ": " + confs()[c].name; return s.c_str(); }
void h_config(int c) {
    ops.clear();
    for (int s : confs()[c].s) for (int w : confs()[c].w) for (int h = 0; h < 3; ++h) for (int o = 0; o < 2; ++o) if (h != 2 || w) ops.push_back({s, w, h, o});
}
sq::Sizes h_sizes() { return {sizeof(World), sizeof(World), 1024, 64}; }
void h_init() {}
int h_nops() { return int(ops.size()); }
void h_opname(int op, char* b, size_t n) { auto& o = ops[op]; snprintf(b, n, "%d strong handles, %s, %d weak handles, dropped %s", o.strong, hows[o.how], o.weak, orders[o.order]); }
bool h_enabled(int) { return true; }
void h_apply(int op) {
    const Op o = ops[op];
    sq::set_hang_limit(1ull << 40);
    expected = false; ndied = 0;
    int ns = 0, nw = 0;
    const int before = sq::live_blocks();
    new (&S(ns++)) SP<T>(mk_shared<T>());
    T* const p = S(0).get();
    while (nw < o.weak) { if (o.how == 1 && nw) new (&V(nw)) WP<T>(V(nw - 1)); else new (&V(nw)) WP<T>(S(0)); ++nw; }
    while (ns < o.strong) {
        switch (o.how) {
        case 0: new (&S(ns)) SP<T>(S(0)); break;
        case 1: new (&S(ns)) SP<T>(S(ns - 1)); break;
        case 2: new (&S(ns)) SP<T>(V(ns % nw).lock()); break;
        }
        if (S(ns).get() != p) sq::fail("value", "handle %d has the wrong value", ns);
        ++ns;
        if (S(0).use_count() != ns) sq::fail("count", "the use count is %ld with %d handles", S(0).use_count(), ns);
    }
    if (p->magic != 0x7A17) sq::fail("life", "the object is damaged");
    if (nw && (V(0).expired() || V(nw - 1).expired() || V(nw - 1).use_count() != ns)) sq::fail("weak", "a weak handle has the wrong count with %d strong handles", ns);
    // the weak ones but for the last half go first
    auto dropw = [&](int to) { while (nw > to) { --nw; V(o.order ? nw : o.weak - 1 - nw).~WP<T>(); } };
    auto lastw = [&]() -> WP<T>& { return V(o.order ? 0 : o.weak - 1); };
    dropw(o.weak / 2);
    for (int i = 0; i < o.strong; ++i) {
        int k = o.order ? o.strong - 1 - i : i;
        if (i == o.strong - 1) { expected = true; if (p->magic != 0x7A17) sq::fail("life", "the object is dead while it has an owner"); }
        S(k).~SP<T>(); --ns;
        if (ns) { int left = o.order ? 0 : o.strong - 1; if (S(left).use_count() != ns) sq::fail("count", "the use count is %ld with %d handles", S(left).use_count(), ns); }
    }
    if (ndied != 1) sq::fail("life", "the object was not destroyed when the last of %d handles went", o.strong);
    if (nw) {
        if (!lastw().expired() || lastw().lock() || lastw().use_count()) sq::fail("weak", "a weak handle is not expired");
        for (int i = 0; i < nw && i < 300; ++i) { WP<T> x(lastw()); if (x.lock()) sq::fail("weak", "a weak handle locks to a dead object"); }
        dropw(1);
        if (sq::live_blocks() == before) sq::fail("mem", "the bookkeeping is released while there is a weak handle");
        dropw(0);
    }
    if (sq::live_blocks() != before) sq::fail("leak", "the bookkeeping is not released with the last of %d strong and %d weak handles", o.strong, o.weak);
}
void h_observe() {}
void h_end(int) {}
}
#else
#include <xmem/atomic_ref_count.hpp>
#include <xmem/local_ref_count.hpp>
#if FAM == 1
using RC = xmem::local_ref_count;
#define RC_NAME "local_ref_count"
#else
using RC = xmem::atomic_ref_count;
#define RC_NAME "atomic_ref_count"
#endif
struct World { alignas(8) RC rc; uint64_t n; };
static World& W = *reinterpret_cast<World*>(sq::ROOT_ADDR);
// counts up to SMALL are visited one by one; so is the surroundings of each mark
static const uint64_t marks[] = {1u << 7, 1u << 8, 1u << 15, 1u << 16, 1u << 17, 1u << 20, 1u << 24};
constexpr uint64_t SMALL = 40, NEAR = 4;
static bool near(uint64_t n) { if (n <= SMALL) return true; for (auto m : marks) if (n + NEAR >= m && n <= m + NEAR) return true; return false; }
enum { INC, DEC, INCNZ, MARKUP, MARKDOWN, NOPS };
static void inc() { uint64_t r = W.rc.inc(); ++W.n; if (r != W.n) sq::fail("count", "inc returns %d instead of %d", int(r), int(W.n)); }
static void dec() { uint64_t r = W.rc.dec(); --W.n; if (r != W.n) sq::fail("count", "dec returns %d instead of %d", int(r), int(W.n)); }
static void incnz() { uint64_t r = W.rc.inc_nz(); if (W.n) ++W.n; if (r != W.n) sq::fail("count", "inc_nz returns %d instead of %d", int(r), int(W.n)); }
extern "C" {
int h_nconfigs() { return 1; }
const char* h_config_name(int) { return RC_NAME ": counts up to 2^24"; }
void h_config(int) {}
sq::Sizes h_sizes() { return {sizeof(World), sizeof(World), 1024, 8}; }
void h_init() { new (&W.rc) RC(); W.n = 1; }
int h_nops() { return NOPS; }
void h_opname(int op, char* b, size_t n) { static const char* nm[] = {"inc", "dec", "inc_nz", "inc up to the next mark", "dec down to the next mark"}; snprintf(b, n, "%s", nm[op]); }
bool h_enabled(int op) {
    switch (op) {
    case INC: return W.n && near(W.n + 1);
    case DEC: return W.n && near(W.n - 1);
    case INCNZ: return near(W.n + 1);
    case MARKUP: return W.n == SMALL || (W.n > SMALL && W.n < marks[6] && !near(W.n + 1));
    case MARKDOWN: return W.n > SMALL && !near(W.n - 1) && W.n < (1u << 21);
    }
    return false;
}
void h_apply(int op) {
    sq::set_hang_limit(1ull << 40);
    switch (op) {
    case INC: inc(); break;
    case DEC: dec(); break;
    case INCNZ: incnz(); break;
    case MARKUP: do { if (W.n & 1) inc(); else incnz(); } while (!near(W.n)); break;
    case MARKDOWN: do dec(); while (!near(W.n)); break;
    }
}
void h_observe() { if (uint64_t(W.rc.count()) != W.n) sq::fail("count", "the count is %d instead of %d", int(W.rc.count()), int(W.n)); }
void h_end(int) {}
}
#endif
