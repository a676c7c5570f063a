// Handles to one shared object used by several threads at once, each thread with its own handles.
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <set>
#include <new>
#include <cstdio>
#include <cstring>
#include <memory>
#include <xmem/shared_ptr.hpp>
#include "../engine/conc.h"
#include "lin.h"

#ifndef ESF
#define ESF 0
#endif

#if FAM == 2
// A control block which records which handles it was told of. The records are the harness's own: they order nothing.
struct Notes {
    std::set<const void*> strong, weak;
    bool constructed = false, gone = false;
    long told = 0;
};
static Notes N;
struct Book : protected xmem::control_block_base<xmem::atomic_ref_count> {
    using super = xmem::control_block_base<xmem::atomic_ref_count>;
    static void on(const char* what) {
        ++N.told;
        if (!N.constructed) co::fail("notify", "%s: called before construction", what);
        if (N.gone) co::fail("notify", "%s: called after destruction", what);
    }
    static void add(std::set<const void*>& s, const void* p, const char* what) { co::Out o; on(what); if (!s.insert(p).second) co::fail("notify", "%s: told of a handle which is already there", what); }
    static void del(std::set<const void*>& s, const void* p, const char* what) { co::Out o; on(what); if (!s.erase(p)) co::fail("notify", "%s: told that a handle goes which was not there", what); }
    Book() { co::Out o; N.constructed = true; }
    ~Book() { co::Out o; on("destructor"); if (N.strong.size() || N.weak.size()) co::fail("notify", "destroyed while %zu strong and %zu weak handles are recorded", N.strong.size(), N.weak.size()); N.gone = true; }
    void init_strong(const void* s) noexcept { super::init_strong(s); add(N.strong, s, "init_strong"); }
    void inc_strong_ref(const void* s) noexcept { { co::Out o; on("inc_strong"); if (N.strong.empty()) co::fail("notify", "told of a handle made from another when there is none"); } super::inc_strong_ref(s); add(N.strong, s, "inc_strong"); }
    void dec_strong_ref(const void* s) noexcept { del(N.strong, s, "dec_strong"); super::dec_strong_ref(s); }
    bool inc_strong_ref_nz(const void* s) noexcept { { co::Out o; on("inc_strong_nz"); } if (!super::inc_strong_ref_nz(s)) return false; add(N.strong, s, "inc_strong_nz"); return true; }
    using super::strong_ref_count;
    void transfer_strong(const void* d, const void* s) { super::transfer_strong(d, s); add(N.strong, d, "transfer_strong"); del(N.strong, s, "transfer_strong"); }
    void inc_weak_ref(const void* s) noexcept { super::inc_weak_ref(s); add(N.weak, s, "inc_weak"); }
    void dec_weak_ref(const void* s) noexcept { del(N.weak, s, "dec_weak"); super::dec_weak_ref(s); }
    void transfer_weak(const void* d, const void* s) { super::transfer_weak(d, s); add(N.weak, d, "transfer_weak"); del(N.weak, s, "transfer_weak"); }
};
using CBF = xmem::control_block_factory<Book>;
#define FAM_NAME "bookkeeping"
#elif FAM == 0
using CBF = xmem::atomic_control_block_factory;
#define FAM_NAME "shared_ptr"
#endif

#if FAM == 3
#define FAM_NAME "std"
template <typename T> using SP = std::shared_ptr<T>;
template <typename T> using WP = std::weak_ptr<T>;
#else
template <typename T> using SP = xmem::basic_shared_ptr<CBF, T>;
template <typename T> using WP = xmem::basic_weak_ptr<CBF, T>;
#endif

struct Obj;
static void g_destroyed(Obj*);
#if ESF
#if FAM == 3
using EsfBase = std::enable_shared_from_this<Obj>;
#else
using EsfBase = xmem::basic_enable_shared_from_this<CBF, Obj>;
#endif
#else
struct EsfBase {};
#endif
struct Obj : public EsfBase {
    uint32_t alive = 0xA11FE;
    int slot[co::MAXT + 1] = {};
    ~Obj() {
        g_destroyed(this);
        if (alive != 0xA11FE) co::fail("life", "destructor of a dead object");
        alive = 0;
        for (auto& s : slot) s = -1; // after everything the owners did
    }
};

struct Mine { // of one thread
    SP<Obj> s, s2;
    SP<const void> a;
    WP<Obj> w, w2;
};
struct World {
    Mine m[co::MAXT];
    SP<Obj> hold;
    WP<Obj> whold;
    int dummy[co::MAXT + 1];
};
static_assert(sizeof(World) < co::ROOT_SIZE);
static World& W() { return *reinterpret_cast<World*>(co::ROOT_ADDR); }

struct TProg { bool s, w; std::string ops; };
struct Prog { int nt; int how; bool hold, whold; TProg t[co::MAXT]; };
static std::vector<Prog> progs;
static Prog P;

struct Rec { int op; char k; long res; };
static std::vector<Rec> hist[co::MAXT + 1];
static Obj* obj; static int destroyed; static int held; // handles which own the object for sure
static void g_destroyed(Obj* o) {
    if (o != obj) co::fail("life", "something else is destroyed");
    if (destroyed++) co::fail("life", "the object is destroyed twice");
    if (held) co::fail("life", "the object is destroyed while %d handles own it", held);
    co::note("the object is destroyed");
}

struct Model { // of the owners
    long n;
    bool operator==(const Model& o) const { return n == o.n; }
    bool step(const Rec& r) {
        switch (r.k) {
        case '+': ++n; return n > 1;
        case '-': return --n >= 0;
        case 'l': if ((r.res != 0) != (n > 0)) return false; n += r.res != 0; return true;
        case 'q': return r.res == (n == 0);
        case 'Q': return r.res >= n; // an operation of another thread may hold the object for a while
        }
        return false;
    }
};

template <typename H> void use(const H& h) {
    if (!h) co::fail("value", "the handle is null");
    if ((const void*)h.get() != (const void*)obj && (const void*)h.get() != (const void*)&obj->slot) co::fail("value", "the handle points elsewhere");
    if (destroyed) co::fail("life", "a strong handle to an object whose destruction has begun");
    if (obj->alive != 0xA11FE) co::fail("life", "a strong handle to a dead object");
    obj->slot[co::self()] += 1;
}
static void rec(int op, char k, long res = 0) { co::Out o; hist[co::self()].push_back(Rec{op, k, res}); }

template <typename F> void gain(const char* what, F f) { int op = co::op_begin(what); f(); co::op_end(op); ++held; rec(op, '+'); }
template <typename H, typename F> void lose(const char* what, H& h, F f) {
    use(h);
    --held;
    int op = co::op_begin(what); f(); co::op_end(op); rec(op, '-');
}
template <typename F> void other(const char* what, F f) { int op = co::op_begin(what); f(); co::op_end(op); }

static void do_op(Mine& m, char k) {
    switch (k) {
    case 'c': if (m.s && !m.s2) { gain("s2 = s", [&] { m.s2 = m.s; }); use(m.s2); } break;
    case 'i': if (m.s && !m.s2) { gain("s2(s)", [&] { SP<Obj> t(m.s); m.s2.swap(t); }); use(m.s2); } break;
    case 'm': if (m.s && !m.s2) { use(m.s); other("s2 = move(s)", [&] { m.s2 = std::move(m.s); }); if (m.s) co::fail("value", "moved from handle is not null"); use(m.s2); } break;
    case 's': use(m.s ? m.s : m.s2); other("swap", [&] { m.s.swap(m.s2); }); break;
    case 'r': if (m.s && m.s2) {
        use(m.s2); --held;
        int op = co::op_begin("s2 = s (replaces)"); m.s2 = m.s; co::op_end(op);
        ++held; rec(op, '+'); rec(op, '-'); use(m.s2);
    } break;
    case 'd': if (m.s) lose("s.reset()", m.s, [&] { m.s.reset(); }); break;
    case 'D': if (m.s) lose("s = nullptr", m.s, [&] { m.s = nullptr; }); break;
    case 'e': if (m.s2) lose("s2.reset()", m.s2, [&] { m.s2.reset(); }); break;
    case 'a': if (m.s && !m.a) {
#if FAM == 3
        gain("a = alias", [&] { m.a = std::shared_ptr<const void>(m.s, &m.s->slot); });
#else
        gain("a = alias", [&] { m.a = make_aliased(m.s, static_cast<const void*>(&m.s->slot)); });
#endif
        use(m.a); } break;
    case 'o': if (m.s && !m.a) { gain("a = s", [&] { m.a = m.s; }); use(m.a); } break;
    case 'b': if (m.a) lose("a.reset()", m.a, [&] { m.a.reset(); }); break;
    case 'w': if (m.s) other("w = s", [&] { m.w = m.s; }); break;
    case 'k': other("w2 = w", [&] { m.w2 = m.w; }); break;
    case 'n': other("w2 = move(w)", [&] { m.w2 = std::move(m.w); }); break;
    case 'x': other("w.reset()", [&] { m.w.reset(); }); break;
    case 'y': other("w2.reset()", [&] { m.w2.reset(); }); break;
    case 'z': other("swap weak", [&] { m.w.swap(m.w2); }); break;
#if ESF
    case 'f': if (m.s && !m.s2) { gain("s2 = shared_from_this", [&] { m.s2 = m.s->shared_from_this(); }); use(m.s2); } break;
    case 'g': if (m.s) other("w2 = weak_from_this", [&] { m.w2 = m.s->weak_from_this(); }); break;
#endif
    // main's handles, which nobody changes, may be read by all
    case 'h': if (!m.s && W().hold) { const SP<Obj>& h = W().hold; gain("s = main's", [&] { m.s = h; }); use(m.s); } break;
    case 'H': if (!m.a && W().hold) { const SP<Obj>& h = W().hold; gain("a = main's", [&] { m.a = h; }); use(m.a); } break;
    case 'u': if (W().hold) { const SP<Obj>& h = W().hold; other("w = main's", [&] { m.w = h; }); } break;
    case 'v': other("w = main's weak", [&] { const WP<Obj>& h = W().whold; m.w = h; }); break;
    case 'U': if (W().hold) { const SP<Obj>& h = W().hold; int op = co::op_begin("main's use_count"); long n = h.use_count(); co::op_end(op); rec(op, 'Q', n); } break;
    case 'l': case 'j': case 'J': {
        const WP<Obj>& from = k == 'l' ? m.w : k == 'j' ? m.w2 : W().whold;
        if (m.s2) break;
#if FAM == 3
        bool owned = from.owner_before(WP<Obj>()) || WP<Obj>().owner_before(from);
#else
        bool owned = bool(from);
#endif
        int op = co::op_begin("s2 = lock"); m.s2 = from.lock(); co::op_end(op);
        bool got = bool(m.s2);
        co::note("lock -> %d", int(got));
        if (got) { ++held; if (!owned) co::fail("value", "lock of an empty weak handle yields a handle"); use(m.s2); }
        if (owned) rec(op, 'l', got);
        break;
    }
    case 'q': {
#if FAM == 3
        bool owned = m.w.owner_before(WP<Obj>()) || WP<Obj>().owner_before(m.w);
#else
        bool owned = bool(m.w);
#endif
        int op = co::op_begin("expired"); bool e = m.w.expired(); co::op_end(op);
        co::note("expired -> %d", int(e));
        if (owned) rec(op, 'q', e); else if (!e) co::fail("value", "an empty weak handle is not expired");
        break;
    }
    case 'Q': if (m.s) { int op = co::op_begin("use_count"); long n = m.s.use_count(); co::op_end(op); rec(op, 'Q', n); } break;
    }
}

// abstract state to prune operations which can do nothing
struct Abs { int s, s2, a, w, w2; }; // 0 no, 1 yes, 2 perhaps
static bool apply(Abs& x, char k) {
    switch (k) {
    case 'c': case 'i': case 'f': if (!x.s || x.s2 == 1) return false; x.s2 = x.s == 1 ? 1 : 2; return true;
    case 'm': if (!x.s || x.s2 == 1) return false; x.s2 = 1; x.s = 0; return true;
    case 's': if (x.s != 1 && x.s2 != 1) return false; std::swap(x.s, x.s2); return true;
    case 'r': return x.s && x.s2;
    case 'd': case 'D': if (!x.s) return false; x.s = 0; return true;
    case 'e': if (!x.s2) return false; x.s2 = 0; return true;
    case 'a': case 'o': if (!x.s || x.a) return false; x.a = x.s; return true;
    case 'b': if (!x.a) return false; x.a = 0; return true;
    case 'w': if (!x.s) return false; x.w = 1; return true;
    case 'k': if (!x.w && !x.w2) return false; x.w2 = x.w; return true;
    case 'n': if (!x.w) return false; x.w2 = x.w; x.w = 0; return true;
    case 'x': if (!x.w) return false; x.w = 0; return true;
    case 'y': if (!x.w2) return false; x.w2 = 0; return true;
    case 'z': if (!x.w && !x.w2) return false; std::swap(x.w, x.w2); return true;
    case 'g': if (!x.s) return false; x.w2 = 1; return true;
    case 'l': if (!x.w || x.s2 == 1) return false; x.s2 = 2; return true;
    case 'j': if (!x.w2 || x.s2 == 1) return false; x.s2 = 2; return true;
    case 'q': return x.w != 0;
    case 'Q': return x.s != 0;
    case 'h': if (x.s == 1) return false; x.s = 1; return true;
    case 'H': if (x.a == 1) return false; x.a = 1; return true;
    case 'u': case 'v': x.w = 1; return true;
    case 'U': return true;
    case 'J': if (x.s2 == 1) return false; x.s2 = 2; return true;
    }
    return false;
}
static void seqs(const char* alpha, std::string pre, Abs x, int min, int max, std::vector<std::string>& out) {
    if (int(pre.size()) >= min) out.push_back(pre);
    if (int(pre.size()) == max) return;
    for (const char* k = alpha; *k; ++k) { Abs y = x; if (apply(y, *k)) seqs(alpha, pre + *k, y, min, max, out); }
}

struct Cfg { const char* name; int nt, min, max; const char* alpha; int roles; int dev, hows, shards; };
// roles: bit 0: owns strong, bit 1: weak, bit 2: both, bit 3: neither, but main's handles are there
#if ESF
#define X "fg"
#else
#define X ""
#endif
static const Cfg base_cfgs[] = {
    {"two threads, up to 1 operation each, every kind", 2, 0, 1, "cimsrdDeaobwknxyzljqQ" X, 7, 2, 4, 1},
#if ESF
    {"two threads, up to 2 operations each", 2, 1, 2, "fgdlx", 3, 1, 2, 1},
    {"two threads, 3 operations each", 2, 3, 3, "fgdj", 1, 0, 1, 1},
    {"three threads, 1 operation each", 3, 1, 1, "fgdl", 3, 0, 1, 1},
    {"deep: two threads, up to 2 operations each, every kind", 2, 1, 2, "cimsrdDeaobwknxyzljqQ" X, 7, 0, 1, 8},
    {"deep: two threads, 3 operations each", 2, 3, 3, "cfgdejlxywz", 3, 0, 1, 8},
    {"deep: three threads, 1 operation each", 3, 1, 1, "cfgdlx", 3, 0, 1, 8},
#else
    {"two threads, up to 2 operations each, every kind", 2, 1, 2, "cimsrdDeaobwknxyzljqQ" X, 7, 0, 1, 2},
    {"two threads, up to 2 operations each", 2, 1, 2, "cmdwlxq" X, 7, 1, 2, 2},
    {"two threads, 3 operations each, locking", 2, 3, 3, "delxcw" X, 7, 0, 1, 2},
    {"three threads, 1 operation each", 3, 0, 1, "cmdaewklxq" X, 7, 0, 1, 2},
    {"three threads, locking", 3, 1, 2, "dle", 3, 0, 1, 1},
    {"two threads, main's handles", 2, 1, 2, "hHuvUJdl", 8, 1, 2, 1},
    {"deep: two threads, main's handles", 2, 3, 3, "hHuvUJdble", 8, 0, 1, 4},
    {"deep: three threads, main's handles", 3, 1, 1, "hHuvUJ", 8, 1, 1, 4},
    {"deep: two threads, up to 2 operations each, every kind, deviations", 2, 1, 2, "cimsrdDeaobwknxyzljqQ" X, 7, 1, 2, 8},
    {"deep: two threads, 3 operations each", 2, 3, 3, "cmdewlxkq" X, 7, 1, 1, 8},
    {"deep: three threads, up to 2 operations each", 3, 1, 2, "delx" X, 7, 0, 1, 8},
    {"deep: three threads, 1 operation each, deviations", 3, 0, 1, "cmdaewklxq" X, 7, 1, 2, 4},
    {"deep: four threads, 1 operation each", 4, 1, 1, "cdlx" X, 3, 0, 1, 8},
#endif
};
struct Shard { Cfg c; int i; };
static std::vector<Shard>& shards() {
    static std::vector<Shard> v;
    if (v.empty()) for (auto& c : base_cfgs) for (int i = 0; i < c.shards; ++i) v.push_back({c, i});
    return v;
}
static int dev;

struct Del { int* n; void operator()(Obj* p) const { ++*n; delete p; } };

extern "C" {
int h_nconfigs() { return int(shards().size()); }
const char* h_config_name(int c) {
    static std::string s; auto& h = shards()[c];
    s = std::string(FAM_NAME) + (ESF ? " from this" : "") + ": " + h.c.name;
    if (h.c.shards > 1) s += " (" + std::to_string(h.i + 1) + "/" + std::to_string(h.c.shards) + ")";
    return s.c_str();
}
void h_config(int ci) {
    progs.clear();
    const Cfg& c = shards()[ci].c; int count = 0;
    dev = c.dev;
    std::vector<TProg> all;
    for (int role = 0; role < 4; ++role) {
        if (!(c.roles & (1 << role))) continue;
        bool s = role != 1 && role != 3, w = role == 1 || role == 2;
        std::vector<std::string> v; seqs(c.alpha, "", Abs{s, 0, 0, w, 0}, c.min, c.max, v);
        for (auto& x : v) all.push_back({s, w, x});
    }
    std::vector<size_t> idx(c.nt, 0);
    for (;;) {
        Prog p{}; p.nt = c.nt;
        int owners = 0; size_t total = 0;
        for (int t = 0; t < p.nt; ++t) { p.t[t] = all[idx[t]]; owners += p.t[t].s; total += p.t[t].ops.size(); }
        if (total >= 1) {
            for (int how = 0; how < c.hows; ++how) {
                p.how = how;
                for (int h = 0; h < 2; ++h) {
                    p.hold = h == 1; p.whold = how % 2 == 1 || c.roles == 8;
                    if (p.hold && (c.nt > 2 || (c.hows == 1 && c.max > 1)) && owners) continue; // main keeps an owner only if no thread has one
                    if (!p.hold && !owners) continue;
                    if (count++ % c.shards == shards()[ci].i) progs.push_back(p);
                }
            }
        }
        int t = p.nt - 1;
        while (t >= 0 && idx[t] + 1 == all.size()) --t;
        if (t < 0) break;
        size_t v = idx[t] + 1;
        for (; t < p.nt; ++t) idx[t] = v;
    }
}
int h_nprograms() { return int(progs.size()); }
void h_program_name(int p, char* b, size_t n) {
    static const char* hows[] = {"made in place", "made in place, main has a weak handle", "adopted", "adopted with a deleter, main has a weak handle"};
    std::string s = hows[progs[p].how];
    if (progs[p].hold) s += ", main owns";
    s += ": ";
    for (int t = 0; t < progs[p].nt; ++t) s += (t ? " | " : "") + std::string(progs[p].t[t].s ? "s" : "") + (progs[p].t[t].w ? "w" : "") + ":" + progs[p].t[t].ops;
    snprintf(b, n, "%s", s.c_str());
}
void h_program(int p) { P = progs[p]; }
int h_threads() { return P.nt; }
bool h_realtime() { return false; }
int h_deviations() { return dev; }
bool h_patience() { return dev == 2; }
void h_init() {
    { co::Out o; for (auto& h : hist) h.clear(); destroyed = 0; held = 0; obj = nullptr;
#if FAM == 2
    N = Notes();
#endif
    }
    new (&W()) World();
    SP<Obj> s;
    switch (P.how) {
#if FAM == 3
    case 0: case 1: s = std::make_shared<Obj>(); break;
#elif FAM == 0
    case 0: case 1: s = xmem::make_shared<Obj>(); break;
#else
    case 0: case 1: s = SP<Obj>(CBF::make_resource_cb<Obj>(xmem::allocator<char>{})); break;
#endif
    case 2: s = SP<Obj>(new Obj); break;
    case 3: s = SP<Obj>(new Obj, Del{&W().dummy[0]}); break;
    }
    obj = s.get();
    for (int t = 0; t < P.nt; ++t) {
        if (P.t[t].s) { W().m[t].s = s; ++held; }
        if (P.t[t].w) W().m[t].w = s;
    }
    if (P.hold) { W().hold = s; ++held; }
    if (P.whold) W().whold = s;
}
void h_thread(int t) {
    Mine& m = W().m[t];
    for (char k : P.t[t].ops) do_op(m, k);
    do_op(m, 'b'); do_op(m, 'e'); do_op(m, 'd');
    other("w2.reset()", [&] { m.w2.reset(); });
    other("w.reset()", [&] { m.w.reset(); });
}
void h_final() {
    uint64_t out = 0;
    {
        co::Out o;
        long n = P.hold;
        for (int t = 0; t < P.nt; ++t) n += P.t[t].s;
        std::vector<Rec> h;
        for (int t = 0; t < P.nt; ++t) for (auto& r : hist[t]) { h.push_back(r); if (r.k != '+' && r.k != '-') out = out * 31 + uint64_t(r.res) + 7; }
        if (!lin::linearizable(Model{n}, h)) {
            std::string s; for (auto& r : h) { s += ' '; s += r.k; if (r.k != '+' && r.k != '-') s += '=' + std::to_string(r.res); }
            co::fail("lock", "no order of the operations explains the results:%s", s.c_str());
        }
        if (held != int(P.hold)) co::fail("engine", "the harness lost count");
    }
    co::outcome(out);
    if (destroyed != !P.hold) co::fail("life", "all threads are done: destroyed %d times, %d owners left", destroyed, int(P.hold));
#if FAM == 2
    {
        co::Out o;
        std::set<const void*> s, w;
        if (P.hold) s.insert(&W().hold);
        if (P.whold) w.insert(&W().whold);
#if ESF
        if (P.hold) { std::set<const void*> x = N.weak; x.erase(&W().whold); if (x.size() != 1) co::fail("notify", "weak handles recorded at the end: %zu", N.weak.size()); w = N.weak; }
#endif
        if (N.strong != s || N.weak != w) co::fail("notify", "at the end %zu strong and %zu weak handles are recorded, but there are %d and %d", N.strong.size(), N.weak.size(), int(P.hold), int(P.whold));
    }
#endif
    if (P.hold) {
        if (W().hold.use_count() != 1) co::fail("count", "use count %ld with one owner left", long(W().hold.use_count()));
        for (int t = 0; t < P.nt; ++t) if (W().hold->slot[t] < 0) co::fail("life", "the object is broken");
        --held;
        W().hold.reset();
        if (destroyed != 1) co::fail("life", "the last owner let go: destroyed %d times", destroyed);
    }
    if (P.whold) {
        if (!W().whold.expired() || W().whold.lock()) co::fail("lock", "the object is gone, but its weak handle is not expired");
        W().whold.reset();
    }
    if (P.how == 3 && W().dummy[0] != 1) co::fail("life", "the deleter ran %d times", W().dummy[0]);
#if FAM == 2
    if (!N.gone) co::fail("notify", "the control block is not destroyed");
#endif
    W().~World();
}
}
