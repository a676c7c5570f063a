// One atomic storage used by several threads: linearizability, publication, progress, conservation of references.
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <set>
#include <new>
#include <cstdio>
#include <cstring>
#include <memory>
#include <xmem/shared_ptr.hpp>
#include <xmem/basic_atomic_shared_ptr_storage.hpp>
#include <xmem/std_helpers.hpp>
#include "../engine/conc.h"
#include "lin.h"

#if FAM == 2
// A control block which records which handles it was told of. The records are the harness's own: they order nothing.
struct Notes { std::set<const void*> strong, weak; bool gone = false; };
static std::vector<Notes> N;
struct Book : protected xmem::control_block_base<xmem::atomic_ref_count> {
    using super = xmem::control_block_base<xmem::atomic_ref_count>;
    int id;
    Notes& on(const char* what) const {
        int i = id; if (i < 0 || size_t(i) >= N.size()) co::fail("notify", "%s: called before construction", what);
        if (N[i].gone) co::fail("notify", "%s: called after destruction", what);
        return N[i];
    }
    void adds(const void* p, const char* what) { co::Out o; if (!on(what).strong.insert(p).second) co::fail("notify", "%s: told of a handle which is already there", what); }
    void dels(const void* p, const char* what) { co::Out o; if (!on(what).strong.erase(p)) co::fail("notify", "%s: told that a handle goes which was not there", what); }
    void addw(const void* p, const char* what) { co::Out o; if (!on(what).weak.insert(p).second) co::fail("notify", "%s: told of a handle which is already there", what); }
    void delw(const void* p, const char* what) { co::Out o; if (!on(what).weak.erase(p)) co::fail("notify", "%s: told that a handle goes which was not there", what); }
    Book() { co::Out o; id = int(N.size()); N.emplace_back(); }
    ~Book() { co::Out o; Notes& n = on("destructor"); if (n.strong.size() || n.weak.size()) co::fail("notify", "destroyed while %zu strong and %zu weak handles are recorded", n.strong.size(), n.weak.size()); n.gone = true; }
    void init_strong(const void* s) noexcept { super::init_strong(s); adds(s, "init_strong"); }
    void inc_strong_ref(const void* s) noexcept { { co::Out o; if (on("inc_strong").strong.empty()) co::fail("notify", "told of a handle made from another when there is none"); } super::inc_strong_ref(s); adds(s, "inc_strong"); }
    void dec_strong_ref(const void* s) noexcept { dels(s, "dec_strong"); super::dec_strong_ref(s); }
    bool inc_strong_ref_nz(const void* s) noexcept { if (!super::inc_strong_ref_nz(s)) return false; adds(s, "inc_strong_nz"); return true; }
    using super::strong_ref_count;
    void transfer_strong(const void* d, const void* s) { super::transfer_strong(d, s); adds(d, "transfer_strong"); dels(s, "transfer_strong"); }
    void inc_weak_ref(const void* s) noexcept { super::inc_weak_ref(s); addw(s, "inc_weak"); }
    void dec_weak_ref(const void* s) noexcept { delw(s, "dec_weak"); super::dec_weak_ref(s); }
    void transfer_weak(const void* d, const void* s) { super::transfer_weak(d, s); addw(d, "transfer_weak"); delw(s, "transfer_weak"); }
};
using CBF = xmem::control_block_factory<Book>;
#define FAM_NAME "bookkeeping"
#elif FAM == 0
using CBF = xmem::atomic_control_block_factory;
#define FAM_NAME "xmem"
#endif

struct Obj;
#if FAM == 3
#if __cplusplus >= 202000L
#define FAM_NAME "std C++20"
#else
#define FAM_NAME "std C++17"
#endif
using SP = std::shared_ptr<Obj>;
using WP = std::weak_ptr<Obj>;
using STO = xstd::atomic_shared_ptr_storage<Obj>;
#else
using SP = xmem::basic_shared_ptr<CBF, Obj>;
using WP = xmem::basic_weak_ptr<CBF, Obj>;
using STO = xmem::basic_atomic_shared_ptr_storage<CBF, Obj>;
#endif

static void g_dtor(Obj*);
struct Obj {
    uint32_t alive = 0xA11FE;
    int id, data = 0;
    explicit Obj(int i) : id(i) {}
    ~Obj() {
        if (alive != 0xA11FE) co::fail("life", "destructor of a dead object");
        g_dtor(this);
        alive = 0; data = -1;
    }
};

constexpr int MAXV = co::MAXT + 1; // object 0 is main's, object t + 1 of thread t
struct Mine { SP m, r; };
struct World {
    alignas(64) unsigned char st[sizeof(STO)];
    Mine t[co::MAXT];
    SP hold;
    WP ref[MAXV];
    Obj* other; // a pointer which is nobody's object
};
static_assert(sizeof(World) < co::ROOT_SIZE);
static World& W() { return *reinterpret_cast<World*>(co::ROOT_ADDR); }
static STO& ST() { return *std::launder(reinterpret_cast<STO*>(&W().st)); }

// --- programs -----------------------------------------------------------------------------------
struct TProg { bool r; std::string ops; };
struct Prog { int nt, how, reent; bool same; TProg t[co::MAXT]; };
static std::vector<Prog> progs;
static Prog P;
// how: what is stored at first: 0 null, 1 object 0, 2 object 0 which main owns too

// --- values and history -------------------------------------------------------------------------
static Obj* objs[MAXV]; static const void* owners[MAXV]; static int nobjs;
static int destroyed[MAXV], held[MAXV];
static bool ending;
struct Rec { int op; char k; int arg, exp, res; bool ok; };
static std::vector<Rec> hist[co::MAXT + 1];

static int ptr_id(const Obj* p) {
    if (!p) return 0;
    for (int i = 0; i < nobjs; ++i) if (objs[i] == p) return i + 1;
    return p == reinterpret_cast<Obj*>(&W().other) ? 15 : 14;
}
static int owner_id(const SP& h) {
#if FAM == 3
    if (xstd::no_owner(h)) return 0;
    for (int i = 0; i < nobjs; ++i) if (xstd::same_owner(h, W().ref[i])) return i + 1;
#else
    if (!h.owner()) return 0;
    for (int i = 0; i < nobjs; ++i) if (h.owner() == owners[i]) return i + 1;
#endif
    return 14;
}
static int code(const SP& h) { co::Out o; return ptr_id(h.get()) * 16 + owner_id(h); }
static const char* show(int c) { static char b[8][32]; static int n; char* s = b[n++ & 7]; snprintf(s, 32, "(object %d of owner %d)", c / 16, c % 16); return s; }

static void g_lose(int c) { if (c % 16) --held[c % 16 - 1]; }
static void g_gain(int c) { if (c % 16 == 14 || c / 16 == 14) co::fail("value", "a value which was never stored: %s", show(c)); if (c % 16) ++held[c % 16 - 1]; }
static void read(const SP& h) { // what the creator wrote is there, and nobody interferes
    int c = code(h);
    if (!c) return;
    if (c % 16 && destroyed[c % 16 - 1]) co::fail("life", "a handle to an object whose destruction has begun");
    if (c / 16 != c % 16) return;
    if (h->alive != 0xA11FE) co::fail("life", "a handle to a dead object");
    int i = h->id;
    if (i != c / 16 - 1) co::fail("mem", "damaged object");
    if (h->data != 100 + i) co::fail("publish", "the object found does not have the value written before it was stored");
}
static void rec(int op, char k, int arg, int exp = 0, int res = 0, bool ok = true) { co::Out o; hist[co::self()].push_back(Rec{op, k, arg, exp, res, ok}); }

struct Model {
    int cur;
    bool operator==(const Model& o) const { return cur == o.cur; }
    bool step(const Rec& r) {
        switch (r.k) {
        case 'l': return r.res == cur;
        case 's': cur = r.arg; return true;
        case 'x': if (r.res != cur) return false; cur = r.arg; return true;
        case 'c':
            if (r.ok) { if (r.exp != cur || r.res != r.exp) return false; cur = r.arg; return true; }
            return r.exp != cur && r.res == cur;
        }
        return false;
    }
};

template <typename A> void store(A&& a, int c) { int op = co::op_begin("store"); ST().store(std::forward<A>(a)); co::op_end(op); rec(op, 's', c); }
template <typename A> void exchange(SP& r, A&& a, int c) {
    int op = co::op_begin("exchange"); SP x = ST().exchange(std::forward<A>(a)); co::op_end(op);
    int res = code(x); g_gain(res); rec(op, 'x', c, 0, res); read(x);
    g_lose(code(r)); r = std::move(x);
}
template <typename A> void cas(SP& r, A&& a, int c) {
    int exp = code(r); g_lose(exp);
    int op = co::op_begin("compare_exchange"); bool ok = ST().compare_exchange(r, std::forward<A>(a)); co::op_end(op);
    int res = code(r); g_gain(res); rec(op, 'c', c, exp, res, ok); read(r);
    co::note("compare_exchange -> %d", int(ok));
}
static void load(SP& r) {
    int op = co::op_begin("load"); SP x = ST().load(); co::op_end(op);
    int res = code(x); g_gain(res); rec(op, 'l', 0, 0, res); read(x);
    g_lose(code(r)); r = std::move(x);
}
static SP aliased(const SP& owner, Obj* p) {
#if FAM == 3
    return std::shared_ptr<Obj>(owner, p);
#else
    return make_aliased(owner, p);
#endif
}
static void g_dtor(Obj* p) {
    int i = -1; for (int k = 0; k < nobjs; ++k) if (objs[k] == p) i = k;
    if (i < 0) co::fail("life", "something else is destroyed");
    if (destroyed[i]++) co::fail("life", "object %d is destroyed twice", i);
    if (held[i]) co::fail("life", "object %d is destroyed while %d handles own it", i, held[i]);
    co::note("object %d is destroyed", i);
    if (ending) return;
    SP r;
    switch (P.reent) {
    case 1: load(r); g_lose(code(r)); break;
    case 2: store(nullptr, 0); break;
    case 3: exchange(r, nullptr, 0); g_lose(code(r)); break;
    case 4: load(r); cas(r, nullptr, 0); g_lose(code(r)); break;
    }
}

static void do_op(Mine& x, char k) {
    int m = code(x.m);
    switch (k) {
    case 'l': load(x.r); break;
    case 's': store(x.m, m); break;
    case 'S': g_lose(m); store(std::move(x.m), m); if (code(x.m)) co::fail("value", "a handle moved into the storage is not null"); break;
    case 'n': store(nullptr, 0); break;
    case 'x': exchange(x.r, x.m, m); break;
    case 'X': g_lose(m); exchange(x.r, std::move(x.m), m); if (code(x.m)) co::fail("value", "a handle moved into the storage is not null"); break;
    case 'y': exchange(x.r, nullptr, 0); break;
    case 'c': cas(x.r, x.m, m); break;
    case 'C': g_lose(m); cas(x.r, std::move(x.m), m); break;
    case 'k': cas(x.r, nullptr, 0); break;
    case 'f': { SP e; cas(e, x.m, m); g_lose(code(x.r)); x.r = std::move(e); } break; // expects null
    case 'a': if (x.m) { SP a = aliased(x.m, objs[0]); g_gain(code(a)); g_lose(code(x.r)); x.r = std::move(a); } break; // the pointer of object 0, but another owner
    case 'b': if (x.r) { SP a = aliased(x.r, reinterpret_cast<Obj*>(&W().other)); g_gain(code(a)); g_lose(code(x.r)); x.r = std::move(a); } break; // the same owner, but another pointer
    case 'd': g_lose(code(x.r)); x.r.reset(); break;
    case 'D': g_lose(m); x.m.reset(); break;
    case 'r': { SP a = x.r; g_gain(code(a)); g_lose(m); x.m = std::move(a); } break; // puts back what it found
    }
}
// abstract state to prune operations which can do nothing: 0 no, 1 yes, 2 perhaps
struct Abs { int m, r; };
static bool apply(Abs& x, char k) {
    switch (k) {
    case 'l': case 'y': x.r = 2; return true;
    case 's': return x.m;
    case 'S': if (!x.m) return false; x.m = 0; return true;
    case 'n': return true;
    case 'x': if (!x.m) return false; x.r = 2; return true;
    case 'X': if (!x.m) return false; x.m = 0; x.r = 2; return true;
    case 'c': if (!x.m) return false; x.r = 2; return true;
    case 'C': if (!x.m) return false; x.m = 0; x.r = 2; return true;
    case 'f': if (!x.m || !x.r) return false; x.r = 2; return true;
    case 'k': if (!x.r) return false; x.r = 2; return true;
    case 'a': if (x.m != 1) return false; x.r = 1; return true;
    case 'b': return x.r;
    case 'd': if (!x.r) return false; x.r = 0; return true;
    case 'D': if (!x.m) return false; x.m = 0; return true;
    case 'r': if (!x.r) return false; x.m = 2; return true;
    }
    return false;
}
static void seqs(const char* alpha, std::string pre, Abs x, int min, int max, std::vector<std::string>& out) {
    if (int(pre.size()) >= min) out.push_back(pre);
    if (int(pre.size()) == max) return;
    for (const char* k = alpha; *k; ++k) { Abs y = x; if (apply(y, *k)) seqs(alpha, pre + *k, y, min, max, out); }
}

struct Cfg { const char* name; int nt, min, max; const char* alpha; int dev; bool rt, reent; int sames, shards; };
static const Cfg base_cfgs[] = {
    {"two threads, up to 1 operation each, every kind", 2, 0, 1, "lsSnxXycCfkabdDr", 2, true, false, 2, 1},
#if FAM == 3 && __cplusplus >= 202000L
    {"two threads, up to 2 operations each", 2, 1, 2, "lXcr", 0, false, false, 1, 2},
    {"two threads, 1 operation each, in time", 2, 1, 1, "lsSnxXycCfk", 1, true, false, 2, 1},
    {"destructors use the storage, two threads", 2, 0, 1, "n", 0, false, true, 1, 4},
    {"deep: two threads, up to 2 operations each", 2, 1, 2, "lsXycCkabdr", 0, false, false, 1, 8},
    {"deep: two threads, up to 2 operations each, in time", 2, 1, 2, "lXc", 1, true, false, 1, 4},
    {"deep: three threads, 1 operation each", 3, 1, 1, "lXc", 0, false, false, 1, 8},
    {"deep: destructors use the storage, two threads", 2, 1, 1, "lSXCk", 0, false, true, 1, 8},
#else
    {"two threads, up to 2 operations each", 2, 1, 2, "lSxCkr", 1, false, false, 2, 1},
    {"two threads, up to 2 operations each, other values", 2, 1, 2, "lsckabd", 0, false, false, 1, 1},
    {"two threads, up to 2 operations each, in time", 2, 1, 2, "lSXckr", 0, true, false, 1, 2},
    {"three threads, 1 operation each", 3, 1, 1, "lsXcn", 0, false, false, 1, 2},
    {"destructors use the storage, two threads", 2, 0, 1, "lsSnXycCkdDr", 0, false, true, 1, 2},
    {"deep: two threads, up to 2 operations each, every kind", 2, 1, 2, "lsSnxXycCfkabdDr", 0, false, false, 1, 8},
    {"deep: two threads, up to 2 operations each, in time", 2, 1, 2, "lSxXckyr", 1, true, false, 1, 8},
    {"deep: two threads, 3 operations each", 2, 3, 3, "lxk", 0, false, false, 1, 8},
    {"deep: three threads, up to 2 operations each", 3, 1, 2, "xk", 0, false, false, 1, 8},
    {"deep: three threads, 1 operation each, every kind, in time", 3, 1, 1, "lsSnxXycCfk", 1, true, false, 1, 8},
    {"deep: four threads, 1 operation each", 4, 1, 1, "Xk", 0, false, false, 1, 8},
    {"deep: destructors use the storage, three threads", 3, 1, 1, "nk", 0, false, true, 1, 8},
    {"deep: destructors use the storage, two threads", 2, 0, 2, "lSXkd", 0, false, true, 1, 8},
#endif
};
struct Shard { Cfg c; int i; };
static std::vector<Shard>& shards() {
    static std::vector<Shard> v;
    if (v.empty()) for (auto& c : base_cfgs) for (int i = 0; i < c.shards; ++i) v.push_back({c, i});
    return v;
}
static Cfg cur;

extern "C" {
int h_nconfigs() { return int(shards().size()); }
const char* h_config_name(int c) {
    static std::string s; auto& h = shards()[c];
    s = std::string(FAM_NAME) + " storage: " + h.c.name;
    if (h.c.shards > 1) s += " (" + std::to_string(h.i + 1) + "/" + std::to_string(h.c.shards) + ")";
    return s.c_str();
}
void h_config(int ci) {
    progs.clear();
    const Cfg& c = cur = shards()[ci].c; int count = 0;
    std::vector<TProg> all; // those which begin with object 0 come last
    size_t without = 0;
    for (int r = 0; r < 2; ++r) {
        std::vector<std::string> v; seqs(c.alpha, "", Abs{1, r}, c.min, c.max, v);
        for (auto& x : v) all.push_back({r == 1, x});
        if (!r) without = all.size();
    }
    std::vector<size_t> idx(c.nt, 0);
    for (;;) {
        Prog p{}; p.nt = c.nt;
        size_t total = 0; bool r = false;
        for (int t = 0; t < p.nt; ++t) { p.t[t] = all[idx[t]]; total += p.t[t].ops.size(); r |= p.t[t].r; }
        if (total >= 1) for (int how = r ? 1 : 0; how < (c.reent ? 2 : 3); ++how) for (int re = c.reent ? 1 : 0; re <= (c.reent ? 4 : 0); ++re) for (int same = 0; same < c.sames; ++same) {
            p.how = how; p.reent = re; p.same = same;
            if (int((++count * 2654435761u >> 8) % unsigned(c.shards)) == shards()[ci].i) progs.push_back(p);
        }
        int t = p.nt - 1;
        while (t >= 0 && idx[t] + 1 == all.size()) --t;
        if (t < 0) break;
        size_t v = idx[t] + 1;
        for (; t < p.nt; ++t) idx[t] = v;
    }
    (void)without;
}
int h_nprograms() { return int(progs.size()); }
void h_program_name(int p, char* b, size_t n) {
    static const char* hows[] = {"null stored", "object 0 stored", "object 0 stored, main owns it too"};
    static const char* res[] = {"", ", destructors load", ", destructors store null", ", destructors exchange", ", destructors compare_exchange"};
    std::string s = std::string(hows[progs[p].how]) + res[progs[p].reent] + (progs[p].same ? ", all threads have the same object" : "") + ": ";
    for (int t = 0; t < progs[p].nt; ++t) s += (t ? " | " : "") + std::string(progs[p].t[t].r ? "0:" : "") + progs[p].t[t].ops;
    snprintf(b, n, "%s", s.c_str());
}
void h_program(int p) { P = progs[p]; }
int h_threads() { return P.nt; }
bool h_realtime() { return cur.rt; }
int h_deviations() { return cur.dev; }
bool h_patience() { return cur.dev >= 1 && cur.max == 1; }
static SP make(int i) {
#if FAM == 3
    SP s = i & 1 ? std::make_shared<Obj>(i) : SP(new Obj(i));
    W().ref[i] = s;
#elif FAM == 0
    SP s = i & 1 ? xmem::make_shared<Obj>(i) : SP(new Obj(i));
    owners[i] = s.owner();
#else
    SP s = i & 1 ? SP(CBF::make_resource_cb<Obj>(xmem::allocator<char>{}, i)) : SP(new Obj(i));
    owners[i] = s.owner();
#endif
    objs[i] = s.get();
    return s;
}
void h_init() {
    { co::Out o; for (auto& h : hist) h.clear(); memset(destroyed, 0, sizeof destroyed); memset(held, 0, sizeof held); memset(objs, 0, sizeof objs); memset(owners, 0, sizeof owners); ending = false;
#if FAM == 2
    N.clear();
#endif
    }
    new (&W()) World();
    nobjs = P.same ? 2 : P.nt + 1;
    SP zero = make(0); zero->data = 100;
    if (P.how) new (&W().st) STO(zero); else new (&W().st) STO();
    SP one;
    for (int t = 0; t < P.nt; ++t) {
        if (!P.same) W().t[t].m = make(t + 1);
        else { if (!t) { one = make(1); one->data = 101; } W().t[t].m = one; }
        ++held[P.same ? 1 : t + 1];
        if (P.t[t].r) { W().t[t].r = zero; ++held[0]; }
    }
    if (P.how == 2) { W().hold = zero; ++held[0]; }
    ending = true; zero.reset(); ending = false;
    if (P.how == 0 && destroyed[0] != 1) co::fail("life", "an object without owners is still there");
}
void h_thread(int t) {
    Mine& x = W().t[t];
    if (!P.same) x.m->data = 101 + t; // published by what follows
    for (char k : P.t[t].ops) do_op(x, k);
    do_op(x, 'd'); do_op(x, 'D');
}
void h_final() {
    uint64_t out = 0;
    ending = true;
    { SP x; load(x); g_lose(code(x)); }
    {
        co::Out o;
        std::vector<Rec> h;
        for (auto& v : hist) for (auto& r : v) { h.push_back(r); out = out * 257 + uint64_t(r.res) * 2 + r.ok + 1; }
        if (!lin::linearizable(Model{P.how ? 17 : 0}, h)) {
            std::string s;
            for (auto& r : h) { s += ' '; s += r.k; if (r.k != 'l') s += std::string(" ") + show(r.arg); if (r.k == 'c') s += std::string(" for ") + show(r.exp); if (r.k != 's') s += std::string(r.ok ? " -> " : " -> not, ") + show(r.res); s += ";"; }
            co::fail("lin", "no order of the operations explains the results:%s", s.c_str());
        }
    }
    co::outcome(out);
    if (P.how == 2) {
        SP x = ST().load();
        long n = 1 + (code(x) % 16 == 1 ? 2 : 0);
        if (W().hold.use_count() != n) co::fail("count", "use count %ld with %ld owners left", long(W().hold.use_count()), n);
    }
    SP last = ST().load(); int c = code(last);
    if (c % 16) {
        long n = 2 + (P.how == 2 && c % 16 == 1);
        if (last.use_count() != n) co::fail("count", "use count %ld with %ld owners left", long(last.use_count()), n);
    }
    for (int i = 0; i < nobjs; ++i) {
        bool alive = i + 1 == c % 16 || (i == 0 && P.how == 2);
        if (destroyed[i] != !alive) co::fail("life", "all threads are done: object %d is destroyed %d times, but it has %s", i, destroyed[i], alive ? "owners" : "no owners");
    }
    last.reset();
    if (P.how == 2) { --held[0]; W().hold.reset(); }
    ST().~STO();
    for (int i = 0; i < nobjs; ++i) if (destroyed[i] != 1) co::fail("life", "at the end object %d is destroyed %d times", i, destroyed[i]);
#if FAM == 2
    for (auto& n : N) if (!n.gone) co::fail("notify", "a control block is not destroyed");
#endif
    W().~World();
}
}
