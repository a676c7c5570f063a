// E2 engine, see conc.h.
// Threads are fibers. Every operation on an atomic, mutex or fence is a scheduling point. All interleavings of a
// program are explored up to commutation of independent steps (source-set dynamic partial order reduction with sleep
// sets), with all values a load may return under C++ release/acquire semantics (stores are ordered as executed),
// with spurious failures of weak compare-exchange, and with a vector clock race detector for all other accesses.
#include "conc.h"
#include "statics.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <vector>
#include <string>
#include <set>
#include <map>
#include <unordered_map>
#include <exception>
#include <csetjmp>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <pthread.h>
#include <cerrno>
#include <ctime>
#include <algorithm>

using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
extern "C" char __libc_single_threaded;

namespace {
constexpr int MAXT = co::MAXT, MAIN = MAXT, NT1 = MAXT + 1;
constexpr size_t SLOT = 1024; constexpr int PER = 48; // blocks per thread
constexpr int NB = PER * NT1;
constexpr uintptr_t ARENA_END = co::ARENA_ADDR + SLOT * NB;

volatile bool in_world = false;
struct Guard { bool old; Guard() : old(in_world) { in_world = false; } ~Guard() { in_world = old; } };
int cur = MAIN;     // running thread
bool concurrent = false; // threads are running
bool verbose = false;
sigjmp_buf* jmp;
char fail_cat[64], fail_msg[1024];
std::set<u64>* outcomes;
u64 acc_count, acc_limit = 20000000;

[[noreturn]] void die(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "engine error: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n");
    _exit(2);
}
[[noreturn]] void vfail(const char* cat, const char* fmt, va_list ap) {
    in_world = false;
    snprintf(fail_cat, sizeof fail_cat, "%s", cat);
    vsnprintf(fail_msg, sizeof fail_msg, fmt, ap);
    if (!jmp) die("failure outside of an execution: %s: %s", fail_cat, fail_msg);
    siglongjmp(*jmp, 1);
}

struct Clk {
    u32 c[NT1] = {};
    void join(const Clk& o) { for (int i = 0; i < NT1; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

// --- memory -------------------------------------------------------------------------------------
enum : u8 { UNUSED, LIVE, FREED };
enum : u8 { K_ARR = 1, K_ALIGNED = 2 };
struct Blk { u8 state, kind; u32 size, align, off; };
Blk blk[NB]; int used[NT1];
inline uintptr_t slot_base(int i) { return co::ARENA_ADDR + uintptr_t(i) * SLOT; }
inline char* bptr(int i) { return (char*)(slot_base(i) + blk[i].off); }
inline int find(uintptr_t a) { return a < co::ARENA_ADDR || a >= ARENA_END ? -1 : int((a - co::ARENA_ADDR) / SLOT); }

// shadow of one byte: last plain write and last plain reads
struct Cell { u32 exec; u8 wtid; u8 atomic; u32 wclk; u32 rclk[NT1]; };
Cell* shadow; u32 exec_id = 0;
constexpr size_t NCELLS = co::ROOT_SIZE + SLOT * NB;
// static variables of the library
uintptr_t st_lo, st_len; std::string st_image;
bool is_static(uintptr_t a) { for (auto& r : st::ranges()) if (!r.tls && a >= r.lo && a < r.hi) return true; return false; }
inline bool in_statics(uintptr_t a) { return __builtin_expect(a - st_lo < st_len, 0) && is_static(a); }
inline Cell* cell(uintptr_t a) {
    size_t i;
    if (a - co::ROOT_ADDR < co::ROOT_SIZE) i = a - co::ROOT_ADDR;
    else if (a - co::ARENA_ADDR < SLOT * NB) i = co::ROOT_SIZE + (a - co::ARENA_ADDR);
    else if (a - st_lo < st_len) i = NCELLS + (a - st_lo);
    else return nullptr;
    Cell* c = shadow + i;
    if (c->exec != exec_id) { memset(c, 0, sizeof *c); c->exec = exec_id; c->wtid = MAIN; }
    return c;
}

struct Store { u64 val; Clk rel; int tid; u32 epoch; };
struct Seen { int tid; u32 epoch; int idx; };
struct Loc {
    uintptr_t addr; int size;
    std::vector<Store> st;       // modification order (this is the order of execution)
    std::vector<Seen> seen;
    u32 aw[NT1], ar[NT1];        // epochs of the last atomic write and read of each thread
    u32 version;                 // changes whenever the value does (or something is released)
    // for the reduction
    int wev; int rev[NT1];       // last write; last reads since then
    Clk dw, dr;
    int lockev[NT1];
    // mutex
    int owner; Clk mclk;
    void reset(uintptr_t a) {
        addr = a; size = 0; st.clear(); seen.clear(); memset(aw, 0, sizeof aw); memset(ar, 0, sizeof ar); version = 0;
        wev = -1; for (auto& r : rev) r = -1; for (auto& r : lockev) r = -1; dw = dr = Clk(); owner = -1; mclk = Clk();
    }
};
std::vector<Loc*> locs; size_t nlocs;
constexpr u32 LH = 1024; struct LEnt { u32 exec; uintptr_t a; Loc* l; } lhash[LH];
Loc* find_loc(uintptr_t a, bool make) {
    u32 h = u32((a * 0x9E3779B97F4A7C15ull) >> 50) & (LH - 1);
    for (u32 k = 0; k < LH; ++k, h = (h + 1) & (LH - 1)) {
        if (lhash[h].exec != exec_id) {
            if (!make) return nullptr;
            if (nlocs == locs.size()) locs.push_back(new Loc);
            Loc* l = locs[nlocs++]; l->reset(a);
            lhash[h] = {exec_id, a, l};
            return l;
        }
        if (lhash[h].a == a) return lhash[h].l;
    }
    die("too many atomics");
}

// --- threads ------------------------------------------------------------------------------------
enum Kind : u8 { K_NONE, K_LOAD, K_STORE, K_RMW, K_CAS, K_CASW, K_FENCE, K_LOCK, K_UNLOCK, K_YIELD, K_BEGIN, K_END, K_START };
const char* kind_name[] = {"none", "load", "store", "read-modify-write", "compare_exchange", "compare_exchange_weak", "fence", "lock", "unlock", "yield", "begin", "end", "start"};
struct Pending { Kind k; uintptr_t a; u64 ctx; };
struct StreakE { u64 ctx; Loc* l; u32 version; };
struct Thread {
    void* sp; char* stack; bool done;
    Pending pend;
    Clk clk, acq, rel; // happens-before clock, what relaxed loads may still acquire, what relaxed stores release
    Clk ev;            // clock of the reduction
    std::vector<StreakE> streak; // steps without effect since the last step with one
    bool blocked; std::vector<StreakE> wait; int enabled_by; // spinning: nothing changes until one of these does
    u64 stackhash[64]; int depth;
    std::vector<char> tls; // thread-local variables of the library
} T[NT1];
int NT;
void* sched_sp;
Clk sc_clk;
extern "C" void co_switch(void** from, void* to);
asm(R"(
.globl co_switch
co_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");
constexpr size_t STACK = 256 * 1024;

// chosen by the scheduler for the step about to be executed
int want_variant, n_variants;
bool step_silent;      // the step changed nothing others can see
bool step_write;       // the step counts as a write for the reduction
Loc* step_loc; bool step_stale;
u64 step_from, step_to; const char* step_order; bool step_ok;

void to_sched() {
    bool w = in_world; in_world = false;
    int me = cur;
    co_switch(&T[me].sp, sched_sp);
    cur = me; in_world = w;
}
void sched_point(Kind k, uintptr_t a, u64 pc, u64 arg = 0) {
    if (!concurrent) return;
    Thread& t = T[cur];
    u64 h = t.depth ? t.stackhash[(t.depth < 64 ? t.depth : 64) - 1] : 0;
    t.pend = {k, a, h * 31 + pc + arg * 0xff51afd7ed558ccdull};
    to_sched();
}
void fiber_main() {
    int me = cur;
    in_world = true;
    h_thread(me);
    in_world = false;
    T[me].done = true;
    T[me].pend = {K_NONE, 0, 0};
    co_switch(&T[me].sp, sched_sp);
    die("a finished thread was resumed");
}

// --- accesses -----------------------------------------------------------------------------------
std::string where(uintptr_t a) {
    char b[100];
    if (a - co::ROOT_ADDR < co::ROOT_SIZE) snprintf(b, sizeof b, "root+%lu", a - co::ROOT_ADDR);
    else if (int i = find(a); i >= 0) snprintf(b, sizeof b, "block %d.%d+%ld", i / PER, i % PER, long(a - slot_base(i)) - long(blk[i].off));
    else if (in_statics(a)) snprintf(b, sizeof b, "static+%lu", a - st_lo);
    else snprintf(b, sizeof b, "%p", (void*)a);
    return b;
}
[[gnu::noinline, noreturn]] void race(uintptr_t a, const char* what, int with, const char* what2) {
    co::fail("race", "data race: %s of thread %d and %s of thread %d at %s are not ordered", what, cur, what2, with, where(a).c_str());
}
void check_live(uintptr_t a, size_t n, bool w) {
    int i = find(a);
    if (i < 0) return;
    Blk& b = blk[i];
    uintptr_t o = a - slot_base(i);
    const char* what = w ? "write to" : "read of";
    if (b.state == FREED) co::fail("mem", "%s freed memory: %s", what, where(a).c_str());
    if (b.state == UNUSED) co::fail("mem", "%s unallocated memory", what);
    if (o < b.off || o + n > b.off + b.size) co::fail("mem", "%s memory out of bounds: %s", what, where(a).c_str());
}
inline void check_byte(uintptr_t a, Cell* c, bool w) {
    const Clk& k = T[cur].clk;
    if (c->wclk > k.c[c->wtid]) race(a, w ? "write" : "read", c->wtid, "write");
    if (w) for (int t = 0; t < NT1; ++t) if (c->rclk[t] > k.c[t]) race(a, "write", t, "read");
    if (c->atomic) {
        if (Loc* l = find_loc(a, false)) {
            for (int t = 0; t < NT1; ++t) {
                if (l->aw[t] > k.c[t]) race(a, w ? "write" : "read", t, "atomic write");
                if (w && l->ar[t] > k.c[t]) race(a, "write", t, "atomic read");
            }
        }
    }
}
inline void acc(uintptr_t a, size_t n, bool w) {
    if (__builtin_expect(!in_world, 0)) return;
    if (++acc_count > acc_limit) co::fail("hang", "the execution does not end");
    if (!(a - co::ROOT_ADDR < co::ROOT_SIZE) && !(a - co::ARENA_ADDR < SLOT * NB) && !in_statics(a)) return;
    Guard g;
    check_live(a, n, w);
    u32 me = T[cur].clk.c[cur];
    for (size_t i = 0; i < n; ++i) {
        Cell* c = cell(a + i);
        check_byte(a + i, c, w);
        if (w) {
            c->wtid = u8(cur); c->wclk = me;
            if (c->atomic) { // the atomic is constructed anew
                if (Loc* l = find_loc(a + i, false)) { l->st.clear(); l->seen.clear(); }
            }
        }
        else c->rclk[cur] = me;
    }
}
void acc_atomic(Loc* l, uintptr_t a, size_t n, bool w) {
    if (++acc_count > acc_limit) co::fail("hang", "the execution does not end");
    const Clk& k = T[cur].clk;
    if ((a - co::ROOT_ADDR < co::ROOT_SIZE) || (a - co::ARENA_ADDR < SLOT * NB) || in_statics(a)) {
        check_live(a, n, w);
        for (size_t i = 0; i < n; ++i) {
            Cell* c = cell(a + i);
            c->atomic = 1;
            if (c->wclk > k.c[c->wtid]) race(a + i, w ? "atomic write" : "atomic read", c->wtid, "write");
            if (w) for (int t = 0; t < NT1; ++t) if (c->rclk[t] > k.c[t]) race(a + i, "atomic write", t, "read");
        }
    }
    if (w) l->aw[cur] = k.c[cur]; else l->ar[cur] = k.c[cur];
}

// --- C++ memory model ---------------------------------------------------------------------------
u64 load_mem(uintptr_t a, int n) { u64 v = 0; memcpy(&v, (void*)a, n); return v; }
void store_mem(uintptr_t a, int n, u64 v) { memcpy((void*)a, &v, n); }
bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
const char* mo_name(int mo) { static const char* n[] = {"relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst"}; return mo >= 0 && mo < 6 ? n[mo] : "?"; }

Loc* touch(uintptr_t a, int n) {
    Loc* l = find_loc(a, true);
    l->size = n;
    if (l->st.empty()) { Store s{load_mem(a, n), Clk(), MAIN, 0}; l->st.push_back(s); }
    u64 now = load_mem(a, n);
    if (l->st.back().val != now) { // changed by other means (e.g. accessed with another size)
        Store s = l->st.back(); s.val = now; l->st.push_back(s);
    }
    return l;
}
void see(Loc* l, int idx) {
    Thread& t = T[cur];
    for (auto& s : l->seen) if (s.tid == cur) { if (s.idx == idx) return; }
    if (l->seen.size() > 200) return;
    l->seen.push_back({cur, t.clk.c[cur], idx});
}
int floor_of(Loc* l) {
    const Clk& k = T[cur].clk;
    int f = 0;
    for (int i = int(l->st.size()) - 1; i > 0; --i) if (l->st[i].epoch <= k.c[l->st[i].tid]) { f = i; break; }
    for (auto& s : l->seen) if (s.epoch <= k.c[s.tid] && s.idx > f) f = s.idx;
    return f;
}
void acquire_from(const Store& s, int mo) {
    Thread& t = T[cur];
    if (is_acq(mo)) t.clk.join(s.rel); else t.acq.join(s.rel);
}
void tick() { ++T[cur].clk.c[cur]; }
// the end of the operation of a scheduling point (what follows in the step are accesses which are not scheduling points)
void stepped() {
    tick();
    Thread& t = T[cur];
    if (!concurrent) return;
    if (!step_silent) t.streak.clear();
    else t.streak.push_back({t.pend.ctx, step_loc, step_loc ? step_loc->version - step_stale : 0});
}

// deviations: stale values returned by loads and spurious failures of weak compare-exchange
int dev_used, max_dev = 1, arg_dev = -1; u64 n_dev;
bool force_spurious; // weak compare-exchange keeps failing


u64 atomic_load(uintptr_t a, int n, int mo, u64 pc) {
    if (!in_world) return load_mem(a, n);
    sched_point(K_LOAD, a, pc);
    Guard g;
    Loc* l = touch(a, n);
    acc_atomic(l, a, n, false);
    int last = int(l->st.size()) - 1, idx = last;
    n_variants = 1;
    Thread& t = T[cur];
    if (concurrent && mo != __ATOMIC_SEQ_CST && dev_used < max_dev) {
        bool again = false;
        for (auto& e : t.streak) if (e.ctx == t.pend.ctx && e.l == l) again = true;
        int f = floor_of(l);
        if (!again) { n_variants = last - f + 1; idx = last - want_variant; if (idx < f) die("replay: variant does not exist"); }
    }
    step_stale = idx != last; if (step_stale) { ++dev_used; ++n_dev; }
    see(l, idx);
    acquire_from(l->st[idx], mo);
    if (mo == __ATOMIC_SEQ_CST) { t.clk.join(sc_clk); }
    step_loc = l; step_silent = true; step_write = false; step_from = step_to = l->st[idx].val; step_order = mo_name(mo);
    stepped();
    return l->st[idx].val;
}
void push_store(Loc* l, uintptr_t a, int n, u64 v, int mo, bool rmw) {
    Thread& t = T[cur];
    Store s{v, Clk(), cur, t.clk.c[cur]};
    if (rmw) s.rel = l->st.back().rel;
    if (is_rel(mo)) s.rel.join(t.clk); else s.rel.join(t.rel);
    if (mo == __ATOMIC_SEQ_CST) sc_clk.join(t.clk);
    l->st.push_back(s);
    store_mem(a, n, v);
    ++l->version;
    see(l, int(l->st.size()) - 1);
}
void atomic_store(uintptr_t a, int n, u64 v, int mo, u64 pc) {
    if (!in_world) { store_mem(a, n, v); return; }
    sched_point(K_STORE, a, pc);
    Guard g;
    Loc* l = touch(a, n);
    acc_atomic(l, a, n, true);
    n_variants = 1;
    step_from = l->st.back().val; step_to = v;
    push_store(l, a, n, v, mo, false);
    step_loc = l; step_silent = false; step_write = true; step_order = mo_name(mo);
    stepped();
}
template <typename F> u64 atomic_rmw(uintptr_t a, int n, int mo, u64 pc, F f) {
    u64 mask = n == 8 ? ~0ull : (1ull << (8 * n)) - 1;
    if (!in_world) { u64 o = load_mem(a, n); store_mem(a, n, f(o) & mask); return o; }
    sched_point(K_RMW, a, pc);
    Guard g;
    Loc* l = touch(a, n);
    acc_atomic(l, a, n, true);
    n_variants = 1;
    u64 o = l->st.back().val, v = f(o) & mask;
    acquire_from(l->st.back(), mo);
    if (mo == __ATOMIC_SEQ_CST) T[cur].clk.join(sc_clk);
    bool silent = v == o && !is_rel(mo);
    if (!silent) push_store(l, a, n, v, mo, true); else see(l, int(l->st.size()) - 1);
    step_loc = l; step_silent = silent; step_write = !silent; step_from = o; step_to = v; step_order = mo_name(mo);
    stepped();
    return o;
}
bool atomic_cas(uintptr_t a, int n, u64& e, u64 v, int mo, int fmo, bool weak, u64 pc) {
    u64 mask = n == 8 ? ~0ull : (1ull << (8 * n)) - 1;
    v &= mask; e &= mask;
    if (!in_world) { u64 o = load_mem(a, n); if (o == e) { store_mem(a, n, v); return true; } e = o; return false; }
    sched_point(weak ? K_CASW : K_CAS, a, pc, e + 1);
    Guard g;
    Loc* l = touch(a, n);
    Thread& t = T[cur];
    u64 o = l->st.back().val;
    bool ok = o == e;
    n_variants = 1;
    bool spurious = false;
    if (ok && weak && concurrent && force_spurious) { spurious = true; ok = false; }
    else if (ok && weak && concurrent && dev_used < max_dev) {
        n_variants = 2; spurious = want_variant == 1;
        if (spurious) { ok = false; ++dev_used; ++n_dev; }
    }
    acc_atomic(l, a, n, ok);
    acquire_from(l->st.back(), ok ? mo : fmo);
    if (ok) { if (mo == __ATOMIC_SEQ_CST) t.clk.join(sc_clk); push_store(l, a, n, v, mo, true); }
    else see(l, int(l->st.size()) - 1);
    step_loc = l; step_silent = !ok && !spurious; step_write = ok; step_from = o; step_to = ok ? v : o; step_order = mo_name(ok ? mo : fmo);
    e = o; step_ok = ok;
    stepped();
    return ok;
}
void fence(int mo, u64 pc) {
    if (!in_world) return;
    sched_point(K_FENCE, mo == __ATOMIC_SEQ_CST ? 8 : 0, pc);
    Guard g;
    Thread& t = T[cur];
    n_variants = 1;
    if (is_acq(mo)) t.clk.join(t.acq);
    if (mo == __ATOMIC_SEQ_CST) { t.clk.join(sc_clk); sc_clk.join(t.clk); }
    if (is_rel(mo)) t.rel = t.clk;
    step_loc = mo == __ATOMIC_SEQ_CST ? find_loc(8, true) : nullptr; step_silent = true; step_write = mo == __ATOMIC_SEQ_CST; step_order = mo_name(mo); step_from = step_to = 0;
    stepped();
}
void annotate_acquire(uintptr_t a) { if (!in_world) return; Guard g; T[cur].clk.join(find_loc(a ^ 0x5000000000000000ull, true)->mclk); }
void annotate_release(uintptr_t a) { if (!in_world) return; Guard g; find_loc(a ^ 0x5000000000000000ull, true)->mclk.join(T[cur].clk); tick(); }

int mutex_lock(uintptr_t a, bool try_, u64 pc) {
    if (!in_world) return 0;
    sched_point(try_ ? K_RMW : K_LOCK, a, pc);
    Guard g;
    Loc* l = find_loc(a, true);
    n_variants = 1;
    step_loc = l; step_write = true; step_silent = false; step_from = step_to = 0; step_order = "";
    if (l->owner >= 0) {
        if (try_) { step_silent = true; step_write = false; stepped(); return EBUSY; }
        if (!concurrent || l->owner == cur) co::fail("hang", "deadlock: a mutex is locked by the thread which waits for it");
        die("a locked mutex was scheduled");
    }
    l->owner = cur; ++l->version;
    T[cur].clk.join(l->mclk);
    stepped();
    return 0;
}
int mutex_unlock(uintptr_t a, u64 pc) {
    if (!in_world) return 0;
    sched_point(K_UNLOCK, a, pc);
    Guard g;
    Loc* l = find_loc(a, true);
    n_variants = 1;
    l->owner = -1; ++l->version;
    l->mclk.join(T[cur].clk);
    step_loc = l; step_write = true; step_silent = false; step_from = step_to = 0; step_order = "";
    stepped();
    return 0;
}
void yield(u64 pc) {
    if (!in_world || !concurrent) return;
    sched_point(K_YIELD, 0, pc);
    Guard g;
    n_variants = 1; step_loc = nullptr; step_silent = true; step_write = false; step_from = step_to = 0; step_order = "";
    stepped();
}

// --- operations of the history -------------------------------------------------------------------
struct Op { int tid; u32 begin_c; Clk begin, end; u32 end_c; u64 tb, te; bool ended; const char* name; };
std::vector<Op> ops; u64 now_step;
} // namespace

namespace co {
void fail(const char* cat, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(cat, fmt, ap); }
int self() { return cur; }
bool pause(bool on) { bool was = !in_world; in_world = !on; return was; }
void note(const char* fmt, ...) {
    if (!verbose) return;
    Guard g;
    va_list ap; va_start(ap, fmt); printf("        [%s%d] ", cur == MAIN ? "main" : "thread ", cur == MAIN ? 0 : cur); vprintf(fmt, ap); printf("\n"); va_end(ap);
}
void outcome(u64 v) { Guard g; if (outcomes->size() < 100000) outcomes->insert(v); }
// what a read of an uninitialised variable of the operation finds does not depend on what was done before
[[gnu::noinline]] static void scrub() { char b[2048]; memset(b, 0xA5, sizeof b); asm volatile("" : : "r"(b) : "memory"); }
int op_begin(const char* name) {
    scrub();
    Guard g;
    T[cur].streak.clear();
    if (concurrent && h_realtime()) {
        in_world = true; sched_point(K_BEGIN, 16, 1); in_world = false;
        n_variants = 1; step_loc = find_loc(16, true); step_silent = true; step_write = false; step_order = ""; step_from = step_to = 0;
        T[cur].streak.clear();
    }
    if (name && verbose) note("begins %s", name);
    Op o{}; o.tid = cur; o.begin = T[cur].clk; o.begin_c = T[cur].clk.c[cur]; o.tb = now_step; o.name = name;
    tick();
    ops.push_back(o);
    return int(ops.size()) - 1;
}
void op_end(int i) {
    Guard g;
    if (concurrent && h_realtime()) {
        in_world = true; sched_point(K_END, 16, 1); in_world = false;
        n_variants = 1; step_loc = find_loc(16, true); step_silent = true; step_write = false; step_order = ""; step_from = step_to = 0;
    }
    T[cur].streak.clear();
    Op& o = ops[i];
    o.end = T[cur].clk; o.end_c = T[cur].clk.c[cur] - 1; // the epoch of its last step
    o.te = now_step; o.ended = true;
    tick();
    if (o.name && verbose) note("ends %s", o.name);
}
bool op_before(int a, int b) {
    const Op &x = ops[a], &y = ops[b];
    if (!x.ended) return false;
    if (x.tid == y.tid) return a < b;
    if (x.end_c <= y.begin.c[x.tid]) return true;
    return h_realtime() && x.te < y.tb;
}
static int live_index(const void* p) {
    int i = find((uintptr_t)p);
    if (i < 0 || blk[i].state != LIVE) return -1;
    uintptr_t o = (uintptr_t)p - slot_base(i);
    return o < blk[i].off || o > blk[i].off + blk[i].size ? -1 : i;
}
bool is_live(const void* p) { return live_index(p) >= 0; }
int live_blocks() { int n = 0; for (int t = 0; t < NT1; ++t) for (int i = t * PER; i < t * PER + used[t]; ++i) n += blk[i].state == LIVE; return n; }
}

// --- operator new and delete ------------------------------------------------------------------
static void* do_new(size_t n, size_t al, u8 kind) {
    if (!in_world) {
        void* p = (kind & K_ALIGNED) ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
        if (!p) die("out of memory");
        return p;
    }
    if (used[cur] == PER) die("arena full");
    int i = cur * PER + used[cur]++;
    size_t off = al; while (off < 32) off += 2 * al;
    if (off + n + 16 > SLOT) die("block of %zu bytes does not fit", n);
    blk[i] = Blk{LIVE, kind, u32(n), u32(al), u32(off)};
    memset(bptr(i), 0xA5, n);
    return bptr(i);
}
static void do_delete(void* p, size_t al, u8 kind, size_t n, bool sized) {
    if (!p) return;
    int i = find((uintptr_t)p);
    if (!in_world) { if (i < 0) free(p); return; }
    if (i < 0) co::fail("mem", "delete of %p, which was never allocated", p);
    Blk& b = blk[i];
    if (b.state == FREED) co::fail("mem", "double free of %s", where((uintptr_t)p).c_str());
    if (b.state == UNUSED || p != bptr(i)) co::fail("mem", "delete of a wild pointer");
    if ((b.kind & K_ARR) != (kind & K_ARR)) co::fail("form", "new and delete[] mixed");
    if ((b.kind & K_ALIGNED) != (kind & K_ALIGNED) || ((kind & K_ALIGNED) && al != b.align)) co::fail("form", "freed with another alignment");
    if (sized && n != b.size) co::fail("form", "freed with another size");
    Guard g;
    uintptr_t a = (uintptr_t)p;
    u32 me = T[cur].clk.c[cur];
    for (size_t k = 0; k < b.size; ++k) { Cell* c = cell(a + k); check_byte(a + k, c, true); c->wtid = u8(cur); c->wclk = me; }
    b.state = FREED;
}
constexpr size_t DEF = 16;
void* operator new(size_t n) { return do_new(n, DEF, 0); }
void* operator new[](size_t n) { return do_new(n, DEF, K_ARR); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, DEF, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, DEF, K_ARR); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, size_t(a), K_ALIGNED); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, size_t(a), K_ALIGNED | K_ARR); }
void operator delete(void* p) noexcept { do_delete(p, 0, 0, 0, false); }
void operator delete[](void* p) noexcept { do_delete(p, 0, K_ARR, 0, false); }
void operator delete(void* p, size_t n) noexcept { do_delete(p, 0, 0, n, true); }
void operator delete[](void* p, size_t n) noexcept { do_delete(p, 0, K_ARR, n, true); }
void operator delete(void* p, std::align_val_t a) noexcept { do_delete(p, size_t(a), K_ALIGNED, 0, false); }
void operator delete[](void* p, std::align_val_t a) noexcept { do_delete(p, size_t(a), K_ALIGNED | K_ARR, 0, false); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { do_delete(p, size_t(a), K_ALIGNED, n, true); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { do_delete(p, size_t(a), K_ALIGNED | K_ARR, n, true); }

// --- the ABI of -fsanitize=thread ---------------------------------------------------------------
#define RW(N) \
    extern "C" void __tsan_read##N(void* p) { acc((uintptr_t)p, N, false); } \
    extern "C" void __tsan_write##N(void* p) { acc((uintptr_t)p, N, true); } \
    extern "C" void __tsan_unaligned_read##N(void* p) { acc((uintptr_t)p, N, false); } \
    extern "C" void __tsan_unaligned_write##N(void* p) { acc((uintptr_t)p, N, true); } \
    extern "C" void __tsan_volatile_read##N(void* p) { acc((uintptr_t)p, N, false); } \
    extern "C" void __tsan_volatile_write##N(void* p) { acc((uintptr_t)p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define PC ((u64)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
    if (!in_world) return;
    Thread& t = T[cur];
    if (t.depth < 64) t.stackhash[t.depth] = ((t.depth ? t.stackhash[t.depth - 1] : 0) ^ (u64)pc) * 0x9E3779B97F4A7C15ull;
    ++t.depth;
}
void __tsan_func_exit() { if (!in_world) return; if (T[cur].depth) --T[cur].depth; }
void __tsan_read_range(void* p, size_t n) { acc((uintptr_t)p, n, false); }
void __tsan_write_range(void* p, size_t n) { acc((uintptr_t)p, n, true); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) acc((uintptr_t)p, 8, true); else acc((uintptr_t)p, 8, false); }
void __tsan_vptr_read(void** p) { acc((uintptr_t)p, 8, false); }
void __tsan_atomic_thread_fence(int mo) { fence(mo, PC); }
void __tsan_atomic_signal_fence(int) {}
// annotations of libstdc++ (its atomic<shared_ptr> tells that its lock bit is a mutex)
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void* m, unsigned flags, int) { if (!(flags & (1u << 5))) annotate_acquire((uintptr_t)m); }
int __tsan_mutex_pre_unlock(void* m, unsigned) { annotate_release((uintptr_t)m); return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { acc((uintptr_t)d, n, true); acc((uintptr_t)s, n, false); return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { acc((uintptr_t)d, n, true); return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { acc((uintptr_t)d, n, true); acc((uintptr_t)s, n, false); return memmove(d, s, n); }
int pthread_mutex_lock(pthread_mutex_t* m) { return mutex_lock((uintptr_t)m, false, PC); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return mutex_lock((uintptr_t)m, true, PC); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return mutex_unlock((uintptr_t)m, PC); }
int sched_yield() { yield(PC); return 0; }
int nanosleep(const timespec*, timespec*) { yield(PC); return 0; }
int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { yield(PC); return 0; }
int usleep(useconds_t) { yield(PC); return 0; }
}
// initialisation of static variables in functions
extern "C" int __cxa_guard_acquire(long long* g) {
    if (!in_world) return !*(char*)g;
    mutex_lock((uintptr_t)g ^ 0x3000000000000000ull, false, PC);
    if (!atomic_load((uintptr_t)g, 1, __ATOMIC_SEQ_CST, PC)) return 1;
    mutex_unlock((uintptr_t)g ^ 0x3000000000000000ull, PC);
    return 0;
}
extern "C" void __cxa_guard_release(long long* g) {
    if (!in_world) { *(char*)g = 1; return; }
    atomic_store((uintptr_t)g, 1, 1, __ATOMIC_RELEASE, PC);
    mutex_unlock((uintptr_t)g ^ 0x3000000000000000ull, PC);
}
extern "C" void __cxa_guard_abort(long long* g) { if (in_world) mutex_unlock((uintptr_t)g ^ 0x3000000000000000ull, PC); }
#define ATOMIC(B, T_) \
    extern "C" T_ __tsan_atomic##B##_load(const volatile T_* p, int mo) { return T_(atomic_load((uintptr_t)p, sizeof(T_), mo, PC)); } \
    extern "C" void __tsan_atomic##B##_store(volatile T_* p, T_ v, int mo) { atomic_store((uintptr_t)p, sizeof(T_), v, mo, PC); } \
    extern "C" T_ __tsan_atomic##B##_exchange(volatile T_* p, T_ v, int mo) { return T_(atomic_rmw((uintptr_t)p, sizeof(T_), mo, PC, [=](u64) -> u64 { return v; })); } \
    extern "C" T_ __tsan_atomic##B##_fetch_add(volatile T_* p, T_ v, int mo) { return T_(atomic_rmw((uintptr_t)p, sizeof(T_), mo, PC, [=](u64 o) { return o + v; })); } \
    extern "C" T_ __tsan_atomic##B##_fetch_sub(volatile T_* p, T_ v, int mo) { return T_(atomic_rmw((uintptr_t)p, sizeof(T_), mo, PC, [=](u64 o) { return o - v; })); } \
    extern "C" T_ __tsan_atomic##B##_fetch_and(volatile T_* p, T_ v, int mo) { return T_(atomic_rmw((uintptr_t)p, sizeof(T_), mo, PC, [=](u64 o) { return o & v; })); } \
    extern "C" T_ __tsan_atomic##B##_fetch_or(volatile T_* p, T_ v, int mo) { return T_(atomic_rmw((uintptr_t)p, sizeof(T_), mo, PC, [=](u64 o) { return o | v; })); } \
    extern "C" T_ __tsan_atomic##B##_fetch_xor(volatile T_* p, T_ v, int mo) { return T_(atomic_rmw((uintptr_t)p, sizeof(T_), mo, PC, [=](u64 o) { return o ^ v; })); } \
    extern "C" T_ __tsan_atomic##B##_fetch_nand(volatile T_* p, T_ v, int mo) { return T_(atomic_rmw((uintptr_t)p, sizeof(T_), mo, PC, [=](u64 o) { return ~(o & v); })); } \
    extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile T_* p, T_* e, T_ v, int mo, int f) { \
        u64 x = *e; bool ok = atomic_cas((uintptr_t)p, sizeof(T_), x, v, mo, f, false, PC); if (!ok) *e = T_(x); return ok; } \
    extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile T_* p, T_* e, T_ v, int mo, int f) { \
        u64 x = *e; bool ok = atomic_cas((uintptr_t)p, sizeof(T_), x, v, mo, f, true, PC); if (!ok) *e = T_(x); return ok; } \
    extern "C" T_ __tsan_atomic##B##_compare_exchange_val(volatile T_* p, T_ e, T_ v, int mo, int f) { \
        u64 x = e; atomic_cas((uintptr_t)p, sizeof(T_), x, v, mo, f, false, PC); return T_(x); }
ATOMIC(8, u8) ATOMIC(16, u16) ATOMIC(32, u32) ATOMIC(64, u64)

// --- exploration --------------------------------------------------------------------------------
namespace {
struct Event { int tid; u32 local; Clk clk; Loc* loc; bool write; Kind k; };
struct Node {
    u8 enabled, backtrack, done, sleep; // sets of threads
    int tid, variant, nvariants;
    bool patient; // the step leaves the thread spinning: as a deviation, it may go on doing so
    Pending pend[MAXT];
    int preempt; // preemptions before this node
};
std::vector<Node> stack_;
std::vector<Event> evs;
int bound = -1; // -1: partial order reduction
u64 n_exec, n_complete, n_blocked, n_steps, n_nodes, n_freerun, n_patient, n_left;
constexpr int PATIENT = 63;
bool patience;
size_t max_depth;
u64 step_limit = 3000;
const int patience_steps = 2500;

bool is_write_kind(Kind k) { return k == K_STORE || k == K_RMW || k == K_CAS || k == K_CASW || k == K_LOCK || k == K_UNLOCK; }
// may the pending step of a sleeping thread not commute with the step just executed?
bool dependent(const Pending& p, Kind k, uintptr_t a, bool wrote) {
    if (p.k == K_BEGIN || p.k == K_END) return (p.k == K_BEGIN && k == K_END) || (p.k == K_END && k == K_BEGIN);
    if (k == K_BEGIN || k == K_END) return false;
    if (!p.a || !a || p.a != a) return false;
    return wrote || is_write_kind(p.k) || p.k == K_FENCE;
}
bool thread_enabled(int t) {
    Thread& x = T[t];
    if (x.done) return false;
    if (x.pend.k == K_LOCK) { Loc* l = find_loc(x.pend.a, true); return l->owner < 0; }
    if (x.blocked) {
        for (auto& e : x.wait) if (e.l && e.l->version != e.version) return true;
        return false;
    }
    return true;
}
// does the thread only repeat what it already found?
void detect_spin(int t) {
    Thread& x = T[t];
    x.blocked = false; x.wait.clear();
    for (size_t i = x.streak.size(); i-- > 0;) {
        if (x.streak[i].ctx != x.pend.ctx) continue;
        for (size_t j = i; j < x.streak.size(); ++j) if (x.streak[j].l && x.streak[j].l->version != x.streak[j].version) return;
        x.blocked = true; x.wait.assign(x.streak.begin() + i, x.streak.end());
        return;
    }
}
std::string pend_str(const Pending& p) { return std::string(kind_name[p.k]) + (p.a > 64 ? " " + where(p.a) : ""); }

void copy_tls(char* to, const char* from) {
    for (auto& r : st::ranges()) if (r.tls) { size_t n = r.hi - r.lo; memcpy(to ? to : (char*)r.lo, from ? from : (const char*)r.lo, n); if (to) to += n; if (from) from += n; }
}
void use_tls(int from, int to) {
    if (T[MAIN].tls.empty()) return;
    copy_tls(T[from].tls.data(), nullptr); copy_tls(nullptr, T[to].tls.data());
}
void run_step(int t) {
    cur = t;
    use_tls(MAIN, t);
    co_switch(&sched_sp, T[t].sp);
    // back: the thread is at its next scheduling point or done
    use_tls(t, MAIN);
    cur = MAIN;
}

void add_backtrack(int i, int n) { // race between events i and n
    Event &e = evs[i];
    Node& nd = stack_[i];
    u8 init = 0; u8 seen_t = 0;
    static std::vector<int> v; v.clear();
    for (int j = i + 1; j <= n; ++j) {
        Event& f = evs[j];
        if (j != n && f.clk.c[e.tid] >= e.local) continue; // after e
        bool first = !(seen_t & (1 << f.tid)), pred = false;
        if (first) for (int k : v) if (f.clk.c[evs[k].tid] >= evs[k].local) { pred = true; break; }
        if (first && !pred) init |= 1 << f.tid;
        seen_t |= 1 << f.tid;
        v.push_back(j);
    }
    init &= nd.enabled;
    if (!init) { nd.backtrack |= nd.enabled; return; }
    if (nd.backtrack & init) return;
    int p = evs[n].tid;
    if (init & (1 << p)) nd.backtrack |= 1 << p;
    else nd.backtrack |= init & -init;
}

enum Result { EX_OK, EX_FAIL, EX_BLOCKED };

void new_execution() {
    ++exec_id;
    if (exec_id == 0) die("too many executions");
    nlocs = 0;
    for (int t = 0; t < NT1; ++t) { for (int i = 0; i < used[t]; ++i) blk[t * PER + i] = Blk{}; used[t] = 0; }
    memset((void*)co::ROOT_ADDR, 0, co::ROOT_SIZE);
    if (!st_image.empty()) {
        st::restore(st_image.data());
        size_t n = 0; for (auto& r : st::ranges()) if (r.tls) n += r.hi - r.lo;
        for (auto& x : T) { x.tls.resize(n); copy_tls(x.tls.data(), nullptr); }
    }
    for (int t = 0; t < NT1; ++t) {
        Thread& x = T[t];
        x.done = t >= NT && t != MAIN; x.pend = {K_START, 0, 0}; x.clk = x.acq = x.rel = x.ev = Clk(); x.clk.c[t] = 1;
        x.streak.clear(); x.blocked = false; x.wait.clear(); x.enabled_by = -1; x.depth = 0;
    }
    sc_clk = Clk(); dev_used = 0;
    ops.clear(); now_step = 0; acc_count = 0; evs.clear();
    cur = MAIN; concurrent = false; force_spurious = false;
}
void start_thread(int t) {
    Thread& x = T[t];
    if (!x.stack) {
        x.stack = (char*)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (x.stack == MAP_FAILED) die("mmap stack");
        mprotect(x.stack, 4096, PROT_NONE);
        x.stack += 4096;
    }
    u64* sp = (u64*)(x.stack + STACK);
    *--sp = 0; // alignment
    *--sp = (u64)(void*)fiber_main;
    for (int i = 0; i < 6; ++i) *--sp = 0;
    x.sp = sp;
    x.clk.join(T[MAIN].clk);
}

sigjmp_buf jb_run;
Result execute(const std::vector<int>* forced) {
    // forced: replay exactly these choices (thread * 64 + variant)
    ++n_exec;
    new_execution();
    volatile size_t depth = 0;
    if (sigsetjmp(jb_run, 0)) { jmp = nullptr; in_world = false; cur = MAIN; concurrent = false; stack_.resize(depth < stack_.size() ? depth : stack_.size()); if (!stack_.empty()) stack_.back().nvariants = std::max(stack_.back().nvariants, n_variants); return EX_FAIL; }
    jmp = &jb_run;
    in_world = true; h_init(); in_world = false;
    for (int t = 0; t < NT; ++t) start_thread(t);
    tick();
    concurrent = true;
    int last = -1; int preempt = 0; u64 steps = 0;
    bool freerun = false; u64 free_steps = 0; int rr = 0;
    for (;;) {
        u8 en = 0, alive = 0;
        for (int t = 0; t < NT; ++t) { if (!T[t].done) alive |= 1 << t; if (thread_enabled(t)) en |= 1 << t; }
        if (!alive) break;
        if (!en) {
            // everybody waits: spinners may make up their mind by themselves
            u8 spin = 0;
            for (int t = 0; t < NT; ++t) if (!T[t].done && T[t].blocked && T[t].pend.k != K_LOCK) spin |= 1 << t;
            if (!spin || free_steps > 4000) {
                std::string s;
                for (int t = 0; t < NT; ++t) if (!T[t].done) s += " thread " + std::to_string(t) + " at " + pend_str(T[t].pend);
                co::fail("hang", "no thread can go on:%s", s.c_str());
            }
            if (!freerun) { freerun = true; ++n_freerun; }
            ++free_steps;
            do rr = (rr + 1) % NT; while (!(spin & (1 << rr)));
            T[rr].blocked = false;
            en = 1 << rr;
        }
        if (++steps > step_limit) co::fail("hang", "the threads do not come to an end");
        int p, variant = 0;
        size_t d = depth;
        if (freerun) {
            if (!(en & (1 << rr))) { rr = __builtin_ctz(en); }
            p = rr;
        }
        else if (forced) {
            if (d < forced->size()) { p = (*forced)[d] / 64; variant = (*forced)[d] % 64; }
            else p = last >= 0 && (en & (1 << last)) ? last : __builtin_ctz(en);
            if (p >= NT || !(en & (1 << p))) die("replay: thread %d cannot run", p);
            if (d >= stack_.size()) { Node n{}; stack_.push_back(n); }
            stack_[d].tid = p; stack_[d].enabled = en;
        }
        else if (d < stack_.size()) {
            Node& n = stack_[d];
            p = n.tid; variant = n.variant;
            if (n.enabled != en) die("an execution does not repeat (enabled threads at step %zu)", d);
            for (int t = 0; t < NT; ++t) if (n.pend[t].k != T[t].pend.k || n.pend[t].a != T[t].pend.a || n.pend[t].ctx != T[t].pend.ctx) die("an execution does not repeat (pending step of thread %d at step %zu)", t, d);
        }
        else {
            Node n{};
            n.enabled = en;
            for (int t = 0; t < NT; ++t) n.pend[t] = T[t].pend;
            n.preempt = preempt;
            if (d > 0 && bound < 0) { // sleepers which commute with the step just executed stay asleep
                Node& par = stack_[d - 1];
                Event& le = evs.back();
                for (int t = 0; t < NT; ++t) if ((par.sleep & (1 << t)) && t != par.tid && !dependent(par.pend[t], le.k, par.pend[par.tid].a, le.write)) n.sleep |= 1 << t;
            }
            u8 cand = en & ~n.sleep;
            if (!cand) { n_blocked++; jmp = nullptr; concurrent = false; cur = MAIN; return EX_BLOCKED; }
            p = last >= 0 && (cand & (1 << last)) ? last : __builtin_ctz(cand);
            n.tid = p; n.variant = 0; n.nvariants = 1;
            n.backtrack = 1 << p;
            if (bound >= 0) {
                bool running = last >= 0 && (en & (1 << last));
                if (!running) n.backtrack = en;
                else if (preempt < bound) n.backtrack = en;
            }
            stack_.push_back(n);
            ++n_nodes;
            if (stack_.size() > max_depth) max_depth = stack_.size();
        }
        if (last >= 0 && p != last && (en & (1 << last))) ++preempt;
        last = p;
        // execute
        Thread& x = T[p];
        bool was_blocked = x.blocked; std::vector<StreakE> waited; if (was_blocked) waited = x.wait;
        x.blocked = false; x.wait.clear();
        Pending pd = x.pend;
        want_variant = variant != PATIENT ? variant : pd.k == K_CASW ? 1 : 0; n_variants = 1; step_loc = nullptr; step_stale = false; step_silent = true; step_write = false; step_order = ""; step_from = step_to = 0;
        ++now_step; ++n_steps;
        Clk before = x.ev;
        depth = d + 1; // a failure now belongs to this choice
        if (verbose && pd.k != K_START && pd.k != K_BEGIN && pd.k != K_END) printf("  step %zu: thread %d: %s\n", d + 1, p, pend_str(pd).c_str());
        // the thread performs its pending operation and runs to its next scheduling point
        Kind k = pd.k;
        int ev_index = int(evs.size());
        int dev_before = dev_used;
        run_step(p);
        const int step_variants = n_variants;
        // note: the step_* variables describe the operation performed first; later code up to the next point cannot change them
        if (verbose && step_loc && pd.k <= K_CASW) printf("          %s (%s): %llu -> %llu\n", kind_name[k], step_order, (unsigned long long)step_from, (unsigned long long)step_to);
        if (!freerun && !forced) {
            Node& n = stack_[d];
            n.nvariants = n_variants;
            // the step in the order of the reduction
            Event e{}; e.tid = p; e.loc = step_loc; e.write = step_write; e.k = k;
            static std::vector<int> races; races.clear();
            if (Loc* l = step_loc) {
                auto ordered = [&](int i) { return before.c[evs[i].tid] >= evs[i].local; };
                if (k == K_BEGIN || k == K_END) {
                    // lockev holds the last begins, rev the last ends
                    int* other = k == K_BEGIN ? l->rev : l->lockev; int* mine = k == K_BEGIN ? l->lockev : l->rev;
                    for (int t = 0; t < NT; ++t) if (t != p && other[t] >= 0) { if (!ordered(other[t])) races.push_back(other[t]); }
                    for (int t = 0; t < NT; ++t) if (other[t] >= 0) x.ev.join(evs[other[t]].clk);
                    ++x.ev.c[p];
                    mine[p] = ev_index;
                }
                else if (k == K_LOCK) {
                    for (int t = 0; t < NT; ++t) if (t != p && l->lockev[t] >= 0 && !ordered(l->lockev[t])) races.push_back(l->lockev[t]);
                    x.ev.join(l->dw); x.ev.join(l->dr); ++x.ev.c[p];
                    l->lockev[p] = ev_index; l->dw = x.ev; l->wev = ev_index; for (auto& r : l->rev) r = -1;
                }
                else if (k == K_UNLOCK) { x.ev.join(l->dw); x.ev.join(l->dr); ++x.ev.c[p]; l->dw = x.ev; l->wev = ev_index; for (auto& r : l->rev) r = -1; }
                else {
                    int skip = -1;
                    if (was_blocked && l->wev >= 0) {
                        // the first write after the thread began to wait is what made it go on: not reversible
                        for (auto& w : waited) if (w.l == l && l->version == w.version + 1) skip = l->wev;
                    }
                    if (step_write) {
                        bool anyread = false;
                        for (int t = 0; t < NT; ++t) if (l->rev[t] >= 0) { anyread = true; if (t != p && !ordered(l->rev[t])) races.push_back(l->rev[t]); }
                        if (!anyread && l->wev >= 0 && evs[l->wev].tid != p && !ordered(l->wev) && l->wev != skip) races.push_back(l->wev);
                        x.ev.join(l->dw); x.ev.join(l->dr); ++x.ev.c[p];
                        l->dw = x.ev; l->dr = Clk(); l->wev = ev_index; for (auto& r : l->rev) r = -1;
                    }
                    else {
                        if (l->wev >= 0 && evs[l->wev].tid != p && !ordered(l->wev) && l->wev != skip) races.push_back(l->wev);
                        x.ev.join(l->dw); ++x.ev.c[p];
                        l->dr.join(x.ev); l->rev[p] = ev_index;
                    }
                }
            }
            else ++x.ev.c[p];
            e.local = x.ev.c[p]; e.clk = x.ev;
            evs.push_back(e);
            if (bound < 0) for (int r : races) add_backtrack(r, ev_index);
        }
        // spinning
        if (!x.done) {
            detect_spin(p);
            if ((x.blocked || (k == K_CASW && step_variants == 2)) && !freerun && !forced && variant == 0 && patience && dev_before < max_dev) stack_[d].patient = true;
            if (variant == PATIENT && k == K_CASW) {
                ++n_patient;
                int i = 0;
                for (; i < patience_steps && !x.done && x.pend.a == pd.a && (x.pend.k == K_LOAD || x.pend.k == K_CASW); ++i) {
                    x.blocked = false; x.wait.clear();
                    want_variant = 0; n_variants = 1; step_loc = nullptr; step_stale = false; step_silent = true; step_write = false; step_order = ""; step_from = step_to = 0;
                    force_spurious = true; run_step(p); force_spurious = false;
                }
                if (i == patience_steps) { n_blocked++; jmp = nullptr; concurrent = false; cur = MAIN; return EX_BLOCKED; }
                ++n_left;
                if (!x.done) detect_spin(p);
            }
            else if (variant == PATIENT) {
                if (!x.blocked) die("an execution does not repeat (spinning at step %zu)", d);
                ++dev_used; ++n_patient;
                for (int i = 0; i < patience_steps && x.blocked && !x.done; ++i) {
                    x.blocked = false; x.wait.clear();
                    want_variant = 0; n_variants = 1; step_loc = nullptr; step_stale = false; step_silent = true; step_write = false; step_order = ""; step_from = step_to = 0;
                    size_t keep = x.streak.size() > 64 ? x.streak.size() - 64 : 0;
                    x.streak.erase(x.streak.begin(), x.streak.begin() + keep);
                    run_step(p);
                    if (!x.done) detect_spin(p);
                }
                if (x.blocked && !x.done) { n_blocked++; jmp = nullptr; concurrent = false; cur = MAIN; return EX_BLOCKED; }
                ++n_left;
            }
        }
        else { x.blocked = false; }
    }
    concurrent = false;
    if (forced && depth < forced->size()) die("replay: the execution ended early");
    for (int t = 0; t < NT; ++t) T[MAIN].clk.join(T[t].clk);
    tick();
    cur = MAIN; in_world = true;
    h_final();
    in_world = false;
    if (int n = co::live_blocks()) co::fail("leak", "%d blocks are still allocated after everything was destroyed", n);
    jmp = nullptr;
    ++n_complete;
    return EX_OK;
}

bool next() { // the next schedule
    while (!stack_.empty()) {
        Node& n = stack_.back();
        if (n.variant != PATIENT && n.variant + 1 < n.nvariants) { ++n.variant; return true; }
        if (n.patient && n.variant != PATIENT) { n.variant = PATIENT; return true; }
        n.done |= 1 << n.tid;
        if (bound < 0) n.sleep |= 1 << n.tid;
        u8 cand = n.backtrack & ~n.done & (bound < 0 ? ~n.sleep : 0xff);
        if (cand) { n.tid = __builtin_ctz(cand); n.variant = 0; n.nvariants = 1; n.patient = false; return true; }
        stack_.pop_back();
    }
    return false;
}

void on_signal(int sig) {
    sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, nullptr);
    if (!jmp) { fprintf(stderr, "engine error: signal %d outside of an execution\n", sig); _exit(2); }
    co::fail("mem", "%s", sig == SIGSEGV ? "crash: invalid memory access" : sig == SIGABRT ? "crash: abort" : "crash: trap");
}
u64 last_exec, last_steps;
void on_alarm(int) {
    if (in_world && jmp && last_exec == n_exec && last_steps == n_steps) {
        sigset_t s; sigemptyset(&s); sigaddset(&s, SIGALRM); sigprocmask(SIG_UNBLOCK, &s, nullptr);
        co::fail("hang", "a thread does not come to an end");
    }
    last_exec = n_exec; last_steps = n_steps;
}
void on_terminate() {
    if (!jmp) { fprintf(stderr, "engine error: terminate\n"); _exit(2); }
    co::fail("mem", "std::terminate: an exception left a function which may not throw, or a pure virtual function was called");
}
std::string esc(const std::string& s) {
    std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((unsigned char)c < 32) c = ' '; o += c; } return o;
}
double now() { timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }
bool matches(const std::set<std::string>& pats, const std::string& c) {
    auto at = c.find('@');
    return pats.count("all") || pats.count(c) || pats.count(c.substr(0, at)) || (at != std::string::npos && pats.count(c.substr(at)));
}
std::string prog_name(int p) { char b[400]; h_program_name(p, b, sizeof b); return b; }
struct Failure { std::string cat, msg; int prog; std::vector<int> sched; u64 count; };
}

int main(int argc, char** argv) {
    std::string out; int config = 0; double max_secs = 1e9; std::set<std::string> cats; std::vector<int> replay; bool do_replay = false, list = false; int only_prog = -1; u64 max_exec = 0;
    int fallback = 2;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nextarg = [&] { if (++i >= argc) die("missing argument"); return std::string(argv[i]); };
        auto split = [](const std::string& s) { std::vector<std::string> v; std::string c; for (char ch : s + ",") if (ch == ',') { if (c.size()) v.push_back(c); c.clear(); } else c += ch; return v; };
        if (a == "--config") config = atoi(nextarg().c_str());
        else if (a == "--out") out = nextarg();
        else if (a == "--max-secs") max_secs = atof(nextarg().c_str());
        else if (a == "--max-exec") max_exec = strtoull(nextarg().c_str(), nullptr, 10); // per program
        else if (a == "--bound") bound = atoi(nextarg().c_str());
        else if (a == "--program") only_prog = atoi(nextarg().c_str());
        else if (a == "--deviations") arg_dev = atoi(nextarg().c_str());
        else if (a == "--cats") for (auto& c : split(nextarg())) cats.insert(c);
        else if (a == "--replay") { do_replay = true; for (auto& c : split(nextarg())) replay.push_back(atoi(c.c_str())); }
        else if (a == "--list") list = true;
        else die("unknown argument %s", a.c_str());
    }
    (void)fallback;
    if (list) { for (int c = 0; c < h_nconfigs(); ++c) printf("%s\n", h_config_name(c)); return 0; }
    st::find();
    if (st::bytes()) {
        st_image.resize(st::bytes()); st::save(&st_image[0]);
        uintptr_t hi = 0;
        for (auto& r : st::ranges()) if (!r.tls) { if (!st_lo) st_lo = r.lo; hi = r.hi; }
        if (hi - st_lo <= (1u << 20)) st_len = hi - st_lo; else { fprintf(stderr, "static variables are too far apart\n"); }
    }
    __libc_single_threaded = 0;
    outcomes = new std::set<u64>;
    if (mmap((void*)co::ROOT_ADDR, co::ROOT_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void*)co::ROOT_ADDR) die("mmap root");
    if (mmap((void*)co::ARENA_ADDR, SLOT * NB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void*)co::ARENA_ADDR) die("mmap arena");
    shadow = (Cell*)mmap(nullptr, (NCELLS + st_len) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shadow == MAP_FAILED) die("mmap shadow");
    static char alt[1 << 16];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
    sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, nullptr);
    itimerval tv{{4, 0}, {4, 0}}; setitimer(ITIMER_REAL, &tv, nullptr);
    std::set_terminate(on_terminate);
    h_config(config);
    max_dev = arg_dev >= 0 ? arg_dev : h_deviations();
    patience = h_patience && h_patience();
    double t0 = now();
    if (do_replay) { // program, then the choices
        if (replay.empty()) die("nothing to replay");
        int prog = replay[0]; replay.erase(replay.begin());
        h_program(prog); NT = h_threads();
        verbose = true; bound = 99;
        printf("replaying %zu steps of: %s\n", replay.size(), prog_name(prog).c_str());
        Result r = execute(&replay);
        if (r == EX_FAIL) { printf("VIOLATED (%s): %s\n", fail_cat, fail_msg); return 1; }
        printf("no violation\n");
        return 0;
    }
    std::map<std::string, Failure> fails; bool complete = true, stop = false; std::string stop_reason; int programs = 0, progs_incomplete = 0;
    u64 pruned = 0, validated = 0;
    std::vector<std::vector<int>> samples; std::vector<int> sample_prog;
    int np = h_nprograms();
    size_t min_outcomes = ~size_t(0), total_outcomes = 0;
    for (int pr = 0; pr < np && !stop; ++pr) {
        if (only_prog >= 0 && pr != only_prog) continue;
        h_program(pr); NT = h_threads();
        if (NT > MAXT) die("too many threads");
        stack_.clear(); outcomes->clear(); ++programs;
        u64 e0 = n_exec;
        for (;;) {
            Result r = execute(nullptr);
            if (r == EX_FAIL) {
                ++pruned;
                auto& f = fails[fail_cat];
                if (!f.count++) { f.cat = fail_cat; f.msg = fail_msg; f.prog = pr; f.sched.clear(); for (auto& n : stack_) f.sched.push_back(n.tid * 64 + n.variant); }
                if (matches(cats, fail_cat)) { stop = true; complete = false; stop_reason = "violation found"; break; }
            }
            else if (r == EX_OK && n_complete % 97 == 1) {
                // validation: the same schedule once more, every pending step is compared with the recorded one
                auto st = stack_; auto a = n_exec, b = n_complete, c = n_nodes, d = n_steps;
                auto outs = outcomes->size();
                if (execute(nullptr) != EX_OK || outcomes->size() != outs || st.size() != stack_.size()) die("an execution does not repeat");
                stack_ = st; n_exec = a; n_complete = b; n_nodes = c; n_steps = d; ++validated;
                if (samples.size() < 2) { samples.push_back({}); for (auto& n : stack_) samples.back().push_back(n.tid * 64 + n.variant); sample_prog.push_back(pr); }
            }
            if (!next()) break;
            if ((n_exec & 63) == 0 && now() - t0 > max_secs) { stop = true; complete = false; stop_reason = "time bound"; break; }
            if (max_exec && n_exec - e0 >= max_exec) { complete = false; ++progs_incomplete; stop_reason = "execution bound of a program"; break; }
        }
        total_outcomes += outcomes->size();
        if (outcomes->size() < min_outcomes) min_outcomes = outcomes->size();
    }
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) die("cannot write %s", out.c_str());
    fprintf(f, "{\"config\": \"%s\", \"programs\": %d, \"programs_total\": %d, \"programs_cut\": %d, \"executions\": %llu, \"complete_executions\": %llu, \"redundant\": %llu, \"states\": %llu, \"transitions\": %llu, \"complete\": %s, \"stop_reason\": \"%s\", \"depth_complete\": %zu, \"outcomes\": %zu, \"pruned\": %llu, \"free_runs\": %llu, \"bound\": %d, \"deviations\": %d, \"deviations_taken\": %llu, \"patient\": %llu, \"patient_left\": %llu, \"validated\": %llu, \"wall_s\": %.2f,\n",
        h_config_name(config), programs, np, progs_incomplete, (unsigned long long)n_exec, (unsigned long long)n_complete, (unsigned long long)n_blocked, (unsigned long long)n_nodes, (unsigned long long)n_steps, complete ? "true" : "false", stop_reason.c_str(), max_depth, total_outcomes, (unsigned long long)pruned, (unsigned long long)n_freerun, bound, max_dev, (unsigned long long)n_dev, (unsigned long long)n_patient, (unsigned long long)n_left, (unsigned long long)validated, now() - t0);
    auto print_sched = [&](int prog, const std::vector<int>& h) {
        fprintf(f, "\"ops\": [%d", prog);
        for (int x : h) fprintf(f, ",%d", x);
        fprintf(f, "], \"history\": [\"%s\"", esc(prog_name(prog)).c_str());
        std::string s; for (int x : h) { s += " " + std::to_string(x / 64); if (x % 64) s += "'" + std::to_string(x % 64); }
        fprintf(f, ", \"schedule:%s\"]", s.c_str());
    };
    fprintf(f, " \"failures\": [");
    bool first = true;
    for (auto& kv : fails) {
        fprintf(f, "%s\n  {\"cat\": \"%s\", \"count\": %llu, \"where\": \"execution\", \"msg\": \"%s\", ", first ? "" : ",", kv.first.c_str(), (unsigned long long)kv.second.count, esc(kv.second.msg).c_str());
        print_sched(kv.second.prog, kv.second.sched); fprintf(f, "}"); first = false;
    }
    fprintf(f, "],\n \"samples\": [");
    for (size_t i = 0; i < samples.size(); ++i) { fprintf(f, "%s{", i ? ", " : ""); print_sched(sample_prog[i], samples[i]); fprintf(f, "}"); }
    fprintf(f, "], \"never\": []}\n");
    if (f != stdout) fclose(f); else fflush(f);
    _exit(0);
}
