// E1 engine: breadth-first search over the states of real objects, see seq.h
#include "seq.h"
#include "statics.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <vector>
#include <string>
#include <set>
#include <map>
#include <exception>
#include <csetjmp>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;

namespace {
enum : u8 { UNUSED, LIVE, FREED };
enum : u8 { K_ARR = 1, K_ALIGNED = 2, K_MODEL = 4 };

struct Blk {
    u8 state, kind; u16 pad;
    u32 size, align, off, tag, count, dead_lo, dead_hi;
};
constexpr int MAXB = 1 << 17;
Blk blk[MAXB];
int NB, used_hi; // blocks [0, used_hi) may be not UNUSED
size_t SLOT; int SLOT_SH;
uintptr_t ARENA_END = sq::ARENA_ADDR;
sq::Sizes SZ;
bool reuse_mode = false;

volatile bool in_world = false;
u64 acc_count, acc_limit = 400000;
int fail_at, n_allocs; bool fired;
bool verbose = false;
sigjmp_buf* jmp;
char fail_cat[64], fail_msg[1024];
std::set<u64>* outcomes;

struct Guard { bool old; Guard() : old(in_world) { in_world = false; } ~Guard() { in_world = old; } };

inline uintptr_t slot_base(int i) { return sq::ARENA_ADDR + ((uintptr_t)i << SLOT_SH); }
inline char* bptr(int i) { return (char*)(slot_base(i) + blk[i].off); }
inline int find(uintptr_t a) {
    if (a < sq::ARENA_ADDR || a >= ARENA_END) return -1;
    return int((a - sq::ARENA_ADDR) >> SLOT_SH);
}

const char* group = "init";
[[noreturn]] void vfail(const char* cat, const char* fmt, va_list ap) {
    in_world = false;
    snprintf(fail_cat, sizeof fail_cat, "%s@%s", cat, group);
    vsnprintf(fail_msg, sizeof fail_msg, fmt, ap);
    if (!jmp) { fprintf(stderr, "engine: failure outside of a step: %s: %s\n", fail_cat, fail_msg); _exit(2); }
    siglongjmp(*jmp, 1);
}
[[noreturn]] void die(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "engine error: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n");
    _exit(2);
}
}

namespace sq {
void fail(const char* cat, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfail(cat, fmt, ap); }
void set_group(const char* g) { group = g; }
void note(const char* fmt, ...) {
    if (!verbose) return;
    Guard g;
    va_list ap; va_start(ap, fmt); printf("      "); vprintf(fmt, ap); printf("\n"); va_end(ap);
}
void outcome(u64 v) { Guard g; if (outcomes->size() < 100000) outcomes->insert(v); }

static int get_block() {
    for (int i = 0; i < used_hi; ++i) if (blk[i].state == UNUSED) return i;
    if (used_hi == NB) die("arena full (%d blocks)", NB);
    return used_hi++;
}
static void* alloc(size_t size, size_t align, u8 kind) {
    int i = -1;
    if (reuse_mode && !(kind & K_MODEL)) {
        for (int k = used_hi - 1; k >= 0; --k)
            if (blk[k].state == FREED && blk[k].size == size && blk[k].align == align) { i = k; break; }
    }
    if (i < 0) i = get_block();
    size_t off = align;
    while (off < 32) off += 2 * align; // odd multiple of align: aligned to no more than asked for
    if (off + size + 16 > SLOT) die("block of %zu bytes does not fit", size);
    Blk& b = blk[i];
    b = Blk{};
    b.state = LIVE; b.kind = kind; b.size = u32(size); b.align = u32(align); b.off = u32(off);
    memset(bptr(i), (kind & K_MODEL) ? 0 : 0xA5, size ? size : 1);
    return bptr(i);
}
void* model_alloc(size_t size) { return alloc(size, 16, K_MODEL); }
void fail_alloc(int k) { fail_at = k; n_allocs = 0; fired = false; }
int alloc_count() { return n_allocs; }
bool fault_fired() { return fired; }

static int live_index(const void* p) {
    int i = find((uintptr_t)p);
    if (i < 0 || blk[i].state != LIVE) return -1;
    uintptr_t o = (uintptr_t)p - slot_base(i);
    if (o < blk[i].off || o > blk[i].off + blk[i].size) return -1;
    return i;
}
bool is_live(const void* p) { return live_index(p) >= 0; }
size_t block_size(const void* p) { int i = live_index(p); return i < 0 ? 0 : blk[i].size; }
void* block_begin(const void* p) { int i = live_index(p); return i < 0 ? nullptr : bptr(i); }
int live_blocks() { int n = 0; for (int i = 0; i < used_hi; ++i) n += blk[i].state == LIVE && !(blk[i].kind & K_MODEL); return n; }
int live_blocks_tagged(u32 tag) { int n = 0; for (int i = 0; i < used_hi; ++i) n += blk[i].state == LIVE && !(blk[i].kind & K_MODEL) && blk[i].tag == tag; return n; }
void set_tag(void* p, u32 tag, u32 count) { int i = live_index(p); if (i >= 0) { blk[i].tag = tag; blk[i].count = count; } }
u32 get_tag(const void* p) { int i = live_index(p); return i < 0 ? 0 : blk[i].tag; }
u32 get_count(const void* p) { int i = live_index(p); return i < 0 ? 0 : blk[i].count; }
bool block_is_array(const void* p) { int i = live_index(p); return i >= 0 && (blk[i].kind & K_ARR); }
void poison(const void* p, size_t size) {
    int i = live_index(p);
    if (i < 0) return;
    u32 o = u32((uintptr_t)p - slot_base(i));
    blk[i].dead_lo = o; blk[i].dead_hi = u32(o + size);
}
void unpoison(const void* p) { int i = find((uintptr_t)p); if (i >= 0) blk[i].dead_lo = blk[i].dead_hi = 0; }
void set_hang_limit(u64 n) { acc_limit = n; }

static void* world_new(size_t size, size_t align, u8 kind) {
    ++n_allocs;
    if (fail_at && n_allocs == fail_at) { fired = true; return nullptr; }
    if (size >= SLOT || 32 + 2 * align + size + 16 > SLOT) return nullptr; // out of memory
    return alloc(size, align, kind);
}
static void world_delete(void* p, u8 kind, size_t align, size_t size, bool sized) {
    if (!p) return;
    int i = find((uintptr_t)p);
    if (i < 0) fail("mem", "delete of %p, which was never allocated", p);
    Blk& b = blk[i];
    if (b.state == FREED) fail("mem", "double free of a block of %u bytes", b.size);
    if (b.state == UNUSED || (b.kind & K_MODEL)) fail("mem", "delete of a wild pointer");
    if (p != bptr(i)) fail("mem", "delete of a pointer to the middle of a block (offset %ld of %u)", long((char*)p - bptr(i)), b.size);
    if ((b.kind & K_ARR) != (kind & K_ARR)) fail("form", "allocated with new%s but freed with delete%s", b.kind & K_ARR ? "[]" : "", kind & K_ARR ? "[]" : "");
    if ((b.kind & K_ALIGNED) != (kind & K_ALIGNED)) fail("form", "aligned and unaligned forms of new and delete mixed");
    if ((kind & K_ALIGNED) && align != b.align) fail("form", "allocated with alignment %u but freed with %zu", b.align, align);
    if (sized && size != b.size) fail("form", "allocated with size %u but freed with %zu", b.size, size);
    if (b.tag) fail("form", "storage of a user allocator freed directly");
    b.state = FREED; b.dead_lo = b.dead_hi = 0;
}

// canonical form of a state: pointers into the arena are renamed in the order they are discovered from the root
struct Hash2 {
    u64 a = 0x9E3779B97F4A7C15ull, b = 0xC2B2AE3D27D4EB4Full;
    void word(u64 w) {
        a ^= w; a *= 0xff51afd7ed558ccdull; a ^= a >> 32;
        b += w; b *= 0xc4ceb9fe1a85ec53ull; b ^= b >> 29; b += a;
    }
};
struct Key { u64 a, b; bool operator==(const Key& o) const { return a == o.a && b == o.b; } };

static int disc[MAXB]; static int order_[MAXB]; static int ndisc;
static void emit(Hash2& h, u64 w) {
    int i = find(uintptr_t(w));
    if (i >= 0 && i < used_hi && blk[i].state != UNUSED) {
        if (disc[i] < 0) { disc[i] = ndisc; order_[ndisc++] = i; }
        h.word(0xB10C000000000000ull | (u64(disc[i]) << 24) | (u64)(uintptr_t(w) - slot_base(i)));
    }
    else h.word(w);
}
static void emit_bytes(Hash2& h, const char* p, size_t n) {
    size_t k = 0;
    for (; k + 8 <= n; k += 8) { u64 w; memcpy(&w, p + k, 8); emit(h, w); }
    if (k < n) { u64 w = 0; memcpy(&w, p + k, n - k); h.word(w); }
}
static Key canon(bool statics = true) {
    for (int i = 0; i < used_hi; ++i) disc[i] = -1;
    ndisc = 0;
    Hash2 h;
    emit_bytes(h, (const char*)ROOT_ADDR, SZ.hashed);
    if (statics) for (auto& r : st::ranges()) emit_bytes(h, (const char*)r.lo, r.hi - r.lo);
    for (int q = 0; q < ndisc; ++q) {
        const Blk& b = blk[order_[q]];
        h.word((u64(b.state) << 56) ^ (u64(b.kind) << 48) ^ (u64(b.size) << 20) ^ b.align ^ (u64(b.tag) << 40));
        if (b.state != LIVE) continue;
        if (b.dead_hi) {
            h.word(b.dead_lo | (u64(b.dead_hi) << 32));
            u32 lo = b.dead_lo - b.off, hi = b.dead_hi - b.off;
            emit_bytes(h, bptr(order_[q]), lo);
            if (hi < b.size) emit_bytes(h, bptr(order_[q]) + hi, b.size - hi);
        }
        else emit_bytes(h, bptr(order_[q]), b.size);
    }
    return {h.a, h.b};
}
// after canon(): recycle what nobody refers to; a live block nobody refers to is a leak
static void collect() {
    for (int i = 0; i < used_hi; ++i) {
        if (disc[i] >= 0 || blk[i].state == UNUSED) continue;
        if (blk[i].state == LIVE && !(blk[i].kind & K_MODEL))
            fail("leak", "a block of %u bytes is still allocated, but nothing refers to it", blk[i].size);
        blk[i] = Blk{};
    }
    while (used_hi && blk[used_hi - 1].state == UNUSED) --used_hi;
}
} // namespace sq

using namespace sq;

// --- operator new and delete ------------------------------------------------------------------
static void* do_new(size_t n, size_t al, u8 kind, bool nothrow) {
    if (!in_world) {
        void* p = (kind & K_ALIGNED) ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
        if (!p) die("out of memory");
        return p;
    }
    void* p = world_new(n, al, kind);
    if (!p && !nothrow) { Guard g; throw std::bad_alloc(); }
    return p;
}
static void do_delete(void* p, size_t al, u8 kind, size_t n, bool sized) {
    uintptr_t a = (uintptr_t)p;
    if (in_world) { world_delete(p, kind, al, n, sized); return; }
    if (a >= ARENA_ADDR && a < ARENA_END) return; // leftovers of an abandoned step
    free(p);
}
constexpr size_t DEF = 16;
void* operator new(size_t n) { return do_new(n, DEF, 0, false); }
void* operator new[](size_t n) { return do_new(n, DEF, K_ARR, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, DEF, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, DEF, K_ARR, true); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, size_t(a), K_ALIGNED, false); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, size_t(a), K_ALIGNED | K_ARR, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, size_t(a), K_ALIGNED, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, size_t(a), K_ALIGNED | K_ARR, true); }
void operator delete(void* p) noexcept { do_delete(p, 0, 0, 0, false); }
void operator delete[](void* p) noexcept { do_delete(p, 0, K_ARR, 0, false); }
void operator delete(void* p, size_t n) noexcept { do_delete(p, 0, 0, n, true); }
void operator delete[](void* p, size_t n) noexcept { do_delete(p, 0, K_ARR, n, true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, 0, 0, 0, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, 0, K_ARR, 0, false); }
void operator delete(void* p, std::align_val_t a) noexcept { do_delete(p, size_t(a), K_ALIGNED, 0, false); }
void operator delete[](void* p, std::align_val_t a) noexcept { do_delete(p, size_t(a), K_ALIGNED | K_ARR, 0, false); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { do_delete(p, size_t(a), K_ALIGNED, n, true); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { do_delete(p, size_t(a), K_ALIGNED | K_ARR, n, true); }

// --- instrumentation of memory accesses (the ABI of -fsanitize=thread) --------------------------
namespace {
[[gnu::noinline]] void bad_access(uintptr_t a, size_t n, bool w) {
    int i = find(a);
    const char* what = w ? "write to" : "read of";
    Blk& b = blk[i];
    uintptr_t o = a - slot_base(i);
    if (b.state == FREED) fail("mem", "%s freed memory (offset %ld of a block of %u bytes)", what, long(o) - long(b.off), b.size);
    if (b.state == UNUSED) fail("mem", "%s unallocated memory", what);
    if (o < b.off || o + n > b.off + b.size) fail("mem", "%s memory out of bounds (offset %ld, %zu bytes, of a block of %u bytes)", what, long(o) - long(b.off), n, b.size);
    fail("mem", "%s a dead object", what);
}
inline void acc(uintptr_t a, size_t n, bool w) {
    if (__builtin_expect(!in_world, 0)) return;
    if (++acc_count > acc_limit) fail("hang", "the operation does not end");
    if (a < ARENA_ADDR || a >= ARENA_END) return;
    int i = int((a - ARENA_ADDR) >> SLOT_SH);
    const Blk& b = blk[i];
    uintptr_t o = a & (SLOT - 1);
    if (__builtin_expect(b.state != LIVE || o < b.off || o + n > b.off + b.size || (o < b.dead_hi && o + n > b.dead_lo), 0)) bad_access(a, n, w);
}
}
#define RW(N) \
    extern "C" void __tsan_read##N(void* p) { acc((uintptr_t)p, N, false); } \
    extern "C" void __tsan_write##N(void* p) { acc((uintptr_t)p, N, true); } \
    extern "C" void __tsan_unaligned_read##N(void* p) { acc((uintptr_t)p, N, false); } \
    extern "C" void __tsan_unaligned_write##N(void* p) { acc((uintptr_t)p, N, true); } \
    extern "C" void __tsan_volatile_read##N(void* p) { acc((uintptr_t)p, N, false); } \
    extern "C" void __tsan_volatile_write##N(void* p) { acc((uintptr_t)p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read_range(void* p, size_t n) { acc((uintptr_t)p, n, false); }
void __tsan_write_range(void* p, size_t n) { acc((uintptr_t)p, n, true); }
void __tsan_vptr_update(void** p, void*) { acc((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void** p) { acc((uintptr_t)p, 8, false); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { acc((uintptr_t)d, n, true); acc((uintptr_t)s, n, false); return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { acc((uintptr_t)d, n, true); return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { acc((uintptr_t)d, n, true); acc((uintptr_t)s, n, false); return memmove(d, s, n); }
}
#define ATOMIC(B, T) \
    extern "C" T __tsan_atomic##B##_load(const volatile T* p, int) { acc((uintptr_t)p, sizeof(T), false); return *p; } \
    extern "C" void __tsan_atomic##B##_store(volatile T* p, T v, int) { acc((uintptr_t)p, sizeof(T), true); *p = v; } \
    extern "C" T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { acc((uintptr_t)p, sizeof(T), true); T o = *p; *p = v; return o; } \
    extern "C" T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { acc((uintptr_t)p, sizeof(T), true); T o = *p; *p = o + v; return o; } \
    extern "C" T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { acc((uintptr_t)p, sizeof(T), true); T o = *p; *p = o - v; return o; } \
    extern "C" T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { acc((uintptr_t)p, sizeof(T), true); T o = *p; *p = o & v; return o; } \
    extern "C" T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { acc((uintptr_t)p, sizeof(T), true); T o = *p; *p = o | v; return o; } \
    extern "C" T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { acc((uintptr_t)p, sizeof(T), true); T o = *p; *p = o ^ v; return o; } \
    extern "C" T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int) { acc((uintptr_t)p, sizeof(T), true); T o = *p; *p = ~(o & v); return o; } \
    extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { \
        acc((uintptr_t)p, sizeof(T), true); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
    extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { \
        acc((uintptr_t)p, sizeof(T), true); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
    extern "C" T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int, int) { \
        acc((uintptr_t)p, sizeof(T), true); T o = *p; if (o == e) *p = v; return o; }
ATOMIC(8, u8) ATOMIC(16, u16) ATOMIC(32, u32) ATOMIC(64, u64)

// --- the search ---------------------------------------------------------------------------------
namespace {
struct Set128 {
    std::vector<Key> t; size_t n = 0;
    Set128() : t(1 << 16, Key{0, 0}) {}
    bool insert(Key k) {
        if (!k.a && !k.b) k.a = 1;
        if (n * 10 > t.size() * 6) {
            std::vector<Key> o(t.size() * 2, Key{0, 0}); o.swap(t); n = 0;
            for (auto& e : o) if (e.a | e.b) insert(e);
        }
        size_t m = t.size() - 1, i = k.a & m;
        while (t[i].a | t[i].b) { if (t[i] == k) return false; i = (i + 1) & m; }
        t[i] = k; ++n; return true;
    }
};

struct Snap { std::vector<char> d; };
size_t statics_size;
void save(Snap& s) {
    size_t n = SZ.total + statics_size + 4 + used_hi * sizeof(Blk);
    for (int i = 0; i < used_hi; ++i) if (blk[i].state == LIVE) n += blk[i].size;
    s.d.resize(n); s.d.shrink_to_fit();
    char* p = s.d.data();
    memcpy(p, (void*)ROOT_ADDR, SZ.total); p += SZ.total;
    st::save(p); p += statics_size;
    memcpy(p, &used_hi, 4); p += 4;
    memcpy(p, blk, used_hi * sizeof(Blk)); p += used_hi * sizeof(Blk);
    for (int i = 0; i < used_hi; ++i) if (blk[i].state == LIVE) { memcpy(p, bptr(i), blk[i].size); p += blk[i].size; }
}
void restore(const Snap& s) {
    const char* p = s.d.data();
    memcpy((void*)ROOT_ADDR, p, SZ.total); p += SZ.total;
    st::restore(p); p += statics_size;
    int hi; memcpy(&hi, p, 4); p += 4;
    if (used_hi > hi) memset(blk + hi, 0, (used_hi - hi) * sizeof(Blk));
    used_hi = hi;
    memcpy(blk, p, hi * sizeof(Blk)); p += hi * sizeof(Blk);
    for (int i = 0; i < hi; ++i) if (blk[i].state == LIVE) { memcpy(bptr(i), p, blk[i].size); p += blk[i].size; }
}

// what a read of an uninitialised variable finds does not depend on what was done before
[[gnu::noinline]] void scrub() { char b[4096]; memset(b, 0xA5, sizeof b); asm volatile("" : : "r"(b) : "memory"); }
template <typename F> bool guarded(F f) { // false: a failure was reported
    sigjmp_buf jb; bool ok = true;
    if (sigsetjmp(jb, 0) == 0) {
        jmp = &jb; acc_count = 0; fail_at = 0; n_allocs = 0; fired = false;
        scrub();
        in_world = true;
        try { f(); }
        catch (...) { in_world = false; snprintf(fail_cat, sizeof fail_cat, "mem@%s", group); snprintf(fail_msg, sizeof fail_msg, "unexpected exception"); ok = false; }
        in_world = false;
    }
    else ok = false;
    jmp = nullptr; in_world = false; fail_at = 0;
    return ok;
}

void on_signal(int sig) {
    sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, nullptr);
    if (!jmp) { fprintf(stderr, "engine error: signal %d outside of a step\n", sig); _exit(2); }
    fail(sig == SIGALRM ? "hang" : "mem", "%s", sig == SIGSEGV ? "crash: invalid memory access" : sig == SIGALRM ? "the operation does not end" : sig == SIGABRT ? "crash: abort" : "crash: trap");
}
u64 steps_done; u64 last_seen;
void on_alarm(int) { // watchdog: two ticks within the same step
    if (in_world && jmp && last_seen == steps_done) {
        sigset_t s; sigemptyset(&s); sigaddset(&s, SIGALRM); sigprocmask(SIG_UNBLOCK, &s, nullptr);
        fail("hang", "the operation does not end");
    }
    last_seen = steps_done;
}
void on_terminate() {
    if (!jmp) { fprintf(stderr, "engine error: terminate\n"); _exit(2); }
    fail("mem", "std::terminate: an exception left a function which may not throw, or a pure virtual function was called");
}

struct Node { u32 parent; u16 op; u16 depth; Key key; };
std::vector<Node> nodes;

std::string opname(int op) { char b[256]; h_opname(op, b, sizeof b); return b; }
std::vector<int> history(u32 idx, int last) {
    std::vector<int> h;
    if (last >= 0) h.push_back(last);
    while (idx) { h.push_back(nodes[idx].op); idx = nodes[idx].parent; }
    return std::vector<int>(h.rbegin(), h.rend());
}
std::string esc(const std::string& s) {
    std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((unsigned char)c < 32) c = ' '; o += c; } return o;
}
double now() { timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }

bool matches(const std::set<std::string>& pats, const std::string& c) { // "base", "@group", "base@group" or "all"
    auto at = c.find('@');
    return pats.count("all") || pats.count(c) || pats.count(c.substr(0, at)) || pats.count(c.substr(at));
}

struct Failure { std::string cat, msg, where; std::vector<int> hist; };

bool check_state(bool& observed_ok, std::string& where, int order) {
    // observers must not change anything
    Key before = canon(false);
    where = "observing";
    static Snap s; save(s);
    if (!guarded([] { h_observe(); })) return false;
    Key after = canon(false);
    if (!(before == after)) { snprintf(fail_cat, sizeof fail_cat, "value@%s", group); snprintf(fail_msg, sizeof fail_msg, "observing the handles changed the state"); return false; }
    observed_ok = true;
    where = "destroying everything";
    bool ok = guarded([order] {
        h_end(order);
        if (int n = live_blocks()) fail("leak", "%d blocks are still allocated after everything was destroyed", n);
    });
    restore(s);
    return ok;
}
}

int main(int argc, char** argv) {
    std::string out; int config = 0; u64 max_states = 1u << 30; double max_secs = 1e9; std::set<std::string> cats; std::vector<int> replay; bool do_replay = false; bool list = false;
    int max_depth_arg = 65000;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { if (++i >= argc) die("missing argument"); return std::string(argv[i]); };
        auto split = [](const std::string& s) { std::vector<std::string> v; std::string c; for (char ch : s + ",") if (ch == ',') { if (c.size()) v.push_back(c); c.clear(); } else c += ch; return v; };
        if (a == "--config") config = atoi(next().c_str());
        else if (a == "--out") out = next();
        else if (a == "--max-states") max_states = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--max-secs") max_secs = atof(next().c_str());
        else if (a == "--max-depth") max_depth_arg = atoi(next().c_str());
        else if (a == "--cats") for (auto& c : split(next())) cats.insert(c);
        else if (a == "--reuse") reuse_mode = true;
        else if (a == "--replay") { do_replay = true; for (auto& c : split(next())) replay.push_back(atoi(c.c_str())); }
        else if (a == "--list") list = true;
        else die("unknown argument %s", a.c_str());
    }
    st::find(); statics_size = st::bytes();
    if (list) { for (int c = 0; c < h_nconfigs(); ++c) printf("%s\n", h_config_name(c)); return 0; }
    outcomes = new std::set<u64>;
    h_config(config);
    SZ = h_sizes();
    if (SZ.hashed > SZ.total || SZ.blocks > MAXB || (SZ.hashed & 7)) die("bad sizes");
    SLOT = SZ.slot; SLOT_SH = __builtin_ctzll(SLOT); NB = SZ.blocks;
    size_t root_map = (SZ.total + 4095) & ~size_t(4095);
    if (mmap((void*)ROOT_ADDR, root_map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void*)ROOT_ADDR) die("mmap root");
    if (mmap((void*)ARENA_ADDR, SLOT * NB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != (void*)ARENA_ADDR) die("mmap arena");
    ARENA_END = ARENA_ADDR + SLOT * NB;
    static char alt[1 << 16];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
    sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, nullptr);
    itimerval tv{{4, 0}, {4, 0}}; setitimer(ITIMER_REAL, &tv, nullptr);
    std::set_terminate(on_terminate);

    double t0 = now();
    if (!guarded([] { h_init(); })) { printf("FAIL init %s: %s\n", fail_cat, fail_msg); die("initialization failed: %s: %s", fail_cat, fail_msg); }
    canon(); collect();
    int nops = h_nops();

    if (do_replay) {
        verbose = true;
        printf("replaying %zu operations, configuration %s\n", replay.size(), h_config_name(config));
        std::string where = "initial state"; bool o;
        for (size_t k = 0; k <= replay.size(); ++k) {
            std::string c;
            bool last = k == replay.size();
            bool bad = false;
            if (!last) {
                int op = replay[k];
                if (op < 0 || op >= nops || !h_enabled(op)) die("operation %d of the history is not possible", op);
                printf("  %2zu. %s\n", k + 1, opname(op).c_str());
                where = "operation"; ++steps_done;
                bad = !guarded([op] { h_apply(op); });
                if (!bad) { canon(); where = "after operation"; bad = !guarded([] { in_world = false; collect(); }); }
            }
            // the state is checked before every step: with the exploration, every visited state was
            if (!bad) { bool ok = check_state(o, where, 0); if (ok) ok = check_state(o, where, 1); bad = !ok; }
            if (bad) {
                printf("VIOLATED (%s, %s): %s\n", fail_cat, where.c_str(), fail_msg);
                return 1;
            }
            if (last) break;
        }
        printf("no violation\n");
        return 0;
    }

    Set128 seen; u64 transitions = 0, pruned = 0; std::map<std::string, Failure> fails; std::map<std::string, u64> fcount;
    std::vector<u64> op_hits(nops, 0);
    bool complete = true, stop = false; int depth_done = 0;
    std::string stop_reason;
    auto record = [&](const std::string& where, u32 idx, int op) {
        ++pruned; ++fcount[fail_cat];
        if (!fails.count(fail_cat)) { Failure f{fail_cat, fail_msg, where, history(idx, op)}; fails[fail_cat] = f; }
        if (matches(cats, fail_cat)) { stop = true; complete = false; stop_reason = "violation found"; }
    };
    std::vector<std::pair<u32, Snap>> cur, nxt;
    nodes.push_back({0, 0, 0, canon()});
    seen.insert(nodes[0].key);
    Snap initial; save(initial);
    { std::string where; bool o; if (!check_state(o, where, 0)) record(where, 0, -1); }
    { Snap s; save(s); cur.emplace_back(0, std::move(s)); }
    std::vector<u32> sample_ids;
    int depth = 0;
    while (!cur.empty() && !stop) {
        if (depth >= max_depth_arg) { complete = false; stop_reason = "depth bound"; break; }
        for (size_t ci = 0; ci < cur.size() && !stop; ++ci) {
            u32 idx = cur[ci].first; const Snap& s = cur[ci].second;
            restore(s);
            bool fresh = true;
            for (int op = 0; op < nops && !stop; ++op) {
                if (!fresh) { restore(s); fresh = true; }
                if (!h_enabled(op)) continue;
                fresh = false;
                ++transitions; ++op_hits[op]; ++steps_done;
                if (!guarded([op] { h_apply(op); })) { record("operation", idx, op); continue; }
                Key k = canon();
                if (!guarded([] { in_world = false; collect(); })) { record("after operation", idx, op); continue; }
                if (!seen.insert(k)) continue;
                u32 id = u32(nodes.size());
                nodes.push_back({idx, u16(op), u16(depth + 1), k});
                std::string where; bool o = false;
                Snap ns; save(ns);
                if (!check_state(o, where, id & 1)) { record(where, id, -1); if (!o) continue; }
                nxt.emplace_back(id, std::move(ns));
                if (nodes.size() >= max_states) { stop = true; complete = false; stop_reason = "state bound"; }
            }
            cur[ci].second = Snap();
            if ((ci & 63) == 0 && now() - t0 > max_secs) { stop = true; complete = false; stop_reason = "time bound"; }
        }
        if (!stop) depth_done = ++depth;
        cur.swap(nxt); nxt.clear();
    }
    // validation of the search itself: the histories of visited states, executed on the real code from the
    // initial state to the end without any saving or restoring, lead to the same states
    u64 validated = 0, validated_steps = 0;
    if (stop_reason != "violation found") {
        u32 n = u32(nodes.size()), count = n < 400 ? n : 400;
        for (u32 k = 1; k <= count; ++k) {
            u32 id = u32(u64(n - 1) * k / count);
            if (!id) continue;
            restore(initial);
            for (int op : history(id, -1)) {
                ++steps_done; ++validated_steps;
                bool same = h_enabled(op) && guarded([op] { h_apply(op); });
                if (!same) die("a history does not repeat: %s", opname(op).c_str());
                canon(); collect();
            }
            if (!(canon() == nodes[id].key)) die("a history does not lead to the state it led to before");
            ++validated;
        }
    }
    // report
    int unused = 0; for (auto h : op_hits) unused += !h;
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) die("cannot write %s", out.c_str());
    fprintf(f, "{\"config\": \"%s\", \"states\": %zu, \"transitions\": %llu, \"complete\": %s, \"stop_reason\": \"%s\", \"depth_complete\": %d, \"ops\": %d, \"ops_never_enabled\": %d, \"outcomes\": %zu, \"pruned\": %llu, \"reuse\": %s, \"validated\": %llu, \"validated_steps\": %llu, \"wall_s\": %.2f,\n",
        h_config_name(config), nodes.size(), (unsigned long long)transitions, complete ? "true" : "false", stop_reason.c_str(), depth_done, nops, unused, outcomes->size(), (unsigned long long)pruned, reuse_mode ? "true" : "false", (unsigned long long)validated, (unsigned long long)validated_steps, now() - t0);
    auto print_hist = [&](const std::vector<int>& h) {
        fprintf(f, "\"ops\": [");
        for (size_t i = 0; i < h.size(); ++i) fprintf(f, "%s%d", i ? "," : "", h[i]);
        fprintf(f, "], \"history\": [");
        for (size_t i = 0; i < h.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", esc(opname(h[i])).c_str());
        fprintf(f, "]");
    };
    fprintf(f, " \"failures\": [");
    bool first = true;
    for (auto& kv : fails) {
        fprintf(f, "%s\n  {\"cat\": \"%s\", \"count\": %llu, \"where\": \"%s\", \"msg\": \"%s\", ", first ? "" : ",", kv.first.c_str(), (unsigned long long)fcount[kv.first], kv.second.where.c_str(), esc(kv.second.msg).c_str());
        print_hist(kv.second.hist); fprintf(f, "}"); first = false;
    }
    fprintf(f, "],\n \"samples\": [");
    for (int k = 1; k <= 2; ++k) {
        u32 id = u32(nodes.size() * k / 2); if (id >= nodes.size()) id = u32(nodes.size() - 1);
        fprintf(f, "%s{", k == 1 ? "" : ", "); print_hist(history(id, -1)); fprintf(f, "}");
    }
    fprintf(f, "],\n \"never\": [");
    first = true;
    for (int op = 0; op < nops && unused; ++op) if (!op_hits[op]) { fprintf(f, "%s\"%s\"", first ? "" : ", ", esc(opname(op)).c_str()); first = false; }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f); else fflush(f);
    _exit(0);
}
