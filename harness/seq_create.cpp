// Creation of owned objects: where they are (PART 0), how they are constructed (PART 1, and PART 2 for demanding types).
// FAM: as in families.h, and 4: a control block which is large and strictly aligned
#if FAM == 4
#undef FAM
#define FAM 2
#define FAT 1
#endif
#if defined FAT
#define CBF CBF_unused
#define SP SP_unused
#define WP WP_unused
#endif
#include "families.h"
#if defined FAT
#undef CBF
#undef SP
#undef WP
#undef FAM_NAME
#define FAM_NAME "large control block"
struct alignas(64) Fat : xmem::control_block_base<xmem::atomic_ref_count> { uint64_t pay[23]; Fat() { for (auto& p : pay) p = 0xFA7; } ~Fat() { for (auto p : pay) if (p != 0xFA7) sq::fail("align", "the control block was overwritten"); if (reinterpret_cast<uintptr_t>(this) % 64) sq::fail("align", "the control block is not aligned"); } };
using CBF = xmem::control_block_factory<Fat>;
template <typename T> using SP = xmem::basic_shared_ptr<CBF, T>;
template <typename T> using WP = xmem::basic_weak_ptr<CBF, T>;
#endif

// --- the ways to make shared objects ------------------------------------------------------------
#if IS_STD
template <typename T, typename... A> auto c_make(A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
template <typename T> auto c_makefo() { return std::shared_ptr<T>(new T); }
template <typename T> auto c_makeptr(T&& t) { return xstd::make_shared_ptr(std::forward<T>(t)); }
template <typename T, typename... A> auto c_alloc(uint64_t id, A&&... a) { return std::allocate_shared<T>(UAlloc<char>(id), std::forward<A>(a)...); }
template <typename T> auto c_allocfo(uint64_t id) { auto p = new T; return std::shared_ptr<T>(p, std::default_delete<T>(), UAlloc<char>(id)); }
template <typename T, typename U> auto c_adoptalloc(uint64_t id, U& u) { return adopt_alloc<T>(id, u); }
template <typename T, typename... A> auto c_unique(A&&... a) { return std::make_unique<T>(std::forward<A>(a)...); }
template <typename T> auto c_uniquefo() { return std::unique_ptr<T>(new T); }
template <typename T> auto c_uniqueptr(T&& t) { return xstd::make_unique_ptr(std::forward<T>(t)); }
#else
#if FAM == 0
template <typename T, typename... A> auto c_make(A&&... a) { return xmem::make_shared<T>(std::forward<A>(a)...); }
template <typename T> auto c_makefo() { return xmem::make_shared_for_overwrite<T>(); }
template <typename T> auto c_makeptr(T&& t) { return xmem::make_shared_ptr(std::forward<T>(t)); }
#elif FAM == 1
template <typename T, typename... A> auto c_make(A&&... a) { return xmem::make_local_shared<T>(std::forward<A>(a)...); }
template <typename T> auto c_makefo() { return xmem::make_local_shared_for_overwrite<T>(); }
template <typename T> auto c_makeptr(T&& t) { return xmem::make_local_shared_ptr(std::forward<T>(t)); }
#else
template <typename T, typename... A> auto c_make(A&&... a) { return SP<T>(CBF::make_resource_cb<T>(xmem::allocator<char>{}, std::forward<A>(a)...)); }
template <typename T> auto c_makefo() { return SP<T>(CBF::make_resource_cb_for_overwrite<T>(xmem::allocator<char>{})); }
template <typename T> auto c_makeptr(T&& t) { return SP<std::remove_reference_t<T>>(CBF::make_resource_cb<std::remove_reference_t<T>>(xmem::allocator<char>{}, std::forward<T>(t))); }
#endif
template <typename T, typename... A> auto c_alloc(uint64_t id, A&&... a) { return SP<T>(CBF::make_resource_cb<T>(UAlloc<char>(id), std::forward<A>(a)...)); }
template <typename T> auto c_allocfo(uint64_t id) { return SP<T>(CBF::make_resource_cb_for_overwrite<T>(UAlloc<char>(id))); }
template <typename T, typename U> auto c_adoptalloc(uint64_t id, U& u) { return SP<T>(CBF::make_uptr_cb(u, UAlloc<char>(id))); }
template <typename T, typename... A> auto c_unique(A&&... a) { return xmem::make_unique<T>(std::forward<A>(a)...); }
template <typename T> auto c_uniquefo() { return xmem::make_unique_for_overwrite<T>(); }
template <typename T> auto c_uniqueptr(T&& t) { return xmem::make_unique_ptr(std::forward<T>(t)); }
#endif

constexpr int NS = 2;
struct MObj { void* p; uint32_t size, ty; uint64_t pat, id; };
struct World {
    struct H { void* w[2]; } h[NS];
    MObj* m[NS];
    // not part of the state
    void *made; uint64_t nmade, throwing;
};
static World& W = *reinterpret_cast<World*>(sq::ROOT_ADDR);
static SP<void>& Hs(int k) { return *std::launder(reinterpret_cast<SP<void>*>(&W.h[k])); }
static const void* dying; // the destructor expected next
static int ndied;
static bool failing; // what was made may be destroyed again
static void died(const void* p) {
    if (failing && p == W.made && !dying) dying = p;
    if (!dying || p != dying) sq::fail("life", "an object is destroyed which should not be");
    if (ndied++) sq::fail("life", "an object is destroyed twice");
}
struct Dies { // exactly one object dies in this scope
    Dies(const void* p) { dying = p; ndied = 0; }
    void done() { if (dying && !ndied) sq::fail("life", "an object was not destroyed"); dying = nullptr; ndied = 0; }
};
static void made(void* p) {
    if (W.nmade++) sq::fail("create", "more than one object is constructed");
    W.made = p;
}
static void expect_none() { W.nmade = 0; W.made = nullptr; dying = nullptr; ndied = 0; }

// where the object is
static void placed(const void* p, size_t size, size_t align, const char* what) {
    if (p != W.made) sq::fail("create", "%s: the handle does not point to the object which was constructed", what);
    if (reinterpret_cast<uintptr_t>(p) % align) sq::fail("align", "%s: the object is at %p, which is not aligned to %zu", what, p, align);
    char* b = static_cast<char*>(sq::block_begin(p));
    if (!b) sq::fail("align", "%s: the object is not in live storage", what);
    if (static_cast<const char*>(p) + size > b + sq::block_size(p)) sq::fail("align", "%s: the object of %zu bytes at offset %ld exceeds its storage of %zu bytes", what, size, long(static_cast<const char*>(p) - b), sq::block_size(p));
    for (auto m : W.m) if (m && static_cast<char*>(m->p) < static_cast<const char*>(p) + size && static_cast<const char*>(p) < static_cast<char*>(m->p) + m->size) sq::fail("align", "%s: the object overlaps another one", what);
}
template <typename P> static void sole(const P& p, const char* what) { if (p.use_count() != 1) sq::fail("create", "%s: the use count is %ld and not 1", what, p.use_count()); }

enum Way : int { MAKE, MAKEFO, ALLOC, ALLOCFO, UNIQUE, UNIQUEFO, RAW, ADOPTALLOC, NWAYS };
const char* const wname[] = {"make", "make for overwrite", "make with allocator", "make for overwrite with allocator", "make_unique", "make_unique_for_overwrite", "adopt new", "adopt with allocator"};
constexpr uint64_t ALLOC_ID = 7;

#if PART == 0
// --- sizes and alignments -----------------------------------------------------------------------
template <size_t S, size_t A> struct alignas(A) Box {
    unsigned char b[S];
    Box() { made(this); if (W.throwing) throw ObjError{}; for (size_t i = 0; i < S; ++i) b[i] = static_cast<unsigned char>(S * 7 + A * 3 + i); }
    ~Box() { check(this); for (auto& x : b) x = 0xDD; died(this); }
    Box(const Box&) = delete;
    static void check(const void* p) {
        auto s = static_cast<const Box*>(p);
        for (size_t i = 0; i < S; ++i) if (s->b[i] != static_cast<unsigned char>(S * 7 + A * 3 + i)) sq::fail("align", "the object is overwritten at offset %zu", i);
    }
};
template <typename T> static SP<T> create(Way w) {
    switch (w) {
    case MAKE: return c_make<T>();
    case MAKEFO: return c_makefo<T>();
    case ALLOC: return c_alloc<T>(ALLOC_ID);
    case ALLOCFO: return c_allocfo<T>(ALLOC_ID);
    case UNIQUE: return SP<T>(c_unique<T>());
    case UNIQUEFO: { auto u = c_uniquefo<T>(); placed(u.get(), sizeof(T), alignof(T), "make_unique_for_overwrite"); return SP<T>(std::move(u)); }
    case RAW: return SP<T>(new T);
    case ADOPTALLOC: { auto u = c_unique<T>(); placed(u.get(), sizeof(T), alignof(T), "make_unique"); return c_adoptalloc<T>(ALLOC_ID, u); }
    default: sq::fail("engine", "?");
    }
}
static bool from_alloc(Way w) { return w == ALLOC || (w == ALLOCFO && !IS_STD); }
template <typename T> static void op_create(int k, Way w, uint32_t ty) {
    int before = sq::live_blocks(), tagged = sq::live_blocks_tagged(ALLOC_ID);
    SP<T> p = create<T>(w);
    const char* what = wname[w];
    placed(p.get(), sizeof(T), alignof(T), what);
    sole(p, what);
    int nb = sq::live_blocks() - before, nt = sq::live_blocks_tagged(ALLOC_ID) - tagged;
    if (from_alloc(w)) { if (nt != nb) sq::fail("alloc", "%s: %d pieces of storage of %d are from the allocator", what, nt, nb); }
    else if (w == ADOPTALLOC) { if (nt != nb - 1 || !nt) sq::fail("alloc", "%s: %d pieces of storage are from the allocator", what, nt); }
    else if (w != ALLOCFO && nt) sq::fail("alloc", "%s: storage from an allocator nobody asked for", what);
    auto m = static_cast<MObj*>(sq::model_alloc(sizeof(MObj)));
    *m = MObj{p.get(), sizeof(T), ty, 0, uint64_t(w)};
    memset(p.get()->b, 0, 0);
    { SP<T> q = p; WP<T> v = q; auto l = v.lock(); if (p.use_count() != 3 || l.get() != p.get()) sq::fail("create", "%s: the bookkeeping does not work", what); }
    T::check(p.get());
    Hs(k) = std::move(p);
    W.m[k] = m;
}
template <typename T> static void op_faults(Way w) { // every allocation fails, then the constructor
    int before = sq::live_blocks();
    for (int i = 1;; ++i) {
        expect_none();
        bool thrown = false, fired;
        sq::fail_alloc(i);
        failing = true;
        try {
            SP<T> p = create<T>(w);
            fired = sq::fault_fired(); sq::fail_alloc(0); failing = false;
            if (fired) sq::fail("fault", "%s: allocation %d failed and the caller does not know", wname[w], i);
            Dies d(W.made); p.reset(); d.done();
        } catch (std::bad_alloc&) {
            fired = sq::fault_fired(); sq::fail_alloc(0); thrown = true; failing = false;
            if (int(W.nmade) != ndied) sq::fail("fault", "%s: %d objects are made but %d destroyed when allocation %d fails", wname[w], int(W.nmade), ndied, i);
            if (!fired) sq::fail("fault", "%s: bad_alloc without reason", wname[w]);
        }
        if (sq::live_blocks() != before) sq::fail("leak", "%s: storage is leaked when allocation %d fails", wname[w], i);
        if (!thrown) break;
        if (i > 4) sq::fail("engine", "too many allocations");
    }
    expect_none(); W.throwing = 1;
    bool thrown = false;
    try { SP<T> p = create<T>(w); } catch (ObjError&) { thrown = true; }
    W.throwing = 0;
    if (!thrown) sq::fail("fault", "%s: the error of the constructor does not reach the caller", wname[w]);
    if (sq::live_blocks() != before) sq::fail("leak", "%s: storage is leaked when the constructor fails", wname[w]);
}
// the bare allocator
template <typename T> static void op_bare(size_t n) {
    xmem::allocator<T> a; xmem::allocator<char> c(a);
    int before = sq::live_blocks();
    const size_t most = size_t(-1) / sizeof(T);
    T* p = nullptr; bool thrown = false;
    try { p = a.allocate(n); } catch (std::bad_alloc&) { thrown = true; }
    if (n > most / 2) {
        if (!thrown) sq::fail("alloc", "storage for %zu objects of %zu bytes is %zu bytes", n, sizeof(T), sq::block_size(p));
        return;
    }
    if (thrown) sq::fail("alloc", "no storage for %zu objects of %zu bytes", n, sizeof(T));
    if (reinterpret_cast<uintptr_t>(p) % alignof(T)) sq::fail("align", "the allocator's storage for %zu objects is at %p, which is not aligned to %zu", n, static_cast<void*>(p), alignof(T));
    if (!sq::is_live(p) || sq::block_begin(p) != p || sq::block_size(p) < n * sizeof(T)) sq::fail("align", "the allocator's storage for %zu objects of %zu bytes is %zu bytes", n, sizeof(T), sq::block_size(p));
    for (size_t i = 0; i < n * sizeof(T); ++i) reinterpret_cast<unsigned char*>(p)[i] = static_cast<unsigned char>(i);
    T* q = a.allocate(n);
    if (q == p) sq::fail("align", "the allocator's storage is given twice");
    a.deallocate(p, n);
    xmem::allocator<T> b(c);
    b.deallocate(q, n);
    if (sq::live_blocks() != before) sq::fail("leak", "the allocator does not release its storage");
}
struct Op { int k; Way w; uint32_t ty; int kind; size_t n; void (*mk)(int, Way, uint32_t); void (*ft)(Way); void (*bare)(size_t); void (*chk)(const void*); char name[48]; };
static std::vector<Op> all, ops;
static void (*checks[64])(const void*);
template <size_t S, size_t A> static void reg(uint32_t ty) {
    using T = Box<S, A>;
    checks[ty] = &T::check;
    for (int w = 0; w < NWAYS; ++w) {
        for (int k = 0; k < NS; ++k) { Op o{k, Way(w), ty, 0, 0, &op_create<T>, nullptr, nullptr, nullptr, {}}; snprintf(o.name, sizeof o.name, "size %zu alignment %zu", S, A); all.push_back(o); }
        Op o{0, Way(w), ty, 1, 0, nullptr, &op_faults<T>, nullptr, nullptr, {}}; snprintf(o.name, sizeof o.name, "size %zu alignment %zu", S, A); all.push_back(o);
    }
    size_t most = size_t(-1) / sizeof(T);
    // the last three do not fit the address space
    for (size_t n : {size_t(0), size_t(1), size_t(2), size_t(3), size_t(7), most, most + 1, most + 3}) {
        if (n < most && n > 7) continue;

        Op o{0, MAKE, ty, 2, n, nullptr, nullptr, &op_bare<T>, nullptr, {}}; snprintf(o.name, sizeof o.name, "size %zu alignment %zu", S, A); all.push_back(o);
    }
}
template <size_t S> static void regs(uint32_t ty) { reg<S, 1>(ty); reg<S, 2>(ty + 1); reg<S, 4>(ty + 2); reg<S, 8>(ty + 3); reg<S, 16>(ty + 4); reg<S, 32>(ty + 5); reg<S, 64>(ty + 6); reg<S, 128>(ty + 7); reg<S, 256>(ty + 8); }
static bool some(uint32_t ty) { return ty == 0 || ty == 9 + 3 || ty == 18 + 4 || ty == 27 + 7 || ty == 36 + 4 || ty == 48; }
struct Config { const char* name; bool full; };
static const Config confs[] = {{"sizes and alignments", false}, {"deep: sizes and alignments, all pairs", true}};
extern "C" {
int h_nconfigs() { return 2; }
const char* h_config_name(int c) { static std::string s; s = std::string(FAM_NAME) + ": " + confs[c].name; return s.c_str(); }
void h_config(int c) {
    all.clear(); ops.clear();
    regs<1>(0); regs<8>(9); regs<17>(18); regs<100>(27); regs<300>(36);
    reg<1, 512>(45); reg<24, 1024>(46); reg<17, 2048>(47); reg<8, 4096>(48);
    for (auto& o : all) if (o.kind || !o.k || confs[c].full || some(o.ty)) ops.push_back(o);
    for (int k = 0; k < NS; ++k) { Op o{}; o.k = k; o.kind = 3; ops.push_back(o); }
}
sq::Sizes h_sizes() { return {offsetof(World, made), sizeof(World), 65536, 64}; }
void h_opname(int op, char* b, size_t n) {
    auto& o = ops[op];
    if (o.kind == 0) snprintf(b, n, "h%d = %s %s", o.k, wname[o.w], o.name);
    else if (o.kind == 1) snprintf(b, n, "%s %s, failing", wname[o.w], o.name);
    else if (o.kind == 2) snprintf(b, n, "allocator<T>::allocate(%zu) %s", o.n, o.name);
    else snprintf(b, n, "h%d.reset()", o.k);
}
bool h_enabled(int op) {
    auto& o = ops[op];
    if (o.kind == 0) return !W.m[o.k];
    if (o.kind == 3) return W.m[o.k];
    if (o.kind == 1 && IS_STD && (o.w == ADOPTALLOC || o.w == UNIQUE || o.w == UNIQUEFO || o.w == RAW || o.w == ALLOCFO || o.w == MAKEFO)) return false; // what becomes of the object differs
    return !W.m[0] && !W.m[1];
}
static void drop(int k) { Dies d(W.m[k] ? W.m[k]->p : nullptr); W.m[k] = nullptr; Hs(k).reset(); d.done(); }
void h_apply(int op) {
    auto& o = ops[op];
    expect_none();
    switch (o.kind) {
    case 0: o.mk(o.k, o.w, o.ty); break;
    case 1: o.ft(o.w); break;
    case 2: o.bare(o.n); break;
    case 3: drop(o.k); break;
    }
}
#else
// --- arguments ----------------------------------------------------------------------------------
struct Arg { uint64_t v; };
static Arg args[5];
enum Cat : int { LV, CLV, RV, CRV };
template <typename X> constexpr int cat_of = std::is_lvalue_reference_v<X> ? (std::is_const_v<std::remove_reference_t<X>> ? CLV : LV) : std::is_const_v<std::remove_reference_t<X>> ? CRV : RV;
static int got_cat[5]; static const void* got_addr[5]; static int got_n;

struct Tr { // told of its arguments
    uint64_t magic, how;
    void init(uint64_t h) { made(this); if (W.throwing) throw ObjError{}; magic = 0x712ACE; how = h; }
    Tr() { got_n = 0; init(100); }
    template <typename... X, typename = std::enable_if_t<(sizeof...(X) > 0) && (std::is_same_v<std::decay_t<X>, Arg> && ...)>>
    explicit Tr(X&&... x) {
        int i = 0;
        ((got_cat[i] = cat_of<X>, got_addr[i] = &x, ++i), ...);
        got_n = i; init(101);
    }
    Tr(const Tr& o) { if (o.magic != 0x712ACE) sq::fail("create", "copied from a dead object"); init(102); }
    Tr(Tr& o) { if (o.magic != 0x712ACE) sq::fail("create", "copied from a dead object"); init(103); }
    Tr(Tr&& o) { if (o.magic != 0x712ACE) sq::fail("create", "moved from a dead object"); init(104); o.how = 999; }
    ~Tr() { if (magic != 0x712ACE) sq::fail("life", "destroyed twice or damaged"); magic = 0; died(this); }
};
struct MO { // can only be moved
    uint64_t magic, v;
    explicit MO(uint64_t x) : magic(0x303), v(x) { made(this); }
    MO(MO&& o) : magic(0x303), v(o.v) { made(this); if (W.throwing) throw ObjError{}; o.v = 0; }
    ~MO() { if (magic != 0x303) sq::fail("life", "destroyed twice or damaged"); magic = 0; died(this); }
};
struct TakesMO { // takes a move-only argument by value
    uint64_t v;
    struct A { uint64_t v; explicit A(uint64_t x) : v(x) {} A(A&& o) : v(o.v) { o.v = 0; } };
    explicit TakesMO(A a) : v(a.v) { made(this); if (W.throwing) throw ObjError{}; }
    ~TakesMO() { died(this); }
};
struct IL { // parentheses and braces differ
    uint64_t how, a, b;
    IL(int x, int y) : how(1), a(x), b(y) { made(this); }
    IL(std::initializer_list<int> l) : how(2), a(l.size()), b(0) { made(this); }
    IL() : how(3), a(0), b(0) { made(this); }
    ~IL() { died(this); }
};
struct P { uint64_t x, y; ~P() { died(this); } }; // not initialised by default
struct N { uint64_t x = 5, y; ~N() { died(this); } }; // partly
struct Amp { // with an operator& of its own
    uint64_t v[4];
    Amp() { for (auto& x : v) x = 0xA3; made(this); }
    ~Amp() { for (auto x : v) if (x != 0xA3) sq::fail("align", "the object is overwritten"); died(this); }
    Amp* operator&() { return this + 1; }
    const Amp* operator&() const { return this + 1; }
};
struct OwnNew { // with an operator new of its own: not to be used for objects in the bookkeeping
    uint64_t v;
    OwnNew() : v(0x0E3) { made(this); }
    ~OwnNew() { died(this); }
    static void* operator new(size_t n) { return ::operator new(n); }
    static void operator delete(void* p) { ::operator delete(p); }
};
struct Base { uint64_t v = 3; virtual ~Base() {} };

// the helpers which forward arguments
struct HMake { static constexpr const char* name = "make"; static constexpr bool sh = true; template <typename T, typename... A> static auto call(A&&... a) { return c_make<T>(std::forward<A>(a)...); } };
struct HAlloc { static constexpr const char* name = "make with allocator"; static constexpr bool sh = true; template <typename T, typename... A> static auto call(A&&... a) { return c_alloc<T>(ALLOC_ID, std::forward<A>(a)...); } };
struct HUnique { static constexpr const char* name = "make_unique"; static constexpr bool sh = false; template <typename T, typename... A> static auto call(A&&... a) { return c_unique<T>(std::forward<A>(a)...); } };
struct HPtr { static constexpr const char* name = "make ptr"; static constexpr bool sh = true; template <typename T> static auto call(T&& t) { return c_makeptr(std::forward<T>(t)); } };
struct HUPtr { static constexpr const char* name = "make_unique_ptr"; static constexpr bool sh = false; template <typename T> static auto call(T&& t) { return c_uniqueptr(std::forward<T>(t)); } };
struct HMakeFo { static constexpr const char* name = "make for overwrite"; static constexpr bool sh = true; template <typename T> static auto call() { return c_makefo<T>(); } };
struct HAllocFo { static constexpr const char* name = "make for overwrite with allocator"; static constexpr bool sh = true; template <typename T> static auto call() { return c_allocfo<T>(ALLOC_ID); } };
struct HUniqueFo { static constexpr const char* name = "make_unique_for_overwrite"; static constexpr bool sh = false; template <typename T> static auto call() { return c_uniquefo<T>(); } };

struct Op { int k, fault, kind; void (*run)(int, int); std::string name; };
static std::vector<Op> ops;
static int slot; // where to keep it, or -1: let go at once

// keeps what was made, or disposes of it
template <typename T, typename R> static void keep(R&& r, const char* what, uint32_t ty, bool logged = true) {
    if (!logged) { W.made = const_cast<std::remove_const_t<T>*>(std::addressof(*r)); W.nmade = 1; }
    if (W.nmade != 1) sq::fail("create", "%s: %d objects are constructed", what, int(W.nmade));
    placed(r.get(), sizeof(T), alignof(T), what);
    auto m = static_cast<MObj*>(sq::model_alloc(sizeof(MObj)));
    *m = MObj{const_cast<std::remove_const_t<T>*>(r.get()), sizeof(T), ty, 0, 0};
    if constexpr (std::is_const_v<T>) { Dies d(m->p); { R x(std::move(r)); } d.done(); } // not for a handle to void
    else { Hs(slot) = std::move(r); W.m[slot] = m; }
}
template <typename R, typename Want> static void is_type(const char* what) { if (!std::is_same_v<R, Want>) sq::fail("create", "%s: the result is of another type", what); }
template <typename H, typename T> using Res = std::conditional_t<H::sh, SP<T>, UP<T>>;
template <typename H, typename R> static void sole_if(const R& r) { if constexpr (H::sh) sole(r, H::name); }

// runs f with faults: 0 none, 1.. the allocation fails, -1 the constructor fails
template <typename F, typename C> static void attempt(int fault, const char* what, F f, C untouched) {
    if (!fault) { f(); return; }
    int before = sq::live_blocks();
    bool thrown = false;
    expect_none();
    if (fault > 0) sq::fail_alloc(fault); else W.throwing = 1;
    try { f(); } catch (std::bad_alloc&) { thrown = fault > 0; } catch (ObjError&) { thrown = fault < 0; }
    bool fired = fault < 0 || sq::fault_fired();
    sq::fail_alloc(0); W.throwing = 0;
    if (!fired) sq::fail("engine", "nothing to fail");
    if (!thrown) sq::fail("fault", "%s: the error does not reach the caller", what);
    if (fault > 0 && W.nmade) sq::fail("fault", "%s: an object is constructed without storage", what);
    if (sq::live_blocks() != before) sq::fail("leak", "%s: storage is leaked when the creation fails", what);
    untouched();
}
template <int C> static decltype(auto) pass(Arg& a) {
    if constexpr (C == LV) return (a);
    else if constexpr (C == CLV) return std::as_const(a);
    else if constexpr (C == RV) return std::move(a);
    else return std::move(std::as_const(a));
}
template <typename H, int... C> struct Fwd {
    template <size_t... I> static auto go(std::index_sequence<I...>) { return H::template call<Tr>(pass<C>(args[I])...); }
    static void run(int k, int fault) {
        slot = k; got_n = -1;
        const int want[] = {C..., 0};
        attempt(fault, H::name, [&] {
            auto r = go(std::make_index_sequence<sizeof...(C)>());
            is_type<decltype(r), Res<H, Tr>>(H::name);
            if (got_n != int(sizeof...(C))) sq::fail("create", "%s: %d arguments arrive instead of %d", H::name, got_n, int(sizeof...(C)));
            if (r->how != (sizeof...(C) ? 101 : 100)) sq::fail("create", "%s: the wrong constructor is called", H::name);
            for (int i = 0; i < int(sizeof...(C)); ++i) {
                if (got_addr[i] != &args[i]) sq::fail("create", "%s: argument %d is not what was given but a copy", H::name, i);
                if (got_cat[i] != want[i]) sq::fail("create", "%s: argument %d arrives in another value category", H::name, i);
            }
            sole_if<H>(r);
            keep<Tr>(std::move(r), H::name, 1);
        }, [] {});
    }
};
template <typename H, int C> static void run_ptr(int k, int fault) { // make_..._ptr
    slot = k;
    alignas(Tr) unsigned char mem[sizeof(Tr)];
    W.nmade = 0; Tr& src = *new (mem) Tr; W.nmade = 0; src.how = 55;
    auto unchanged = [&] { if (src.how != 55 || src.magic != 0x712ACE) sq::fail("create", "%s: the argument is changed", H::name); };
    attempt(fault, H::name, [&] {
        auto chk = [&](auto r, uint64_t how) {
            if (r->how != how) sq::fail("create", "%s: the wrong constructor is called", H::name);
            sole_if<H>(r);
            if (how == 104) { if (src.how != 999) sq::fail("create", "%s: the argument is not moved from", H::name); }
            else unchanged();
            using T = typename decltype(r)::element_type;
            keep<T>(std::move(r), H::name, 1);
        };
        if constexpr (C == LV) { auto r = H::call(src); is_type<decltype(r), Res<H, Tr>>(H::name); chk(std::move(r), 103); }
        if constexpr (C == RV) { auto r = H::call(std::move(src)); is_type<decltype(r), Res<H, Tr>>(H::name); chk(std::move(r), 104); }
        if constexpr (C == CLV && (!H::sh || IS_STD)) { auto r = H::call(std::as_const(src)); is_type<decltype(r), Res<H, const Tr>>(H::name); chk(std::move(r), 102); }
    }, unchanged);
    { Dies d(&src); src.~Tr(); d.done(); }
}
template <typename H> static void run_moptr(int k, int fault) {
    slot = k;
    alignas(MO) unsigned char mem[sizeof(MO)];
    W.nmade = 0; MO& src = *new (mem) MO(77); W.nmade = 0;
    attempt(fault, H::name, [&] {
        auto r = H::call(std::move(src));
        is_type<decltype(r), Res<H, MO>>(H::name);
        if (r->v != 77 || src.v) sq::fail("create", "%s: the argument is not moved", H::name);
        keep<MO>(std::move(r), H::name, 2);
    }, [&] { if (src.v != 77) sq::fail("create", "%s: the argument is changed", H::name); });
    { Dies d(&src); src.~MO(); d.done(); }
}
template <typename H> static void run_takes(int k, int fault) {
    slot = k;
    TakesMO::A a(78);
    attempt(fault, H::name, [&] {
        auto r = H::template call<TakesMO>(std::move(a));
        if (r->v != 78 || a.v) sq::fail("create", "%s: the argument is not moved", H::name);
        keep<TakesMO>(std::move(r), H::name, 3);
    }, [&] { if (fault > 0 && a.v != 78) sq::fail("create", "%s: the argument is changed", H::name); });
}
template <typename H> static void run_il(int k, int fault) {
    slot = k;
    attempt(fault, H::name, [&] {
        auto r = H::template call<IL>(3, 4);
        if (r->how != 1 || r->a != 3 || r->b != 4) sq::fail("create", "%s: the wrong constructor is called", H::name);
        keep<IL>(std::move(r), H::name, 4);
    }, [] {});
}
template <typename H> static void run_il0(int k, int fault) {
    slot = k;
    attempt(fault, H::name, [&] {
        auto r = H::template call<IL>();
        if (r->how != 3) sq::fail("create", "%s: the wrong constructor is called", H::name);
        keep<IL>(std::move(r), H::name, 4);
    }, [] {});
}
template <typename H, bool OVER> static void run_plain(int k, int fault) {
    slot = k;
    attempt(fault, H::name, [&] {
        auto r = H::template call<P>();
        const uint64_t want = OVER ? 0xA5A5A5A5A5A5A5A5ull : 0;
        if (r->x != want || r->y != want) sq::fail("create", OVER ? "%s: the object is not default initialised" : "%s: the object is not value initialised", H::name);
        sole_if<H>(r);
        r->x = r->y = 1;
        keep<P>(std::move(r), H::name, 5, false);
    }, [] {});
}
template <typename H, bool OVER> static void run_part(int k, int fault) {
    slot = k;
    attempt(fault, H::name, [&] {
        auto r = H::template call<N>();
        if (r->x != 5) sq::fail("create", "%s: the object is not initialised", H::name);
        if (OVER && r->y != 0xA5A5A5A5A5A5A5A5ull) sq::fail("create", "%s: the object is not default initialised", H::name);
        r->y = 1;
        keep<N>(std::move(r), H::name, 6, false);
    }, [] {});
}
template <typename H> static void run_int(int k, int fault) { // not a class
    int before = sq::live_blocks();
    attempt(fault, H::name, [&] {
        auto r = H::template call<uint64_t>();
        if (*r) sq::fail("create", "%s: a number is not value initialised", H::name);
        auto q = H::template call<uint64_t>(41);
        if (*q != 41 || *r) sq::fail("create", "%s: a number is not initialised", H::name);
    }, [] {});
    if (sq::live_blocks() != before) sq::fail("leak", "%s: the storage of a number is not released", H::name);
}
template <typename H> static void run_pointer(int k, int fault) { // an object which is a pointer, moved and copied
    int before = sq::live_blocks();
    attempt(fault, H::name, [&] {
        uint64_t x = 3; uint64_t* px = &x;
        auto r = H::template call<uint64_t*>(px);
        if (*r != &x || px != &x) sq::fail("create", "%s: a pointer is not copied", H::name);
        auto s = H::template call<const uint64_t*>(std::move(px));
        if (*s != &x) sq::fail("create", "%s: a pointer is not moved", H::name);
        uint64_t y = 0; 
        struct Ref { uint64_t& r; Ref(uint64_t& x) : r(x) {} };
        auto q = H::template call<Ref>(y); q->r = 9;
        if (y != 9) sq::fail("create", "%s: a reference is not bound to the argument", H::name);
    }, [] {});
    if (sq::live_blocks() != before) sq::fail("leak", "%s: the storage of a pointer is not released", H::name);
}
template <typename H> static void run_amp(int k, int fault) {
    slot = k;
    attempt(fault, H::name, [&] {
        auto r = H::template call<Amp>();
        sole_if<H>(r);
        keep<Amp>(std::move(r), H::name, 7);
    }, [] {});
}
template <typename H> static void run_ownnew(int k, int fault) {
    slot = k;
    attempt(fault, H::name, [&] {
        auto r = H::template call<OwnNew>();
        if (r->v != 0x0E3) sq::fail("create", "%s: the object is not constructed", H::name);
        sole_if<H>(r);
        keep<OwnNew>(std::move(r), H::name, 8);
    }, [] {});
}
static void add(void (*run)(int, int), std::string name, int maxfault = 1, bool ctorfault = true, bool once = false) {
    for (int k = 0; k < (once ? 1 : NS); ++k) ops.push_back({k, 0, once ? 1 : 0, run, "h" + std::to_string(k) + " = " + name});
    for (int f = 1; f <= maxfault; ++f) ops.push_back({0, f, 1, run, name + " without memory " + std::to_string(f)});
    if (ctorfault) ops.push_back({0, -1, 1, run, name + " with failing constructor"});
}
template <typename H, int... C> static void fwd() { static const char* cn[] = {"&", "const&", "&&", "const&&"}; std::string s = std::string(H::name) + " from ("; ((s += std::string(" ") + cn[C]), ...); add(&Fwd<H, C...>::run, s + ")"); }
template <typename H, int A> static void fwd2() { fwd<H, A, 0>(); fwd<H, A, 1>(); fwd<H, A, 2>(); fwd<H, A, 3>(); }
template <typename H> static void fwds() {
    std::string n = H::name;
#if PART == 1
    fwd<H>(); fwd<H, 0>(); fwd<H, 1>(); fwd<H, 2>(); fwd<H, 3>(); fwd2<H, 0>(); fwd2<H, 1>(); fwd2<H, 2>(); fwd2<H, 3>();
    fwd<H, 0, 0, 2>(); fwd<H, 0, 2, 0>(); fwd<H, 2, 0, 0>(); fwd<H, 2, 2, 0>(); fwd<H, 2, 1, 0>(); fwd<H, 3, 2, 1>(); fwd<H, 0, 1, 2, 3, 0>(); fwd<H, 2, 2, 2, 2, 2>();
    add(&run_il<H>, n + " (3, 4) with list constructor", 1, false); add(&run_il0<H>, n + " () with list constructor", 1, false);
    add(&run_plain<H, false>, n + " of a plain type", 1, false); add(&run_part<H, false>, n + " of a type with member initialiser", 1, false); add(&run_int<H>, n + " of a number", 2, false, true);
#else
    add(&run_takes<H>, n + " of a type which takes a move-only argument"); add(&run_pointer<H>, n + " of a pointer", 2, false, true);
    add(&run_amp<H>, n + " of a type with operator&", 1, false); add(&run_ownnew<H>, n + " of a type with operator new", 1, false);
#endif
}
template <typename H> static void fos() {
    std::string n = H::name;
#if PART == 1
    fwd<H>(); add(&run_il0<H>, n + " with list constructor", 1, false); add(&run_plain<H, true>, n + " of a plain type", 1, false); add(&run_part<H, true>, n + " of a type with member initialiser", 1, false);
#else
    add(&run_amp<H>, n + " of a type with operator&", 1, false); add(&run_ownnew<H>, n + " of a type with operator new", 1, false);
#endif
}
extern "C" {
int h_nconfigs() { return 1; }
const char* h_config_name(int) { return PART == 1 ? FAM_NAME ": arguments" : FAM_NAME ": arguments, demanding types"; }
void h_config(int) {
    ops.clear();
    fwds<HMake>(); fwds<HAlloc>(); fwds<HUnique>(); fos<HMakeFo>(); fos<HUniqueFo>();
    if (!IS_STD) fos<HAllocFo>();
#if PART == 1
    add(&run_ptr<HPtr, LV>, "make ptr from &"); add(&run_ptr<HPtr, RV>, "make ptr from &&");
    if (IS_STD) add(&run_ptr<HPtr, CLV>, "make ptr from const&");
    add(&run_ptr<HUPtr, LV>, "make_unique_ptr from &"); add(&run_ptr<HUPtr, CLV>, "make_unique_ptr from const&"); add(&run_ptr<HUPtr, RV>, "make_unique_ptr from &&");
#else
    add(&run_moptr<HPtr>, "make ptr of move-only"); add(&run_moptr<HUPtr>, "make_unique_ptr of move-only");
#endif
    for (int k = 0; k < NS; ++k) ops.push_back({k, 0, 2, nullptr, "h" + std::to_string(k) + ".reset()"});
}
sq::Sizes h_sizes() { return {offsetof(World, made), sizeof(World), 1024, 64}; }
void h_opname(int op, char* b, size_t n) { snprintf(b, n, "%s", ops[op].name.c_str()); }
bool h_enabled(int op) {
    auto& o = ops[op];
    if (o.kind == 0) return !W.m[o.k];
    if (o.kind == 2) return W.m[o.k];
    return !W.m[0] && !W.m[1];
}
static void drop(int k) { Dies d(W.m[k] ? W.m[k]->p : nullptr); W.m[k] = nullptr; Hs(k).reset(); d.done(); }
void h_apply(int op) {
    auto& o = ops[op];
    expect_none();
    if (o.kind == 2) drop(o.k); else o.run(o.k, o.fault);
}
#endif
void h_init() { for (int k = 0; k < NS; ++k) new (&W.h[k]) SP<void>(); }
int h_nops() { return int(ops.size()); }
void h_observe() {
    for (int k = 0; k < NS; ++k) {
        if (Hs(k).get() != (W.m[k] ? W.m[k]->p : nullptr)) sq::fail("value", "h%d has the wrong value", k);
        if (Hs(k).use_count() != (W.m[k] ? 1 : 0)) sq::fail("count", "h%d has the wrong use count", k);
#if PART == 0
        if (W.m[k]) checks[W.m[k]->ty](W.m[k]->p);
#endif
    }
}
void h_end(int order) {
    expect_none();
    for (int i = 0; i < NS; ++i) { int k = order ? NS - 1 - i : i; drop(k); Hs(k).~SP<void>(); }
}
}
