// Arrays owned by unique and shared pointers.
#include "families.h"

constexpr int MAXN = 3;
enum Ty : uint32_t { TE, TV, TI }; // with constructor, without (but with destructor), trivial
struct MArr { uint32_t n, ty, state, strong, weak, dels; void* base; };
constexpr int MAXA = 6;
struct World {
    struct H { void* w[2]; } u[2], d[2], v, i, s[2], w, e, cv, t[2];
    MArr *mu[2], *md[2], *mv, *mi, *ms[2], *mw, *me, *mcv, *mt[2]; // t: shared, of a trivial type
    uint32_t mdid[2]; uint32_t eidx, pad;
    // not part of the state
    MArr* tab[MAXA];
    MArr* cur; // being constructed
    uint64_t built, throw_at;
};
static World& W = *reinterpret_cast<World*>(sq::ROOT_ADDR);

struct Ev { int kind; const void* a; uint64_t b; };
enum { EV_DTOR, EV_DISPOSE };
static Ev evs[64]; static int nev, iev;
static void expect(int kind, const void* a, uint64_t b) { evs[nev++] = {kind, a, b}; }
static void happened(int kind, const void* a, uint64_t b) {
    if (iev == nev) sq::fail(kind == EV_DTOR ? "life" : "deleter", kind == EV_DTOR ? "an element is destroyed which should not be" : "a deleter is called which should not be");
    Ev& e = evs[iev++];
    if (e.kind != kind) sq::fail("deleter", "elements are destroyed without the deleter or the other way round");
    if (e.a != a) sq::fail(kind == EV_DTOR ? "life" : "deleter", "element %p is destroyed instead of %p", a, e.a);
    if (e.b != b) sq::fail("deleter", "an array is disposed of by deleter %d instead of %d", int(b), int(e.b));
}
static MArr* by_addr(const void* p) { for (auto a : W.tab) if (a && a->base == p) return a; return nullptr; }

struct E {
    uint64_t magic = 0xE1, pay = 5;
    E() {
        MArr* a = W.cur;
        if (!a) sq::fail("create", "an element is constructed which nobody asked for");
        if (W.throw_at && W.built + 1 == W.throw_at) {
            magic = 0;
            for (int i = int(W.built); i-- > 0;) expect(EV_DTOR, static_cast<E*>(a->base) + i, 0); // those made are destroyed in reverse
            throw ObjError{};
        }
        if (!W.built) a->base = this;
        else if (static_cast<E*>(a->base) + W.built != this) sq::fail("create", "elements are constructed in the wrong order or place");
        ++W.built;
    }
    ~E() {
        if (magic != 0xE1) sq::fail("life", "an element is destroyed twice or damaged");
        magic = 0;
        happened(EV_DTOR, this, 0);
    }
    E(const E&) = delete;
};
struct V { // value initialization makes a difference
    uint64_t x, y;
    ~V() { happened(EV_DTOR, this, 0); }
};
struct ADel {
    uint64_t id;
    ADel() : id(9) {}
    explicit ADel(uint64_t i) : id(i) {}
    ADel(const ADel& o) noexcept : id(o.id) {}
    ADel(ADel&& o) noexcept : id(o.id) { o.id = 0; }
    ADel& operator=(ADel&& o) noexcept { if (&o != this) { id = o.id; o.id = 0; } return *this; }
    void operator()(E* p) const noexcept {
        MArr* a = by_addr(p);
        if (!a) sq::fail("deleter", "a deleter is called for an array which does not exist");
        happened(EV_DISPOSE, a, id);
        delete[] p;
    }
};
using U = UP<E[]>; using UD = UP<E[], ADel>; using UV = UP<V[]>; using UI = UP<uint64_t[]>;
template <typename T, typename R> static T& at(R& r) { return *std::launder(reinterpret_cast<T*>(&r)); }
#if IS_STD
template <typename T> static auto mk(size_t n) { return std::make_unique<T>(n); }
template <typename T> static auto mkfo(size_t n) { return std::unique_ptr<T>(new std::remove_extent_t<T>[n]); }
#else
template <typename T> static auto mk(size_t n) { return xmem::make_unique<T>(n); }
template <typename T> static auto mkfo(size_t n) { return xmem::make_unique_for_overwrite<T>(n); }
#endif
static MArr* m_new(uint32_t n, uint32_t ty) {
    for (auto& t : W.tab) if (!t) {
        auto a = static_cast<MArr*>(sq::model_alloc(sizeof(MArr)));
        a->n = n; a->ty = ty; a->state = 1; a->strong = 1; t = a; W.cur = a; W.built = 0;
        return a;
    }
    sq::fail("engine", "model table full");
}
static void m_destroy(MArr* a, uint64_t del = 0) {
    if (!a) return;
    if (del) expect(EV_DISPOSE, a, del);
    if (a->ty == TE) for (int i = int(a->n); i-- > 0;) expect(EV_DTOR, static_cast<E*>(a->base) + i, 0);
    if (a->ty == TV) for (int i = int(a->n); i-- > 0;) expect(EV_DTOR, static_cast<V*>(a->base) + i, 0);
    a->state = 3;
}
static void m_drop(MArr*& a) { MArr* x = a; a = nullptr; if (x && --x->strong == 0) m_destroy(x, x->dels); }
static void m_wdrop(MArr*& a) { MArr* x = a; a = nullptr; if (x) --x->weak; }
static void m_set(MArr*& to, MArr* from) { if (from) ++from->strong; MArr* old = to; to = from; m_drop(old); }

enum Code : uint8_t { U_MK, U_MKFO, U_RAW, U_RESETNEW, U_RESET, U_NULL, U_MOVE, U_SWAP, U_RELEASE, U_CTOR, U_THROW, U_FAULT,
    D_RAW, D_RESETNEW, D_RESET, D_MOVE, D_SWAP, V_MK, V_MKFO, V_RESET, I_MK, I_MKFO, I_RESET,
    S_FROMU, S_FROMD, S_RAW, S_RESETNEW, S_DEL, S_COPY, S_MOVE, S_RESET, S_ELEM, E_RESET, W_SET, W_LOCK, C_SET, C_RESET, S_FAULT_U, S_FAULT_D, S_FAULT_RAW, I_RAW, I_RESETNEW, T_FROMI, T_RAW, T_RESETNEW, T_COPY, T_MOVE, T_RESET, S_NULL };
const char* const cname[] = {"u = make_unique<E[]>", "u = make_unique_for_overwrite<E[]>", "u = unique(new E[])", "u.reset(new E[])", "u.reset()", "u = nullptr", "u = move", "u.swap", "delete[] u.release()", "u = U(move)", "make_unique<E[]> with throwing element", "make_unique<E[]> without memory",
    "d = unique(new E[], deleter)", "d.reset(new E[])", "d.reset()", "d = move", "d.swap", "v = make_unique<V[]>", "v = make_unique_for_overwrite<V[]>", "v.reset()", "i = make_unique<uint64_t[]>", "i = make_unique_for_overwrite<uint64_t[]>", "i.reset()",
    "s = move(u)", "s = move(d)", "s = shared(new E[])", "s.reset(new E[])", "s = shared(new E[], deleter)", "s = copy", "s = move", "s.reset()", "e = element of s", "e.reset()", "w = s", "s = w.lock()", "cv = s", "cv.reset()", "s = move(u) without memory", "s = move(d) without memory", "s = shared(new E[]) without memory", "i = unique(new uint64_t[])", "i.reset(new uint64_t[])", "t = move(i)", "t = shared(new uint64_t[])", "t.reset(new uint64_t[])", "t = copy", "t = move", "t.reset()", "null arrays adopted"};
struct OpD { Code c; int8_t a, b; int32_t n; };
static std::vector<OpD> ops;
struct Config { const char* name; bool uniq, shared; int limit; std::vector<int> lens; size_t slot = 1024; int blocks = 64; };
static const Config confs[] = {{"unique arrays", true, false, 2}, {"shared arrays", false, true, 2}, {"deep: unique and shared arrays", true, true, 2},
    {"trivial arrays", false, false, 3, {0, 1, 2}}, {"long trivial arrays", false, false, 2, {0, 1, 127, 128, 129, 255, 256, 257, 300}, 4096}, {"very long trivial arrays", false, false, 2, {1, 65535, 65537}, size_t(1) << 20, 12}};
static Config cfg;
static int narr() { int n = 0; for (auto a : W.tab) n += !!a; return n; }

static U& Us(int k) { return at<U>(W.u[k]); }
static UD& Ds(int k) { return at<UD>(W.d[k]); }
static UV& Vs() { return at<UV>(W.v); }
static UI& Is() { return at<UI>(W.i); }
static SP<E[]>& Ss(int k) { return at<SP<E[]>>(W.s[k]); }
static WP<E[]>& Ws() { return at<WP<E[]>>(W.w); }
static SP<E>& Es() { return at<SP<E>>(W.e); }
static SP<uint64_t[]>& Ts(int k) { return at<SP<uint64_t[]>>(W.t[k]); }
static SP<void>& Cs() { return at<SP<void>>(W.cv); }

template <typename P> static void look(const char* what, const P& p, MArr* a) {
    void* want = a ? a->base : nullptr;
    if (p.get() != want) sq::fail("value", "%s has the wrong value", what);
    if (bool(p) != !!want) sq::fail("value", "%s has the wrong truth value", what);
    if (!a) return;
    for (uint32_t i = 0; i < a->n; ++i) if (&p[i] != p.get() + i) sq::fail("value", "%s: indexing yields the wrong element", what);
}
extern "C" {
int h_nconfigs() { return sizeof confs / sizeof *confs; }
const char* h_config_name(int c) { static std::string s; s = std::string(FAM_NAME) + ": " + confs[c].name; return s.c_str(); }
void h_config(int c) {
    cfg = confs[c]; ops.clear();
    auto add = [](Code c, int a = 0, int b = -1, int n = -1) { ops.push_back({c, int8_t(a), int8_t(b), n}); };
    for (int n : cfg.lens) { add(I_MK, 0, -1, n); add(I_MKFO, 0, -1, n); add(I_RAW, 0, -1, n); add(I_RESETNEW, 0, -1, n); for (int k = 0; k < 2; ++k) { add(T_RAW, k, -1, n); add(T_RESETNEW, k, -1, n); } }
    if (!cfg.lens.empty()) {
        add(I_RESET);
        for (int k = 0; k < 2; ++k) { add(T_FROMI, k); add(T_RESET, k); for (int g = 0; g < 2; ++g) { add(T_COPY, k, g); add(T_MOVE, k, g); } }
        return;
    }
    for (int n = 0; n <= MAXN; ++n) {
        for (int k = 0; k < 2; ++k) {
            add(U_MK, k, -1, n);
            if (cfg.uniq) { add(U_MKFO, k, -1, n); add(U_RAW, k, -1, n); add(U_RESETNEW, k, -1, n); for (int t = 1; t <= n; ++t) add(U_THROW, k, t, n); add(U_FAULT, k, 1, n); }
            add(D_RAW, k, 1, n);
            if (cfg.uniq) { add(D_RAW, k, 2, n); add(D_RESETNEW, k, -1, n); }
            if (cfg.shared) { add(S_RAW, k, -1, n); add(S_RESETNEW, k, -1, n); add(S_DEL, k, 1, n); add(S_FAULT_RAW, k, -1, n); }
        }
        if (cfg.uniq) { add(V_MK, 0, -1, n); add(V_MKFO, 0, -1, n); add(I_MK, 0, -1, n); add(I_MKFO, 0, -1, n); }
    }
    for (int k = 0; k < 2; ++k) {
        add(U_RESET, k); add(D_RESET, k);
        if (cfg.uniq) { add(U_NULL, k); add(U_RELEASE, k); for (int g = 0; g < 2; ++g) { add(U_MOVE, k, g); add(U_SWAP, k, g); add(D_MOVE, k, g); add(D_SWAP, k, g); if (g != k) add(U_CTOR, k, g); } }
        if (cfg.shared) {
            add(S_FROMU, k); add(S_FROMD, k); add(S_RESET, k); add(W_SET, k); add(W_LOCK, k); add(C_SET, k); add(S_FAULT_U, k); add(S_FAULT_D, k);
            for (int g = 0; g < 2; ++g) { add(S_COPY, k, g); add(S_MOVE, k, g); }
            for (int n = 0; n < MAXN; ++n) add(S_ELEM, k, -1, n);
        }
    }
    if (cfg.uniq) { add(V_RESET); add(I_RESET); }
    if (cfg.shared) for (int k = 0; k < 3; ++k) add(S_NULL, k);
    if (cfg.shared) { add(E_RESET); add(C_RESET); }
}
sq::Sizes h_sizes() { return {offsetof(World, tab), sizeof(World), cfg.slot, cfg.blocks}; }
void h_init() {
    for (int k = 0; k < 2; ++k) { new (&W.u[k]) U(); new (&W.d[k]) UD(); new (&W.s[k]) SP<E[]>(); new (&W.t[k]) SP<uint64_t[]>(); W.mdid[k] = 9; }
    new (&W.v) UV(); new (&W.i) UI(); new (&W.w) WP<E[]>(); new (&W.e) SP<E>(); new (&W.cv) SP<void>();
}
int h_nops() { return int(ops.size()); }
void h_opname(int op, char* b, size_t n) {
    auto& d = ops[op];
    snprintf(b, n, "[%d] %s %s%s%s", d.a, cname[d.c], d.b >= 0 ? std::to_string(d.b).c_str() : "", d.n >= 0 ? " n=" : "", d.n >= 0 ? std::to_string(d.n).c_str() : "");
}
bool h_enabled(int op) {
    auto& d = ops[op];
    bool room = narr() < cfg.limit;
    switch (d.c) {
    case U_MK: case U_MKFO: case U_RAW: case U_RESETNEW: case D_RAW: case V_MK: case V_MKFO: case I_MK: case I_MKFO: case S_RAW: case S_RESETNEW: case S_DEL: case U_THROW: case U_FAULT: case S_FAULT_RAW: case I_RAW: case I_RESETNEW: case T_RAW: case T_RESETNEW: return room;
    case D_RESETNEW: return room && W.mdid[d.a];
    case U_RELEASE: return W.mu[d.a];
    case S_FROMU: case S_FAULT_U: return W.mu[d.a];
    case S_FROMD: case S_FAULT_D: return W.md[d.a];
    case T_FROMI: return W.mi;
    case S_ELEM: return W.ms[d.a] && int(W.ms[d.a]->n) > d.n;
    default: return true;
    }
}
static void forget(MArr* a) { for (auto& t : W.tab) if (t == a) t = nullptr; W.cur = nullptr; }
static void note_base(MArr* a, void* p, const char* what) {
    if (!p) sq::fail("value", "%s yields null", what);
    if (a->base && a->base != p) sq::fail("value", "%s does not point to the first element", what);
    a->base = p;
    void* b = sq::block_begin(p);
    if (!b) sq::fail("mem", "%s is not in live storage", what);
    if (!sq::block_is_array(p)) sq::fail("form", "%s is not in storage obtained for an array", what);
    size_t es = a->ty == TE ? sizeof(E) : a->ty == TV ? sizeof(V) : sizeof(uint64_t);
    if (static_cast<char*>(p) + es * a->n > static_cast<char*>(b) + sq::block_size(p)) sq::fail("align", "%s: the elements do not fit the storage", what);
}
static void cur_done(MArr* a, void* p, const char* what) {
    if (a->ty == TE && W.built != a->n) sq::fail("create", "%d elements are constructed instead of %d", int(W.built), int(a->n));
    note_base(a, p, what);
    W.cur = nullptr; W.built = 0;
}
static E* raw(MArr* a) { E* p = new E[a->n]; cur_done(a, p, "new"); return p; }
static uint64_t* raw_t(MArr* a) { auto p = new uint64_t[a->n]; cur_done(a, p, "new"); for (uint32_t i = 0; i < a->n; ++i) p[i] = i; return p; }
void h_apply(int op) {
    OpD d = ops[op];
    nev = iev = 0; W.cur = nullptr; W.built = 0; W.throw_at = 0;
    sq::set_group(d.c >= S_FROMU && d.c != I_RAW && d.c != I_RESETNEW ? "sharray" : "array");
    switch (d.c) {
    case U_MK: case U_MKFO: {
        MArr* a = m_new(d.n, TE);
        U t = d.c == U_MK ? mk<E[]>(d.n) : mkfo<E[]>(d.n);
        cur_done(a, t.get(), "the array");
        m_destroy(W.mu[d.a]); W.mu[d.a] = a; Us(d.a) = std::move(t);
        if (t) sq::fail("value", "a moved from pointer is not null");
    } break;
    case U_RAW: { MArr* a = m_new(d.n, TE); E* p = raw(a); m_destroy(W.mu[d.a]); W.mu[d.a] = a; Us(d.a) = U(p); } break;
    case U_RESETNEW: { MArr* a = m_new(d.n, TE); E* p = raw(a); m_destroy(W.mu[d.a]); W.mu[d.a] = a; Us(d.a).reset(p); } break;
    case U_RESET: m_destroy(W.mu[d.a]); W.mu[d.a] = nullptr; Us(d.a).reset(); break;
    case U_NULL: m_destroy(W.mu[d.a]); W.mu[d.a] = nullptr; Us(d.a) = nullptr; break;
    case U_MOVE: if (d.a != d.b) { m_destroy(W.mu[d.a]); W.mu[d.a] = W.mu[d.b]; W.mu[d.b] = nullptr; } { U& to = Us(d.a); to = std::move(Us(d.b)); } break;
    case U_CTOR: m_destroy(W.mu[d.a]); W.mu[d.a] = W.mu[d.b]; W.mu[d.b] = nullptr; { U t(std::move(Us(d.b))); Us(d.a) = std::move(t); } break;
    case U_SWAP: std::swap(W.mu[d.a], W.mu[d.b]); Us(d.a).swap(Us(d.b)); break;
    case U_RELEASE: { MArr* a = W.mu[d.a]; W.mu[d.a] = nullptr; E* p = Us(d.a).release(); if (p != a->base) sq::fail("value", "release returns the wrong pointer"); m_destroy(a); delete[] p; } break;
    case U_THROW: {
        MArr* a = m_new(d.n, TE);
        int before = sq::live_blocks();
        W.throw_at = d.b;
        bool thrown = false;
        try { U t = mk<E[]>(d.n); } catch (ObjError&) { thrown = true; }
        if (!thrown) sq::fail("fault", "the error of an element's constructor does not reach the caller");
        if (iev != nev) sq::fail("fault", "elements which were made are not destroyed when the constructor of another fails");
        if (sq::live_blocks() != before) sq::fail("leak", "the storage is not released when the constructor of an element fails");
        forget(a);
    } break;
    case U_FAULT: {
        MArr* a = m_new(d.n, TE);
        bool thrown = false;
        sq::fail_alloc(1);
        try { U t = mk<E[]>(d.n); } catch (std::bad_alloc&) { thrown = true; }
        sq::fail_alloc(0);
        if (!thrown) sq::fail("fault", "the lack of memory is not reported");
        forget(a);
    } break;
    case D_RAW: { MArr* a = m_new(d.n, TE); E* p = raw(a); m_destroy(W.md[d.a], W.mdid[d.a]); W.md[d.a] = a; W.mdid[d.a] = d.b; Ds(d.a) = UD(p, ADel(d.b)); } break;
    case D_RESETNEW: { MArr* a = m_new(d.n, TE); E* p = raw(a); m_destroy(W.md[d.a], W.mdid[d.a]); W.md[d.a] = a; Ds(d.a).reset(p); } break;
    case D_RESET: m_destroy(W.md[d.a], W.mdid[d.a]); W.md[d.a] = nullptr; Ds(d.a).reset(); break;
    case D_MOVE: if (d.a != d.b) { m_destroy(W.md[d.a], W.mdid[d.a]); W.md[d.a] = W.md[d.b]; W.md[d.b] = nullptr; W.mdid[d.a] = W.mdid[d.b]; W.mdid[d.b] = 0; } { UD& to = Ds(d.a); to = std::move(Ds(d.b)); } break;
    case D_SWAP: if (d.a != d.b) { std::swap(W.md[d.a], W.md[d.b]); std::swap(W.mdid[d.a], W.mdid[d.b]); Ds(d.a).swap(Ds(d.b)); } break;
    case V_MK: case V_MKFO: {
        MArr* a = m_new(d.n, TV);
        UV t = d.c == V_MK ? mk<V[]>(d.n) : mkfo<V[]>(d.n);
        cur_done(a, t.get(), "the array");
        const uint64_t want = d.c == V_MK ? 0 : 0xA5A5A5A5A5A5A5A5ull;
        for (int i = 0; i < d.n; ++i) if (t[i].x != want || t[i].y != want) sq::fail("create", d.c == V_MK ? "an element is not value initialised" : "an element is not default initialised");
        m_destroy(W.mv); W.mv = a; Vs() = std::move(t);
        for (int i = 0; i < d.n; ++i) Vs()[i].x = i;
    } break;
    case V_RESET: m_destroy(W.mv); W.mv = nullptr; Vs().reset(); break;
    case I_MK: case I_MKFO: {
        MArr* a = m_new(d.n, TI);
        UI t = d.c == I_MK ? mk<uint64_t[]>(d.n) : mkfo<uint64_t[]>(d.n);
        cur_done(a, t.get(), "the array");
        const uint64_t want = d.c == I_MK ? 0 : 0xA5A5A5A5A5A5A5A5ull;
        for (int i = 0; i < d.n; ++i) if (t[i] != want) sq::fail("create", d.c == I_MK ? "an element is not value initialised" : "an element is not default initialised");
        if (W.mi) W.mi->state = 3;
        W.mi = a; Is() = std::move(t);
        for (int i = 0; i < d.n; ++i) Is()[i] = i;
    } break;
    case I_RESET: if (W.mi) W.mi->state = 3; W.mi = nullptr; Is().reset(); break;
    case S_FROMU: { MArr* a = W.mu[d.a]; W.mu[d.a] = nullptr; MArr* old = W.ms[d.a]; W.ms[d.a] = a; m_drop(old); Ss(d.a) = std::move(Us(d.a)); } break;
    case S_FROMD: { MArr* a = W.md[d.a]; W.md[d.a] = nullptr; a->dels = W.mdid[d.a]; W.mdid[d.a] = 0; MArr* old = W.ms[d.a]; W.ms[d.a] = a; m_drop(old); Ss(d.a) = std::move(Ds(d.a)); } break;
    case S_RAW: { MArr* a = m_new(d.n, TE); E* p = raw(a); MArr* old = W.ms[d.a]; W.ms[d.a] = a; m_drop(old); Ss(d.a) = SP<E[]>(p); } break;
    case S_RESETNEW: { MArr* a = m_new(d.n, TE); E* p = raw(a); MArr* old = W.ms[d.a]; W.ms[d.a] = a; m_drop(old); Ss(d.a).reset(p); } break;
    case S_DEL: { MArr* a = m_new(d.n, TE); E* p = raw(a); a->dels = d.b; MArr* old = W.ms[d.a]; W.ms[d.a] = a; m_drop(old); Ss(d.a) = SP<E[]>(p, ADel(d.b)); } break;
    case S_COPY: m_set(W.ms[d.a], W.ms[d.b]); { auto& to = Ss(d.a); to = Ss(d.b); } break;
    case S_MOVE: if (d.a != d.b) { MArr* v = W.ms[d.b]; W.ms[d.b] = nullptr; MArr* old = W.ms[d.a]; W.ms[d.a] = v; m_drop(old); } { auto& to = Ss(d.a); to = std::move(Ss(d.b)); } break;
    case S_RESET: m_drop(W.ms[d.a]); Ss(d.a).reset(); break;
    case S_ELEM: m_set(W.me, W.ms[d.a]); W.eidx = d.n; Es() = SP<E>(Ss(d.a), &Ss(d.a)[d.n]); break;
    case E_RESET: m_drop(W.me); Es().reset(); W.eidx = 0; break;
    case W_SET: { MArr* a = W.ms[d.a]; if (a) ++a->weak; m_wdrop(W.mw); W.mw = a; Ws() = Ss(d.a); } break;
    case W_LOCK: { MArr* a = W.mw; if (a && !a->strong) a = nullptr; m_set(W.ms[d.a], a); Ss(d.a) = Ws().lock(); } break;
    case C_SET: m_set(W.mcv, W.ms[d.a]); Cs() = Ss(d.a); break;
    case C_RESET: m_drop(W.mcv); Cs().reset(); break;
    case I_RAW: case I_RESETNEW: {
        MArr* a = m_new(d.n, TI); uint64_t* p = raw_t(a);
        if (W.mi) W.mi->state = 3;
        W.mi = a;
        if (d.c == I_RAW) Is() = UI(p); else Is().reset(p);
    } break;
    case T_RAW: case T_RESETNEW: { MArr* a = m_new(d.n, TI); uint64_t* p = raw_t(a); m_drop(W.mt[d.a]); W.mt[d.a] = a; if (d.c == T_RAW) Ts(d.a) = SP<uint64_t[]>(p); else Ts(d.a).reset(p); } break;
    case T_FROMI: { MArr* a = W.mi; W.mi = nullptr; m_drop(W.mt[d.a]); W.mt[d.a] = a; Ts(d.a) = std::move(Is()); } break;
    case T_COPY: m_set(W.mt[d.a], W.mt[d.b]); { auto& to = Ts(d.a); to = Ts(d.b); } break;
    case T_MOVE: if (d.a != d.b) { MArr* v = W.mt[d.b]; W.mt[d.b] = nullptr; m_drop(W.mt[d.a]); W.mt[d.a] = v; } { auto& to = Ts(d.a); to = std::move(Ts(d.b)); } break;
    case T_RESET: m_drop(W.mt[d.a]); Ts(d.a).reset(); break;
    case S_FAULT_U: case S_FAULT_D: {
        bool thrown = false;
        sq::fail_alloc(1);
        try { if (d.c == S_FAULT_U) Ss(d.a) = std::move(Us(d.a)); else Ss(d.a) = std::move(Ds(d.a)); } catch (std::bad_alloc&) { thrown = true; }
        bool fired = sq::fault_fired();
        sq::fail_alloc(0);
        if (fired && !thrown) sq::fail("fault", "the lack of memory is not reported");
        if (!fired) sq::fail("engine", "no allocation to fail");
    } break;
    case S_NULL: {
        int before = sq::live_blocks();
        {
            SP<E[]> t = d.a == 0 ? SP<E[]>(U()) : d.a == 1 ? SP<E[]>(UD()) : SP<E[]>(static_cast<E*>(nullptr));
            SP<E[]> c(t); WP<E[]> w(c);
            if (t || t.get() || c || c.get() || w.lock()) sq::fail("value", "adopting null yields an array");
            t.reset(); c = Ss(0);
            if (w.lock()) sq::fail("value", "adopting null yields an array");
        }
        if (sq::live_blocks() != before) sq::fail("leak", "storage is leaked when null is adopted");
    } break;
    case S_FAULT_RAW: {
        MArr* a = m_new(d.n, TE); E* p = raw(a);
        m_destroy(a);
        bool thrown = false;
        sq::fail_alloc(1);
        try { Ss(d.a) = SP<E[]>(p); } catch (std::bad_alloc&) { thrown = true; }
        bool fired = sq::fault_fired();
        sq::fail_alloc(0);
        if (!fired) sq::fail("engine", "no allocation to fail");
        if (!thrown) sq::fail("fault", "the lack of memory is not reported");
    } break;
    }
    if (iev != nev) sq::fail(evs[iev].kind == EV_DTOR ? "life" : "deleter", "an element or array was not destroyed");
    for (auto& a : W.tab) if (a && a->state == 3) {
        if (a->base && sq::is_live(a->base)) sq::fail("leak", "the storage of an array is not released");
        a->base = nullptr;
        if (!a->weak) a = nullptr;
    }
}
void h_observe() {
    for (int k = 0; k < 2; ++k) { look("u", Us(k), W.mu[k]); look("d", Ds(k), W.md[k]); look("s", Ss(k), W.ms[k]); if (Ss(k).use_count() != (W.ms[k] ? long(W.ms[k]->strong) : 0)) sq::fail("count", "s has the wrong use count"); }
    for (auto a : W.tab) if (a && a->state == 1 && a->ty == TE) for (uint32_t i = 0; i < a->n; ++i) if (static_cast<E*>(a->base)[i].magic != 0xE1 || static_cast<E*>(a->base)[i].pay != 5) sq::fail("life", "an element is damaged or dead");
    look("v", Vs(), W.mv); look("i", Is(), W.mi);
    if (W.mi) for (uint32_t i = 0; i < W.mi->n; ++i) if (Is()[i] != i) sq::fail("value", "the value of an element is lost");
    for (int k = 0; k < 2; ++k) {
        look("t", Ts(k), W.mt[k]);
        if (W.mt[k]) for (uint32_t i = 0; i < W.mt[k]->n; ++i) if (Ts(k)[i] != i) sq::fail("value", "the value of an element is lost");
        if (Ts(k).use_count() != (W.mt[k] ? long(W.mt[k]->strong) : 0)) sq::fail("count", "t has the wrong use count");
    }
    if (Es().get() != (W.me ? static_cast<E*>(W.me->base) + W.eidx : nullptr)) sq::fail("value", "e has the wrong value");
    if (Cs().get() != (W.mcv ? W.mcv->base : nullptr)) sq::fail("value", "cv has the wrong value");
    if (Ws().use_count() != (W.mw ? long(W.mw->strong) : 0)) sq::fail("weak", "w has the wrong use count");
    auto l = Ws().lock();
    if (l.get() != (W.mw && W.mw->strong ? W.mw->base : nullptr)) sq::fail("weak", "w locks to the wrong value");
}
void h_end(int order) {
    nev = iev = 0; W.cur = nullptr; W.built = W.throw_at = 0;
    auto un = [&](int k) { m_destroy(W.mu[k]); Us(k).~U(); m_destroy(W.md[k], W.mdid[k]); Ds(k).~UD(); };
    auto sh = [&](int k) { m_drop(W.ms[k]); Ss(k).~SP<E[]>(); m_drop(W.mt[k]); Ts(k).~SP<uint64_t[]>(); };
    auto rest = [&] { m_destroy(W.mv); Vs().~UV(); if (W.mi) W.mi->state = 3; Is().~UI(); m_drop(W.me); Es().~SP<E>(); m_drop(W.mcv); Cs().~SP<void>(); m_wdrop(W.mw); Ws().~WP<E[]>(); };
    if (order) { rest(); un(1); sh(1); sh(0); un(0); } else { sh(0); sh(1); un(0); un(1); rest(); }
    if (iev != nev) sq::fail("life", "an element or array was not destroyed");
    for (auto a : W.tab) if (a && a->base && sq::is_live(a->base)) sq::fail("leak", "the storage of an array is not released");
}
}
