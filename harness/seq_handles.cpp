// Histories of strong and weak handles and atomic storages against a reference model.
#include "families.h"
#if IS_STD
using xstd::make_aliased; using xstd::same_owner; using xstd::no_owner;
#else
using xmem::make_aliased; using xmem::same_owner; using xmem::no_owner;
#endif

// --- the types ----------------------------------------------------------------------------------
struct VB { uint64_t mv = 0x11; virtual uint64_t vv() const { return mv; } };
struct A { uint64_t ma = 0x22; virtual uint64_t va() const { return ma; } };
struct B { uint64_t mb = 0x33; virtual uint64_t vb() const { return mb; } };
struct Pad { uint64_t mp = 0x44; };
struct Throw {};
// the complete types; the destructors of the bases are neither virtual nor do they report
struct D : Pad, A, B, virtual VB {
    uint64_t md = 0x55;
    D(); explicit D(Throw); ~D();
    D(const D&) = delete;
};
struct PA : A {
    uint64_t mpa = 0x66;
    PA(); explicit PA(Throw); ~PA();
    PA(const PA&) = delete;
};

// --- the model ----------------------------------------------------------------------------------
enum : uint32_t { ALIVE = 1, DYING, DEAD };
enum Kind { K_MAKE, K_RAW, K_DEL, K_UNIQUE, K_UNIQUE_DEL, K_FUN, K_MAKE_ALLOC, K_ADOPT_ALLOC, K_NULL };
const char* const kind_name[] = {"make_shared", "raw", "raw+deleter", "unique", "unique+deleter", "raw+function", "make with allocator", "unique with allocator"};
struct MObj {
    uint32_t state, cls; // cls: 0 D, 1 PA
    uint32_t kind, dels;
    uint32_t strong, weak;
    void* obj;
    uint64_t done; // constructed
};
struct MVal { MObj* o; void* p; };

constexpr int NS = 7; // 0 A, 1 A, 2 D, 3 B, 4 void, 5 VB, 6 const A
constexpr int NST = 2; // storages of A
const char* const tname[] = {"A", "A", "D", "B", "void", "VB", "const A"};
constexpr int MAXO = 6;

struct World {
    alignas(64) unsigned char st[NST][64];
    struct H { void* w[2]; } s[NS], w[NS];
    MVal ms[NS], mw[NS], mst[NST];
    // not part of the state:
    MObj* tab[MAXO];
    MObj* pending;
    uint64_t throw_obj, last_alias;
};
static World& W = *reinterpret_cast<World*>(sq::ROOT_ADDR);


static MObj* by_addr(const void* p) {
    for (auto o : W.tab) if (o && o->obj == p) return o;
    return nullptr;
}
static void on_ctor(void* p, uint32_t cls) {
    MObj* o = W.pending;
    if (!o) sq::fail("create", "an object is constructed which nobody asked for");
    if (o->obj || o->cls != cls) sq::fail("create", "an object is constructed twice or has the wrong type");
    o->obj = p; o->done = 1;
    W.pending = nullptr;
}
static void on_dtor(void* p) {
    MObj* o = by_addr(p);
    if (!o) sq::fail("life", "a destructor runs for an object which does not exist");
    if (o->state == ALIVE) sq::fail("life", "object destroyed while %u handles own it", o->strong);
    if (o->state == DEAD) sq::fail("life", "object destroyed twice");
    o->state = DEAD;
}
D::D() { on_ctor(this, 0); }
D::D(Throw) { throw ObjError{}; }
D::~D() {
    if (md != 0x55 || ma != 0x22 || mb != 0x33 || mv != 0x11 || mp != 0x44) sq::fail("mem", "the object to destroy is damaged");
    on_dtor(this); md = 0;
}
PA::PA() { on_ctor(this, 1); }
PA::PA(Throw) { throw ObjError{}; }
PA::~PA() { if (mpa != 0x66 || ma != 0x22) sq::fail("mem", "the object to destroy is damaged"); on_dtor(this); mpa = 0; }

static void on_delete(void* p, MObj* bound) {
    MObj* o = by_addr(p);
    if (!o) sq::fail("deleter", "a deleter is called for an object which does not exist");
    if (bound && bound != o) sq::fail("deleter", "a deleter is called for an object it does not belong to");
    if (o->kind != K_DEL && o->kind != K_UNIQUE_DEL && o->kind != K_FUN) sq::fail("deleter", "wrong deleter called");
    if (o->state != DYING) sq::fail("life", "deleter called while the object is %s", o->state == ALIVE ? "owned" : "dead");
    if (o->dels++) sq::fail("deleter", "deleter called twice");
}
template <typename T>
struct Del { // stateful, with storage of its own
    struct State { MObj* o; uint64_t refs; };
    State* s;
    explicit Del(MObj* o) : s(new State{o, 1}) {}
    Del(const Del& d) noexcept : s(d.s) { if (s) ++s->refs; }
    Del(Del&& d) noexcept : s(d.s) { d.s = nullptr; }
    Del& operator=(Del d) noexcept { std::swap(s, d.s); return *this; }
    ~Del() { if (s && !--s->refs) delete s; }
    void operator()(T* p) const {
        if (!s) sq::fail("deleter", "a deleter which was moved away is called");
        on_delete(p, s->o); delete p;
    }
};
template <typename T> void fdel(T* p) { on_delete(p, nullptr); delete p; }

// static targets for aliasing, one of each type
static A gA; static B gB; static VB gVB;
template <typename T> T* stat() {
    if constexpr (std::is_same_v<std::remove_cv_t<T>, A> || std::is_void_v<T>) return &gA;
    else if constexpr (std::is_same_v<T, B>) return &gB;
    else if constexpr (std::is_same_v<T, VB>) return &gVB;
    else return nullptr;
}
// the T inside of the object
template <typename T> T* sub(const MObj* o) {
    if (!o || !o->obj) return nullptr;
    if (o->cls == 0) {
        D* d = static_cast<D*>(o->obj);
        if constexpr (std::is_convertible_v<D*, T*>) return d; else return nullptr;
    }
    PA* a = static_cast<PA*>(o->obj);
    if constexpr (std::is_convertible_v<PA*, T*>) return a; else return nullptr;
}
template <typename T> bool valid(void* p) { // does p point to a living T?
    using N = std::remove_cv_t<T>;
    if (!p) return false;
    if constexpr (std::is_void_v<T>) return true;
    else {
        if (p == (void*)stat<T>()) return true;
        for (auto o : W.tab) if (o && o->state == ALIVE && o->obj && (void*)const_cast<N*>(sub<T>(o)) == p) return true;
        return false;
    }
}
template <typename T> void* vp(T* p) { return const_cast<void*>(static_cast<const void*>(p)); }

// model operations
static MObj* m_new(uint32_t kind, uint32_t cls) {
    for (auto& t : W.tab) if (!t) {
        auto o = static_cast<MObj*>(sq::model_alloc(sizeof(MObj)));
        o->state = ALIVE; o->kind = kind; o->cls = cls;
        t = o; W.pending = o;
        return o;
    }
    sq::fail("engine", "model table full");
}
static void m_drop(MObj* o) { if (o && --o->strong == 0) o->state = DYING; }
static void m_set(MVal& v, MObj* o, void* p) {
    if (o) ++o->strong;
    m_drop(v.o);
    v.o = o; v.p = p;
}
static void m_move(MVal& v, MVal& from, void* p) { // from becomes empty
    MObj* o = from.o;
    from = {};
    m_drop(v.o);
    v.o = o; v.p = p;
}
static void w_set(MVal& v, MObj* o, void* p) {
    if (o) ++o->weak;
    if (v.o) --v.o->weak;
    v.o = o; v.p = o ? p : nullptr;
}
static void w_move(MVal& v, MVal& from, void* p) {
    MObj* o = from.o;
    from = {};
    if (v.o) --v.o->weak;
    v.o = o; v.p = p;
}
// after every operation: the model and the objects agree
static void settle() {
    if (W.pending) sq::fail("create", "no object was constructed");
    for (auto& o : W.tab) {
        if (!o) continue;
        if (o->kind == K_NULL && o->state == DYING) o->state = DEAD;
        if (o->state == DYING) sq::fail("life", "object not destroyed although its last owner is gone");
        if (o->state == DEAD) {
            if (o->dels != (o->kind == K_DEL || o->kind == K_UNIQUE_DEL || o->kind == K_FUN)) sq::fail("deleter", "object destroyed, but not by its deleter");
            bool in_cb = o->kind == K_MAKE || o->kind == K_MAKE_ALLOC;
            if (o->obj && !in_cb && sq::is_live(o->obj)) sq::fail("leak", "object destroyed but its storage is not released");
            if (o->obj && in_cb && o->weak) sq::poison(o->obj, o->cls == 0 ? sizeof(D) : sizeof(PA));
            if (o->obj && in_cb && !o->weak && sq::is_live(o->obj)) sq::fail("leak", "storage not released although the last handle is gone");
            if (!sq::is_live(o->obj)) o->obj = nullptr; // nothing can be wrong with it any more
            if (!o->weak) o = nullptr;
        }
    }
    // what an expired handle points to cannot be observed
    for (auto& v : W.mw) if (v.o && v.o->state != ALIVE) v.p = nullptr;
}

// --- handles by index ---------------------------------------------------------------------------
template <typename T> SP<T>& sref(int i) { return *std::launder(reinterpret_cast<SP<T>*>(&W.s[i])); }
template <typename T> WP<T>& wref(int i) { return *std::launder(reinterpret_cast<WP<T>*>(&W.w[i])); }
static STO<A>& stref(int i) { return *std::launder(reinterpret_cast<STO<A>*>(&W.st[i])); }
static_assert(sizeof(SP<A>) == 16 && sizeof(WP<A>) == 16 && sizeof(STO<A>) <= 64);

template <typename T> struct Tag { using type = T; };
template <typename F> void on_type(int i, F f) {
    switch (i) {
    case 0: case 1: f(Tag<A>{}); break;
    case 2: f(Tag<D>{}); break;
    case 3: f(Tag<B>{}); break;
    case 4: f(Tag<void>{}); break;
    case 5: f(Tag<VB>{}); break;
    case 6: f(Tag<const A>{}); break;
    }
}
#define TT(t) typename decltype(t)::type
static bool same_type(int i, int j) { return i == j || (i < 2 && j < 2); }
static bool conv(int from, int to) { // U* -> T*
    bool r = false;
    on_type(from, [&](auto u) { on_type(to, [&](auto t) { r = std::is_convertible_v<TT(u)*, TT(t)*>; }); });
    return r;
}

// --- operations ---------------------------------------------------------------------------------
enum Code : uint8_t {
    MK, // a: slot, b: kind, c: cls | how << 1 | fault << 4
    CCOPY, CMOVE, ACOPY, AMOVE, SWAP, RESET, RESETN, ANULL, DTOR, CALIAS, AALIAS, MKALIAS, SCAST, CCAST, DCAST, RCAST, LOCK, CLOCK, MKNULL,
    WC_S, WA_S, WCCOPY, WCMOVE, WACOPY, WAMOVE, WSWAP, WRESET, WDTOR, WALIAS_W, WALIAS_S,
    STLOAD, STSTORE, STSTOREM, STEXCH, STCAS, STCTOR
};
const char* const cname[] = {"make", "copy-construct", "move-construct", "copy-assign", "move-assign", "swap", "reset", "reset(nullptr)", "= nullptr", "destroy", "alias-construct", "alias-assign", "make_aliased", "static_pointer_cast", "const_pointer_cast", "dynamic_pointer_cast", "reinterpret_pointer_cast", "= lock", "construct from lock", "construct (nullptr, deleter)",
    "weak construct from strong", "weak assign strong", "weak copy-construct", "weak move-construct", "weak copy-assign", "weak move-assign", "weak swap", "weak reset", "weak destroy", "weak alias of weak", "weak alias of strong",
    "storage load", "storage store copy", "storage store move", "storage exchange", "storage compare_exchange", "storage construct"};
struct OpD { Code c; int8_t a, b; uint8_t x; };
static std::vector<OpD> ops;
enum Fault { F_NONE, F_ALLOC, F_OBJ, F_CB };
enum How { H_CTOR, H_ASSIGN, H_RESET };
enum { P_NULL, P_STATIC, P_OWN, P_N };

struct Config {
    const char* name;
    std::vector<int> s, w;
    int st, nobj;
    std::vector<int> kinds;
    bool faults, aliases, pa;
};
static std::vector<Config> configs() {
    std::vector<Config> v;
    std::vector<int> all = {K_MAKE, K_RAW, K_DEL, K_UNIQUE, K_UNIQUE_DEL, K_FUN, K_MAKE_ALLOC, K_ADOPT_ALLOC};
    std::vector<int> mr = {K_MAKE, K_RAW}, m = {K_MAKE}, d = {K_DEL};
    v.push_back({"kinds: A + weak A, every way to create, faults", {0}, {0}, 0, 2, all, true, true, true});
    v.push_back({"kinds: D,A every way to create, faults", {0, 2}, {}, 0, 2, all, true, false, true});
    v.push_back({"kinds: void + weak VB, every way to create", {4}, {5}, 0, 2, all, true, false, false});
    v.push_back({"A,A + weak A,A", {0, 1}, {0, 1}, 0, 2, mr, false, true, false});
    v.push_back({"A,D + weak A,D", {0, 2}, {0, 2}, 0, 2, m, false, true, false});
    v.push_back({"D,VB + weak D,VB", {2, 5}, {2, 5}, 0, 2, mr, false, true, false});
    v.push_back({"D,B + weak D,B", {2, 3}, {2, 3}, 0, 2, m, false, true, false});
    v.push_back({"A,void + weak A,void", {0, 4}, {0, 4}, 0, 2, m, false, true, true});
    v.push_back({"A,const A + weak A,const A", {0, 6}, {0, 6}, 0, 2, d, false, true, true});
    v.push_back({"A,A,A' + D: strong only", {0, 1, 2}, {}, 0, 3, mr, false, true, false});
    v.push_back({"casts: A,B,VB,D", {0, 2, 3, 5}, {}, 0, 2, m, false, true, true});
    v.push_back({"casts: A,D,void,const A", {0, 2, 4, 6}, {}, 0, 2, m, false, false, true});
    v.push_back({"weak A,A,D + strong D", {2}, {0, 1, 2}, 0, 2, m, false, false, false});
    v.push_back({"weak A,VB,void + strong D", {2}, {0, 4, 5}, 0, 2, m, false, false, false});
    v.push_back({"storage + A,A", {0, 1}, {}, 1, 2, mr, false, true, false});
    v.push_back({"storage + A, D + weak A", {0, 2}, {0}, 1, 2, m, false, true, false});
    v.push_back({"2 storages + A", {0, 1}, {}, 2, 3, m, false, false, false});
    // deeper
    v.push_back({"deep: A,A + weak A,A all kinds", {0, 1}, {0, 1}, 0, 3, {K_MAKE, K_RAW, K_UNIQUE_DEL}, false, true, true});
    v.push_back({"deep: A,D,B + weak A,D,B", {0, 2, 3}, {0, 2, 3}, 0, 2, m, false, false, false});
    v.push_back({"deep: A,D,VB + weak A,D,VB", {0, 2, 5}, {0, 2, 5}, 0, 2, m, false, false, false});
    v.push_back({"deep: A,A,D + weak A,A", {0, 1, 2}, {0, 1}, 0, 3, m, false, true, false});
    v.push_back({"deep: storage 2 + A,A,D + weak A", {0, 1, 2}, {0}, 2, 3, m, false, false, false});
    v.push_back({"deep: every type, strong", {0, 2, 3, 4, 5, 6}, {}, 0, 2, m, false, false, true});
    v.push_back({"deep: every type, weak", {2}, {0, 2, 3, 4, 5, 6}, 0, 2, m, false, false, false});
    return v;
}
static Config cfg;

static void build() {
    ops.clear();
    auto add = [](Code c, int a, int b = -1, int x = 0) { ops.push_back({c, int8_t(a), int8_t(b), uint8_t(x)}); };
    for (int s : cfg.s) for (int k : cfg.kinds) for (int cls = 0; cls < 1 + (cfg.pa && conv(0, s)); ++cls) {
        bool a_like = same_type(s, 0) || s == 4 || s == 6;
        if (cls == 1 && !a_like) continue;
        for (int how = 0; how < 3; ++how) {
            if (how == H_RESET && k != K_RAW && k != K_DEL && k != K_FUN && k != K_UNIQUE && k != K_UNIQUE_DEL) continue;
            if (IS_STD && k == K_ADOPT_ALLOC) continue;
            for (int f = 0; f < 4; ++f) {
                if (f && !cfg.faults) continue;
                if (f == F_OBJ && k != K_MAKE && k != K_MAKE_ALLOC) continue;
                if (f == F_CB && FAM != 2) continue;
                add(MK, s, k, cls | how << 1 | f << 4);
            }
        }
    }
    if (cfg.faults) for (int s : cfg.s) add(MKNULL, s);
    for (int s : cfg.s) {
        for (int t : cfg.s) {
            if (conv(t, s)) {
                if (s != t) { add(CCOPY, s, t); add(CMOVE, s, t); }
                add(ACOPY, s, t); add(AMOVE, s, t);
            }
            if (same_type(s, t) && s <= t) add(SWAP, s, t);
            if (cfg.aliases) {
                for (int p = 0; p < P_N; ++p) {
                    if (p == P_OWN && s == t) continue;
                    if (s != t) add(CALIAS, s, t, p);
                    add(MKALIAS, s, t, p);
                }
                add(AALIAS, s, t, P_STATIC);
            }
            bool sc = false, cc = false, dc = false;
            on_type(s, [&](auto ts) { on_type(t, [&](auto tt) {
                using T = TT(ts); using U = TT(tt);
                if constexpr (std::is_convertible_v<U*, T*>) sc = true;
                if constexpr (std::is_same_v<U, A> && std::is_same_v<T, D>) sc = true;
                if constexpr (std::is_same_v<U, B> && std::is_same_v<T, D>) sc = true;
                if constexpr (std::is_void_v<U> && !std::is_const_v<T>) sc = true;
                if constexpr (std::is_same_v<std::remove_cv_t<U>, std::remove_cv_t<T>>) cc = true;
                if constexpr (std::is_class_v<U> && (!std::is_const_v<U> || std::is_const_v<T>)) dc = true;
            }); });
            if (sc) add(SCAST, s, t);
            if (cc) add(CCAST, s, t);
            if (dc) add(DCAST, s, t);
            if (!IS_STD && cfg.aliases) on_type(s, [&](auto ts) { on_type(t, [&](auto tt) {
                if (std::is_const_v<TT(ts)> || !std::is_const_v<TT(tt)>) add(RCAST, s, t);
            }); });
        }
        add(RESET, s); add(RESETN, s); add(ANULL, s); add(DTOR, s);
        for (int w : cfg.w) if (conv(w, s)) { add(LOCK, s, w); add(CLOCK, s, w); }
    }
    for (int w : cfg.w) {
        for (int s : cfg.s) {
            if (conv(s, w)) { add(WC_S, w, s); add(WA_S, w, s); }
            if (!IS_STD && cfg.aliases) for (int p : {P_NULL, P_STATIC, P_OWN}) add(WALIAS_S, w, s, p);
        }
        for (int t : cfg.w) {
            if (conv(t, w)) {
                if (w != t) { add(WCCOPY, w, t); add(WCMOVE, w, t); }
                add(WACOPY, w, t); add(WAMOVE, w, t);
            }
            if (same_type(w, t) && w <= t) add(WSWAP, w, t);
            if (!IS_STD && cfg.aliases && w != t) for (int p : {P_NULL, P_STATIC}) add(WALIAS_W, w, t, p);
        }
        add(WRESET, w); add(WDTOR, w);
    }
    for (int i = 0; i < cfg.st; ++i) for (int s : cfg.s) {
        if (conv(0, s)) add(STLOAD, i, s);
        if (conv(s, 0)) { add(STSTORE, i, s); add(STSTOREM, i, s); add(STCTOR, i, s); }
        if (same_type(s, 0)) {
            add(STEXCH, i, s);
            for (int t : cfg.s) if (conv(t, 0)) add(STCAS, i, s, t);
        }
    }
}

template <typename T> T* target(int p, const MObj* o) {
    return p == P_NULL ? nullptr : p == P_STATIC ? stat<T>() : const_cast<T*>(sub<T>(o));
}

// put a new object into slot s
template <typename T, typename C> void make_op(int s, int kind, int cls, int how, int fault) {
    SP<T>& h = sref<T>(s);
    if (how == H_CTOR) { m_set(W.ms[s], nullptr, nullptr); h.~SP<T>(); }
    MObj* o = m_new(kind, cls);
    if (fault == F_OBJ) W.pending = nullptr;
    auto expect_loss = [&] { if (o->obj) o->state = DYING; else o->state = DEAD, o->dels = 0; };
    bool ok = false; int err = 0;
    // how the new value gets into the handle
    auto put = [&](auto&& make) {
        if (!fault) { o->strong = 0; m_set(W.ms[s], o, nullptr); }
        else {
            if (kind == K_RAW || kind == K_DEL || kind == K_FUN) expect_loss();
            if (fault == F_ALLOC) sq::fail_alloc(1);
            if (fault == F_CB) Book::throw_in_ctor = true;
        }
        try { make(); ok = true; }
        catch (std::bad_alloc&) { err = F_ALLOC; }
        catch (ObjError&) { err = F_OBJ; }
        catch (CbError&) { err = F_CB; }
        sq::fail_alloc(0); Book::throw_in_ctor = false;
    };
    auto put_value = [&](auto&& make) { put([&] { if (how == H_CTOR) new (&h) SP<T>(make()); else h = make(); }); };
    // what the harness itself allocates is not to fail: before put
    switch (kind) {
    case K_MAKE: put_value([&] { return fault == F_OBJ ? mk_shared<C>(Throw{}) : mk_shared<C>(); }); break;
    case K_MAKE_ALLOC: put_value([&] { return fault == F_OBJ ? mk_shared_alloc<C>(7, Throw{}) : mk_shared_alloc<C>(7); }); break;
    case K_RAW: { C* p = new C; put([&] { if (how == H_CTOR) new (&h) SP<T>(p); else if (how == H_ASSIGN) h = SP<T>(p); else h.reset(p); }); } break;
    case K_DEL: { C* p = new C; Del<C> d{o}; put([&] { if (how == H_CTOR) new (&h) SP<T>(p, d); else if (how == H_ASSIGN) h = SP<T>(p, d); else h.reset(p, d); }); } break;
    case K_FUN: { C* p = new C; put([&] { if (how == H_CTOR) new (&h) SP<T>(p, &fdel<C>); else if (how == H_ASSIGN) h = SP<T>(p, &fdel<C>); else h.reset(p, &fdel<C>); }); } break;
    case K_UNIQUE: {
        UP<C> u(new C); C* p = u.get();
        put([&] { if (how == H_CTOR) new (&h) SP<T>(std::move(u)); else if (how == H_ASSIGN) h = std::move(u); else h = SP<T>(std::move(u)); });
        if (ok && u) sq::fail("value", "the unique pointer is not empty after it was adopted");
        if (!ok && u.get() != p) sq::fail("fault", "the unique pointer lost its object in a failed adoption");
        if (!ok) expect_loss();
    } break;
    case K_UNIQUE_DEL: {
        UP<C, Del<C>> u(new C, Del<C>{o}); C* p = u.get();
        put([&] { if (how == H_CTOR) new (&h) SP<T>(std::move(u)); else if (how == H_ASSIGN) h = std::move(u); else h = SP<T>(std::move(u)); });
        if (ok && u) sq::fail("value", "the unique pointer is not empty after it was adopted");
        if (!ok && u.get() != p) sq::fail("fault", "the unique pointer lost its object in a failed adoption");
        if (!ok) expect_loss();
    } break;
    case K_ADOPT_ALLOC: {
#if !IS_STD
        UP<C> u(new C); C* p = u.get();
        put_value([&] { return adopt_alloc<C>(9, u); });
        if (!ok && u.get() != p) sq::fail("fault", "the unique pointer lost its object in a failed adoption");
        if (!ok) expect_loss();
#endif
    } break;
    }
    if (fault) {
        if (how == H_CTOR && !ok) new (&h) SP<T>();
        if (kind == K_MAKE || kind == K_MAKE_ALLOC) { W.pending = nullptr; expect_loss(); if (o->obj) sq::fail("fault", "an object was constructed in storage which could not be had"); }
        if (ok) sq::fail("fault", "the error did not reach the caller");
        if (err != fault) sq::fail("fault", "a different error reached the caller");
        if (o->obj && o->state == DYING && kind != K_UNIQUE && kind != K_UNIQUE_DEL && kind != K_ADOPT_ALLOC) sq::fail("fault", "the object was not disposed of");
    }
    else {
        if (!ok) sq::fail("fault", "unexpected error");
        W.ms[s].p = vp(sub<T>(o));
        if (!o->obj || !sq::is_live(o->obj)) sq::fail("align", "the object is not in live storage");
        if ((uintptr_t)o->obj % alignof(C)) sq::fail("align", "the object is not aligned");
        if (sq::block_size(o->obj) < sizeof(C)) sq::fail("align", "the object does not fit in its storage");
#if !IS_STD
        auto cb = h.t_owner();
        if (!cb || !sq::is_live(cb)) sq::fail("alloc", "the control block is not in live storage");
        else {
            auto c0 = (uintptr_t)cb, c1 = c0 + sizeof(*cb), o0 = (uintptr_t)o->obj, o1 = o0 + sizeof(C);
            if (c0 < o1 && o0 < c1) sq::fail("align", "the object overlaps its control block");
            if (o1 > (uintptr_t)sq::block_begin(o->obj) + sq::block_size(o->obj)) sq::fail("align", "the object exceeds its storage");
        }
        if (kind == K_MAKE_ALLOC && (sq::get_tag(cb) != 7 || sq::get_tag(o->obj) != 7)) sq::fail("alloc", "the storage is not from the user's allocator");
        if (kind == K_ADOPT_ALLOC && sq::get_tag(cb) != 9) sq::fail("alloc", "the storage is not from the user's allocator");
#endif
    }
}

static const char* group_of(const OpD& d) {
    switch (d.c) {
    case MK: return (d.x >> 4) ? "fault" : d.b == K_DEL || d.b == K_FUN || d.b == K_UNIQUE || d.b == K_UNIQUE_DEL ? "adopt" : "make";
    case MKNULL: return "make";
    case CALIAS: case AALIAS: case MKALIAS: case SCAST: case CCAST: case DCAST: case RCAST: return "alias";
    case LOCK: case CLOCK: case WC_S: case WA_S: case WCCOPY: case WCMOVE: case WACOPY: case WAMOVE: case WSWAP: case WRESET: case WDTOR: return "weak";
    case WALIAS_W: case WALIAS_S: return "weakalias";
    case STLOAD: case STSTORE: case STSTOREM: case STEXCH: case STCAS: case STCTOR: return "store";
    default: return "strong";
    }
}

// U* -> T* for a valid pointer
template <typename U, typename T> void* up(void* p) {
    if constexpr (std::is_convertible_v<U*, T*>) { T* t = static_cast<U*>(p); return p ? vp(t) : nullptr; }
    else return nullptr;
}

template <typename X, typename Y, typename = void> struct has_ob : std::false_type {};
template <typename X, typename Y> struct has_ob<X, Y, std::void_t<decltype(std::declval<X&>().owner_before(std::declval<Y&>()))>> : std::true_type {};
static int nobjs() { int n = 0; for (auto o : W.tab) n += !!o; return n; }

extern "C" {
int h_nconfigs() { static auto c = configs(); return int(c.size()); }
const char* h_config_name(int c) { static auto v = configs(); static std::string s; s = std::string(FAM_NAME) + ": " + v[c].name; return s.c_str(); }
void h_config(int c) { cfg = configs()[c]; build(); }
sq::Sizes h_sizes() { return {offsetof(World, tab), sizeof(World), 1024, 64}; }
void h_init() {
    for (int i : cfg.s) on_type(i, [&](auto t) { new (&W.s[i]) SP<TT(t)>(); });
    for (int i : cfg.w) on_type(i, [&](auto t) { new (&W.w[i]) WP<TT(t)>(); });
    for (int i = 0; i < cfg.st; ++i) new (&W.st[i]) STO<A>();
}
int h_nops() { return int(ops.size()); }
void h_opname(int op, char* b, size_t n) {
    auto& d = ops[op];
    bool aw = d.c >= WC_S && d.c <= WALIAS_S, ast = d.c >= STLOAD;
    std::string s = cname[d.c];
    auto nm = [](bool w, int i) { return std::string(w ? "w" : "s") + std::to_string(i) + "<" + tname[i] + ">"; };
    if (ast) s += " storage" + std::to_string(d.a); else s += " " + nm(aw, d.a);
    if (d.c == MK) {
        s += std::string(" ") + ((d.x & 1) ? "PA " : "D ") + kind_name[d.b];
        const char* hn[] = {" by constructor", " by assignment", " by reset or temporary"};
        const char* fn[] = {"", ", allocation fails", ", object's constructor throws", ", control block's constructor throws"};
        s += hn[d.x >> 1 & 7]; s += fn[d.x >> 4];
    }
    else if (d.b >= 0) {
        bool bw = d.c == LOCK || d.c == CLOCK || d.c == WCCOPY || d.c == WCMOVE || d.c == WACOPY || d.c == WAMOVE || d.c == WSWAP || d.c == WALIAS_W;
        s += " with " + nm(bw, d.b);
    }
    if (d.c == STCAS) s += " desired " + nm(false, d.x);
    if (d.c == CALIAS || d.c == AALIAS || d.c == MKALIAS || d.c == WALIAS_W || d.c == WALIAS_S) s += d.x == P_NULL ? " pointing to null" : d.x == P_STATIC ? " pointing to a static object" : " pointing to its own object";
    snprintf(b, n, "%s", s.c_str());
}
bool h_enabled(int op) {
    auto& d = ops[op];
    switch (d.c) {
    case MK: case MKNULL: return nobjs() < cfg.nobj + ((d.x >> 4) != 0);
    case CALIAS: case AALIAS: case MKALIAS: case WALIAS_S: if (d.x != P_OWN) return true; return W.ms[d.b].o && W.ms[d.b].o->obj;
    case SCAST: case DCAST: case RCAST: { // the language cast must be valid
        MVal v = W.ms[d.b];
        if (!v.p) return true;
        bool r = false;
        on_type(d.b, [&](auto u) { on_type(d.a, [&](auto t) {
            using U = TT(u); using T = TT(t);
            r = valid<U>(v.p);
            if (!r) return;
            if (d.c == SCAST && !std::is_convertible_v<U*, T*>) { // down
                if constexpr (std::is_void_v<U>) r = !std::is_void_v<T>;
                else {
                    r = false;
                    for (auto o : W.tab) if (o && o->state == ALIVE && o->obj && o->cls == 0 && vp(sub<U>(o)) == v.p) r = true;
                }
            }
        }); });
        return r;
    }
    default: break;
    }
    // a conversion to a base needs a valid pointer if it is virtual (or to be on the safe side any class conversion)
    auto convertible_now = [&](const MVal& v, int from, int to) {
        if (!v.p || same_type(from, to)) return true;
        bool r = true;
        on_type(from, [&](auto u) { on_type(to, [&](auto) { r = valid<TT(u)>(v.p); }); });
        return r;
    };
    switch (d.c) {
    case CCOPY: case CMOVE: case ACOPY: case AMOVE: case WC_S: case WA_S: return convertible_now(W.ms[d.b], d.b, d.a);
    case WCCOPY: case WCMOVE: case WACOPY: case WAMOVE: case LOCK: case CLOCK: return convertible_now(W.mw[d.b], d.b, d.a);
    case STLOAD: return convertible_now(W.mst[d.a], 0, d.b);
    case STSTORE: case STSTOREM: case STCTOR: return convertible_now(W.ms[d.b], d.b, 0);
    case STCAS: return d.b != int(d.x) && convertible_now(W.ms[d.x], d.x, 0);
    default: return true;
    }
}
void h_apply(int op) {
    OpD d = ops[op];
    sq::set_group(group_of(d));
    W.pending = nullptr;
    if (d.c == MK) {
        on_type(d.a, [&](auto t) {
            using T = TT(t);
            int cls = d.x & 1, how = d.x >> 1 & 7, f = d.x >> 4;
            if (!cls) { if constexpr (std::is_convertible_v<D*, T*>) make_op<T, D>(d.a, d.b, cls, how, f); }
            else { if constexpr (std::is_convertible_v<PA*, T*>) make_op<T, PA>(d.a, d.b, cls, how, f); }
        });
    }
    else if (d.c < WC_S) on_type(d.a, [&](auto t) {
        using T = TT(t);
        SP<T>& a = sref<T>(d.a);
        MVal& ma = W.ms[d.a];
        auto destroy = [&] { m_set(ma, nullptr, nullptr); a.~SP<T>(); };
        switch (d.c) {
        case SWAP: if constexpr (true) { SP<T>& b = sref<T>(d.b); std::swap(ma, W.ms[d.b]); a.swap(b); } return;
        case RESET: m_set(ma, nullptr, nullptr); a.reset(); return;
        case RESETN: m_set(ma, nullptr, nullptr);
#if IS_STD
            a.reset();
#else
            a.reset(nullptr);
#endif
            return;
        case ANULL: m_set(ma, nullptr, nullptr); a = nullptr; return;
        case DTOR: destroy(); new (&a) SP<T>(nullptr); return;
        case MKNULL: {
            MObj* o = m_new(K_NULL, 0); W.pending = nullptr; // whether the deleter is called for null is not specified
            m_set(ma, nullptr, nullptr); a.~SP<T>();
            m_set(ma, o, nullptr);
            new (&a) SP<T>(nullptr, [](T*) {});
            return;
        }
        case LOCK: case CLOCK: on_type(d.b, [&](auto u) {
            using U = TT(u);
            if constexpr (std::is_convertible_v<U*, T*>) {
                WP<U>& b = wref<U>(d.b); MVal vb = W.mw[d.b];
                if (vb.o && vb.o->state != ALIVE) vb = {};
                if (d.c == CLOCK && ma.o && ma.o == vb.o && ma.o->strong == 1) vb = {}; // expires when a is destroyed
                if (d.c == LOCK) { m_set(ma, vb.o, up<U, T>(vb.p)); a = b.lock(); }
                else { destroy(); m_set(ma, vb.o, up<U, T>(vb.p)); new (&a) SP<T>(b.lock()); }
            }
        }); return;
        default: break;
        }
        on_type(d.b, [&](auto u) {
            using U = TT(u);
            SP<U>& b = sref<U>(d.b);
            MVal& mb = W.ms[d.b]; MVal vb = mb;
            if constexpr (std::is_convertible_v<U*, T*>) switch (d.c) {
            case CCOPY: destroy(); m_set(ma, vb.o, up<U, T>(vb.p)); new (&a) SP<T>(b); return;
            case CMOVE: destroy(); m_move(ma, mb, up<U, T>(vb.p)); new (&a) SP<T>(std::move(b)); return;
            case ACOPY: m_set(ma, vb.o, up<U, T>(vb.p)); { SP<T>& r = (a = b); if (&r != &a) sq::fail("value", "assignment returns something else"); } return;
            case AMOVE: if (d.a != d.b) m_move(ma, mb, up<U, T>(vb.p)); { SP<T>& r = (a = std::move(b)); if (&r != &a) sq::fail("value", "assignment returns something else"); } return;
            default: break;
            }
            switch (d.c) {
            case CALIAS: { T* p = target<T>(d.x, vb.o); destroy(); m_set(ma, vb.o, vp(p)); new (&a) SP<T>(b, p); } return;
            case AALIAS: { T* p = target<T>(d.x, vb.o); m_set(ma, vb.o, vp(p)); a = SP<T>(b, p); } return;
            case MKALIAS: { T* p = target<T>(d.x, vb.o); m_set(ma, vb.o, vb.o ? vp(p) : nullptr); a = make_aliased(b, p); } return;
            case SCAST:
                if constexpr (std::is_convertible_v<U*, T*> || std::is_void_v<U> || (std::is_same_v<T, D> && (std::is_same_v<U, A> || std::is_same_v<U, B>))) {
                    if constexpr (std::is_const_v<T> || !std::is_const_v<U>) {
                        void* p = vb.p ? vp(static_cast<T*>(static_cast<U*>(vb.p))) : nullptr;
#if !IS_STD
                        if (!vb.o) p = nullptr;
#endif
                        m_set(ma, vb.o, p);
#if IS_STD
                        a = std::static_pointer_cast<T>(b);
#else
                        a = xmem::static_pointer_cast<T>(b);
#endif
                    }
                }
                return;
            case CCAST:
                if constexpr (std::is_same_v<std::remove_cv_t<U>, std::remove_cv_t<T>>) {
                    void* p = vb.p;
#if !IS_STD
                    if (!vb.o) p = nullptr;
#endif
                    m_set(ma, vb.o, p);
#if IS_STD
                    a = std::const_pointer_cast<T>(b);
#else
                    a = xmem::const_pointer_cast<T>(b);
#endif
                }
                return;
            case DCAST:
                if constexpr (std::is_class_v<U> && (!std::is_const_v<U> || std::is_const_v<T>)) {
                    U* up_ = static_cast<U*>(vb.p);
                    T* p = dynamic_cast<T*>(up_);
                    MObj* o = p ? vb.o : nullptr;
#if !IS_STD
                    if (!o) p = nullptr;
#endif
                    m_set(ma, o, vp(p));
#if IS_STD
                    a = std::dynamic_pointer_cast<T>(b);
#else
                    a = xmem::dynamic_pointer_cast<T>(b);
#endif
                }
                return;
            case RCAST:
#if !IS_STD
                if constexpr (std::is_const_v<T> || !std::is_const_v<U>) {
                    m_set(ma, vb.o, vb.o ? vb.p : nullptr);
                    a = xmem::reinterpret_pointer_cast<T>(b);
                }
#endif
                return;
            default: sq::fail("engine", "operation %d missing", d.c);
            }
        });
    });
    else if (d.c < STLOAD) on_type(d.a, [&](auto t) {
        using T = TT(t);
        WP<T>& a = wref<T>(d.a);
        MVal& ma = W.mw[d.a];
        auto destroy = [&] { w_set(ma, nullptr, nullptr); a.~WP<T>(); };
        switch (d.c) {
        case WSWAP: { WP<T>& b = wref<T>(d.b); std::swap(ma, W.mw[d.b]); a.swap(b); } return;
        case WRESET: w_set(ma, nullptr, nullptr); a.reset(); return;
        case WDTOR: destroy(); new (&a) WP<T>(); return;
        case WC_S: case WA_S: case WALIAS_S: on_type(d.b, [&](auto u) {
            using U = TT(u);
            SP<U>& b = sref<U>(d.b); MVal vb = W.ms[d.b];
            if constexpr (std::is_convertible_v<U*, T*>) {
                if (d.c == WC_S) { destroy(); w_set(ma, vb.o, up<U, T>(vb.p)); new (&a) WP<T>(b); return; }
                if (d.c == WA_S) { w_set(ma, vb.o, up<U, T>(vb.p)); WP<T>& r = (a = b); if (&r != &a) sq::fail("value", "assignment returns something else"); return; }
            }
#if !IS_STD
            if (d.c == WALIAS_S) { T* p = target<T>(d.x, vb.o); destroy(); w_set(ma, vb.o, vp(p)); new (&a) WP<T>(b, p); return; }
#endif
        }); return;
        default: break;
        }
        on_type(d.b, [&](auto u) {
            using U = TT(u);
            WP<U>& b = wref<U>(d.b);
            MVal& mb = W.mw[d.b]; MVal vb = mb;
            if constexpr (std::is_convertible_v<U*, T*>) switch (d.c) {
            case WCCOPY: destroy(); w_set(ma, vb.o, up<U, T>(vb.p)); new (&a) WP<T>(b); return;
            case WCMOVE: destroy(); w_move(ma, mb, up<U, T>(vb.p)); new (&a) WP<T>(std::move(b)); return;
            case WACOPY: w_set(ma, vb.o, up<U, T>(vb.p)); { WP<T>& r = (a = b); if (&r != &a) sq::fail("value", "assignment returns something else"); } return;
            case WAMOVE: if (d.a != d.b) w_move(ma, mb, up<U, T>(vb.p)); { WP<T>& r = (a = std::move(b)); if (&r != &a) sq::fail("value", "assignment returns something else"); } return;
            default: break;
            }
#if !IS_STD
            if (d.c == WALIAS_W) { T* p = target<T>(d.x, nullptr); if (d.x == P_STATIC) p = stat<T>(); destroy(); w_set(ma, vb.o, vb.o && vb.o->state == ALIVE ? vp(p) : nullptr); new (&a) WP<T>(b, p); return; }
#endif
        });
    });
    else {
        STO<A>& st = stref(d.a);
        MVal& mst = W.mst[d.a];
        on_type(d.b, [&](auto u) {
            using U = TT(u);
            SP<U>& b = sref<U>(d.b);
            MVal& mb = W.ms[d.b]; MVal vb = mb;
            if constexpr (std::is_convertible_v<A*, U*>) if (d.c == STLOAD) { m_set(mb, mst.o, up<A, U>(mst.p)); b = st.load(); return; }
            if constexpr (std::is_convertible_v<U*, A*>) switch (d.c) {
            case STSTORE: m_set(mst, vb.o, up<U, A>(vb.p)); st.store(b); return;
            case STSTOREM: m_move(mst, mb, up<U, A>(vb.p)); st.store(std::move(b)); return;
            case STCTOR: m_set(mst, nullptr, nullptr); st.~STO<A>(); m_set(mst, vb.o, up<U, A>(vb.p)); new (&st) STO<A>(b); return;
            default: break;
            }
            if constexpr (std::is_same_v<U, A>) {
                if (d.c == STEXCH) { // s = exchange(move(s))
                    std::swap(mst, mb);
                    b = st.exchange(std::move(b));
                    return;
                }
                if (d.c == STCAS) on_type(d.x, [&](auto w) {
                    using V = TT(w);
                    if constexpr (std::is_convertible_v<V*, A*>) {
                        SP<V>& des = sref<V>(d.x); MVal vd = W.ms[d.x];
                        bool eq = mst.o == vb.o && mst.p == vb.p;
                        if (eq) m_set(mst, vd.o, up<V, A>(vd.p)); else m_set(mb, mst.o, mst.p);
                        bool r = st.compare_exchange(b, des);
                        sq::outcome(eq);
                        if (r != eq) sq::fail("value", "compare_exchange %s although the values are %s", r ? "succeeded" : "failed", eq ? "equal" : "different");
                    }
                });
            }
        });
    }
    settle();
}

void h_observe() {
    auto order_by_owner = [](int n, auto before, auto owner) { // strict weak order whose equivalence is same owner
        for (int i = 0; i < n; ++i) {
            if (before(i, i)) sq::fail("cmp", "owner_before is not irreflexive");
            for (int j = 0; j < n; ++j) {
                if (before(i, j) && before(j, i)) sq::fail("cmp", "owner_before is not asymmetric");
                if ((!before(i, j) && !before(j, i)) != (owner(i) == owner(j))) sq::fail("cmp", "owner_before does not agree with ownership");
                for (int k = 0; k < n; ++k) if (before(i, j) && before(j, k) && !before(i, k)) sq::fail("cmp", "owner_before is not transitive");
            }
        }
    };
    int ns = int(cfg.s.size()), nw = int(cfg.w.size());
    // strong handles
    for (int i : cfg.s) on_type(i, [&](auto t) {
        using T = TT(t);
        const SP<T>& h = sref<T>(i); MVal v = W.ms[i];
        if (vp(h.get()) != v.p) sq::fail("value", "s%d: get() is %p, expected %p", i, vp(h.get()), v.p);
        if (bool(h) != !!v.p) sq::fail("value", "s%d: wrong truth value", i);
        if (vp(h.operator->()) != v.p) sq::fail("value", "s%d: operator-> differs from get()", i);
        long uc = v.o ? v.o->strong : 0;
        if (h.use_count() != uc) sq::fail("count", "s%d: use count %ld, expected %ld", i, h.use_count(), uc);
#if !IS_STD
        if (!h.owner() != !v.o) sq::fail("value", "s%d: %s owner", i, v.o ? "no" : "unexpected");
        if (h.owner() != static_cast<const void*>(h.t_owner())) sq::fail("value", "s%d: owner() and t_owner() differ", i);
#endif
        if (no_owner(h) != !v.o) sq::fail("cmp", "no_owner(s%d) is wrong", i);
        if constexpr (!std::is_void_v<T>) if (v.p && valid<T>(v.p)) {
            if (vp(&*h) != v.p) sq::fail("value", "s%d: operator* is something else", i);
            uint64_t m;
            if constexpr (std::is_same_v<std::remove_cv_t<T>, A>) m = h->ma - 0x22 + h->va() - 0x22;
            else if constexpr (std::is_same_v<T, B>) m = h->mb - 0x33 + h->vb() - 0x33;
            else if constexpr (std::is_same_v<T, VB>) m = h->mv - 0x11 + h->vv() - 0x11;
            else m = (h->md - 0x55) | (h->ma - 0x22) | (h->mb - 0x33) | (h->mv - 0x11);
            if (m) sq::fail("mem", "s%d: the object is damaged", i);
        }
    });
    for (int i : cfg.s) for (int j : cfg.s) on_type(i, [&](auto t) { on_type(j, [&](auto u) {
        using T = TT(t); using U = TT(u);
        const SP<T>& a = sref<T>(i); const SP<U>& b = sref<U>(j); MVal va = W.ms[i], vb = W.ms[j];
        if (same_owner(a, b) != (va.o == vb.o)) sq::fail("cmp", "same_owner(s%d, s%d) is wrong", i, j);
#if !IS_STD
        if ((a.owner() == b.owner()) != (va.o == vb.o)) sq::fail("value", "s%d, s%d: wrong owner", i, j);
#endif
        if constexpr (std::is_same_v<T, U> || (std::is_void_v<T> && !std::is_const_v<U>) || (std::is_void_v<U> && !std::is_const_v<T>)) {
            auto x = (uintptr_t)va.p, y = (uintptr_t)vb.p;
            if ((a == b) != (x == y) || (a != b) != (x != y)) sq::fail("cmp", "s%d == s%d is wrong", i, j);
            if ((a < b) != (x < y) || (a > b) != (x > y) || (a <= b) != (x <= y) || (a >= b) != (x >= y)) sq::fail("cmp", "ordering of s%d and s%d is wrong", i, j);
        }
    }); });
    // weak handles
    for (int i : cfg.w) on_type(i, [&](auto t) {
        using T = TT(t);
        const WP<T>& h = wref<T>(i); MVal v = W.mw[i];
        long uc = v.o ? v.o->strong : 0;
        if (h.use_count() != uc) sq::fail("weak", "w%d: use count %ld, expected %ld", i, h.use_count(), uc);
        if (h.expired() != (uc == 0)) sq::fail("weak", "w%d: wrongly %sexpired", i, uc ? "" : "not ");
#if !IS_STD
        if (bool(h) != !!v.o) sq::fail("weak", "w%d: wrong truth value", i);
        if (!h.owner() != !v.o) sq::fail("weak", "w%d: %s owner", i, v.o ? "no" : "unexpected");
        if (h.owner() != static_cast<const void*>(h.t_owner())) sq::fail("weak", "w%d: owner() and t_owner() differ", i);
#endif
        if (no_owner(h) != !v.o) sq::fail("cmp", "no_owner(w%d) is wrong", i);
        {
            SP<T> l = h.lock();
            if (uc) {
                if (vp(l.get()) != v.p) sq::fail("weak", "w%d: locked pointer is %p, expected %p", i, vp(l.get()), v.p);
                if (!same_owner(l, h) || no_owner(l)) sq::fail("weak", "w%d: locked handle does not share ownership", i);
                if (l.use_count() != uc + 1) sq::fail("weak", "w%d: use count while locked is %ld, expected %ld", i, l.use_count(), uc + 1);
                if constexpr (std::is_same_v<T, D>) if (v.p && valid<T>(v.p) && l->md != 0x55) sq::fail("weak", "w%d: locked object is damaged", i);
            }
            else if (l || !no_owner(l) || l.get()) sq::fail("weak", "w%d: expired, but locking yields something", i);
        }
        if (h.use_count() != uc) sq::fail("weak", "w%d: locking changed the use count for good", i);
        sq::outcome(10 + (v.o ? uc + 1 : 0));
    });
    for (int i : cfg.w) on_type(i, [&](auto t) {
        using T = TT(t);
        const WP<T>& a = wref<T>(i); MVal va = W.mw[i];
        for (int j : cfg.w) on_type(j, [&](auto u) {
            if (same_owner(a, wref<TT(u)>(j)) != (va.o == W.mw[j].o)) sq::fail("cmp", "same_owner(w%d, w%d) is wrong", i, j);
        });
        for (int j : cfg.s) on_type(j, [&](auto u) {
            bool e = va.o == W.ms[j].o;
            if (same_owner(a, sref<TT(u)>(j)) != e || same_owner(sref<TT(u)>(j), a) != e) sq::fail("cmp", "same_owner(w%d, s%d) is wrong", i, j);
        });
    });
    // owner order over all handles
    auto owner = [&](int k) { return k < ns ? W.ms[cfg.s[k]].o : W.mw[cfg.w[k - ns]].o; };
    auto before = [&](int k, int l) {
        bool r = false;
        auto with = [&](int x, auto f) {
            if (x < ns) on_type(cfg.s[x], [&](auto t) { f(sref<TT(t)>(cfg.s[x]), 0); });
            else on_type(cfg.w[x - ns], [&](auto t) { f(wref<TT(t)>(cfg.w[x - ns]), 1); });
        };
        with(k, [&](auto& a, auto) { with(l, [&](auto& b, auto) {
#if IS_STD
            r = a.owner_before(b);
#else
            using AT = std::decay_t<decltype(a)>; using BT = std::decay_t<decltype(b)>;
            if constexpr (has_ob<AT, BT>::value) r = a.owner_before(b);
            else r = a.owner() < b.owner();
#endif
        }); });
        return r;
    };
    order_by_owner(ns + nw, before, owner);
    // the control block was told of exactly the handles there are
#if FAM == 2
    for (auto o : W.tab) {
        if (!o) continue;
        const Book* cb = nullptr;
        int n = 0, m = 0;
        auto visit = [&](const Book* c) { if (cb && c != cb) sq::fail("notify", "handles of one owner have different control blocks"); cb = c; };
        for (int i : cfg.s) if (W.ms[i].o == o) on_type(i, [&](auto t) { visit(sref<TT(t)>(i).t_owner()); ++n; });
        for (int i : cfg.w) if (W.mw[i].o == o) on_type(i, [&](auto t) { visit(wref<TT(t)>(i).t_owner()); ++m; });
        int inst = 0;
        for (int i = 0; i < cfg.st; ++i) if (W.mst[i].o == o) { auto l = stref(i).load(); visit(l.t_owner()); ++inst; }
        if (!cb) continue;
        cb->ok("observation");
        if (int(cb->strong.n) != n + inst) sq::fail("notify", "%d strong handles are recorded, but there are %d", int(cb->strong.n), n + inst);
        if (int(cb->weak.n) != m) sq::fail("notify", "%d weak handles are recorded, but there are %d", int(cb->weak.n), m);
        for (int i : cfg.s) if (W.ms[i].o == o && !cb->strong.has(&W.s[i])) sq::fail("notify", "strong handle s%d is not recorded", i);
        for (int i : cfg.w) if (W.mw[i].o == o && !cb->weak.has(&W.w[i])) sq::fail("notify", "weak handle w%d is not recorded", i);
        for (int i = 0; i < cfg.st; ++i) if (W.mst[i].o == o) {
            bool in = false;
            for (uint64_t k = 0; k < cb->strong.n; ++k) in |= (uintptr_t)cb->strong.a[k] - (uintptr_t)&W.st[i] < sizeof(STO<A>);
            if (!in) sq::fail("notify", "the handle in storage %d is not recorded", i);
        }
    }
#endif
    // storages
    for (int i = 0; i < cfg.st; ++i) {
        MVal v = W.mst[i];
        SP<A> l = stref(i).load();
        if (vp(l.get()) != v.p) sq::fail("value", "storage %d holds %p, expected %p", i, vp(l.get()), v.p);
        if (no_owner(l) != !v.o) sq::fail("value", "storage %d: wrong owner", i);
        if (l.use_count() != (v.o ? v.o->strong + 1 : 0)) sq::fail("count", "storage %d: use count %ld", i, l.use_count());
    }
}

void h_end(int order) {
    auto ds = [&](int i) { on_type(i, [&](auto t) { m_set(W.ms[i], nullptr, nullptr); using T = TT(t); sref<T>(i).~SP<T>(); settle(); }); };
    auto dw = [&](int i) { on_type(i, [&](auto t) { w_set(W.mw[i], nullptr, nullptr); using T = TT(t); wref<T>(i).~WP<T>(); settle(); }); };
    auto dst = [&](int i) { m_set(W.mst[i], nullptr, nullptr); stref(i).~STO<A>(); settle(); };
    if (order == 0) {
        for (int i : cfg.s) ds(i);
        for (int i = 0; i < cfg.st; ++i) dst(i);
        for (int i : cfg.w) dw(i);
    }
    else {
        for (int k = int(cfg.w.size()); k--;) dw(cfg.w[k]);
        for (int k = cfg.st; k--;) dst(k);
        for (int k = int(cfg.s.size()); k--;) ds(cfg.s[k]);
    }
    for (auto o : W.tab) if (o) sq::fail("leak", "an object is left");
}
}
