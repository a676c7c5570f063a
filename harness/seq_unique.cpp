// Unique pointers of every kind against a reference model, with objects which own others and act when they die.
// USTD: 0 xmem::unique_ptr, 1 std::unique_ptr (validates the oracle where both mean the same)
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>
#include <vector>
#include <memory>
#include <new>
#include <utility>
#include <xmem/unique_ptr.hpp>
#include "../engine/seq.h"

#ifndef USTD
#define USTD 0
#endif
#if USTD
template <typename T, typename D = std::default_delete<T>> using UP = std::unique_ptr<T, D>;
#else
template <typename T, typename D = xmem::default_delete<T>> using UP = xmem::unique_ptr<T, D>;
#endif

enum Act : uint32_t { NONE, READ0, READ1, RESET0, RESET1, NULL0, RELEASE0, RELEASE1, MOVE01, MOVE10, SWAP01, NEW0, RENEW0, POP0, CONV0, N_ACTS };
const char* const act_name[] = {"nothing", "read u0", "read u1", "u0.reset()", "u1.reset()", "u0 = nullptr", "u0.release()", "u1.release()", "u0 = move(u1)", "u1 = move(u0)", "u0.swap(u1)", "u0 = new", "u0.reset(new)", "u0 = move(next)", "u0 = move(q)"};

struct MObj { uint32_t state, act; void* obj; MObj* next; uint32_t nextdel, derived; };
struct MSlot { MObj* o; uint64_t del; };
constexpr int NS = 2, MAXO = 8;
constexpr uint64_t DEF = 9; // id of a default constructed deleter
struct World {
    alignas(16) unsigned char s[NS][32], q[32];
    struct Dl { uint64_t id; } d[2]; // the deleters used by reference
    MSlot ms[NS], mq;
    MObj* mloose;
    void* loose;
    // not part of the state
    MObj* tab[MAXO];
    uint64_t dying, ending; // dying: 1 + slot which is being destroyed
};
static World& W = *reinterpret_cast<World*>(sq::ROOT_ADDR);

// --- expected events ----------------------------------------------------------------------------
struct Ev { int kind; const void* a; uint64_t b; };
enum { EV_DISPOSE, EV_DTOR, EV_SEE };
static Ev evs[512]; static int nev, iev;
static void expect(int kind, const void* a, uint64_t b = 0) { if (nev == 512) sq::fail("engine", "too many events"); evs[nev++] = {kind, a, b}; }
static void happened(int kind, const void* a, uint64_t b = 0) {
    if (iev == nev) sq::fail(kind == EV_SEE ? "order" : kind == EV_DTOR ? "life" : "deleter", kind == EV_DTOR ? "an object is destroyed which should not be" : "a deleter is called which should not be");
    Ev& e = evs[iev++];
    if (e.kind != kind) sq::fail(kind == EV_DISPOSE || e.kind == EV_DISPOSE ? "deleter" : "order", "objects are destroyed in the wrong order, at the wrong time or by the wrong deleter");
    if (e.a != a) sq::fail(kind == EV_SEE ? "order" : "life", kind == EV_SEE ? "in a destructor a pointer has the wrong value" : "the wrong object is destroyed");
    if (e.b != b) sq::fail("deleter", "an object is disposed of by deleter %d instead of %d", int(b), int(e.b));
}

// --- objects and deleters -----------------------------------------------------------------------
struct Node; struct Derived;
static MObj* created[64]; static int ncreated, icreated;
static bool will[64]; static int nwill, iwill;
static bool decide(bool b) { will[nwill++] = b; return b; }
static bool decided() { return will[iwill++]; }
static MObj* find(const void* n) { if (n) for (auto o : W.tab) if (o && o->obj == n) return o; return nullptr; }
static void disposing(const void* p, uint64_t id) {
    if (!p) sq::fail("deleter", "a deleter is called with null");
    MObj* o = find(p);
    if (!o) sq::fail("deleter", "a deleter is called for an object which does not exist");
    if (!id) sq::fail("deleter", "a deleter which was moved away is called");
    happened(EV_DISPOSE, o, id);
}
template <int N> struct Del;
struct Common { uint64_t c = 0xC0; };
struct Node {
    uint64_t magic = 0x40DE, act;
    alignas(16) unsigned char next[32];
    explicit Node(uint64_t a);
    virtual ~Node();
    Node(const Node&) = delete;
};
struct Pad { uint64_t p = 7; virtual ~Pad() = default; };
struct Derived : Pad, Node {
    uint64_t md = 0xDE;
    explicit Derived(uint64_t a) : Node(a) {}
    ~Derived() { if (md != 0xDE || p != 7) sq::fail("mem", "the object to destroy is damaged"); md = 0; }
};
// a stateful deleter; a moved from one has the id 0
template <typename T> struct StDel {
    uint64_t id;
    StDel() noexcept : id(DEF) {}
    explicit StDel(uint64_t id) noexcept : id(id) {}
    StDel(const StDel& o) noexcept : id(o.id) {}
    StDel(StDel&& o) noexcept : id(o.id) { o.id = 0; }
    StDel& operator=(const StDel& o) noexcept { id = o.id; return *this; }
    StDel& operator=(StDel&& o) noexcept { if (&o != this) { id = o.id; o.id = 0; } return *this; }
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>> StDel(const StDel<U>& o) noexcept : id(o.id) {}
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>> StDel(StDel<U>&& o) noexcept : id(o.id) { o.id = 0; }
    void operator()(T* p) const noexcept { disposing(static_cast<Node*>(p), id); delete p; }
};
static void f1(Node* p) { disposing(p, 1); delete p; }
static void f2(Node* p) { disposing(p, 2); delete p; }

template <typename T> struct StADel : StDel<T> { // for arrays
    using StDel<T>::StDel;
    void operator()(T* p) const noexcept { disposing(static_cast<Node*>(p), this->id); delete[] p; }
};

// --- the kinds ------------------------------------------------------------------------------------
struct KObj {
    static Node* obj(uint32_t x) { return new Node(x); }
    static Derived* objq(uint32_t x) { return new Derived(x); }
    static void del(void* p) { delete static_cast<Node*>(p); }
    template <typename P> static auto& deref(const P& p) { return *p; }
};
struct KArr {
    static Node* obj(uint32_t x) { return new Node[1]{Node(x)}; }
    static Node* objq(uint32_t x) { return obj(x); }
    static void del(void* p) { delete[] static_cast<Node*>(p); }
    template <typename P> static auto& deref(const P& p) { return p[0]; }
};
struct KStateless : KObj {
    using P = UP<Node>; using Q = UP<Derived>;
    static constexpr bool ids = false, moved0 = false, recorded = false, rebind = false;
    static P make(Node* p, int) { return P(p); }
    static Q makeq(Derived* p, int) { return Q(p); }
    static P empty() { return P(); }
    static Q emptyq() { return Q(); }
    static uint64_t id(const P&) { return 0; }
    static uint64_t idq(const Q&) { return 0; }
    static constexpr uint64_t empty_id = 0;
};
struct KStateful : KObj {
    using P = UP<Node, StDel<Node>>; using Q = UP<Derived, StDel<Derived>>;
    static constexpr bool ids = true, moved0 = true, recorded = true, rebind = false;
    static P make(Node* p, int d) { return P(p, StDel<Node>(d)); }
    static Q makeq(Derived* p, int d) { return Q(p, StDel<Derived>(d)); }
    static P empty() { return P(); }
    static Q emptyq() { return Q(); }
    static uint64_t id(const P& p) { return p.get_deleter().id; }
    static uint64_t idq(const Q& p) { return p.get_deleter().id; }
    static constexpr uint64_t empty_id = DEF;
};
static StDel<Node>& ref(int d) { return *reinterpret_cast<StDel<Node>*>(&W.d[d - 1]); }
struct KRef : KObj {
    using P = UP<Node, StDel<Node>&>; using Q = UP<Derived, StDel<Node>&>;
    static constexpr bool ids = true, moved0 = false, recorded = true, rebind = true;
    static P make(Node* p, int d) { return P(p, ref(d)); }
    static Q makeq(Derived* p, int d) { return Q(p, ref(d)); }
#if USTD
    static P empty() { return P(nullptr, ref(1)); }
    static Q emptyq() { return Q(nullptr, ref(1)); }
#else
    static P empty() { return P(ref(1)); }
    static Q emptyq() { return Q(ref(1)); }
#endif
    static uint64_t id(const P& p) { return p.get_deleter().id; }
    static uint64_t idq(const Q& p) { return p.get_deleter().id; }
    static constexpr uint64_t empty_id = 1;
};
struct KConstRef : KObj {
    using P = UP<Node, const StDel<Node>&>; using Q = UP<Derived, const StDel<Node>&>;
    static constexpr bool ids = true, moved0 = false, recorded = true, rebind = true;
    static P make(Node* p, int d) { return P(p, ref(d)); }
    static Q makeq(Derived* p, int d) { return Q(p, ref(d)); }
    static P empty() { return P(nullptr, ref(1)); }
    static Q emptyq() { return Q(nullptr, ref(1)); }
    static uint64_t id(const P& p) { return p.get_deleter().id; }
    static uint64_t idq(const Q& p) { return p.get_deleter().id; }
    static constexpr uint64_t empty_id = 1;
};
struct KFun : KObj {
    using F = void (*)(Node*);
    using P = UP<Node, F>; using Q = UP<Derived, F>;
    static constexpr bool ids = true, moved0 = false, recorded = true, rebind = false;
    static F fun(int d) { return d == 1 ? f1 : f2; }
    static P make(Node* p, int d) { return P(p, fun(d)); }
    static Q makeq(Derived* p, int d) { return Q(p, fun(d)); }
#if USTD
    static P empty() { return P(nullptr, f1); }
    static Q emptyq() { return Q(nullptr, f1); }
#else
    static P empty() { return P(f1); }
    static Q emptyq() { return Q(f1); }
#endif
    static uint64_t id(const P& p) { return p.get_deleter() == f1 ? 1 : p.get_deleter() == f2 ? 2 : 99; }
    static uint64_t idq(const Q& p) { return p.get_deleter() == f1 ? 1 : p.get_deleter() == f2 ? 2 : 99; }
    static constexpr uint64_t empty_id = 1;
};
struct KArrStateless : KArr {
    using P = UP<Node[]>; using Q = P;
    static constexpr bool ids = false, moved0 = false, recorded = false, rebind = false;
    static P make(Node* p, int) { return P(p); }
    static Q makeq(Node* p, int) { return Q(p); }
    static P empty() { return P(); }
    static Q emptyq() { return Q(); }
    static uint64_t id(const P&) { return 0; }
    static uint64_t idq(const Q&) { return 0; }
    static constexpr uint64_t empty_id = 0;
};
struct KArrStateful : KArr {
    using P = UP<Node[], StADel<Node>>; using Q = P;
    static constexpr bool ids = true, moved0 = true, recorded = true, rebind = false;
    static P make(Node* p, int d) { return P(p, StADel<Node>(d)); }
    static Q makeq(Node* p, int d) { return make(p, d); }
    static P empty() { return P(); }
    static Q emptyq() { return Q(); }
    static uint64_t id(const P& p) { return p.get_deleter().id; }
    static uint64_t idq(const Q& p) { return p.get_deleter().id; }
    static constexpr uint64_t empty_id = DEF;
};
struct KValueFromRef : KStateful { // the deleter is copied from one held by reference, which must stay as it is
    using Q = UP<Derived, StDel<Node>&>;
    static Q makeq(Derived* p, int d) { return Q(p, ref(d)); }
    static Q emptyq() { return Q(nullptr, ref(1)); }
    static uint64_t idq(const Q& p) { return p.get_deleter().id; }
};
struct FunctorD { uint64_t id; operator KFun::F() const { return KFun::fun(int(id)); } void operator()(Derived* p) const { KFun::fun(int(id))(p); } };
struct KFunFromClass : KFun { // a function pointer from a deleter convertible to it
    using Q = UP<Derived, FunctorD>;
    static Q makeq(Derived* p, int d) { return Q(p, FunctorD{uint64_t(d)}); }
    static Q emptyq() { return Q(nullptr, FunctorD{1}); }
    static uint64_t idq(const Q& p) { return p.get_deleter().id; }
};

// the model needs to know a few things about the current kind
static bool k_recorded, k_moved0; static uint64_t k_empty;

// --- the model ------------------------------------------------------------------------------------
static int nobjs() { int n = 0; for (auto o : W.tab) n += !!o; return n; }
static int nobj_limit = 2;
static bool room() { return nobjs() < nobj_limit + 2; }
static MObj* m_make(uint32_t act, bool derived = false) {
    for (auto& t : W.tab) if (!t) {
        auto o = static_cast<MObj*>(sq::model_alloc(sizeof(MObj)));
        o->state = 1; o->act = act; o->nextdel = uint32_t(k_empty); o->derived = derived; t = o;
        created[ncreated++] = o;
        return o;
    }
    sq::fail("engine", "model table full");
}
static void m_act(MObj* o);
static void m_dispose(MObj* o, uint64_t del) {
    if (!o) return;
    if (k_recorded) expect(EV_DISPOSE, o, del);
    o->state = 2;
    expect(EV_DTOR, o);
    if (!W.ending) m_act(o);
    MObj* n = o->next; uint64_t nd = o->nextdel;
    o->next = nullptr;
    m_dispose(n, nd);
    o->state = 3;
}
static void m_reset(MSlot& s, MObj* v) { MObj* old = s.o; s.o = v; m_dispose(old, s.del); }
static uint64_t m_from(uint64_t& del) { uint64_t d = del; if (k_moved0) del = 0; return d; }
static void m_move(MSlot& to, MSlot& from) {
    if (&to == &from) return;
    MObj* v = from.o; from.o = nullptr;
    uint64_t d = m_from(from.del);
    MObj* old = to.o; uint64_t od = to.del;
    to.o = v; to.del = d;
    m_dispose(old, od);
}
static void m_new(MSlot& to, uint32_t act, uint64_t del) { MObj* v = m_make(act); MObj* old = to.o; uint64_t od = to.del; to.o = v; to.del = k_recorded ? del : 0; m_dispose(old, od); }
static void m_pop(MSlot& to, MObj* owner) { // to = move(owner->next)
    MSlot n{owner->next, owner->nextdel}; owner->next = nullptr; if (k_moved0) owner->nextdel = 0;
    MSlot old = to; to = n; m_dispose(old.o, old.del);
}
static bool (*q_usable)();
static void m_see(int k) { expect(EV_SEE, W.ms[k].o); }
// what an action does depends on whether its slot is being destroyed
static bool touches_dying(uint32_t act) {
    bool d0 = W.dying == 1, d1 = W.dying == 2;
    switch (act) {
    case RESET0: case NULL0: case RELEASE0: case NEW0: case RENEW0: case POP0: case CONV0: return d0;
    case RESET1: case RELEASE1: return d1;
    case MOVE01: case MOVE10: case SWAP01: return d0 || d1;
    default: return false;
    }
}
static void m_conv(MSlot& to) {
    MObj* v = W.mq.o; W.mq.o = nullptr; uint64_t d = W.mq.del;
    extern bool q_moved0; if (q_moved0) W.mq.del = 0;
    MSlot old = to; to.o = v; to.del = d; m_dispose(old.o, old.del);
}
bool q_moved0;
static void m_act(MObj* o) {
    if (touches_dying(o->act)) { m_see(int(W.dying - 1)); return; }
    switch (o->act) {
    case NONE: break;
    case READ0: m_see(0); break;
    case READ1: m_see(1); break;
    case RESET0: case NULL0: m_reset(W.ms[0], nullptr); m_see(0); break;
    case RESET1: m_reset(W.ms[1], nullptr); m_see(1); break;
    case RELEASE0: if (decide(!W.mloose)) { W.mloose = W.ms[0].o; W.ms[0].o = nullptr; } m_see(0); break;
    case RELEASE1: if (decide(!W.mloose)) { W.mloose = W.ms[1].o; W.ms[1].o = nullptr; } m_see(1); break;
    case MOVE01: m_move(W.ms[0], W.ms[1]); m_see(0); m_see(1); break;
    case MOVE10: m_move(W.ms[1], W.ms[0]); m_see(0); m_see(1); break;
    case SWAP01: std::swap(W.ms[0], W.ms[1]); m_see(0); m_see(1); break;
    case NEW0: if (decide(room())) { m_new(W.ms[0], READ0, 2); } m_see(0); break;
    case RENEW0: if (decide(room() && (!k_recorded || W.ms[0].del))) { MObj* v = m_make(READ1); m_reset(W.ms[0], v); } m_see(0); break;
    case POP0: m_pop(W.ms[0], o); m_see(0); break;
    case CONV0: if (decide(!q_moved0 || W.mq.del)) m_conv(W.ms[0]); m_see(0); break;
    }
}

// --- the real thing ---------------------------------------------------------------------------------
enum Code : uint8_t { MK, MKNEXT, RESET, RESETNEW, ANULL, MOVE, MOVECTOR, SWAP, RELEASE, TAKE, DESTROY, NEWQ, CONV, CONVCTOR, RESETQ, POP, POPRESET, PUSH, NEXTRESET, NEXTNEXT, NEXTCONV };
const char* const cname[] = {"= new", "->next = new", ".reset()", ".reset(new)", "= nullptr", "= move of", "= P(move of)", ".swap", ".release()", ".reset(what was released)", " destroyed", "q = new", "= move(q)", "= P(move(q))", "q.reset()", "= move of next of", ".reset(release next of)", "->next = move of", "->next.reset()", "->next = move(next->next)", "->next = move(q)"};
struct OpD { Code c; int8_t a, b; uint8_t x, del; };
static std::vector<OpD> ops;
struct Config { const char* kind; std::string name; std::vector<int> acts; int nobj; bool deep; };
static Config cfg;

static void settle() {
    if (iev != nev) sq::fail(evs[iev].kind == EV_DTOR ? "life" : evs[iev].kind == EV_DISPOSE ? "deleter" : "order", "%s", evs[iev].kind == EV_SEE ? "an observation is missing" : "an object was not disposed of");
    if (icreated != ncreated) sq::fail("life", "an object was not constructed");
    for (auto& o : W.tab) {
        if (!o || o->state == 1) continue;
        if (o->obj && sq::is_live(o->obj)) sq::fail("leak", "object destroyed but its storage is not released");
        o = nullptr;
    }
}

struct Iface {
    void (*config)();
    void (*init)(); void (*apply)(const OpD&); void (*observe)(); void (*end)(int); void (*act)(Node&); void (*node_ctor)(Node&); void (*node_dtor)(Node&);
    const void* (*get)(int);
};
static const Iface* I;

template <typename K>
struct Run {
    using P = typename K::P; using Q = typename K::Q;
    static_assert(sizeof(P) <= 32 && sizeof(Q) <= 32);
    static P& S(int i) { return *std::launder(reinterpret_cast<P*>(&W.s[i])); }
    static Q& QQ() { return *std::launder(reinterpret_cast<Q*>(&W.q)); }
    static P& next(Node& n) { return *std::launder(reinterpret_cast<P*>(&n.next)); }
    static const void* get(int i) { return S(i).get(); }
    static void saw(int k) {
        const void* p = S(k).get();
        MObj* o = find(p);
        if (p && !o) sq::fail("order", "in a destructor a pointer points to nothing");
        if (bool(S(k)) != !!p) sq::fail("order", "in a destructor a pointer is half null");
        happened(EV_SEE, o);
    }
    static void config() {
        k_recorded = K::recorded; k_moved0 = K::moved0; k_empty = K::empty_id;
        q_moved0 = std::is_same_v<Q, UP<Derived, StDel<Derived>>> || (std::is_same_v<Q, P> && K::moved0);
    }
    static void init() {
        W.d[0].id = 1; W.d[1].id = 2;
        for (int i = 0; i < NS; ++i) { new (&W.s[i]) P(K::empty()); W.ms[i].del = K::empty_id; }
        new (&W.q) Q(K::emptyq());
        W.mq.del = K::idq(QQ());
        if (k_moved0) for (int i = 0; i < NS; ++i) W.ms[i].del = DEF;
    }
    static void node_ctor(Node& n) { new (&n.next) P(K::empty()); }
    static void node_dtor(Node& n) { next(n).~P(); }
    static void act(Node& n) {
        if (touches_dying(uint32_t(n.act))) { saw(int(W.dying - 1)); return; }
        switch (n.act) {
        case NONE: break;
        case READ0: saw(0); break;
        case READ1: saw(1); break;
        case RESET0: S(0).reset(); saw(0); break;
        case NULL0: S(0) = nullptr; saw(0); break;
        case RESET1: S(1).reset(); saw(1); break;
        case RELEASE0: if (decided()) W.loose = S(0).release(); saw(0); break;
        case RELEASE1: if (decided()) W.loose = S(1).release(); saw(1); break;
        case MOVE01: S(0) = std::move(S(1)); saw(0); saw(1); break;
        case MOVE10: S(1) = std::move(S(0)); saw(0); saw(1); break;
        case SWAP01: S(0).swap(S(1)); saw(0); saw(1); break;
        case NEW0: if (decided()) S(0) = K::make(K::obj(READ0), 2); saw(0); break;
        case RENEW0: if (decided()) S(0).reset(K::obj(READ1)); saw(0); break;
        case POP0: S(0) = std::move(next(n)); saw(0); break;
        case CONV0: if (decided()) S(0) = std::move(QQ()); saw(0); break;
        }
    }
    static void apply(const OpD& d) {
        auto& ms = W.ms;
        switch (d.c) {
        case MK: m_new(ms[d.a], d.x, d.del); S(d.a) = K::make(K::obj(d.x), d.del); break;
        case MKNEXT: { MObj* a = ms[d.a].o; MObj* v = m_make(d.x); MObj* old = a->next; uint64_t od = a->nextdel; a->next = v; a->nextdel = K::recorded ? d.del : 0; m_dispose(old, od); next(K::deref(S(d.a))) = K::make(K::obj(d.x), d.del); } break;
        case RESET: m_reset(ms[d.a], nullptr); S(d.a).reset(); break;
        case RESETNEW: { MObj* v = m_make(d.x); m_reset(ms[d.a], v); S(d.a).reset(K::obj(d.x)); } break;
        case ANULL: m_reset(ms[d.a], nullptr); S(d.a) = nullptr; break;
        case MOVE: m_move(ms[d.a], ms[d.b]); { P& to = S(d.a); to = std::move(S(d.b)); } break;
        case MOVECTOR: {
            MSlot t{ms[d.b].o, m_from(ms[d.b].del)}; ms[d.b].o = nullptr;
            MSlot old = ms[d.a]; ms[d.a] = t; m_dispose(old.o, old.del);
            P u(std::move(S(d.b)));
            if (S(d.b)) sq::fail("value", "a moved from pointer is not null");
            S(d.a) = std::move(u);
            if (u) sq::fail("value", "a moved from pointer is not null");
        } break;
        case SWAP: if (d.a != d.b) std::swap(ms[d.a], ms[d.b]); S(d.a).swap(S(d.b)); break;
        case RELEASE: {
            W.mloose = ms[d.a].o; ms[d.a].o = nullptr;
            Node* r = S(d.a).release();
            if (r != (W.mloose ? W.mloose->obj : nullptr)) sq::fail("value", "release returns the wrong pointer");
            W.loose = r;
        } break;
        case TAKE: { MObj* v = W.mloose; W.mloose = nullptr; m_reset(ms[d.a], v); Node* p = static_cast<Node*>(W.loose); W.loose = nullptr; S(d.a).reset(p); } break;
        case DESTROY: {
            W.dying = 1 + d.a;
            m_dispose(ms[d.a].o, ms[d.a].del);
            ms[d.a] = {nullptr, K::empty_id};
            MSlot keep = ms[d.a]; (void)keep;
            S(d.a).~P();
            W.dying = 0;
            new (&W.s[d.a]) P(K::empty());
        } break;
        case NEWQ: { MObj* v = m_make(d.x, true); MObj* old = W.mq.o; uint64_t od = W.mq.del; W.mq = {v, K::recorded ? d.del : uint64_t(0)}; m_dispose(old, od); QQ() = K::makeq(K::objq(d.x), d.del); } break;
        case CONV: m_conv(ms[d.a]); S(d.a) = std::move(QQ()); break;
        case CONVCTOR:
            if constexpr (std::is_constructible_v<P, Q&&>) { m_conv(ms[d.a]); S(d.a) = P(std::move(QQ())); }
            break;
        case RESETQ: { MObj* old = W.mq.o; W.mq.o = nullptr; m_dispose(old, W.mq.del); QQ().reset(); } break;
        case POP: m_pop(ms[d.a], ms[d.b].o); S(d.a) = std::move(next(K::deref(S(d.b)))); break;
        case POPRESET: { MObj* b = ms[d.b].o; MObj* v = b->next; b->next = nullptr; m_reset(ms[d.a], v); S(d.a).reset(next(K::deref(S(d.b))).release()); } break;
        case PUSH: { MObj* a = ms[d.a].o; MObj* v = ms[d.b].o; ms[d.b].o = nullptr; uint64_t dd = m_from(ms[d.b].del); MObj* old = a->next; uint64_t od = a->nextdel; a->next = v; a->nextdel = uint32_t(dd); m_dispose(old, od); next(K::deref(S(d.a))) = std::move(S(d.b)); } break;
        case NEXTRESET: { MObj* a = ms[d.a].o; MObj* old = a->next; a->next = nullptr; m_dispose(old, a->nextdel); next(K::deref(S(d.a))).reset(); } break;
        case NEXTNEXT: {
            MObj* a = ms[d.a].o; MObj* n = a->next; MSlot t{n->next, n->nextdel}; n->next = nullptr; if (k_moved0) n->nextdel = 0;
            uint64_t od = a->nextdel; a->next = t.o; a->nextdel = uint32_t(t.del); m_dispose(n, od);
            P& an = next(K::deref(S(d.a))); an = std::move(next(K::deref(an)));
        } break;
        case NEXTCONV: {
            MObj* a = ms[d.a].o; MObj* v = W.mq.o; uint64_t dd = W.mq.del; W.mq.o = nullptr; if (q_moved0) W.mq.del = 0;
            MObj* old = a->next; uint64_t od = a->nextdel; a->next = v; a->nextdel = uint32_t(dd); m_dispose(old, od);
            next(K::deref(S(d.a))) = std::move(QQ());
        } break;
        }
    }
    static void look(const char* what, const P& p, MObj* o, uint64_t del) {
        if (p.get() != (o ? o->obj : nullptr)) sq::fail("value", "%s has the wrong value", what);
        if (bool(p) != !!o) sq::fail("value", "%s: wrong truth value", what);
        if (o && (&K::deref(p) != o->obj || K::deref(p).magic != 0x40DE)) sq::fail("value", "%s: dereferencing yields the wrong object", what);
        if (K::ids && (o || !K::moved0) && K::id(p) != del) sq::fail("deleter", "%s has deleter %d instead of %d", what, int(K::id(p)), int(del));
    }
    static void observe() {
        look("u0", S(0), W.ms[0].o, W.ms[0].del); look("u1", S(1), W.ms[1].o, W.ms[1].del);
        if (static_cast<Node*>(QQ().get()) != (W.mq.o ? W.mq.o->obj : nullptr)) sq::fail("value", "q has the wrong value");
        if (K::ids && W.mq.o && K::idq(QQ()) != W.mq.del) sq::fail("deleter", "q has the wrong deleter");
        for (auto o : W.tab) if (o) look("next", next(*static_cast<Node*>(o->obj)), o->next, o->nextdel);
        if (W.d[0].id != 1 || W.d[1].id != 2) sq::fail("deleter", "a deleter held by reference was changed");
    }
    static void end(int order) {
        auto u = [&](int i) { m_dispose(W.ms[i].o, W.ms[i].del); W.ms[i].o = nullptr; S(i).~P(); };
        auto q = [&] { m_dispose(W.mq.o, W.mq.del); W.mq.o = nullptr; QQ().~Q(); };
        if (order) { q(); u(1); u(0); } else { u(0); u(1); q(); }
        if (W.loose) {
            MObj* o = W.mloose;
            expect(EV_DTOR, o); o->state = 3; // deleted by hand
            MObj* n = o->next; uint64_t nd = o->nextdel; o->next = nullptr; m_dispose(n, nd);
            K::del(W.loose);
        }
    }
    static constexpr Iface iface = {config, init, apply, observe, end, act, node_ctor, node_dtor, get};
};
Node::Node(uint64_t a) : act(a) {
    if (icreated == ncreated) sq::fail("life", "an object is constructed which nobody asked for");
    created[icreated++]->obj = this;
    I->node_ctor(*this);
}
Node::~Node() {
    if (magic != 0x40DE) sq::fail("mem", "the object to destroy is damaged");
    MObj* o = find(this);
    if (!o) sq::fail("life", "a destructor runs for an object which does not exist");
    happened(EV_DTOR, o);
    if (!W.ending) I->act(*this);
    I->node_dtor(*this);
    magic = 0;
}

struct KindD { const char* name; const Iface* i; };
static const KindD kinds[] = {
    {"stateless", &Run<KStateless>::iface}, {"stateful", &Run<KStateful>::iface}, {"function", &Run<KFun>::iface}, {"array", &Run<KArrStateless>::iface}, {"array with state", &Run<KArrStateful>::iface},
#if !USTD
    {"reference", &Run<KRef>::iface}, {"const reference", &Run<KConstRef>::iface},
#endif
    {"value from reference", &Run<KValueFromRef>::iface}, {"function from class", &Run<KFunFromClass>::iface}};
static std::vector<Config> configs() {
    std::vector<Config> v;
    for (auto& k : kinds) {
        std::string n = k.name;
        v.push_back({k.name, n + ": plain", {NONE}, 3, false});
        v.push_back({k.name, n + ": readers", {READ0, READ1}, 2, false});
#if !USTD
        v.push_back({k.name, n + ": resetters", {RESET0, RESET1, NULL0}, 2, false});
        v.push_back({k.name, n + ": releasers", {RELEASE0, RELEASE1, READ0}, 2, false});
        v.push_back({k.name, n + ": movers", {MOVE01, SWAP01, POP0}, 2, false});
        v.push_back({k.name, n + ": creators", {NEW0, RENEW0}, 2, false});
        v.push_back({k.name, n + ": converters", {CONV0, MOVE10}, 2, false});
        v.push_back({k.name, "deep: " + n + " readers", {NONE, READ0, READ1}, 3, true});
        v.push_back({k.name, "deep: " + n + " resetters", {RESET0, RESET1, READ0}, 3, true});
        v.push_back({k.name, "deep: " + n + " releasers", {RELEASE0, RELEASE1}, 3, true});
        v.push_back({k.name, "deep: " + n + " movers", {MOVE01, SWAP01, POP0}, 3, true});
        v.push_back({k.name, "deep: " + n + " creators", {NEW0, RENEW0}, 3, true});
        v.push_back({k.name, "deep: " + n + " mixed", {READ0, RESET0, RELEASE0, MOVE10, POP0, CONV0, NEW0}, 2, true});
#endif
    }
    return v;
}
static void build() {
    ops.clear();
    bool ids = k_recorded;
    auto add = [](Code c, int a, int b = -1, int x = 0, int del = 1) { ops.push_back({c, int8_t(a), int8_t(b), uint8_t(x), uint8_t(del)}); };
    for (int del = 1; del <= (ids ? 2 : 1); ++del) {
        for (int a : cfg.acts) { for (int s = 0; s < NS; ++s) add(MK, s, -1, a, del); add(NEWQ, 0, -1, a, del); }
        for (int s = 0; s < NS; ++s) add(MKNEXT, s, -1, cfg.acts[0], del);
    }
    for (int s = 0; s < NS; ++s) {
        add(RESET, s); add(ANULL, s); add(RELEASE, s); add(TAKE, s); add(DESTROY, s); add(CONV, s); add(CONVCTOR, s); add(NEXTRESET, s); add(NEXTNEXT, s); add(NEXTCONV, s);
        add(RESETNEW, s, -1, cfg.acts.back());
        for (int t = 0; t < NS; ++t) { add(MOVE, s, t); add(POP, s, t); add(SWAP, s, t); if (s != t) { add(MOVECTOR, s, t); add(PUSH, s, t); } add(POPRESET, s, t); }
    }
    add(RESETQ, 0);
}

extern "C" {
int h_nconfigs() { static auto c = configs(); return int(c.size()); }
const char* h_config_name(int c) { static auto v = configs(); static std::string s; s = std::string(USTD ? "std::unique_ptr: " : "unique_ptr: ") + v[c].name; return s.c_str(); }
void h_config(int c) {
    cfg = configs()[c]; nobj_limit = cfg.nobj;
    for (auto& k : kinds) if (k.name == cfg.kind) I = k.i;
    I->config();
    build();
}
sq::Sizes h_sizes() { return {offsetof(World, tab), sizeof(World), 512, 64}; }
void h_init() { I->init(); }
int h_nops() { return int(ops.size()); }
void h_opname(int op, char* b, size_t n) {
    auto& d = ops[op];
    if (d.c == MK || d.c == MKNEXT || d.c == RESETNEW) snprintf(b, n, "u%d %s <%s> deleter %d", d.a, cname[d.c], act_name[d.x], d.del);
    else if (d.c == NEWQ) snprintf(b, n, "%s <%s> deleter %d", cname[d.c], act_name[d.x], d.del);
    else if (d.b >= 0) snprintf(b, n, "u%d %s u%d", d.a, cname[d.c], d.b);
    else snprintf(b, n, "u%d %s", d.a, cname[d.c]);
}
static bool reaches(MObj* from, MObj* to) { for (; from; from = from->next) if (from == to) return true; return false; }
bool h_enabled(int op) {
    auto& d = ops[op];
    MObj* a = W.ms[d.a].o; MObj* b = d.b >= 0 ? W.ms[d.b].o : nullptr;
    bool rm = nobjs() < cfg.nobj;
    bool bound = !k_recorded || W.ms[d.a].del; // not with a deleter which was moved away
    switch (d.c) {
    case MK: case NEWQ: return rm;
    case MKNEXT: return rm && a;
    case RESETNEW: return rm && bound;
    case RELEASE: return !W.mloose;
    case TAKE: return W.mloose && bound;
    case CONV: case CONVCTOR: return !q_moved0 || W.mq.del;
    case NEXTCONV: return a && (!q_moved0 || W.mq.del);
    case POP: return b;
    case POPRESET: return b && (!b->next || bound);
    case PUSH: return a && (!b || !reaches(b, a));
    case NEXTRESET: return a;
    case NEXTNEXT: return a && a->next;
    default: return true;
    }
}
void h_apply(int op) {
    auto& d = ops[op];
    sq::set_group(d.c == CONV || d.c == CONVCTOR || d.c == NEXTCONV ? "convert" : d.c == SWAP ? "swap" : "unique");
    nev = iev = ncreated = icreated = nwill = iwill = 0;
    I->apply(d);
    settle();
}
void h_observe() { I->observe(); }
void h_end(int order) {
    W.ending = 1;
    nev = iev = ncreated = icreated = nwill = iwill = 0;
    I->end(order);
    settle();
    for (auto o : W.tab) if (o) sq::fail("leak", "an object is left");
}
}
