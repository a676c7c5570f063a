// Objects which hand out handles to themselves.
#include "families.h"
// ESF 0: enable_shared_from, 1: enable_shared_from_this
#ifndef ESF
#define ESF 0
#endif
#if FAM == 0
using EF = xmem::enable_shared_from;
template <typename T> using EFT = xmem::enable_shared_from_this<T>;
#elif FAM == 1
using EF = xmem::enable_local_shared_from;
template <typename T> using EFT = xmem::enable_local_shared_from_this<T>;
#elif FAM == 2
using EF = xmem::basic_enable_shared_from<CBF>;
template <typename T> using EFT = xmem::basic_enable_shared_from_this<CBF, T>;
#else
using EF = xstd::enable_shared_from;
template <typename T> using EFT = std::enable_shared_from_this<T>;
#endif

// an owner group: the handles which share one owner
struct MObj;
struct MGrp { uint32_t strong, weak, keep, pad; MObj* obj; };
struct MObj { uint32_t state, in_cb, groups, keeps; void* obj; MGrp* link; uint64_t val; };
enum : uint32_t { ALIVE = 1, DEAD = 3 };

constexpr int NH = 2, MAXO = 6;
struct World {
    struct H { void* w[2]; } h[NH], v, ch, w, vw, sub;
    MGrp *mh[NH], *mv, *mch, *mw, *mvw, *msub;
    MObj* held[2];     // objects known to the user, whoever owns them
    // not part of the state
    MObj* tab[MAXO]; MObj* pending; uint64_t ending;
};
static World& W = *reinterpret_cast<World*>(sq::ROOT_ADDR);

struct Node;
struct Pad { uint64_t pad = 3; virtual ~Pad() = default; };
#if ESF == 0
struct Self : EF {
#if IS_STD
    // the bare questions are about whoever owns the object; asking for more than void is done with shared_from
#endif
    SP<Node> ask(Node* n) { return this->shared_from(n); }
    SP<const Node> cask(const Node* n) const { return this->shared_from(n); }
    SP<void> vask() { return this->shared_from_this(); }
    SP<const void> cvask() const { return this->shared_from_this(); }
    WP<Node> wask(Node* n) { return this->weak_from(n); }
    WP<void> vwask() { return this->weak_from_this(); }
    WP<const void> cvwask() const { return this->weak_from_this(); }
    SP<uint64_t> sask(uint64_t* p) { return this->shared_from(p); }
    static constexpr bool has_void = true;
};
#else
struct Self : EFT<Node> {
    SP<Node> ask(Node*) { return this->shared_from_this(); }
    SP<const Node> cask(const Node*) const { return this->shared_from_this(); }
    SP<void> vask() { return this->shared_from_this(); }
    WP<Node> wask(Node*) { return this->weak_from_this(); }
    SP<const void> cvask() const { return this->shared_from_this(); }
    WP<void> vwask() { return this->weak_from_this(); }
    WP<const void> cvwask() const { return this->weak_from_this(); }
    SP<uint64_t> sask(uint64_t* p) { return SP<uint64_t>(this->shared_from_this(), p); }
};
#endif
struct Throw {};
struct Node : Pad, Self {
    uint64_t magic = 0x5E1F, val;
    uint64_t subv = 9;
    explicit Node(uint64_t v);
    Node(Throw) { throw ObjError{}; }
    Node(const Node& o);
    Node(Node&& o);
    Node& operator=(const Node& o) { Pad::operator=(o); Self::operator=(o); val = o.val; return *this; }
    Node& operator=(Node&& o) { Pad::operator=(std::move(o)); Self::operator=(std::move(o)); val = o.val; return *this; }
    ~Node();
    void born();
};
struct Derived : Node { uint64_t more = 1; explicit Derived(uint64_t v) : Node(v) {} };

template <typename T, typename R> static T& at(R& r) { return *std::launder(reinterpret_cast<T*>(&r)); }
static SP<Node>& H(int i) { return at<SP<Node>>(W.h[i]); }
static SP<void>& V() { return at<SP<void>>(W.v); }
static SP<const Node>& CH() { return at<SP<const Node>>(W.ch); }
static WP<Node>& WK() { return at<WP<Node>>(W.w); }
static WP<void>& VW() { return at<WP<void>>(W.vw); }
static SP<uint64_t>& SUB() { return at<SP<uint64_t>>(W.sub); }

static MObj* find(const void* p) { if (p) for (auto o : W.tab) if (o && o->state == ALIVE && o->obj == p) return o; return nullptr; }
static MObj* m_new(bool in_cb) {
    for (auto& t : W.tab) if (!t) {
        auto o = static_cast<MObj*>(sq::model_alloc(sizeof(MObj)));
        o->state = ALIVE; o->in_cb = in_cb; t = o; W.pending = o;
        return o;
    }
    sq::fail("engine", "model table full");
}
// who owns the object; adopting links it unless it is linked to a living owner
static MGrp* m_group(MObj* o, bool keep) {
    auto g = static_cast<MGrp*>(sq::model_alloc(sizeof(MGrp)));
    g->obj = o; g->keep = keep; g->strong = 1; ++o->groups; o->keeps += keep;
    if (!o->link || !o->link->strong) o->link = g;
    return g;
}
static MObj* to_die, *to_park; // expected by what is being done
static void m_drop(MGrp* g) {
    if (!g || --g->strong) return;
    --g->obj->groups; g->obj->keeps -= g->keep;
    if (g->keep) to_park = g->obj; else to_die = g->obj;
}
static void m_set(MGrp*& to, MGrp* g) { if (g) ++g->strong; MGrp* old = to; to = g; m_drop(old); }
static void m_wset(MGrp*& to, MGrp* g) { if (g) ++g->weak; if (to) --to->weak; to = g; }

// nobody owns the object: asking yields nothing
static void ask_unowned_weak(Node& n, const char* when) {
    const Node& c = n;
    auto vw = n.vwask(); if (vw.use_count() || vw.lock()) sq::fail("self", "%s a weak void handle to itself is not expired", when);
    auto cvw = c.cvwask(); if (cvw.use_count() || cvw.lock()) sq::fail("self", "%s a const weak void handle to itself is not expired", when);
}
static void ask_unowned(Node& n, const char* when) {
#if !IS_STD
    auto s = n.ask(&n); if (s || s.use_count() || s.owner()) sq::fail("self", "%s a strong handle to itself is not empty", when);
    const Node& c = n;
    auto cs = c.cask(&c); if (cs || cs.use_count()) sq::fail("self", "%s a const strong handle to itself is not empty", when);
    auto v = n.vask(); if (v || v.use_count()) sq::fail("self", "%s a strong void handle to itself is not empty", when);
    auto cv = c.cvask(); if (cv || cv.use_count()) sq::fail("self", "%s a const strong void handle to itself is not empty", when);
    auto p = n.sask(&n.subv); if (p.use_count()) sq::fail("self", "%s a strong handle to a part of itself has an owner", when);
#endif
    auto w = n.wask(&n); if (w.use_count() || w.lock()) sq::fail("self", "%s a weak handle to itself is not expired", when);
    ask_unowned_weak(n, when);
}
#if IS_STD && ESF == 0
#define WEAK_UNOWNED 0 // xstd: weak_from throws if there is no owner
#else
#define WEAK_UNOWNED 1
#endif
static void ask_unowned_if(Node& n, const char* when) {
#if IS_STD && ESF == 0
    ask_unowned_weak(n, when);
#else
    ask_unowned(n, when);
#endif
}
void Node::born() {
    MObj* o = W.pending;
    if (!o) sq::fail("create", "an object is constructed which nobody asked for");
    W.pending = nullptr;
    o->obj = this; o->val = val;
    ask_unowned_if(*this, "in its constructor");
}
Node::Node(uint64_t v) : val(v) { born(); }
Node::Node(const Node& o) : Pad(o), Self(o), val(o.val) { born(); }
Node::Node(Node&& o) : Pad(std::move(o)), Self(std::move(o)), val(o.val) { born(); }
Node::~Node() {
    if (magic != 0x5E1F) sq::fail("mem", "the object to destroy is damaged");
    MObj* o = find(this);
    if (!o) sq::fail("life", "a destructor runs for an object which does not exist");
    if (o != to_die) sq::fail("life", "an object is destroyed which should not be");
    to_die = nullptr;
    ask_unowned_if(*this, "in its destructor");
    o->state = DEAD; o->obj = this;
    magic = 0;
}
struct Keep { // a deleter which does not delete
    template <typename T> void operator()(T* p) const {
        Node* n = p;
        MObj* o = find(n);
        if (!o || o != to_park) sq::fail("life", "a deleter is called for the wrong object");
        to_park = nullptr;
        if (!o->groups) ask_unowned_if(*n, "in the deleter");
    }
};

enum Code : uint8_t { MK, NEW, COPYNEW, MOVENEW, ADOPT, ADOPTKEEP, ADOPTU, ADOPTUKEEP, ADOPTV, ADOPTC, RESETADOPT, DEL, FORGET, HOLD, COPYC, MOVEC, SELFC, ASK, VASK, CASK, WASK, VWASK, SASK, ASKW, HCOPY, HMOVE, HRESET, VRESET, CRESET, SRESET, WRESET, VWRESET, WLOCK, VWLOCK, WSET, NULLS, FAULT, MKTHROW, MKDER };
const char* const cname[] = {"h = make", "new without owner", "new as copy of held", "new as moved held", "h = shared(held)", "h = shared(held, keep)", "h = unique(held)", "h = unique(held, keep)", "v = shared<void>(held)", "ch = shared<const>(held)", "h.reset(held)", "delete held", "forget held", "hold what h points to", "contents copied to the other", "contents moved to the other", "contents assigned to itself",
    "h = held->shared_from_this", "v = held->shared_from_this<void>", "ch = const held->shared_from_this", "w = held->weak_from_this", "vw = held->weak_from_this<void>", "sub = held->shared_from(part)", "h = held->weak_from_this.lock", "h = copy of other", "h = move of other", "h.reset", "v.reset", "ch.reset", "sub.reset", "w.reset", "vw.reset", "h = w.lock", "v = vw.lock", "w = h", "adopting null", "h = shared(held) without memory", "make with throwing constructor", "h = make derived" };
struct OpD { Code c; int8_t a, b; };
static std::vector<OpD> ops;
struct Config { const char* name; bool many, parts, content; int limit; };
static const Config confs[] = {{"one owner, all questions", false, true, false, 1}, {"several owners", true, false, false, 1}, {"contents", false, false, true, 2}, {"several owners, contents", true, false, true, 2}, {"deep: several owners, parts", true, true, false, 1}, {"deep: one owner, all questions, two objects", false, true, false, 2}};
static Config cfg;
static int nobjs() { int n = 0; for (auto o : W.tab) n += o && o->state == ALIVE; return n; }
static Node* N(MObj* o) { return static_cast<Node*>(o->obj); }

extern "C" {
int h_nconfigs() { return sizeof confs / sizeof *confs; }
const char* h_config_name(int c) { static std::string s; s = std::string(FAM_NAME) + (ESF ? " from_this" : " from") + ": " + confs[c].name; return s.c_str(); }
void h_config(int c) {
    cfg = confs[c]; ops.clear();
    auto add = [](Code c, int a = 0, int b = 0) { ops.push_back({c, int8_t(a), int8_t(b)}); };
    for (int k = 0; k < NH; ++k) {
        add(MK, k); add(MKDER, k); add(HRESET, k); add(HCOPY, k); add(HMOVE, k); add(WSET, k); add(WLOCK, k); add(MKTHROW, k);
        for (int i = 0; i < 2; ++i) { add(HOLD, k, i); add(ADOPT, k, i); add(ADOPTKEEP, k, i); add(ASK, k, i); add(ADOPTU, k, i); add(ADOPTUKEEP, k, i); add(RESETADOPT, k, i); add(FAULT, k, i); add(ASKW, k, i); }
    }
    for (int i = 0; i < 2; ++i) {
        add(NEW, 0, i); add(DEL, 0, i); add(FORGET, 0, i); add(WASK, 0, i);
        if (cfg.content) { add(COPYC, 0, i); add(MOVEC, 0, i); add(SELFC, 0, i); add(COPYNEW, 0, i); add(MOVENEW, 0, i); }
        if (cfg.parts) { add(VASK, 0, i); add(CASK, 0, i); add(VWASK, 0, i); add(SASK, 0, i); add(ADOPTV, 0, i); add(ADOPTC, 0, i); }
    }
    add(WRESET);
    if (cfg.parts) { add(VRESET); add(CRESET); add(SRESET); add(VWRESET); add(VWLOCK); }
    for (int k = 0; k < 5; ++k) add(NULLS, k);
}
sq::Sizes h_sizes() { return {offsetof(World, tab), sizeof(World), 1024, 96}; }
void h_init() {
    for (int k = 0; k < NH; ++k) new (&W.h[k]) SP<Node>();
    new (&W.v) SP<void>(); new (&W.ch) SP<const Node>(); new (&W.w) WP<Node>(); new (&W.vw) WP<void>(); new (&W.sub) SP<uint64_t>();
}
int h_nops() { return int(ops.size()); }
void h_opname(int op, char* b, size_t n) { auto& d = ops[op]; snprintf(b, n, "%s [h%d, held %d]", cname[d.c], d.a, d.b); }
bool h_enabled(int op) {
    auto& d = ops[op];
    MObj* o = W.held[d.b]; MObj* o2 = W.held[!d.b];
    bool live = o && o->state == ALIVE;
    bool room = nobjs() < cfg.limit;
    bool owned = live && o->groups;
    bool linked = live && o->link && o->link->strong;
    // owned by deleting owners only once and only if it can be deleted
    bool adoptable = live && !owned && !o->in_cb, adoptkeep = live && !o->in_cb && (cfg.many ? o->groups < 2 && o->groups == o->keeps : !owned); // several owners: none of them deletes
    switch (d.c) {
    case MK: case MKDER: return room;
    case MKTHROW: return true;
    case NEW: return room && !o;
    case COPYNEW: case MOVENEW: return room && !o && o2 && o2->state == ALIVE;
    case ADOPT: case ADOPTU: case ADOPTV: case ADOPTC: case RESETADOPT: case FAULT: return adoptable;
    case ADOPTKEEP: case ADOPTUKEEP: return adoptkeep;
    case DEL: return live && !owned && !o->in_cb;
    case FORGET: return o && (o == o2 || (owned && !o->keeps));
    case HOLD: return !o && W.mh[d.a];
    case COPYC: case MOVEC: return live && o2 && o2->state == ALIVE && o != o2;
    case SELFC: return live;
    case WASK: case ASKW: return live && (linked || WEAK_UNOWNED);
#if IS_STD
    case ASK: case VASK: case CASK: case SASK: return live && linked;
#else
    case ASK: case VASK: case CASK: case SASK: return live;
#endif
    case VWASK: return live;
    default: return true;
    }
}
static void settle_objs() {
    if (to_die) sq::fail("life", "an object was not destroyed although its last owner is gone");
    if (to_park) sq::fail("deleter", "a deleter was not called");
    if (W.pending) sq::fail("create", "an object was not constructed");
    for (auto& h : W.held) if (h && h->state == DEAD) h = nullptr;
    for (auto& o : W.tab) if (o && o->state == DEAD) {
        if (o->obj && sq::is_live(o->obj) && !o->in_cb) sq::fail("leak", "object destroyed but its storage is not released");
        if (o->obj && sq::is_live(o->obj)) sq::poison(o->obj, sizeof(Node));
        o = nullptr;
    }
}
static MGrp* alive(MGrp* g) { return g && g->strong ? g : nullptr; }
void h_apply(int op) {
    OpD d = ops[op];
    MObj* o = W.held[d.b]; MObj* o2 = W.held[!d.b];
    to_die = to_park = nullptr; W.pending = nullptr;
    sq::set_group("self");
    auto take = [&](MGrp*& slot, MGrp* g) { MGrp* old = slot; slot = g; m_drop(old); };
    switch (d.c) {
    case MK: { MObj* n = m_new(true); take(W.mh[d.a], m_group(n, false)); H(d.a) = mk_shared<Node>(uint64_t(1)); } break;
    case MKDER: { MObj* n = m_new(true); take(W.mh[d.a], m_group(n, false)); H(d.a) = mk_shared<Derived>(uint64_t(2)); } break;
    case MKTHROW: { bool t = false; try { auto s = mk_shared<Node>(Throw{}); } catch (ObjError&) { t = true; } if (!t) sq::fail("fault", "an error does not reach the caller"); } break;
    case NEW: W.held[d.b] = m_new(false); new Node(3); break;
    case COPYNEW: W.held[d.b] = m_new(false); new Node(*N(o2)); break;
    case MOVENEW: W.held[d.b] = m_new(false); new Node(std::move(*N(o2))); break;
    case ADOPT: take(W.mh[d.a], m_group(o, false)); H(d.a) = SP<Node>(N(o)); break;
    case RESETADOPT: take(W.mh[d.a], m_group(o, false)); H(d.a).reset(N(o)); break;
    case ADOPTKEEP: take(W.mh[d.a], m_group(o, true)); H(d.a) = SP<Node>(N(o), Keep{}); break;
    case ADOPTU: { take(W.mh[d.a], m_group(o, false)); UP<Node> u(N(o)); H(d.a) = std::move(u); } break;
    case ADOPTUKEEP: { take(W.mh[d.a], m_group(o, true)); UP<Node, Keep> u(N(o), Keep{}); H(d.a) = SP<Node>(std::move(u)); } break;
    case ADOPTV: take(W.mv, m_group(o, false)); V() = SP<void>(N(o)); break;
    case ADOPTC: take(W.mch, m_group(o, false)); CH() = SP<const Node>(N(o)); break;
    case DEL: to_die = o; delete N(o); break;
    case FORGET: W.held[d.b] = nullptr; break;
    case HOLD: W.held[d.b] = W.mh[d.a]->obj; break;
    case COPYC: o->val = o2->val; *N(o) = *N(o2); break;
    case MOVEC: o->val = o2->val; *N(o) = std::move(*N(o2)); break;
    case SELFC: { Node& n = *N(o); n = static_cast<const Node&>(n); } break;
    case ASK: m_set(W.mh[d.a], alive(o->link)); H(d.a) = N(o)->ask(N(o)); break;
    case ASKW: m_set(W.mh[d.a], alive(o->link)); H(d.a) = N(o)->wask(N(o)).lock(); break;
    case VASK: m_set(W.mv, alive(o->link)); V() = N(o)->vask(); break;
    case CASK: { m_set(W.mch, alive(o->link)); const Node* c = N(o); CH() = c->cask(c); } break;
    case WASK: m_wset(W.mw, o->link); WK() = N(o)->wask(N(o)); break;
    case VWASK: m_wset(W.mvw, o->link); VW() = N(o)->vwask(); break;
    case SASK: {
        MGrp* g = alive(o->link);
        m_set(W.msub, g);
        SUB() = N(o)->sask(&N(o)->subv);
        if (g && SUB().get() != &static_cast<Node*>(g->obj->obj)->subv) sq::fail("self", "the handle points elsewhere than asked");
        if (!g && SUB().get()) SUB() = nullptr;
    } break;
    case HCOPY: m_set(W.mh[d.a], W.mh[!d.a]); H(d.a) = H(!d.a); break;
    case HMOVE: { MGrp* g = W.mh[!d.a]; W.mh[!d.a] = nullptr; take(W.mh[d.a], g); H(d.a) = std::move(H(!d.a)); } break;
    case HRESET: m_set(W.mh[d.a], nullptr); H(d.a).reset(); break;
    case VRESET: m_set(W.mv, nullptr); V().reset(); break;
    case CRESET: m_set(W.mch, nullptr); CH().reset(); break;
    case SRESET: m_set(W.msub, nullptr); SUB().reset(); break;
    case WRESET: m_wset(W.mw, nullptr); WK().reset(); break;
    case VWRESET: m_wset(W.mvw, nullptr); VW().reset(); break;
    case WLOCK: m_set(W.mh[d.a], alive(W.mw)); H(d.a) = WK().lock(); break;
    case VWLOCK: m_set(W.mv, alive(W.mvw)); V() = VW().lock(); break;
    case WSET: m_wset(W.mw, W.mh[d.a]); WK() = H(d.a); break;
    case NULLS: {
        Node* null = nullptr;
        switch (d.a) {
        case 0: { SP<Node> s(null); if (s) sq::fail("self", "adopting null yields an object"); } break;
        case 1: { UP<Node> u; SP<Node> s(std::move(u)); if (s) sq::fail("self", "adopting null yields an object"); } break;
        case 2: { SP<Node> s; s.reset(null); if (s) sq::fail("self", "adopting null yields an object"); } break;
        case 3: { SP<Node> s(null); WP<Node> w(s); if (w.lock()) sq::fail("self", "adopting null yields an object"); } break;
        case 4: { UP<Node> u; SP<Node> s; s = std::move(u); if (s) sq::fail("self", "adopting null yields an object"); } break;
        }
    } break;
    case FAULT: {
        bool thrown = false;
        sq::fail_alloc(1);
        to_die = o; // disposed of, as it was given to the handle
        try { SP<Node> s(N(o)); } catch (std::bad_alloc&) { thrown = true; }
        bool fired = sq::fault_fired();
        sq::fail_alloc(0);
        if (!fired) sq::fail("engine", "no allocation to fail");
        if (!thrown) sq::fail("fault", "the lack of memory is not reported");
    } break;
    }
    settle_objs();
}
extern "C++" {
template <typename S> void look(const char* what, const S& s, MGrp* g) {
    const void* p = g ? g->obj->obj : nullptr;
    const void* q;
    if constexpr (std::is_same_v<S, SP<void>>) { q = s.get(); } else q = s.get();
    if constexpr (std::is_void_v<typename S::element_type>) // where to was not said
        if (p && q == static_cast<const Self*>(static_cast<const Node*>(p))) q = p;
    if (q != p) sq::fail("self", "%s points to the wrong place", what);
    if (s.use_count() != (g ? long(g->strong) : 0)) sq::fail("self", "%s does not share ownership: use count %ld, expected %ld", what, s.use_count(), g ? long(g->strong) : 0);
}
template <typename X> void lookw(const char* what, const X& w, MGrp* g) {
    long n = g ? g->strong : 0;
    if (w.use_count() != n || w.expired() != !n) sq::fail("self", "%s has use count %ld, expected %ld", what, w.use_count(), n);
    auto l = w.lock();
    const void* q = l.get();
    if constexpr (std::is_same_v<X, WP<void>>) if (n && q == static_cast<const Self*>(static_cast<const Node*>(g->obj->obj))) q = g->obj->obj;
    if (q != (n ? g->obj->obj : nullptr)) sq::fail("self", "%s locks to the wrong object", what);
}
}
void h_observe() {
    look("h0", H(0), W.mh[0]); look("h1", H(1), W.mh[1]); look("ch", CH(), W.mch); look("v", V(), W.mv);
    lookw("w", WK(), W.mw); lookw("vw", VW(), W.mvw);
    if (SUB().use_count() != (W.msub ? long(W.msub->strong) : 0)) sq::fail("self", "sub does not share ownership");
    for (auto o : W.tab) {
        if (!o || o->state != ALIVE) continue;
        Node* n = N(o);
        if (n->magic != 0x5E1F || n->pad != 3 || n->val != o->val) sq::fail("value", "an object is damaged");
        if (!o->groups) { ask_unowned_if(*n, "while nobody owns it"); continue; }
        MGrp* g = alive(o->link);
        if (!g) continue;
        auto s = n->ask(n);
        if (s.get() != n) sq::fail("self", "an owned object does not get a handle to itself");
        if (s.use_count() != long(g->strong) + 1) sq::fail("self", "a handle obtained from inside does not share ownership");
        const Node* c = n;
        auto cs = c->cask(c);
        if (cs.get() != n || cs.use_count() != long(g->strong) + 2) sq::fail("self", "a const handle obtained from inside does not share ownership");
        auto w = n->wask(n);
        if (w.use_count() != long(g->strong) + 2 || w.lock().get() != n) sq::fail("self", "a weak handle obtained from inside does not share ownership");
        {
            auto v = n->vask(); auto cv = c->cvask(); auto vw = n->vwask(); auto cvw = c->cvwask();
            if (!v || !cv || cvw.use_count() != long(g->strong) + 4 || vw.use_count() != long(g->strong) + 4) sq::fail("self", "a void handle obtained from inside does not share ownership");
#if !IS_STD
            if (v.owner() != s.owner() || cv.owner() != s.owner() || vw.owner() != s.owner() || cvw.owner() != s.owner()) sq::fail("self", "a void handle obtained from inside has another owner");
#endif
        }
        for (int k = 0; k < NH; ++k) if (W.mh[k] == g) {
#if IS_STD
            if (H(k).owner_before(s) || s.owner_before(H(k))) sq::fail("self", "a handle obtained from inside has another owner");
#else
            if (H(k).owner() != s.owner() || w.owner() != s.owner()) sq::fail("self", "a handle obtained from inside has another owner");
#endif
        }
    }
}
void h_end(int order) {
    to_die = to_park = nullptr;
    // objects nobody owns now, or which a keeping owner owns, are deleted by hand
    auto drop = [&](MGrp*& m) { MGrp* g = m; m = nullptr; m_drop(g); };
    auto strong = [&] {
        drop(W.mh[0]); H(0).~SP<Node>(); settle_objs();
        drop(W.mv); V().~SP<void>(); settle_objs();
        drop(W.mh[1]); H(1).~SP<Node>(); settle_objs();
        drop(W.mch); CH().~SP<const Node>(); settle_objs();
        drop(W.msub); SUB().~SP<uint64_t>(); settle_objs();
    };
    auto weak = [&] { m_wset(W.mw, nullptr); WK().~WP<Node>(); m_wset(W.mvw, nullptr); VW().~WP<void>(); };
    auto rest = [&] { for (auto o : W.tab) if (o && o->state == ALIVE && !o->groups && !o->in_cb) { to_die = o; delete N(o); settle_objs(); } };
    if (order) { weak(); strong(); rest(); } else { strong(); rest(); weak(); }
    for (auto o : W.tab) if (o && o->state == ALIVE) sq::fail("leak", "an object is left");
}
}
