// Objects which hold handles themselves and whose destructors use the handles through which they are released.
#include "families.h"
#if IS_STD
using xstd::make_aliased; using xstd::same_owner;
#else
using xmem::make_aliased; using xmem::same_owner;
#endif

enum Act : uint32_t { NONE, READ0, READ1, COPY0, COPY1, RESET0, RESET1, NULL0, ASSIGN01, ASSIGN10, MOVE01, SWAP01, TAKE0, TAKE1, NEW0, ADOPT0, ALIAS0, LOCKW, WSET0, WRESET,
    STREAD, STNULL, STSTORE0, STTAKE, STEXCH0, STCAS0, STNEW,
    READY, CVCOPY0, CVMOVE0, CVTAKE, CVRESET, CVNEW, CVDOWN0, N_ACTS };
const char* const act_name[] = {"nothing", "read h0", "read h1", "x = h0", "x = h1", "h0.reset()", "h1.reset()", "h0 = nullptr", "h0 = h1", "h1 = h0", "h0 = move(h1)", "h0.swap(h1)", "h0 = move(next)", "h1 = move(next)", "h0 = make", "h0.reset(new)", "h0 = alias of h1", "lock w", "w = h0", "w.reset()",
    "load storage", "store null in storage", "store h0 in storage", "store move(next) in storage", "h0 = exchange(h0)", "compare_exchange", "store new object in storage",
    "read y", "y = h0", "y = move(h0)", "y = move(next)", "y.reset()", "y.reset(new)", "h0 = cast of y"};

struct Node;
struct MObj {
    uint32_t state, act; // 1 alive, 2 dying, 3 dead
    uint32_t strong, weak;
    Node* obj;
    MObj* next;  // owned
    MObj* wk;    // observed
    uint32_t in_cb, pad;
};
constexpr int NH = 2, MAXO = 8;
struct World {
    alignas(64) unsigned char st[64];
    struct H { void* w[2]; } h[NH], x, w, y;
    MObj *mh[NH], *mx, *mw, *mst, *my;
    // not part of the state
    MObj* tab[MAXO];
    MObj* pending;
    uint64_t ending;
};
static World& W = *reinterpret_cast<World*>(sq::ROOT_ADDR);

struct Pad { uint64_t pad = 2; };
struct Base { uint64_t b = 1; };
struct Node : Pad, Base {
    uint64_t act;
    SP<Node> next;
    WP<Node> wk;
    explicit Node(uint64_t a);
    ~Node();
    Node(const Node&) = delete;
};
// libstdc++'s copy assignment is not as if by copy and swap, as the standard says it is
template <typename T> static void cpa(SP<T>& to, const SP<Node>& from) {
#if IS_STD
    to = SP<T>(from);
#else
    to = from;
#endif
}
static SP<Node>& H(int i) { return *std::launder(reinterpret_cast<SP<Node>*>(&W.h[i])); }
static SP<Node>& X() { return *std::launder(reinterpret_cast<SP<Node>*>(&W.x)); }
static WP<Node>& WK() { return *std::launder(reinterpret_cast<WP<Node>*>(&W.w)); }
static SP<Base>& Y() { return *std::launder(reinterpret_cast<SP<Base>*>(&W.y)); }
static SP<Node> down(const SP<Base>& b) {
#if IS_STD
    return std::static_pointer_cast<Node>(b);
#else
    return xmem::static_pointer_cast<Node>(b);
#endif
}
struct Del { void operator()(Node* n) const noexcept; };
static STO<Node>& ST() { return *std::launder(reinterpret_cast<STO<Node>*>(&W.st)); }

static int nobj_limit = 3;
static bool no_counts; // std::atomic<std::shared_ptr> may hold more references while it works
static int nobjs() { int n = 0; for (auto o : W.tab) n += !!o; return n; }

// --- expected events ----------------------------------------------------------------------------
struct Ev { int kind; const void* a; const void* b; long c; };
enum { EV_DTOR, EV_SEE, EV_RESULT };
static Ev evs[512]; static int nev, iev;
static void expect(int kind, const void* a, const void* b = nullptr, long c = 0) {
    if (nev == 512) sq::fail("engine", "too many events");
    evs[nev++] = {kind, a, b, c};
}
static void happened(int kind, const void* a, const void* b = nullptr, long c = 0) {
    if (iev == nev) sq::fail(kind == EV_DTOR ? "life" : "order", "%s which should not happen", kind == EV_DTOR ? "an object is destroyed" : "an observation");
    Ev& e = evs[iev++];
    if (e.kind != kind) sq::fail("order", "objects are destroyed in the wrong order or at the wrong time");
    if (kind == EV_DTOR && e.a != a) sq::fail("life", "the wrong object is destroyed");
    if (e.a != a) sq::fail("order", "in a destructor a handle has value %p instead of %p", a, e.a);
    if (e.b != b) sq::fail("order", "in a destructor a handle has owner %p instead of %p", b, e.b);
    if (e.c != c) sq::fail("order", "in a destructor a handle has use count %ld instead of %ld", c, e.c);
}

// --- the model ----------------------------------------------------------------------------------
static MObj* m_new(uint32_t act, bool in_cb) {
    for (auto& t : W.tab) if (!t) {
        auto o = static_cast<MObj*>(sq::model_alloc(sizeof(MObj)));
        o->state = 1; o->act = act; o->in_cb = in_cb; t = o;
        return o;
    }
    sq::fail("engine", "model table full");
}
static void m_act(MObj* o);
static void m_weakdrop(MObj* o) { if (o) --o->weak; }
static void m_drop(MObj* o) {
    if (!o || --o->strong) return;
    o->state = 2;
    expect(EV_DTOR, o);
    if (!W.ending) m_act(o);
    o->state = 3;
    MObj* w = o->wk; o->wk = nullptr; m_weakdrop(w);
    MObj* n = o->next; o->next = nullptr; m_drop(n);
}
static void m_copy(MObj*& to, MObj* from) { if (from) ++from->strong; MObj* old = to; to = from; m_drop(old); }
static void m_move(MObj*& to, MObj*& from) { if (&to == &from) return; MObj* f = from; from = nullptr; MObj* old = to; to = f; m_drop(old); }
static void m_wset(MObj*& to, MObj* from) { if (from) ++from->weak; MObj* old = to; to = from; m_weakdrop(old); }
// what is created while the model runs; the real objects are matched in order of creation
static MObj* created[64]; static int ncreated, icreated;
static MObj* m_make(uint32_t act, bool in_cb) { MObj* o = m_new(act, in_cb); created[ncreated++] = o; return o; }
static void m_take_new(MObj*& to, uint32_t act, bool in_cb) { MObj* o = m_make(act, in_cb); ++o->strong; MObj* old = to; to = o; m_drop(old); }
static bool room() { return nobjs() < nobj_limit + 2; }

static void see(MObj* o) { expect(EV_SEE, o, o, o && !no_counts ? o->strong : 0); }
static MObj* find(const Node* n) { if (n) for (auto o : W.tab) if (o && o->obj == n) return o; return nullptr; }
template <typename T> static void saw(const SP<T>& h) {
    MObj* o = find(static_cast<const Node*>(h.get()));
    if (h.get() && !o) sq::fail("order", "in a destructor a handle points to nothing");
    if (h.get() && h->b != 1) sq::fail("mem", "damaged object");
#if !IS_STD
    if (!h.owner() != !h.get()) sq::fail("order", "in a destructor a handle is half empty");
#endif
    happened(EV_SEE, o, o, no_counts ? 0 : h.use_count());
}
static bool will[64]; static int nwill, iwill; // decisions of the model which the implementation has to follow
static bool decide(bool b) { will[nwill++] = b; return b; }
static bool decided() { return will[iwill++]; }

static void m_act(MObj* o) {
    switch (o->act) {
    case NONE: break;
    case READ0: see(W.mh[0]); break;
    case READ1: see(W.mh[1]); break;
    case COPY0: m_copy(W.mx, W.mh[0]); see(W.mx); break;
    case COPY1: m_copy(W.mx, W.mh[1]); see(W.mx); break;
    case RESET0: case NULL0: { MObj* n = nullptr; m_copy(W.mh[0], n); see(W.mh[0]); } break;
    case RESET1: { MObj* n = nullptr; m_copy(W.mh[1], n); see(W.mh[1]); } break;
    case ASSIGN01: m_copy(W.mh[0], W.mh[1]); see(W.mh[0]); break;
    case ASSIGN10: m_copy(W.mh[1], W.mh[0]); see(W.mh[1]); break;
    case MOVE01: m_move(W.mh[0], W.mh[1]); see(W.mh[0]); see(W.mh[1]); break;
    case SWAP01: std::swap(W.mh[0], W.mh[1]); see(W.mh[0]); see(W.mh[1]); break;
    case TAKE0: m_move(W.mh[0], o->next); see(W.mh[0]); see(o->next); break;
    case TAKE1: m_move(W.mh[1], o->next); see(W.mh[1]); see(o->next); break;
    case NEW0: case ADOPT0: if (decide(room())) { m_take_new(W.mh[0], READ0, o->act == NEW0); see(W.mh[0]); } break;
    case ALIAS0: m_copy(W.mh[0], W.mh[1]); see(W.mh[0]); break;
    case LOCKW: { MObj* l = W.mw && W.mw->strong ? W.mw : nullptr; if (l) ++l->strong; see(l); m_drop(l); } break;
    case WSET0: m_wset(W.mw, W.mh[0]); see(W.mh[0]); break;
    case WRESET: m_wset(W.mw, nullptr); break;
    case STREAD: if (W.mst) ++W.mst->strong; see(W.mst); m_drop(W.mst); break;
    case STNULL: { MObj* n = nullptr; m_copy(W.mst, n); } break;
    case STSTORE0: m_copy(W.mst, W.mh[0]); break;
    case STTAKE: m_move(W.mst, o->next); break;
    case STEXCH0: std::swap(W.mst, W.mh[0]); see(W.mh[0]); break;
    case STCAS0: { // expected: h0, desired: null
        if (W.mst == W.mh[0]) { expect(EV_RESULT, nullptr, nullptr, 1); MObj* n = nullptr; m_copy(W.mst, n); }
        else { m_copy(W.mh[0], W.mst); expect(EV_RESULT, nullptr, nullptr, 0); }
        // the result is known only after what is released was destroyed
    } break;
    case STNEW: if (decide(room())) m_take_new(W.mst, NONE, true); break;
    case READY: see(W.my); break;
    case CVCOPY0: m_copy(W.my, W.mh[0]); see(W.my); see(W.mh[0]); break;
    case CVMOVE0: m_move(W.my, W.mh[0]); see(W.my); see(W.mh[0]); break;
    case CVTAKE: m_move(W.my, o->next); see(W.my); see(o->next); break;
    case CVRESET: { MObj* n = nullptr; m_copy(W.my, n); see(W.my); } break;
    case CVNEW: if (decide(room())) { m_take_new(W.my, READY, false); see(W.my); } break;
    case CVDOWN0: m_copy(W.mh[0], W.my); see(W.mh[0]); see(W.my); break;
    }
}
static void real_act(Node& n) {
    switch (n.act) {
    case NONE: break;
    case READ0: saw(H(0)); break;
    case READ1: saw(H(1)); break;
    case COPY0: cpa(X(), H(0)); saw(X()); break;
    case COPY1: cpa(X(), H(1)); saw(X()); break;
    case RESET0: H(0).reset(); saw(H(0)); break;
    case NULL0: H(0) = nullptr; saw(H(0)); break;
    case RESET1: H(1).reset(); saw(H(1)); break;
    case ASSIGN01: cpa(H(0), H(1)); saw(H(0)); break;
    case ASSIGN10: cpa(H(1), H(0)); saw(H(1)); break;
    case MOVE01: H(0) = std::move(H(1)); saw(H(0)); saw(H(1)); break;
    case SWAP01: H(0).swap(H(1)); saw(H(0)); saw(H(1)); break;
    case TAKE0: H(0) = std::move(n.next); saw(H(0)); saw(n.next); break;
    case TAKE1: H(1) = std::move(n.next); saw(H(1)); saw(n.next); break;
    case NEW0: if (decided()) { H(0) = mk_shared<Node>(uint64_t(READ0)); saw(H(0)); } break;
    case ADOPT0: if (decided()) { H(0).reset(new Node(READ0)); saw(H(0)); } break;
    case ALIAS0: H(0) = make_aliased(H(1), H(1).get()); saw(H(0)); break;
    case LOCKW: { auto l = WK().lock(); saw(l); } break;
    case WSET0: WK() = H(0); saw(H(0)); break;
    case WRESET: WK().reset(); break;
    case STREAD: { auto l = ST().load(); saw(l); } break;
    case STNULL: ST().store(nullptr); break;
    case STSTORE0: ST().store(H(0)); break;
    case STTAKE: ST().store(std::move(n.next)); break;
    case STEXCH0: H(0) = ST().exchange(std::move(H(0))); saw(H(0)); break;
    case STCAS0: {
        bool eq = ST().load().get() == H(0).get();
        if (eq) happened(EV_RESULT, nullptr, nullptr, 1);
        bool r = ST().compare_exchange(H(0), nullptr);
        if (!eq) happened(EV_RESULT, nullptr, nullptr, r);
        if (r != eq) sq::fail("value", "compare_exchange in a destructor returned the wrong result");
    } break;
    case STNEW: if (decided()) ST().store(mk_shared<Node>(uint64_t(NONE))); break;
    case READY: saw(Y()); break;
    case CVCOPY0: cpa(Y(), H(0)); saw(Y()); saw(H(0)); break;
    case CVMOVE0: Y() = std::move(H(0)); saw(Y()); saw(H(0)); break;
    case CVTAKE: Y() = std::move(n.next); saw(Y()); saw(n.next); break;
    case CVRESET: Y().reset(); saw(Y()); break;
    case CVNEW: if (decided()) { Y().reset(new Node(READY), Del{}); saw(Y()); } break;
    case CVDOWN0: H(0) = down(Y()); saw(H(0)); saw(Y()); break;
    }
}
Node::Node(uint64_t a) : act(a) {
    if (icreated == ncreated) sq::fail("create", "an object is constructed which nobody asked for");
    created[icreated]->obj = this; ++icreated;
}
Node::~Node() {
    if (b != 1) sq::fail("mem", "the object to destroy is damaged");
    MObj* o = find(this);
    if (!o) sq::fail("life", "a destructor runs for an object which does not exist");
    happened(EV_DTOR, o);
    if (!W.ending) real_act(*this);
}

void Del::operator()(Node* n) const noexcept { delete n; }

// --- operations ---------------------------------------------------------------------------------
enum Code : uint8_t { MK, MKNEXT, ADOPT, ADOPTU, ACOPY, AMOVE, SWAP, RESET, ANULL, CPNEXT, MVNEXT, RESETTO_NEXT, ALIASNEXT, NEXTCOPY, NEXTMOVE, NEXTNULL, NEXTNEXT, WNEXT, WLOCK, WSELF, SETW, LOCKW_, XNULL, XTO, SELFLOOP, SELFTAKE,
    STLOAD, STSTORE, STSTOREM, STNULL_, STEXCH, STCASN, STCASX, STMK,
    CVCP, CVMV, CVCPN, CVMVN, CVMK, CVADOPT, CVADOPTD, CVADOPTU, CVCAST, CVNUL, ADOPTD, MKNEXTD };
const char* const cname[] = {"= make", "->next = make", ".reset(new)", "= unique", "= copy of", "= move of", ".swap", ".reset()", "= nullptr", "= next", "= move(next)", "= SP(move(next))", "= alias of next", "->next = copy of", "->next = move of", "->next = nullptr", "->next = next->next", "->wk = ", "= wk.lock()", "->wk = itself", "w =", "= w.lock()", "x = nullptr", "= x", "object owning itself released through its member: ", "chain h->next->next taken",
    "= storage.load()", "storage.store copy of", "storage.store move of", "storage.store(nullptr) ", "exchange", "storage.compare_exchange(expected empty) desired", "storage.compare_exchange(expected x) desired", "storage.store(make) ",
    "to y (copied)", "to y (moved)", "->next to y (copied)", "->next to y (moved)", "y = make", "y.reset(new)", "y.reset(new, deleter)", "y = unique", "= cast of y", "y.reset()", ".reset(new, deleter)", "->next.reset(new, deleter)"};
struct OpD { Code c; int8_t a, b; uint8_t x; };
static std::vector<OpD> ops;
struct Config { std::string name; std::vector<int> acts; bool st; int nobj; bool conv = false; };
static std::vector<Config> configs() {
    std::vector<Config> v;
    v.push_back({"readers", {NONE, READ0, READ1, LOCKW}, false, 3});
    v.push_back({"copiers", {COPY0, COPY1, READ0}, false, 3});
    v.push_back({"resetters", {RESET0, RESET1, NULL0}, false, 3});
    v.push_back({"assigners", {ASSIGN01, ASSIGN10, ALIAS0}, false, 3});
    v.push_back({"movers", {MOVE01, SWAP01, TAKE0}, false, 3});
    v.push_back({"takers", {TAKE0, TAKE1, RESET0}, false, 3});
    v.push_back({"creators", {NEW0, ADOPT0, READ0}, false, 2});
    v.push_back({"weak users", {LOCKW, WSET0, WRESET}, false, 3});
    v.push_back({"storage readers", {STREAD, STNULL, READ0}, true, 2});
    v.push_back({"storage writers", {STSTORE0, STTAKE, STEXCH0}, true, 2});
    v.push_back({"storage exchangers", {STCAS0, STNEW, STREAD}, true, 2});
    v.push_back({"converters: readers", {READY, READ0}, false, 2, true});
    v.push_back({"converters: copiers", {CVCOPY0, CVDOWN0}, false, 2, true});
    v.push_back({"converters: movers", {CVMOVE0, CVTAKE}, false, 2, true});
    v.push_back({"converters: creators", {CVRESET, CVNEW}, false, 2, true});
    // thorough
    for (int i = 0; i < N_ACTS; ++i) for (int j = 0; j < i; ++j) if (i < READY || j < STREAD || j >= READY) v.push_back({std::string("deep: ") + act_name[i] + " / " + act_name[j], {i, j}, i >= STREAD && i < READY, i >= STREAD ? 2 : 3, i >= READY && (j < STREAD || j >= READY)});
    v.push_back({"deep: all", {READ0, COPY1, RESET0, ASSIGN01, MOVE01, TAKE0}, false, 3});
    return v;
}
static Config cfg;
static void build() {
    ops.clear();
    auto add = [](Code c, int a, int b = -1, int x = 0) { ops.push_back({c, int8_t(a), int8_t(b), uint8_t(x)}); };
    for (int h = 0; h < NH; ++h) {
        for (int a : cfg.acts) { add(MK, h, -1, a); add(MKNEXT, h, -1, a); if (a == cfg.acts[0]) { add(ADOPT, h, -1, a); add(ADOPTU, h, -1, a); } }
        for (int g = 0; g < NH; ++g) {
            add(ACOPY, h, g); add(AMOVE, h, g);
            add(CPNEXT, h, g); add(MVNEXT, h, g); add(RESETTO_NEXT, h, g); add(ALIASNEXT, h, g);
            if (h != g) { add(NEXTCOPY, h, g); add(NEXTMOVE, h, g); }
            add(WNEXT, h, g); add(WLOCK, h, g);
        }
        add(RESET, h); add(ANULL, h); add(NEXTNULL, h); add(NEXTNEXT, h); add(SETW, h); add(LOCKW_, h); add(XTO, h); add(SELFTAKE, h);
        if (cfg.st) { add(STLOAD, h); add(STSTORE, h); add(STSTOREM, h); add(STEXCH, h); add(STCASN, h); add(STCASX, h); }
    }
    if (cfg.st) { add(STNULL_, 0); for (int a : cfg.acts) add(STMK, 0, -1, a); }
    if (cfg.conv) {
        for (int h = 0; h < NH; ++h) { add(CVCP, h); add(CVMV, h); add(CVCPN, h); add(CVMVN, h); add(CVCAST, h); add(ADOPTD, h, -1, cfg.acts[0]); add(MKNEXTD, h, -1, cfg.acts[0]); }
        for (int a : cfg.acts) { add(CVMK, 0, -1, a); if (a == cfg.acts[0]) { add(CVADOPT, 0, -1, a); add(CVADOPTD, 0, -1, a); add(CVADOPTU, 0, -1, a); } }
        add(CVNUL, 0);
    }
    add(SWAP, 0, 1); add(XNULL, 0);
    for (int a : cfg.acts) for (int k = 0; k < 4; ++k) add(SELFLOOP, k, -1, a);
}
static bool reaches(MObj* from, MObj* to) { for (; from; from = from->next) if (from == to) return true; return false; }

static void settle() {
    if (iev != nev) sq::fail(evs[iev].kind == EV_DTOR ? "life" : "order", "%s", evs[iev].kind == EV_DTOR ? "an object was not destroyed although its last owner is gone" : "an observation is missing");
    if (icreated != ncreated) sq::fail("create", "an object was not constructed");
    for (auto& o : W.tab) {
        if (!o || o->state == 1) continue;
        if (o->obj && sq::is_live(o->obj)) {
            if (!o->in_cb) sq::fail("leak", "object destroyed but its storage is not released");
            if (!o->weak) sq::fail("leak", "storage not released although the last handle is gone");
            sq::poison(o->obj, sizeof(Node));
        }
        else o->obj = nullptr;
        if (!o->weak) o = nullptr;
    }
}

extern "C" {
int h_nconfigs() { static auto c = configs(); return int(c.size()); }
const char* h_config_name(int c) { static auto v = configs(); static std::string s; s = std::string(FAM_NAME) + ": " + v[c].name; return s.c_str(); }
void h_config(int c) { cfg = configs()[c]; nobj_limit = cfg.nobj; no_counts = IS_STD && __cplusplus >= 202000L && cfg.st; build(); }
sq::Sizes h_sizes() { return {offsetof(World, tab), sizeof(World), 1024, 96}; }
void h_init() {
    for (int i = 0; i < NH; ++i) new (&W.h[i]) SP<Node>();
    new (&W.x) SP<Node>(); new (&W.y) SP<Base>(); new (&W.w) WP<Node>(); new (&W.st) STO<Node>();
}
int h_nops() { return int(ops.size()); }
void h_opname(int op, char* b, size_t n) {
    auto& d = ops[op];
    if (d.c >= CVMK && d.c <= CVADOPTU) snprintf(b, n, "%s <%s>", cname[d.c], act_name[d.x]);
    else if (d.c == CVNUL) snprintf(b, n, "%s", cname[d.c]);
    else if (d.c >= CVCP && d.c < ADOPTD) snprintf(b, n, "h%d %s", d.a, cname[d.c]);
    else if (d.c == MK || d.c == ADOPT || d.c == ADOPTU || d.c == MKNEXT || d.c == ADOPTD || d.c == MKNEXTD) snprintf(b, n, "h%d %s <%s>", d.a, cname[d.c], act_name[d.x]);
    else if (d.c == SELFLOOP) { const char* k[] = {"reset()", "= nullptr", "= copy of h0", "= move of h0"}; snprintf(b, n, "%s%s <%s>", cname[d.c], k[d.a], act_name[d.x]); }
    else if (d.b >= 0) snprintf(b, n, "h%d %s h%d", d.a, cname[d.c], d.b);
    else if (d.c >= STSTORE) snprintf(b, n, "%s h%d%s", cname[d.c], d.a, d.c == STMK ? act_name[d.x] : "");
    else if (d.c == STLOAD) snprintf(b, n, "h%d %s", d.a, cname[d.c]);
    else snprintf(b, n, "h%d %s", d.a, cname[d.c]);
}
bool h_enabled(int op) {
    auto& d = ops[op];
    MObj* a = W.mh[d.a & 1]; MObj* g = d.b >= 0 ? W.mh[d.b] : nullptr;
    bool rm = nobjs() < cfg.nobj;
    switch (d.c) {
    case MK: case ADOPT: case ADOPTU: case STMK: case SELFLOOP: case CVMK: case CVADOPT: case CVADOPTD: case CVADOPTU: case ADOPTD: return rm;
    case MKNEXT: case MKNEXTD: return rm && a;
    case CVCPN: case CVMVN: return a;
    case CPNEXT: case MVNEXT: case RESETTO_NEXT: case ALIASNEXT: case WLOCK: return g;
    case NEXTCOPY: case NEXTMOVE: return a && g && !reaches(g, a);
    case WNEXT: return a && g;
    case NEXTNULL: return a;
    case NEXTNEXT: case SELFTAKE: return a && a->next;
    default: return true;
    }
}
void h_apply(int op) {
    OpD d = ops[op];
    sq::set_group(d.c >= STLOAD && d.c <= STMK ? "store" : d.c == WNEXT || d.c == WLOCK || d.c == SETW || d.c == LOCKW_ ? "weak" : d.c == ALIASNEXT ? "alias" : "strong");
    nev = iev = ncreated = icreated = nwill = iwill = 0;
    MObj* nul = nullptr;
    auto& mh = W.mh;
    // the model first: it says what is to be seen
    int ai = d.a & 1;
    switch (d.c) {
    case MK: m_take_new(mh[d.a], d.x, true); H(d.a) = mk_shared<Node>(uint64_t(d.x)); break;
    case ADOPT: m_take_new(mh[d.a], d.x, false); H(d.a).reset(new Node(d.x)); break;
    case ADOPTU: { m_take_new(mh[d.a], d.x, false); UP<Node> u(new Node(d.x)); H(d.a) = std::move(u); } break;
    case MKNEXT: m_take_new(mh[d.a]->next, d.x, true); H(d.a)->next = mk_shared<Node>(uint64_t(d.x)); break;
    case ACOPY: m_copy(mh[d.a], mh[d.b]); cpa(H(d.a), H(d.b)); break;
    case AMOVE: m_move(mh[d.a], mh[d.b]); H(d.a) = std::move(H(d.b)); break;
    case SWAP: std::swap(mh[0], mh[1]); H(0).swap(H(1)); break;
    case RESET: m_copy(mh[d.a], nul); H(d.a).reset(); break;
    case ANULL: m_copy(mh[d.a], nul); H(d.a) = nullptr; break;
    case CPNEXT: m_copy(mh[d.a], mh[d.b]->next); cpa(H(d.a), H(d.b)->next); break;
    case MVNEXT: m_move(mh[d.a], mh[d.b]->next); H(d.a) = std::move(H(d.b)->next); break;
    case RESETTO_NEXT: { auto& src = mh[d.b]->next; m_move(mh[d.a], src); H(d.a) = SP<Node>(std::move(H(d.b)->next)); } break;
    case ALIASNEXT: { MObj* n = mh[d.b]->next; m_copy(mh[d.a], n); H(d.a) = make_aliased(H(d.b)->next, H(d.b)->next.get()); } break;
    case NEXTCOPY: m_copy(mh[d.a]->next, mh[d.b]); cpa(H(d.a)->next, H(d.b)); break;
    case NEXTMOVE: m_move(mh[d.a]->next, mh[d.b]); H(d.a)->next = std::move(H(d.b)); break;
    case NEXTNULL: m_copy(mh[d.a]->next, nul); H(d.a)->next = nullptr; break;
    case NEXTNEXT: m_copy(mh[d.a]->next, mh[d.a]->next->next); cpa(H(d.a)->next, H(d.a)->next->next); break;
    case SELFTAKE: m_move(mh[d.a]->next, mh[d.a]->next->next); H(d.a)->next = std::move(H(d.a)->next->next); break;
    case WNEXT: m_wset(mh[d.a]->wk, mh[d.b]); H(d.a)->wk = H(d.b); break;
    case WLOCK: { MObj* w = mh[d.b]->wk; if (w && !w->strong) w = nullptr; m_copy(mh[d.a], w); H(d.a) = H(d.b)->wk.lock(); } break;
    case SETW: m_wset(W.mw, mh[d.a]); WK() = H(d.a); break;
    case LOCKW_: { MObj* w = W.mw; if (w && !w->strong) w = nullptr; m_copy(mh[d.a], w); H(d.a) = WK().lock(); } break;
    case XNULL: m_copy(W.mx, nul); X() = nullptr; break;
    case XTO: m_copy(mh[d.a], W.mx); cpa(H(d.a), X()); break;
    case SELFLOOP: {
        // an object whose only owner is its own member
        MObj* o = m_make(d.x, true); ++o->strong; o->next = o;
        {
            SP<Node> t = mk_shared<Node>(uint64_t(d.x));
            Node* p = t.get();
            p->next = std::move(t);
            if (t) sq::fail("value", "a moved from handle is not empty");
            if (p->next.use_count() != 1) sq::fail("count", "use count %ld of an object owning itself", p->next.use_count());
            switch (d.a) {
            case 0: m_copy(o->next, nul); p->next.reset(); break;
            case 1: m_copy(o->next, nul); p->next = nullptr; break;
            case 2: m_copy(o->next, mh[0]); cpa(p->next, H(0));
                break;
            case 3: m_move(o->next, mh[0]); p->next = std::move(H(0)); break;
            }
        }
    } break;
    case STLOAD: m_copy(mh[d.a], W.mst); H(d.a) = ST().load(); break;
    case STSTORE: m_copy(W.mst, mh[d.a]); ST().store(H(d.a)); break;
    case STSTOREM: m_move(W.mst, mh[d.a]); ST().store(std::move(H(d.a))); break;
    case STNULL_: m_copy(W.mst, nul); ST().store(nullptr); break;
    case STMK: m_take_new(W.mst, d.x, true); ST().store(mk_shared<Node>(uint64_t(d.x))); break;
    case STEXCH: std::swap(W.mst, mh[d.a]); H(d.a) = ST().exchange(std::move(H(d.a))); break;
    case STCASN: { // expected: empty, the current value comes back and is dropped
        bool eq = !W.mst;
        SP<Node> e;
        MObj* des = mh[d.a]; if (des) ++des->strong; // desired is passed by value
        if (eq) { m_copy(W.mst, des); } else ++W.mst->strong;
        m_drop(des);
        bool r = ST().compare_exchange(e, H(d.a));
        if (r != eq) sq::fail("value", "compare_exchange returned the wrong result");
        if (!eq) { MObj* o = find(e.get()); if (o != W.mst) sq::fail("value", "compare_exchange yields the wrong value"); m_drop(o); }
        e.reset();
    } break;
    case STCASX: { // expected: x; on failure what x held is released
        bool eq = W.mst == W.mx;
        MObj* des = mh[ai]; if (des) ++des->strong; // desired is passed by value
        if (eq) m_copy(W.mst, des); else m_copy(W.mx, W.mst);
        m_drop(des);
        bool r = ST().compare_exchange(X(), H(d.a));
        if (r != eq) sq::fail("value", "compare_exchange returned the wrong result");
    } break;
    case CVCP: m_copy(W.my, mh[d.a]); cpa(Y(), H(d.a)); break;
    case CVMV: m_move(W.my, mh[d.a]); Y() = std::move(H(d.a)); break;
    case CVCPN: m_copy(W.my, mh[d.a]->next); cpa(Y(), H(d.a)->next); break;
    case CVMVN: m_move(W.my, mh[d.a]->next); Y() = std::move(H(d.a)->next); break;
    case CVMK: m_take_new(W.my, d.x, true); Y() = mk_shared<Node>(uint64_t(d.x)); break;
    case CVADOPT: m_take_new(W.my, d.x, false); Y().reset(new Node(d.x)); break;
    case CVADOPTD: m_take_new(W.my, d.x, false); Y().reset(new Node(d.x), Del{}); break;
    case CVADOPTU: { m_take_new(W.my, d.x, false); UP<Node> u(new Node(d.x)); Y() = std::move(u); } break;
    case CVCAST: m_copy(mh[d.a], W.my); H(d.a) = down(Y()); break;
    case CVNUL: m_copy(W.my, nul); Y().reset(); break;
    case ADOPTD: m_take_new(mh[d.a], d.x, false); H(d.a).reset(new Node(d.x), Del{}); break;
    case MKNEXTD: m_take_new(mh[d.a]->next, d.x, false); H(d.a)->next.reset(new Node(d.x), Del{}); break;
    default: sq::fail("engine", "operation missing");
    }
    settle();
}
extern "C++" {
template <typename T> static void look(const char* what, const SP<T>& h, MObj* o) {
    if (static_cast<const Node*>(h.get()) != (o ? o->obj : nullptr)) sq::fail("value", "%s has the wrong value", what);
    if (h.use_count() != (o ? long(o->strong) : 0)) sq::fail("count", "%s has use count %ld, expected %ld", what, h.use_count(), o ? long(o->strong) : 0);
    if (o && h->b != 1) sq::fail("mem", "damaged object");
}
}
static void lookw(const char* what, const WP<Node>& w, MObj* o) {
    long n = o ? o->strong : 0;
    if (w.use_count() != n || w.expired() != !n) sq::fail("weak", "%s has use count %ld, expected %ld", what, w.use_count(), n);
    auto l = w.lock();
    if (l.get() != (n ? o->obj : nullptr)) sq::fail("weak", "%s locks to the wrong value", what);
}
void h_observe() {
    look("h0", H(0), W.mh[0]); look("h1", H(1), W.mh[1]); look("x", X(), W.mx); look("y", Y(), W.my);
    lookw("w", WK(), W.mw);
    { auto l = ST().load(); if (l.get() != (W.mst ? W.mst->obj : nullptr)) sq::fail("value", "the storage holds the wrong value"); }
    for (auto o : W.tab) if (o && o->state == 1) { look("next", o->obj->next, o->next); lookw("wk", o->obj->wk, o->wk); }
#if FAM == 2
    for (auto o : W.tab) {
        if (!o) continue;
        const Book* cb = nullptr; int n = 0, m = 0;
        auto s = [&](const auto& h, MObj* v) { if (v == o) { cb = h.t_owner(); ++n; } };
        auto w = [&](const WP<Node>& h, MObj* v) { if (v == o) { cb = h.t_owner(); ++m; } };
        s(H(0), W.mh[0]); s(H(1), W.mh[1]); s(X(), W.mx); s(Y(), W.my); w(WK(), W.mw);
        if (W.mst == o) { auto l = ST().load(); cb = l.t_owner(); ++n; }
        for (auto p : W.tab) if (p && p->state == 1) { s(p->obj->next, p->next); w(p->obj->wk, p->wk); }
        if (!cb) continue;
        cb->ok("observation");
        if (int(cb->strong.n) != n) sq::fail("notify", "%d strong handles are recorded, but there are %d", int(cb->strong.n), n);
        if (int(cb->weak.n) != m) sq::fail("notify", "%d weak handles are recorded, but there are %d", int(cb->weak.n), m);
        auto hs = [&](const auto& h, MObj* v) { if (v == o && !cb->strong.has(&h)) sq::fail("notify", "a strong handle is not recorded"); };
        hs(H(0), W.mh[0]); hs(H(1), W.mh[1]); hs(X(), W.mx); hs(Y(), W.my);
        for (auto p : W.tab) if (p && p->state == 1) hs(p->obj->next, p->next);
    }
#endif
}
void h_end(int order) {
    W.ending = 1;
    nev = iev = ncreated = icreated = nwill = iwill = 0;
    MObj* n = nullptr;
    auto ds = [&](auto& h, MObj*& m) { m_copy(m, n); std::destroy_at(&h); };
    auto a = [&] { ds(H(0), W.mh[0]); ds(H(1), W.mh[1]); ds(X(), W.mx); ds(Y(), W.my); };
    auto b = [&] { m_copy(W.mst, n); ST().~STO<Node>(); m_wset(W.mw, nullptr); WK().~WP<Node>(); };
    if (order) { b(); a(); } else { a(); b(); }
    settle();
    for (auto o : W.tab) if (o) sq::fail("leak", "an object is left");
}
}
