// Comparing and printing pointers of all kinds: every pair, with every combination of values.
#include "families.h"
#include <xmem/ostream.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <streambuf>
struct A { uint64_t a; }; struct B { uint64_t b; }; struct D : A, B { uint64_t d; };
constexpr int NV = 4; // values: null and three objects
constexpr int NH = 10;
struct World { struct H { void* w[2]; } h[NH]; uint64_t val[NH]; D obj[3]; };
static World& W = *reinterpret_cast<World*>(sq::ROOT_ADDR);
struct NoDel { template <typename T> void operator()(T*) const noexcept {} };
struct NoDelState { uint64_t s = 1; template <typename T> void operator()(T*) const noexcept {} };
static void nodel(B*) {}
static NoDelState shared_del;
static const D* obj(int v) { return v ? &W.obj[v - 1] : nullptr; }

// kinds of handles
template <typename CB, typename T> static auto mk_x(D* p) { return xmem::basic_shared_ptr<CB, T>(xmem::basic_shared_ptr<CB, T>(), p); }
struct KU0 { static constexpr const char* name = "unique_ptr<A>"; static auto make(D* p) { return xmem::unique_ptr<A, NoDel>(p); } };
struct KU1 { static constexpr const char* name = "unique_ptr<D>"; static auto make(D* p) { return xmem::unique_ptr<D, NoDel>(p); } };
struct KU2 { static constexpr const char* name = "unique_ptr<A, deleter&>"; static auto make(D* p) { return xmem::unique_ptr<A, NoDelState&>(p, shared_del); } };
struct KU3 { static constexpr const char* name = "unique_ptr<B, function>"; static auto make(D* p) { return xmem::unique_ptr<B, void (*)(B*)>(p, &nodel); } };
struct KU4 { static constexpr const char* name = "unique_ptr<const D>"; static auto make(D* p) { return xmem::unique_ptr<const D, NoDel>(p); } };
struct KU5 { static constexpr const char* name = "unique_ptr<D[]>"; static auto make(D* p) { return xmem::unique_ptr<D[], NoDel>(p); } };
struct KU6 { static constexpr const char* name = "unique_ptr<D, with state>"; static auto make(D* p) { return xmem::unique_ptr<D, NoDelState>(p, NoDelState{}); } };
using AF = xmem::atomic_control_block_factory; using LF = xmem::local_control_block_factory;
template <typename CB> struct KS0 { static constexpr const char* name = "shared<A>"; static auto make(D* p) { return mk_x<CB, A>(p); } };
template <typename CB> struct KS1 { static constexpr const char* name = "shared<D>"; static auto make(D* p) { return mk_x<CB, D>(p); } };
template <typename CB> struct KS2 { static constexpr const char* name = "shared<const D>"; static auto make(D* p) { return mk_x<CB, const D>(p); } };
template <typename CB> struct KS3 { static constexpr const char* name = "shared<void>"; static auto make(D* p) { return mk_x<CB, void>(p); } };
template <typename CB> struct KS4 { static constexpr const char* name = "shared<B>"; static auto make(D* p) { return mk_x<CB, B>(p); } };

struct Slot { const char* name; void (*set)(int, int); void (*destroy)(int); void (*print)(int); void (*check)(int, int); };
static std::vector<Slot> slots;
static std::vector<void (*)()> pairs;
template <typename K> using PT = decltype(K::make(nullptr));
template <typename K> static PT<K>& at(int i) { return *std::launder(reinterpret_cast<PT<K>*>(&W.h[i])); }
template <typename P> static auto raw(const P& p) { return p.get(); }

struct Buf : std::streambuf {
    char b[128]; int n = 0;
    int overflow(int c) override { if (n < 127) b[n++] = char(c); return c; }
    std::streamsize xsputn(const char* s, std::streamsize k) override { for (std::streamsize i = 0; i < k; ++i) overflow(s[i]); return k; }
};
template <typename K> static void do_print(int i) {
    auto& p = at<K>(i);
    char a[130], b[130];
    for (int f = 0; f < 3; ++f) { // as is, with a width, with other flags
        auto fmt = [f](std::ostream& o) { if (f) { o.width(24); o.fill('*'); } if (f == 2) o.setf(std::ios::left | std::ios::showpos | std::ios::uppercase); };
        auto rest = [](std::ostream& o, Buf& x) { o << '|'; o << 4096; if (!o) sq::fail("cmp", "printing spoils the stream"); x.b[x.n] = 0; };
        { Buf x; std::ostream o(&x); fmt(o); std::ostream& r = (o << p); if (&r != &o) sq::fail("cmp", "printing yields another stream"); rest(o, x); strcpy(a, x.b); }
        { Buf x; std::ostream o(&x); fmt(o); o << raw(p); rest(o, x); strcpy(b, x.b); }
        if (strcmp(a, b)) sq::fail("cmp", "%s prints as %s instead of %s", K::name, a, b);
    }
}
template <typename K> static const volatile void* want(int v) { return v ? static_cast<const volatile void*>(static_cast<decltype(raw(at<K>(0)))>(const_cast<D*>(obj(v)))) : nullptr; }
template <typename K> static void do_check(int i, int v) {
    auto& p = at<K>(i);
    if (static_cast<const volatile void*>(raw(p)) != want<K>(v)) sq::fail("value", "%s has the wrong value", K::name);
    if (bool(p) != (v != 0) || !p != (v == 0)) sq::fail("value", "%s is wrongly taken for %snull", K::name, v ? "" : "not ");
}
template <typename K> static void do_set(int i, int v) { new (&at<K>(i)) PT<K>(K::make(const_cast<D*>(obj(v)))); }
template <typename K> static void do_destroy(int i) { at<K>(i).~PT<K>(); }
template <typename K1, typename K2, int I, int J> static void do_pair() {
    auto &p = at<K1>(I); auto& q = at<K2>(J);
    auto a = raw(p); auto b = raw(q);
    const bool got[] = {p == q, p != q, p < q, p <= q, p > q, p >= q}, want[] = {a == b, a != b, a < b, a <= b, a > b, a >= b};
    static const char* nm[] = {"==", "!=", "<", "<=", ">", ">="};
    for (int k = 0; k < 6; ++k) if (got[k] != want[k]) sq::fail("cmp", "%s %s %s is %d for %p and %p", K1::name, nm[k], K2::name, int(got[k]), (const void*)a, (const void*)b);
}
template <int I, int J, typename K1, typename K2, typename... K> static void row() {
    pairs.push_back(&do_pair<K1, K2, I, J>);
    if constexpr (sizeof...(K) > 0) row<I, J + 1, K1, K...>();
}
template <int I, typename... All> struct Rows {
    template <typename K1, typename... K> static void go() {
        row<I, 0, K1, All...>();
        slots.push_back({K1::name, &do_set<K1>, &do_destroy<K1>, &do_print<K1>, &do_check<K1>});
        if constexpr (sizeof...(K) > 0) Rows<I + 1, All...>::template go<K...>();
    }
};
template <typename... K> static void setup() { slots.clear(); pairs.clear(); Rows<0, K...>::template go<K...>(); }
extern "C" {
int h_nconfigs() { return 7; }
const char* h_config_name(int c) { static const char* n[] = {"compare: unique pointers", "compare: unique pointers to second base", "compare: shared pointers", "compare: local shared pointers", "compare: shared and local shared pointers", "compare: shared pointers to second base", "deep: compare: unique pointers"}; return n[c]; }
void h_config(int c) {
    switch (c) {
    case 0: setup<KU0, KU1, KU2, KU4, KU6>(); break;
    case 1: setup<KU3, KU1, KU5, KU4>(); break;
    case 2: setup<KS0<AF>, KS1<AF>, KS2<AF>, KS3<AF>, KS1<AF>>(); break;
    case 3: setup<KS0<LF>, KS1<LF>, KS2<LF>, KS3<LF>, KS1<LF>>(); break;
    case 4: setup<KS0<AF>, KS1<LF>, KS2<AF>, KS3<LF>, KS1<AF>>(); break;
    case 5: setup<KS4<AF>, KS1<LF>, KS4<LF>, KS3<AF>, KS2<LF>>(); break;
    case 6: setup<KU5, KU1, KU5, KU4, KU6, KU1, KU2>(); break;
    }
}
sq::Sizes h_sizes() { return {offsetof(World, obj), sizeof(World), 1024, 16}; }
void h_init() { for (size_t i = 0; i < slots.size(); ++i) slots[i].set(int(i), 0); }
int h_nops() { return int(slots.size()) * NV; }
void h_opname(int op, char* b, size_t n) { snprintf(b, n, "p%d (%s) = %d", op / NV, slots[op / NV].name, op % NV); }
bool h_enabled(int) { return true; }
void h_apply(int op) {
    slots[op / NV].destroy(op / NV);
    memset(&W.h[op / NV], 0, sizeof W.h[0]);
    slots[op / NV].set(op / NV, op % NV);
    W.val[op / NV] = uint64_t(op % NV);
}
void h_observe() {
    for (size_t i = 0; i < slots.size(); ++i) { slots[i].check(int(i), int(W.val[i])); slots[i].print(int(i)); }
    for (auto p : pairs) p();
}
void h_end(int order) { for (size_t i = 0; i < slots.size(); ++i) { size_t k = order ? slots.size() - 1 - i : i; slots[k].destroy(int(k)); } }
}
