// Reference counters used by several threads at once.
#include <cstdint>
#include <string>
#include <vector>
#include <new>
#include <cstdio>
#include <cstring>
#include <xmem/shared_ptr.hpp>
#include "../engine/conc.h"
#include "lin.h"

using RC = xmem::atomic_ref_count;

struct World {
    RC rc;
    int slot[co::MAXT + 1]; // written by whoever owns a reference
};
static World& W() { return *reinterpret_cast<World*>(co::ROOT_ADDR); }

struct Prog { int nt; bool owns[co::MAXT]; std::string ops[co::MAXT]; };
static std::vector<Prog> progs;
static Prog P;

struct Rec { int op; char k; uint32_t res; };
static std::vector<Rec> hist[co::MAXT + 1];
static int held[co::MAXT + 1];
static int zeros;

struct Model {
    uint32_t n;
    bool operator==(const Model& o) const { return n == o.n; }
    bool step(const Rec& r) {
        switch (r.k) {
        case 'I': return r.res == ++n;
        case 'D': return r.res == --n;
        case 'C': return r.res == n;
        case 'N': if (!n) return r.res == 0; return r.res == ++n;
        }
        return false;
    }
};

static void do_op(int t, char k) {
    if ((k == 'D' || k == 'I') && !held[t]) return;
    if (k == 'I' || k == 'D') W().slot[t] = t + 1; // uses what it owns a reference to
    Rec r{}; r.k = k;
    r.op = co::op_begin();
    switch (k) {
    case 'I': r.res = W().rc.inc(); ++held[t]; break;
    case 'D':
        --held[t];
        r.res = W().rc.dec();
        if (r.res == 0) {
            ++zeros;
            for (auto& s : W().slot) s = -1; // happens after everything the others did while they owned
        }
        break;
    case 'C': r.res = W().rc.count(); break;
    case 'N': r.res = W().rc.inc_nz(); if (r.res) { ++held[t]; W().slot[t] = t + 1; } break;
    }
    co::op_end(r.op);
    co::note("%c -> %u", k, r.res);
    co::Out out;
    hist[t].push_back(r);
}

struct Cfg { const char* name; int nt, minlen, maxlen, dev, shards; };
static const Cfg base_cfgs[] = {
    {"two threads, up to 2 operations each", 2, 0, 2, 2, 1},
    {"two threads, 3 operations each", 2, 3, 3, 1, 1},
    {"three threads, 1 operation each", 3, 1, 1, 2, 1},
    {"three threads, up to 2 operations each", 3, 1, 2, 0, 2},
    {"deep: two threads, 3 operations each, more deviations", 2, 3, 3, 3, 2},
    {"deep: two threads, 4 operations each", 2, 4, 4, 1, 8},
    {"deep: three threads, up to 2 operations each", 3, 1, 2, 1, 8},
    {"deep: four threads, 1 operation each", 4, 1, 1, 2, 2},
};
struct Shard { Cfg c; int i; };
static std::vector<Shard>& shards() {
    static std::vector<Shard> v;
    if (v.empty()) for (auto& c : base_cfgs) for (int i = 0; i < c.shards; ++i) v.push_back({c, i});
    return v;
}
static int dev;
static void seqs(const std::string& pre, int owned, int len, int maxlen, int minlen, std::vector<std::string>& out) {
    // owned: the most references it may have here (a failed inc_nz gives none)
    if (len >= minlen) out.push_back(pre);
    if (len == maxlen) return;
    for (char k : {'D', 'N', 'I', 'C'}) {
        if ((k == 'D' || k == 'I') && !owned) continue;
        if (k == 'C' && !pre.empty() && pre.back() == 'C' && maxlen > 2) continue;
        seqs(pre + k, owned + (k == 'I' || k == 'N') - (k == 'D'), len + 1, maxlen, minlen, out);
    }
}
extern "C" {
int h_nconfigs() { return int(shards().size()); }
const char* h_config_name(int c) { static std::string s; auto& h = shards()[c]; s = std::string("counter: ") + h.c.name; if (h.c.shards > 1) s += " (" + std::to_string(h.i + 1) + "/" + std::to_string(h.c.shards) + ")"; return s.c_str(); }
void h_config(int ci) {
    progs.clear();
    const Cfg& c = shards()[ci].c; int count = 0;
    dev = c.dev;
    std::vector<std::pair<bool, std::string>> all;
    for (bool o : {true, false}) {
        std::vector<std::string> v; seqs("", o, 0, c.maxlen, c.minlen, v);
        for (auto& s : v) all.push_back({o, s});
    }
    // multisets of threads; at least one owns a reference, or there is none
    std::vector<size_t> idx(c.nt, 0);
    for (;;) {
        Prog p{}; p.nt = c.nt;
        int owners = 0; size_t total = 0;
        for (int t = 0; t < p.nt; ++t) { p.owns[t] = all[idx[t]].first; p.ops[t] = all[idx[t]].second; owners += p.owns[t]; total += p.ops[t].size(); }
        if (total >= 2 && owners && count++ % c.shards == shards()[ci].i) progs.push_back(p);
        int t = p.nt - 1;
        while (t >= 0 && idx[t] + 1 == all.size()) --t;
        if (t < 0) break;
        size_t v = idx[t] + 1;
        for (; t < p.nt; ++t) idx[t] = v;
    }
}
int h_nprograms() { return int(progs.size()); }
void h_program_name(int p, char* b, size_t n) {
    std::string s;
    for (int t = 0; t < progs[p].nt; ++t) s += (t ? " | " : "") + std::string(progs[p].owns[t] ? "owner" : "other") + ":" + progs[p].ops[t];
    snprintf(b, n, "%s", s.c_str());
}
void h_program(int p) { P = progs[p]; }
int h_threads() { return P.nt; }
bool h_realtime() { return false; }
int h_deviations() { return dev; }
bool h_patience() { return dev == 2; }
void h_init() {
    new (&W()) World();
    zeros = 0;
    int owners = 0;
    for (auto& h : hist) h.clear();
    for (auto& h : held) h = 0;
    for (int t = 0; t < P.nt; ++t) if (P.owns[t]) { if (owners++) W().rc.inc(); held[t] = 1; }
    if (int(W().rc.count()) != owners) co::fail("counter", "%d after %d increments from one", int(W().rc.count()), owners - 1);
}
void h_thread(int t) { for (char k : P.ops[t]) do_op(t, k); }
void h_final() {
    uint32_t count = W().rc.count();
    int owners = 0, left = 0;
    {
    co::Out o;
    std::vector<Rec> h;
    uint64_t out = 0;
    for (int t = 0; t < P.nt; ++t) { owners += P.owns[t]; left += held[t]; for (auto& r : hist[t]) { h.push_back(r); out = out * 31 + r.res + 7; } }
    co::outcome(out);
    if (int(count) != left) co::fail("counter", "the count is %u, but %d references are left", count, left);
    if (zeros != (left == 0)) co::fail("counter", "zero was observed %d times, %d references are left", zeros, left);
    if (!lin::linearizable(Model{uint32_t(owners)}, h)) {
        std::string s; for (auto& r : h) { s += ' '; s += r.k; s += '=' + std::to_string(r.res); }
        co::fail("counter", "no order of the operations explains their results:%s", s.c_str());
    }
    }
    if (left) {
        while (left) { uint32_t r = W().rc.dec(); if (int(r) != --left) co::fail("counter", "dec returned %u, expected %d", r, left); }
    }
    if (W().rc.inc_nz() || W().rc.count()) co::fail("counter", "the count rose from zero");
}
}
