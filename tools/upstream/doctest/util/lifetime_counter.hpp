// Minimal stand-in for iboB/doctest-util's lifetime_counter (not available offline),
// only to be able to run the repository's own test programs by hand (tools/upstream/run.sh).
#pragma once
#include <atomic>
#include <cstdio>
#include <cstdlib>
namespace doctest::util {
struct lifetime_stats {
    std::atomic<int> total{0}, living{0}, d_ctr{0}, copies{0}, m_ctr{0};
    lifetime_stats* prev = nullptr;
};
template <typename T>
struct lifetime_counter {
    struct lifetime_stats : util::lifetime_stats {
        lifetime_stats() { prev = top(); top() = this; }
        ~lifetime_stats() { top() = prev; }
    };
    static util::lifetime_stats*& top() { static util::lifetime_stats* t = nullptr; return t; }
    template <typename F> static void each(F f) { for (auto* s = top(); s; s = s->prev) f(*s); }
    lifetime_counter() { each([](auto& s){ ++s.total; ++s.living; ++s.d_ctr; }); }
    lifetime_counter(const lifetime_counter&) { each([](auto& s){ ++s.total; ++s.living; ++s.copies; }); }
    lifetime_counter(lifetime_counter&&) noexcept { each([](auto& s){ ++s.total; ++s.living; ++s.m_ctr; }); }
    lifetime_counter& operator=(const lifetime_counter&) = default;
    lifetime_counter& operator=(lifetime_counter&&) = default;
    ~lifetime_counter() { each([](auto& s){ --s.living; }); }
};
struct lifetime_counter_sentry {
    util::lifetime_stats& s; int l;
    lifetime_counter_sentry(util::lifetime_stats& st) : s(st), l(st.living) {}
    ~lifetime_counter_sentry() { if (s.living != l) { std::puts("lifetime_counter_sentry: FATAL"); std::abort(); } }
};
}
