// The families of handles under test behind one set of names.
// FAM: 0 shared_ptr (atomic), 1 local_shared_ptr, 2 bookkeeping control block, 3 std::shared_ptr (validates the oracle)
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <memory>
#include <cstdio>
#include <cstring>
#include <new>
#include <utility>
#include <type_traits>
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/unique_ptr.hpp>
#include <xmem/std_helpers.hpp>
#include "../engine/seq.h"

struct CbError {};
struct ObjError {};

// A control block which records which handles it was told of.
struct Book : protected xmem::control_block_base<xmem::atomic_ref_count> {
    using super = xmem::control_block_base<xmem::atomic_ref_count>;
    static constexpr uint64_t MAGIC = 0xC0B10C5500C0B10Cull;
    static constexpr int MAX = 24;
    struct Set {
        uint64_t n = 0;
        const void* a[MAX] = {}; // sorted
        void add(const void* p, const char* what) {
            uint64_t i = n;
            for (uint64_t k = 0; k < n; ++k) if (a[k] == p) sq::fail("notify", "%s: told of a handle which is already there", what);
            if (n == MAX) sq::fail("notify", "%s: told of more handles than there are", what);
            while (i && a[i - 1] > p) { a[i] = a[i - 1]; --i; }
            a[i] = p; ++n;
        }
        void del(const void* p, const char* what) {
            for (uint64_t k = 0; k < n; ++k) if (a[k] == p) {
                for (; k + 1 < n; ++k) a[k] = a[k + 1];
                a[--n] = nullptr;
                return;
            }
            sq::fail("notify", "%s: told that a handle goes which was not there", what);
        }
        bool has(const void* p) const { for (uint64_t k = 0; k < n; ++k) if (a[k] == p) return true; return false; }
    };
    uint64_t magic;
    Set strong, weak;
    static inline bool throw_in_ctor = false;
    static inline long live = 0;

    Book() : magic(MAGIC) { if (throw_in_ctor) throw CbError{}; }
    ~Book() {
        ok("destructor");
        if (strong.n || weak.n) sq::fail("notify", "destroyed while %d strong and %d weak handles are recorded", int(strong.n), int(weak.n));
        magic = 0;
    }
    Book(const Book&) = delete;
    void ok(const char* what) const { if (magic != MAGIC) sq::fail("notify", "%s: called while not constructed", what); }

    void init_strong(const void* s) noexcept { ok("init_strong"); super::init_strong(s); strong.add(s, "init_strong"); }
    void inc_strong_ref(const void* s) noexcept { ok("inc_strong"); if (!strong.n) sq::fail("notify", "told of a handle made from another when there is none"); super::inc_strong_ref(s); strong.add(s, "inc_strong"); }
    void dec_strong_ref(const void* s) noexcept { ok("dec_strong"); strong.del(s, "dec_strong"); super::dec_strong_ref(s); }
    bool inc_strong_ref_nz(const void* s) noexcept {
        ok("inc_strong_nz");
        if (!super::inc_strong_ref_nz(s)) return false;
        strong.add(s, "inc_strong_nz");
        return true;
    }
    using super::strong_ref_count;
    void transfer_strong(const void* d, const void* s) { ok("transfer_strong"); super::transfer_strong(d, s); strong.add(d, "transfer_strong"); strong.del(s, "transfer_strong"); }
    void inc_weak_ref(const void* s) noexcept { ok("inc_weak"); super::inc_weak_ref(s); weak.add(s, "inc_weak"); }
    void dec_weak_ref(const void* s) noexcept { ok("dec_weak"); weak.del(s, "dec_weak"); super::dec_weak_ref(s); }
    void transfer_weak(const void* d, const void* s) { ok("transfer_weak"); super::transfer_weak(d, s); weak.add(d, "transfer_weak"); weak.del(s, "transfer_weak"); }
};

// An allocator with an identity. It takes its memory from the world, tagged with the identity.
template <typename T>
struct UAlloc {
    using value_type = T;
    uint64_t id;
    explicit UAlloc(uint64_t id) noexcept : id(id) {}
    UAlloc(const UAlloc&) noexcept = default;
    UAlloc& operator=(const UAlloc&) noexcept = default;
    ~UAlloc() { id = 0xDEAD; } // so that using one which is gone is seen
    template <typename U> UAlloc(const UAlloc<U>& o) noexcept : id(o.id) {}
    T* allocate(size_t n) {
        if (id == 0xDEAD) sq::fail("alloc", "storage is obtained from an allocator which is gone");
        T* p = static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(alignof(T))));
        sq::set_tag(p, uint32_t(id), uint32_t(n));
        return p;
    }
    void deallocate(T* p, size_t n) {
        if (!sq::is_live(p)) sq::fail("mem", "allocator: storage given back twice");
        if (id == 0xDEAD) sq::fail("alloc", "storage is given back to an allocator which is gone");
        if (sq::get_tag(p) != id) sq::fail("alloc", "storage given back to an allocator which is not equal to the one it is from (%u, %u)", sq::get_tag(p), unsigned(id));
        if (sq::get_count(p) != n) sq::fail("alloc", "storage for %u given back as %u", sq::get_count(p), unsigned(n));
        if (sq::block_size(p) != n * sizeof(T)) sq::fail("alloc", "storage of %zu bytes given back as %zu", sq::block_size(p), n * sizeof(T));
        sq::set_tag(p, 0, 0);
        ::operator delete(p, std::align_val_t(alignof(T)));
    }
    template <typename U> bool operator==(const UAlloc<U>& o) const { return id == o.id; }
    template <typename U> bool operator!=(const UAlloc<U>& o) const { return id != o.id; }
};

#if FAM == 0 || FAM == 1 || FAM == 2
#define IS_STD 0
#if FAM == 0
using CBF = xmem::atomic_control_block_factory;
#define FAM_NAME "shared_ptr"
#elif FAM == 1
using CBF = xmem::local_control_block_factory;
#define FAM_NAME "local_shared_ptr"
#else
using CBF = xmem::control_block_factory<Book>;
#define FAM_NAME "bookkeeping"
#endif
template <typename T> using SP = xmem::basic_shared_ptr<CBF, T>;
template <typename T> using WP = xmem::basic_weak_ptr<CBF, T>;
template <typename T> using STO = xmem::basic_atomic_shared_ptr_storage<CBF, T>;
template <typename T, typename D = xmem::default_delete<T>> using UP = xmem::unique_ptr<T, D>;
template <typename T, typename... A> SP<T> mk_shared(A&&... a) {
#if FAM == 0
    return xmem::make_shared<T>(std::forward<A>(a)...);
#elif FAM == 1
    return xmem::make_local_shared<T>(std::forward<A>(a)...);
#else
    return SP<T>(CBF::make_resource_cb<T>(xmem::allocator<char>{}, std::forward<A>(a)...));
#endif
}
template <typename T> SP<T> mk_shared_fo() {
#if FAM == 0
    return xmem::make_shared_for_overwrite<T>();
#elif FAM == 1
    return xmem::make_local_shared_for_overwrite<T>();
#else
    return SP<T>(CBF::make_resource_cb_for_overwrite<T>(xmem::allocator<char>{}));
#endif
}
template <typename T, typename... A> SP<T> mk_shared_alloc(uint64_t id, A&&... a) {
    return SP<T>(CBF::make_resource_cb<T>(UAlloc<char>(id), std::forward<A>(a)...));
}
template <typename T, typename U> SP<T> adopt_alloc(uint64_t id, U& uptr) {
    return SP<T>(CBF::make_uptr_cb(uptr, UAlloc<char>(id)));
}
#else
#define IS_STD 1
#define FAM_NAME "std"
template <typename T> using SP = std::shared_ptr<T>;
template <typename T> using WP = std::weak_ptr<T>;
template <typename T> using STO = xstd::atomic_shared_ptr_storage<T>;
template <typename T, typename D = std::default_delete<T>> using UP = std::unique_ptr<T, D>;
template <typename T, typename... A> SP<T> mk_shared(A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
template <typename T> SP<T> mk_shared_fo() { return std::shared_ptr<T>(new T); }
template <typename T, typename... A> SP<T> mk_shared_alloc(uint64_t id, A&&... a) { return std::allocate_shared<T>(UAlloc<char>(id), std::forward<A>(a)...); }
template <typename T, typename U> SP<T> adopt_alloc(uint64_t id, U& uptr) { auto p = uptr.get(); SP<T> r(p, uptr.get_deleter(), UAlloc<char>(id)); uptr.release(); return r; }
#endif
