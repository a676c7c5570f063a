From 1e6036f73e22d59887cb1ec37618b27fc914f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 01/16] fix: shared_ptr: take the new value before releasing
 the old one in assignment and reset

---
 code/xmem/basic_shared_ptr.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index d80a1e6..096aafc 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -29,8 +29,8 @@ public:
     }
     basic_shared_ptr& operator=(const basic_shared_ptr& r) noexcept {
         if (&r == this) return *this; // self usurp
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_copy(r.m);
+        // acquire before releasing: r may be owned by our current object
+        basic_shared_ptr(r).swap(*this);
         return *this;
     }
 
@@ -40,8 +40,7 @@ public:
     }
     template <typename U>
     basic_shared_ptr& operator=(const basic_shared_ptr<CBF, U>& r) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_copy(r.m);
+        basic_shared_ptr(r).swap(*this);
         return *this;
     }
 
@@ -50,8 +49,7 @@ public:
     }
     basic_shared_ptr& operator=(basic_shared_ptr&& r) noexcept {
         if (&r == this) return *this; // self usurp
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_move(r);
+        basic_shared_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
@@ -61,8 +59,7 @@ public:
     }
     template <typename U>
     basic_shared_ptr& operator=(basic_shared_ptr<CBF, U>&& r) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_move(r);
+        basic_shared_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
@@ -101,8 +98,8 @@ public:
     }
 
     void reset(std::nullptr_t = nullptr) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        m.reset();
+        // be empty before releasing: the released object may access this pointer
+        basic_shared_ptr().swap(*this);
     }
 
     template <typename U>
-- 
2.43.0


From b5abf6536e52c29f598e395ccfc3328a466a7b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 02/16] fix: shared_ptr: keep the old value if adopting a
 unique_ptr fails

---
 code/xmem/basic_shared_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index 096aafc..75d890f 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -70,8 +70,8 @@ public:
 
     template <typename U, typename D>
     basic_shared_ptr& operator=(unique_ptr<U, D>&& uptr) {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_new(CBF::make_uptr_cb(uptr));
+        // if creating the control block throws, this pointer must be left intact
+        basic_shared_ptr(std::move(uptr)).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From 9fa00fac8dcf451fc9c9ca9abf20dc812018ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 03/16] fix: enable_shared_from: hold a weak reference instead
 of a bare control block pointer

Asking for a strong handle while the object was not owned decremented a strong
count which was never incremented, and the control block pointer dangled if the
object outlived its owners.
---
 code/xmem/basic_shared_from.hpp    | 32 ++++++++++--------------------
 code/xmem/common_control_block.hpp |  5 +++--
 2 files changed, 13 insertions(+), 24 deletions(-)

diff --git a/code/xmem/basic_shared_from.hpp b/code/xmem/basic_shared_from.hpp
index ae73a3d..a0b06ad 100644
--- a/code/xmem/basic_shared_from.hpp
+++ b/code/xmem/basic_shared_from.hpp
@@ -16,41 +16,29 @@ class basic_enable_shared_from {
 
     friend CBF;
 
-    using control_block_type = typename CBF::cb_type;
-    cb_ptr_pair<control_block_type, void> m;
+    // a weak reference: the object may be alive when its owners and even its control block are not
+    wptr<void> m;
 protected:
-    basic_enable_shared_from() : m(nullptr) {}
+    basic_enable_shared_from() = default;
     ~basic_enable_shared_from() = default;
 
     // don't touch m on copy
-    basic_enable_shared_from(const basic_enable_shared_from&) : m(nullptr) {}
+    basic_enable_shared_from(const basic_enable_shared_from&) {}
     basic_enable_shared_from& operator=(const basic_enable_shared_from&) { return *this; }
 
-    sptr<void> shared_from_this() {
-        sptr<void> ret(m);
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
-    }
-    sptr<const void> shared_from_this() const {
-        sptr<const void> ret(m);
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
-    }
-    wptr<void> weak_from_this() { return wptr<void>{m}; }
-    wptr<const void> weak_from_this() const { return wptr<const void>{m}; }
+    sptr<void> shared_from_this() { return m.lock(); }
+    sptr<const void> shared_from_this() const { return m.lock(); }
+    wptr<void> weak_from_this() { return m; }
+    wptr<const void> weak_from_this() const { return m; }
 
     template <typename T>
     sptr<T> shared_from(T* ptr) const {
-        cb_ptr_pair<control_block_type, T> alias{m.cb, ptr};
-        sptr<T> ret{alias};
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        return weak_from(ptr).lock();
     }
 
     template <typename T>
     wptr<T> weak_from(T* ptr) const {
-        if (!m.cb) return {};
-        return wptr<T>(cb_ptr_pair<control_block_type, T>{m.cb, ptr});
+        return wptr<T>(m, ptr);
     }
 };
 
diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index adb4f59..5148df7 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -98,8 +98,9 @@ struct control_block_factory {
         using ebf_type = basic_enable_shared_from<control_block_factory>;
         if constexpr (std::is_base_of_v<ebf_type, T>) {
             ebf_type* ebf = ptr;
-            ebf->m.cb = cb;
-            ebf->m.ptr = ptr;
+            if (ebf->m.expired()) { // don't steal an object which already has an owner
+                ebf->m = basic_weak_ptr<control_block_factory, void>(pair<void>(cb, ptr));
+            }
         }
         return {cb, ptr};
     }
-- 
2.43.0


From e4bbb01729a5980ec718a9d79dde64a1981ae4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 04/16] fix: shared_ptr: don't access the object when adopting
 a null pointer

---
 code/xmem/common_control_block.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 5148df7..eb357b4 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -98,7 +98,7 @@ struct control_block_factory {
         using ebf_type = basic_enable_shared_from<control_block_factory>;
         if constexpr (std::is_base_of_v<ebf_type, T>) {
             ebf_type* ebf = ptr;
-            if (ebf->m.expired()) { // don't steal an object which already has an owner
+            if (ebf && ebf->m.expired()) { // don't steal an object which already has an owner
                 ebf->m = basic_weak_ptr<control_block_factory, void>(pair<void>(cb, ptr));
             }
         }
-- 
2.43.0


From 3b4a54b1af4236624af947fc40ef6e6ea62e1a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 05/16] fix: unique_ptr: swap the deleters along with the
 pointers

---
 code/xmem/unique_ptr.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index b1f714a..0d2a174 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -97,7 +97,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(get_deleter(), other.get_deleter());
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -172,7 +175,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(m_deleter, other.m_deleter);
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -232,7 +238,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(m_deleter, other.m_deleter);
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -282,7 +291,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(get_deleter(), other.get_deleter());
+    }
     using common::release;
     using common::operator bool;
     using common::get;
-- 
2.43.0


From e54f54dce257620504bf5a18b0c69f8394043f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 06/16] fix: atomic_shared_ptr_storage: don't run destructors
 while holding the lock in compare_exchange

---
 code/xmem/basic_atomic_shared_ptr_storage.hpp | 2 ++
 code/xmem/std_helpers.hpp                     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/code/xmem/basic_atomic_shared_ptr_storage.hpp b/code/xmem/basic_atomic_shared_ptr_storage.hpp
index 7e38ac1..c23bdb4 100644
--- a/code/xmem/basic_atomic_shared_ptr_storage.hpp
+++ b/code/xmem/basic_atomic_shared_ptr_storage.hpp
@@ -38,12 +38,14 @@ public:
     }
 
     bool compare_exchange(shared_pointer_type& expect, shared_pointer_type ptr) noexcept {
+        shared_pointer_type old; // outlives the lock: what expect held must not be destroyed while locked
         impl::spinlock::lock_guard _l(m_spinlock);
         if (m_ptr == expect) {
             m_ptr.swap(ptr);
             return true;
         }
         else {
+            old.swap(expect);
             expect = m_ptr;
             return false;
         }
diff --git a/code/xmem/std_helpers.hpp b/code/xmem/std_helpers.hpp
index cea48f3..0b475d1 100644
--- a/code/xmem/std_helpers.hpp
+++ b/code/xmem/std_helpers.hpp
@@ -121,12 +121,14 @@ public:
 
     // have _strong to match atomic<shared_ptr>
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
+        sptr old; // outlives the lock: what expect held must not be destroyed while locked
         xmem::impl::spinlock::lock_guard _l(m_spinlock);
         if (m_ptr == expect) {
             m_ptr.swap(ptr);
             return true;
         }
         else {
+            old.swap(expect);
             expect = m_ptr;
             return false;
         }
-- 
2.43.0


From b6df71554707de3170b49c2033f57d647232a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 07/16] fix: atomic_shared_ptr_storage: compare_exchange must
 compare the owners too

Like std::atomic<std::shared_ptr>, and the deprecated atomic operations on
std::shared_ptr: same pointer and same owner.
---
 code/xmem/basic_atomic_shared_ptr_storage.hpp | 2 +-
 code/xmem/std_helpers.hpp                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/xmem/basic_atomic_shared_ptr_storage.hpp b/code/xmem/basic_atomic_shared_ptr_storage.hpp
index c23bdb4..b9615db 100644
--- a/code/xmem/basic_atomic_shared_ptr_storage.hpp
+++ b/code/xmem/basic_atomic_shared_ptr_storage.hpp
@@ -40,7 +40,7 @@ public:
     bool compare_exchange(shared_pointer_type& expect, shared_pointer_type ptr) noexcept {
         shared_pointer_type old; // outlives the lock: what expect held must not be destroyed while locked
         impl::spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
+        if (m_ptr == expect && same_owner(m_ptr, expect)) {
             m_ptr.swap(ptr);
             return true;
         }
diff --git a/code/xmem/std_helpers.hpp b/code/xmem/std_helpers.hpp
index 0b475d1..66d716d 100644
--- a/code/xmem/std_helpers.hpp
+++ b/code/xmem/std_helpers.hpp
@@ -123,7 +123,7 @@ public:
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
         sptr old; // outlives the lock: what expect held must not be destroyed while locked
         xmem::impl::spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
+        if (m_ptr == expect && same_owner(m_ptr, expect)) {
             m_ptr.swap(ptr);
             return true;
         }
-- 
2.43.0


From 233838130912adb37fb65d3341d0f237e618677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 08/16] fix: shared_ptr<T[]>: delete arrays as arrays

---
 code/xmem/basic_shared_ptr.hpp     | 8 ++++++--
 code/xmem/common_control_block.hpp | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index 75d890f..c4f7be3 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -79,7 +79,7 @@ public:
     basic_shared_ptr(std::nullptr_t, D d) : basic_shared_ptr(unique_ptr<T, D>(nullptr, std::move(d))) {}
 
     template <typename U>
-    explicit basic_shared_ptr(U* p) : basic_shared_ptr(unique_ptr<U>(p)) {}
+    explicit basic_shared_ptr(U* p) : basic_shared_ptr(default_unique_ptr<U>(p)) {}
 
     template <typename U, typename D>
     basic_shared_ptr(U* p, D d) : basic_shared_ptr(unique_ptr<U, D>(p, std::move(d))) {}
@@ -104,7 +104,7 @@ public:
 
     template <typename U>
     void reset(U* u) {
-        operator=(unique_ptr<U>(u));
+        operator=(default_unique_ptr<U>(u));
     }
 
     template <typename U, typename D>
@@ -154,6 +154,10 @@ public:
     }
 
 private:
+    // what to adopt a bare pointer with: arrays are deleted as such
+    template <typename U>
+    using default_unique_ptr = unique_ptr<std::conditional_t<std::is_array_v<T>, U[], U>>;
+
     // not new! rc taken care of from the outside
     explicit basic_shared_ptr(const cb_ptr_pair_type& cbptr) noexcept : m(cbptr) {}
 
diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index eb357b4..12b4135 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -106,7 +106,7 @@ struct control_block_factory {
     }
 
     template <typename T, typename Del, typename Alloc = allocator<char>>
-    [[nodiscard]] static pair<T> make_uptr_cb(unique_ptr<T, Del>& uptr, Alloc a = {}) {
+    [[nodiscard]] static pair<std::remove_extent_t<T>> make_uptr_cb(unique_ptr<T, Del>& uptr, Alloc a = {}) {
         using uptr_type = unique_ptr<T, Del>;
         using rsrc_type = control_block_resource<cb_type, uptr_type, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-- 
2.43.0


From 8ddf74d363a78b0a9c3986ef0cec58ffec74778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 09/16] fix: control block: don't leak the storage if the
 constructor of a custom control block throws

---
 code/xmem/common_control_block.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 12b4135..5e4580a 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -66,9 +66,13 @@ public:
     using control_block_resource_ptr = unique_ptr<control_block_resource, void(*)(control_block_resource*)>;
     [[nodiscard]] static control_block_resource_ptr create(Alloc a) {
         auto myalloc = get_self_alloc(a);
-        auto self = myalloc.allocate(1);
-        new (self) control_block_resource(std::move(a));
-        return control_block_resource_ptr(self, [](control_block_resource* ptr) { ptr->destroy_self(); });
+        struct dealloc { // in case the constructor of Base throws
+            self_alloc_type& alloc;
+            void operator()(control_block_resource* ptr) { alloc.deallocate(ptr, 1); }
+        };
+        unique_ptr<control_block_resource, dealloc> self(myalloc.allocate(1), dealloc{myalloc});
+        new (self.get()) control_block_resource(std::move(a));
+        return control_block_resource_ptr(self.release(), [](control_block_resource* ptr) { ptr->destroy_self(); });
     }
 
     [[nodiscard]] T* obj() {
-- 
2.43.0


From 549b7cbd3de1c725cb166d41a15a86194dba0757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:25 +0000
Subject: [PATCH 10/16] fix: unique_ptr: don't move from a deleter held by
 reference

---
 code/xmem/unique_ptr.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index 0d2a174..3ff5677 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -80,12 +80,13 @@ public:
     template <typename D2>
     unique_ptr(pointer p, D2&& d) noexcept : common(p), D(std::forward<D2>(d)) {}
 
+    // forward: don't move from a deleter which other only references
     template <typename U, typename D2>
-    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}
+    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), D(std::forward<D2>(other.get_deleter())) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
         reset(other.release());
-        get_deleter() = std::move(other.get_deleter());
+        get_deleter() = std::forward<D2>(other.get_deleter());
         return *this;
     }
 
-- 
2.43.0


From 8c59abe4a2161476914cd893aa939b2794215fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:58 +0000
Subject: [PATCH 11/16] fix: weak_ptr: don't read the dead object when
 converting to a virtual base

---
 code/xmem/basic_weak_ptr.hpp | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/code/xmem/basic_weak_ptr.hpp b/code/xmem/basic_weak_ptr.hpp
index 49735e6..8408c23 100644
--- a/code/xmem/basic_weak_ptr.hpp
+++ b/code/xmem/basic_weak_ptr.hpp
@@ -4,8 +4,22 @@
 #pragma once
 #include "basic_shared_ptr.hpp"
 
+#include <type_traits>
+#include <utility>
+
 namespace xmem {
 
+namespace impl {
+// converting a pointer to derived to a pointer to virtual base reads the object itself
+// in this case (and only in this case) the opposite static cast is ill-formed for an otherwise convertible pointer
+template <typename U, typename T, typename = void>
+struct is_virtual_base_conversion : std::conjunction<std::is_class<T>, std::is_convertible<U*, T*>> {};
+template <typename U, typename T>
+struct is_virtual_base_conversion<U, T, std::void_t<
+    decltype(static_cast<std::remove_cv_t<U>*>(std::declval<std::remove_cv_t<T>*>()))
+>> : std::false_type {};
+}
+
 template <typename CBF, typename T>
 class basic_weak_ptr {
 public:
@@ -30,12 +44,13 @@ public:
 
     template <typename U>
     basic_weak_ptr(const basic_weak_ptr<CBF, U>& r) noexcept {
-        init_from_copy(r.m);
+        init_from_copy(convert(r));
     }
     template <typename U>
     basic_weak_ptr& operator=(const basic_weak_ptr<CBF, U>& r) noexcept {
+        auto rm = convert(r);
         if (m.cb) m.cb->dec_weak_ref(this);
-        init_from_copy(r.m);
+        init_from_copy(rm);
         return *this;
     }
 
@@ -147,6 +162,17 @@ public:
     }
 
 private:
+    template <typename U>
+    static cb_ptr_pair_type convert(const basic_weak_ptr<CBF, U>& r) noexcept {
+        if constexpr (impl::is_virtual_base_conversion<typename basic_weak_ptr<CBF, U>::element_type, element_type>::value) {
+            // the object must be alive during the conversion
+            return cb_ptr_pair_type(r.m.cb, r.lock().get());
+        }
+        else {
+            return r.m;
+        }
+    }
+
     template <typename U>
     void init_from_copy(const cb_ptr_pair<control_block_type, U>& r) noexcept {
         m = r;
@@ -155,7 +181,8 @@ private:
 
     template <typename U>
     void init_from_move(basic_weak_ptr<CBF, U>& r) noexcept {
-        m = std::move(r.m);
+        m = convert(r);
+        r.m.reset();
         if (m.cb) m.cb->transfer_weak(this, &r);
     }
 
-- 
2.43.0


From cd1ae7bd277c70f1047a064fde00879c34b6970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:58 +0000
Subject: [PATCH 12/16] fix: unique_ptr: function deleters may take a pointer
 to base or void, not a pointer to derived

---
 code/xmem/unique_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index 3ff5677..5996c62 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -192,7 +192,7 @@ public:
 
 template <typename T, typename B>
 class unique_ptr<T, void(*)(B*)> : public impl::uptr_common<T*> {
-    static_assert(std::is_convertible_v<B*, T*>, "unique_ptr type needs to be convertible to deleter type");
+    static_assert(std::is_convertible_v<T*, B*>, "unique_ptr type needs to be convertible to deleter type");
     using common = impl::uptr_common<T*>;
     void (*m_deleter)(B*);
 public:
-- 
2.43.0


From 1078a9dabfec537b725e43cec0afe0166e0a0b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 13/16] fix: shared_ptr::reset(p, d): dispose with the deleter
 given

---
 code/xmem/basic_shared_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index c4f7be3..a219eb7 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -109,7 +109,7 @@ public:
 
     template <typename U, typename D>
     void reset(U* u, D d) {
-        operator=(unique_ptr<U>(u, std::move(d)));
+        operator=(unique_ptr<U, D>(u, std::move(d)));
     }
 
     template <typename U, typename D, typename A>
-- 
2.43.0


From 1dd3753f72baf732b2d662444c0f675f48164771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:11 +0000
Subject: [PATCH 14/16] fix: unique_ptr: have the new pointer and deleter
 before disposing of the old object in move assignment

With a stateful, by-reference or function deleter 'head = std::move(head->next)' read the deleter from
the object just destroyed, and an object resetting the pointer it is being replaced in had its
replacement disposed of with the wrong deleter.
---
 code/xmem/unique_ptr.hpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index 5996c62..84f2367 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -72,8 +72,8 @@ public:
 
     unique_ptr(unique_ptr&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
-        reset(other.release());
-        get_deleter() = std::move(other.get_deleter());
+        // have the new pointer and deleter before disposing of the old object: it may own other or access this
+        unique_ptr(std::move(other)).swap(*this);
         return *this;
     }
 
@@ -85,8 +85,7 @@ public:
     unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), D(std::forward<D2>(other.get_deleter())) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
-        reset(other.release());
-        get_deleter() = std::forward<D2>(other.get_deleter());
+        unique_ptr(std::move(other)).swap(*this);
         return *this;
     }
 
@@ -154,8 +153,8 @@ public:
 
     unique_ptr(unique_ptr&& other) noexcept : common(other.release()), m_deleter(&other.get_deleter()) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
-        reset(other.release());
-        m_deleter = &other.get_deleter();
+        D& del = other.get_deleter();
+        unique_ptr(other.release(), del).swap(*this);
         return *this;
     }
 
@@ -163,8 +162,8 @@ public:
     unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), m_deleter(&other.get_deleter()) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
-        reset(other.release());
-        m_deleter = &other.get_deleter();
+        D& del = other.get_deleter();
+        unique_ptr(other.release(), del).swap(*this);
         return *this;
     }
 
@@ -217,8 +216,8 @@ public:
 
     unique_ptr(unique_ptr&& other) noexcept : common(other.release()), m_deleter(other.get_deleter()) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
-        reset(other.release());
-        m_deleter = other.get_deleter();
+        deleter_type del = other.get_deleter();
+        unique_ptr(other.release(), del).swap(*this);
         return *this;
     }
 
@@ -226,8 +225,8 @@ public:
     unique_ptr(unique_ptr<U, deleter_type>&& other) noexcept : common(other.release()), m_deleter(other.get_deleter()) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
-        reset(other.release());
-        m_deleter = other.get_deleter();
+        deleter_type del = other.get_deleter();
+        unique_ptr(other.release(), del).swap(*this);
         return *this;
     }
 
@@ -276,8 +275,8 @@ public:
 
     unique_ptr(unique_ptr&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}
     unique_ptr& operator=(unique_ptr&& other) noexcept {
-        reset(other.release());
-        get_deleter() = std::move(other.get_deleter());
+        // have the new pointer and deleter before disposing of the old object: it may own other or access this
+        unique_ptr(std::move(other)).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From 41c5e4af7c393b0741de6ef69c6f5a762b37b859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 15/16] fix: control block: construct objects in place whatever
 operators & and new their class has

---
 code/xmem/common_control_block.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 5e4580a..68cfb05 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -76,7 +76,7 @@ public:
     }
 
     [[nodiscard]] T* obj() {
-        return &m_obj;
+        return std::addressof(m_obj); // T may have an operator& of its own
     }
 
     virtual void destroy_resource() noexcept override { m_obj.~T(); }
@@ -123,7 +123,7 @@ struct control_block_factory {
     [[nodiscard]] static pair<T> make_resource_cb(Alloc a, Args&&... args) {
         using rsrc_type = control_block_resource<cb_type, T, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (tmp->obj()) T(std::forward<Args>(args)...);
+        ::new (static_cast<void*>(tmp->obj())) T(std::forward<Args>(args)...); // not with an operator new of T's own
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
@@ -132,7 +132,7 @@ struct control_block_factory {
     [[nodiscard]] static pair<T> make_resource_cb_for_overwrite(Alloc a) {
         using rsrc_type = control_block_resource<cb_type, T, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (tmp->obj()) T;
+        ::new (static_cast<void*>(tmp->obj())) T;
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
-- 
2.43.0


From dd9f6b546abc713cec4bf11e474363cc48eec885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 16/16] fix: allocator: report counts whose size overflows
 instead of returning too little storage

---
 code/xmem/allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/xmem/allocator.hpp b/code/xmem/allocator.hpp
index de67253..b4cdb09 100644
--- a/code/xmem/allocator.hpp
+++ b/code/xmem/allocator.hpp
@@ -3,6 +3,7 @@
 //
 #pragma once
 #include <memory>
+#include <new>
 
 namespace xmem {
 
@@ -20,6 +21,7 @@ public:
     static inline constexpr std::align_val_t align_val{alignof(T)};
 
     [[nodiscard]] T* allocate(size_t n) {
+        if (n > size_t(-1) / sizeof(T)) throw std::bad_array_new_length();
         auto ret = ::operator new(n * sizeof(T), align_val);
         return reinterpret_cast<T*>(ret);
     }
-- 
2.43.0

