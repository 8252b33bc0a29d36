From 978cf6e9e3eeafd0f524baeec411f60338ae4313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:10 +0000
Subject: [PATCH 01/16] fix: registering a type class in a freed slot was lost

The address of the loop-local copy was stored instead of the address of the
slot, so a type class registered after another one was unregistered could not
be found by name.
---
 code/dynamix/domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index d17587e..bac387d 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -348,7 +348,7 @@ public:
                 if (tc->name == new_tc.name) throw_exception::duplicate_name(m_domain, new_tc);
             }
             else {
-                free_slot = &tc;
+                free_slot = &*i;
             }
         }
 
-- 
2.43.0


From d154e92fbe95958d3d059dcbea0246099a5f3773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:20 +0000
Subject: [PATCH 02/16] fix: dnmx_sv_cmp ignored the lengths of views with a
 common begin

Two views into the same buffer with different lengths compared equal.
---
 code/dnmx/bits/sv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dnmx/bits/sv.h b/code/dnmx/bits/sv.h
index 6d5d449..0f54064 100644
--- a/code/dnmx/bits/sv.h
+++ b/code/dnmx/bits/sv.h
@@ -81,7 +81,7 @@ static inline size_t dnmx_sv_len(dnmx_sv sv) { return sv.end - sv.begin; }
 
 static inline int dnmx_sv_cmp(dnmx_sv a, dnmx_sv b) {
     // avoid memcmp with null
-    if (a.begin == b.begin) return 0;
+    if (a.begin == b.begin && a.end == b.end) return 0;
     size_t alen = dnmx_sv_len(a);
     if (!b.begin) return !!alen;
     size_t blen = dnmx_sv_len(b);
-- 
2.43.0


From e4f52f4d92948a335d894e11b316884fb55b0742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:31 +0000
Subject: [PATCH 03/16] fix: unregistering a foreign mixin dropped types of the
 domain

Types and type queries were purged by id before checking whether the mixin is
registered in this domain at all.
---
 code/dynamix/domain.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index bac387d..f291915 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -285,6 +285,13 @@ public:
     }
 
     void unregister_mixin(mixin_info& info) {
+        {
+            // mixin is not our own? then it must not affect our types and queries
+            auto reg = m_element_registry.shared_lock();
+            auto& sparse_mixins = reg->sparse_mixins;
+            if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);
+        }
+
         {
             auto treg = m_type_registry.unique_lock();
             // since this mixin is no longer valid
-- 
2.43.0


From 80ee65ee0e993e9610b4b69a570db7e961872eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:42 +0000
Subject: [PATCH 04/16] fix: mutations during an unrelated stack unwinding were
 dropped

An object created or mutated in a destructor which runs while some exception
propagates was silently rolled back and left without a valid type.
---
 code/dynamix/mutate.hpp          | 5 ++++-
 code/dynamix/object_mutation.cpp | 2 +-
 code/dynamix/object_mutation.hpp | 6 ++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/mutate.hpp b/code/dynamix/mutate.hpp
index fea31fb..766e451 100644
--- a/code/dynamix/mutate.hpp
+++ b/code/dynamix/mutate.hpp
@@ -6,6 +6,8 @@
 #include "mutate_to.hpp"
 #include "domain.hpp"
 
+#include <exception>
+
 namespace dynamix {
 // regular mutate with ops as arguments
 template <typename... Ops>
@@ -25,13 +27,14 @@ class gradual_mutation {
     type_mutation m_type_mut;
     object& m_obj;
     bool m_applied = false;
+    const int m_uncaught_exceptions = std::uncaught_exceptions();
 public:
     gradual_mutation(object& obj)
         : m_type_mut(obj.get_type())
         , m_obj(obj)
     {}
     ~gradual_mutation() noexcept(false) {
-        if (std::uncaught_exceptions()) return;
+        if (std::uncaught_exceptions() > m_uncaught_exceptions) return;
         if (m_applied) return;
         apply();
     }
diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index e978afe..251272f 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -48,7 +48,7 @@ object_mutation::object_mutation(std::nullptr_t, object& obj) noexcept
 object_mutation::~object_mutation() noexcept(false) {
     if (m_moved_out_from) return;
 
-    if (std::uncaught_exceptions()) {
+    if (std::uncaught_exceptions() > m_uncaught_exceptions) {
         rollback();
         return;
     }
diff --git a/code/dynamix/object_mutation.hpp b/code/dynamix/object_mutation.hpp
index 2ae8e55..fa56a78 100644
--- a/code/dynamix/object_mutation.hpp
+++ b/code/dynamix/object_mutation.hpp
@@ -9,6 +9,8 @@
 #include "globals.hpp"
 #include "object_mutation_funcs.hpp"
 
+#include <exception>
+
 namespace dynamix {
 class object;
 
@@ -161,6 +163,10 @@ private:
 
     // rust-style bool to help us support moving mutations
     bool m_moved_out_from = false;
+
+    // number of exceptions in flight when the mutation was started
+    // more of them in the destructor mean that the mutation itself is being unwound
+    const int m_uncaught_exceptions = std::uncaught_exceptions();
 };
 
 // utility funcs for the most common use cases:
-- 
2.43.0


From 1a494b7a98393a1495f2f9e5ab53431bb86accb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:52 +0000
Subject: [PATCH 05/16] fix: mutating an object to the empty type

object_mutation tried to allocate a zero-sized, zero-aligned buffer and was
never considered complete.
---
 code/dynamix/object_mutation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index 251272f..9a52697 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -87,6 +87,12 @@ void object_mutation::deallocate_external_mixin(void* ptr, const mixin_info& inf
 void object_mutation::allocate_mixin_data() {
     assert(m_allocated_upto == 0);
 
+    if (m_target_type.num_mixins() == 0) {
+        // the empty type has no mixin data: nothing to allocate and nothing to update
+        m_complete = true;
+        return;
+    }
+
     if (&m_target_type == m_old_type) {
         // tag: same_type_shortcut
         // we've somehow ended-up mutating the object with the same type
-- 
2.43.0


From b4ceeebf74a726ed2ff9692ca4ba6bb06b609496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:01 +0000
Subject: [PATCH 06/16] fix: exceptions escaped from C API functions

---
 code/dynamix/domain-c.cpp          | 23 +++++++++++++++++++----
 code/dynamix/mixin_allocator-c.cpp |  9 +++++++--
 code/dynamix/object-c.cpp          | 15 +++++++--------
 3 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/code/dynamix/domain-c.cpp b/code/dynamix/domain-c.cpp
index eb801d1..34b402b 100644
--- a/code/dynamix/domain-c.cpp
+++ b/code/dynamix/domain-c.cpp
@@ -15,8 +15,13 @@ extern "C" {
 #define self domain::from_c_handle(hd)
 
 dnmx_domain_handle dnmx_create_domain(dnmx_sv name, dnmx_domain_settings settings, uintptr_t user_data, void* context) {
-    auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
-    return new_dom->to_c_hanlde();
+    try {
+        auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
+        return new_dom->to_c_hanlde();
+    }
+    catch (std::exception&) {
+        return nullptr;
+    }
 }
 void dnmx_destroy_domain(dnmx_domain_handle hd) {
     delete self;
@@ -39,7 +44,12 @@ dnmx_error_return_t dnmx_register_feature(dnmx_domain_handle hd, dnmx_feature_in
     }
 }
 void dnmx_unregister_feature(dnmx_domain_handle hd, dnmx_feature_info* info) {
-    self->unregister_feature(*info);
+    try {
+        self->unregister_feature(*info);
+    }
+    catch (std::exception&) {
+        // not registered in this domain: nothing to do
+    }
 }
 
 dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info* info) {
@@ -52,7 +62,12 @@ dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info*
     }
 }
 void dnmx_unregister_mixin(dnmx_domain_handle hd, dnmx_mixin_info* info) {
-    self->unregister_mixin(*info);
+    try {
+        self->unregister_mixin(*info);
+    }
+    catch (std::exception&) {
+        // not registered in this domain: nothing to do
+    }
 }
 
 const dnmx_feature_info* dnmx_get_feature_info_by_id(dnmx_domain_handle hd, dnmx_feature_id id) {
diff --git a/code/dynamix/mixin_allocator-c.cpp b/code/dynamix/mixin_allocator-c.cpp
index 5eeb4fe..7e45eba 100644
--- a/code/dynamix/mixin_allocator-c.cpp
+++ b/code/dynamix/mixin_allocator-c.cpp
@@ -34,8 +34,13 @@ using namespace dynamix;
 
 extern "C" {
 dnmx_mixin_allocator_handle dnmx_create_mixin_allocator(dnmx_alloc_mixin_func alloc, dnmx_dealloc_mixin_func dealloc) {
-    auto ret = new c_mixin_allocator(alloc, dealloc);
-    return ret->to_c_hanlde();
+    try {
+        auto ret = new c_mixin_allocator(alloc, dealloc);
+        return ret->to_c_hanlde();
+    }
+    catch (std::exception&) {
+        return nullptr;
+    }
 }
 void dnmx_destroy_mixin_allocator(dnmx_mixin_allocator_handle ha) {
     delete mixin_allocator::from_c_handle(ha);
diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 2fc40c0..5405b91 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -105,19 +105,18 @@ bool dnmx_object_clear(dnmx_object_handle ho) {
     return true;
 }
 dnmx_error_return_t dnmx_object_reset_type(dnmx_object_handle ho, dnmx_type_handle ht) {
-    if (ht) {
-        try {
+    try {
+        if (ht) {
             self->reset_type(*type::from_c_handle(ht));
         }
-        catch (std::exception&) {
-            return -1;
+        else {
+            self->clear();
         }
+        return dnmx_result_success;
     }
-    else {
-        self->clear();
+    catch (std::exception&) {
+        return -1;
     }
-
-    return dnmx_result_success;
 }
 
 bool dnmx_object_is_empty(dnmx_const_object_handle ho) {
-- 
2.43.0


From 4f768aa2488c60e242def8eb8ee170b2fc78c1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:09 +0000
Subject: [PATCH 07/16] fix: dnmx_object_implements_strong functions were
 declared but not defined

---
 code/dynamix/object-c.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 5405b91..01b5500 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -80,6 +80,13 @@ bool dnmx_object_has_by_name(dnmx_const_object_handle ho, dnmx_sv name) {
     return self->has(name.to_std());
 }
 
+bool dnmx_object_implements_strong(dnmx_const_object_handle ho, const dnmx_feature_info* info) {
+    return self->get_type().implements_strong(*info);
+}
+bool dnmx_object_implements_strong_by_name(dnmx_const_object_handle ho, dnmx_sv name) {
+    return self->get_type().implements_strong(name.to_std());
+}
+
 const void* dnmx_object_get(dnmx_const_object_handle ho, const dnmx_mixin_info* info) {
     return self->get(*info);
 }
-- 
2.43.0


From b1576e8eb7c399352af51f90a99f935a7aae3abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 08/16] fix: null dereference in mutate_to with an op for an
 unknown mixin name

---
 code/dynamix/mutate_to.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/dynamix/mutate_to.hpp b/code/dynamix/mutate_to.hpp
index 09481eb..c0df8b5 100644
--- a/code/dynamix/mutate_to.hpp
+++ b/code/dynamix/mutate_to.hpp
@@ -33,6 +33,7 @@ void mutate_to(object& obj, const type& type, Ops&&... ops) {
     obj_mutates_end = std::remove_if(obj_mutates, obj_mutates_end, [&type](object_mutate_op* op) {
         if (!op) return true; // null (non add-mixin op)
         if (!op->overrides_init()) return true; // valid op, which doesn't override init, so we don't need it
+        if (!op->affected_info) return true; // no such mixin in the domain
         auto index = type.index_of(op->affected_info->id);
         if (index == invalid_mixin_index) return true; // mixin which was removed by rules
         op->mixin_index = index; // assign index
-- 
2.43.0


From ab960f0cc01bcde72be5d85db289026bb82b6e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:27 +0000
Subject: [PATCH 09/16] fix: several mutate_to ops for the same mixin

The second op was applied to the next mixin of the type. update_at reports
such ops as an out of order mutation.
---
 code/dynamix/mutate_to.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/code/dynamix/mutate_to.hpp b/code/dynamix/mutate_to.hpp
index c0df8b5..df030bc 100644
--- a/code/dynamix/mutate_to.hpp
+++ b/code/dynamix/mutate_to.hpp
@@ -49,8 +49,7 @@ void mutate_to(object& obj, const type& type, Ops&&... ops) {
     object_mutation obj_mut(obj, type);
     for (auto i = obj_mutates; i != obj_mutates_end; ++i) {
         auto& op = **i;
-        obj_mut.default_construct_each_new_mixin(op.mixin_index);
-        obj_mut.update_next_mixin([&op](init_new_args args) {
+        obj_mut.update_at(op.mixin_index, [&op](init_new_args args) {
             op.do_init(args);
         }, util::noop_udpate_common_func);
     }
-- 
2.43.0


From d110a33abf2ebb1043a0f53d53190ef938a1d098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:36 +0000
Subject: [PATCH 10/16] fix: stale type query stored when rules change during
 get_type

The rules are applied under a shared lock and the query is stored under a later
unique lock. If the set of rules was changed in between, the query with the
result of the old rules was stored and used from then on.
---
 code/dynamix/domain.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index f291915..68232d4 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -166,6 +166,10 @@ public:
         // stored type queries
         // with them we avoid applying mutation rules for the same type query
         type_query_map type_queries;
+
+        // incremented with every change of the set of rules
+        // queries produced with the rules from an older revision must not be stored
+        uint64_t rules_revision = 0;
     };
     data_mutex<type_registry> m_type_registry;
 
@@ -422,6 +426,7 @@ public:
         // we need to invalidate stored type queries
         // we can't tell which ones the rule affects, so we have to invalidate them all
         reg->type_queries.clear();
+        ++reg->rules_revision;
     }
     void remove_mutation_rule(const mutation_rule_info& info) noexcept {
         auto reg = m_type_registry.unique_lock();
@@ -435,6 +440,7 @@ public:
         reg->mutation_rules.erase(f);
         // we can't tell which ones the rule affects, so we have to invalidate them all
         reg->type_queries.clear();
+        ++reg->rules_revision;
     }
 
     // applies mutation rules for mutation and returns the original query to be preserved
@@ -498,6 +504,7 @@ public:
 
         type_query original_query(m_allocator); // prepare original query with our allocator
         const type* found = nullptr;
+        uint64_t rules_revision = 0; // revision of rules with which the original query was produced
 
         {
             // search for stored query for this combo
@@ -509,6 +516,7 @@ public:
 
             // query is not available, so we need to apply mutation rules
             // we can do it while holding the shared lock
+            rules_revision = reg->rules_revision;
             original_query = apply_mutation_rules_l(mutation, reg->mutation_rules);
 
             // now look for exact type
@@ -530,11 +538,11 @@ public:
             // worst (and extremely rare) case we wasted cpu applying the same rules twice
 
             auto reg = m_type_registry.unique_lock();
-            reg->type_queries[std::move(original_query)] = found;
+            if (reg->rules_revision == rules_revision) reg->type_queries[std::move(original_query)] = found;
             return *found;
         }
 
-        return create_type(mutation, std::move(original_query));
+        return create_type(mutation, std::move(original_query), rules_revision);
     }
 
     const type& get_type(itlib::span<const mixin_info* const> mixins) {
@@ -693,7 +701,7 @@ public:
     };
 
     // create type for a given mutation requested by a given query
-    const type& create_type(type_mutation& mutation, type_query&& query) {
+    const type& create_type(type_mutation& mutation, type_query&& query, uint64_t rules_revision) {
         mixin_info_span mixins(mutation.mixins);
 
         // first check validity
@@ -838,7 +846,7 @@ public:
         // but the code below is safe in such a case)
 
         const type* reg_type = res.first->get();
-        reg->type_queries[std::move(query)] = reg_type;
+        if (reg->rules_revision == rules_revision) reg->type_queries[std::move(query)] = reg_type;
         return *reg_type;
     }
 
-- 
2.43.0


From 29ad02541cb475a3189070f39479be56c1070927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:45 +0000
Subject: [PATCH 11/16] fix: recursive shared lock when dumping a domain

domain_traverse holds shared locks of the registries for the whole dump. Locking
them again in the same thread is undefined and deadlocks if a writer waits.
---
 code/dynamix/dbg_dmp.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/code/dynamix/dbg_dmp.cpp b/code/dynamix/dbg_dmp.cpp
index c8e386d..43f2526 100644
--- a/code/dynamix/dbg_dmp.cpp
+++ b/code/dynamix/dbg_dmp.cpp
@@ -178,14 +178,20 @@ void dbg_dmp(std::ostream& out, const domain& d, uint32_t flags) {
         });
     }
     if (flags & dnmx_dom_dmp_mutation_rules) {
-        out << "## " << d.num_mutation_rules() << " Mutation Rules\n";
+        int count = 0;
+        tr.traverse_mutation_rules([&](const mutation_rule_info&, uint32_t) { ++count; });
+
+        out << "## " << count << " Mutation Rules\n";
         tr.traverse_mutation_rules([&](const mutation_rule_info& mri, uint32_t refs) {
             dbg_dmp(out, mri, flags);
             out << ", " << refs << " refs\n";
         });
     }
     if (flags & dnmx_dom_dmp_types) {
-        out << "## " << d.num_types() << " Types\n";
+        int count = 0;
+        tr.traverse_types([&](const type&) { ++count; });
+
+        out << "## " << count << " Types\n";
         tr.traverse_types([&](const type& t) {
             dbg_dmp_l(out, t, flags, &tr);
             out << '\n';
@@ -202,7 +208,10 @@ void dbg_dmp(std::ostream& out, const domain& d, uint32_t flags) {
         });
     }
     if (flags & dnmx_dom_dmp_type_queries) {
-        out << "## " << d.num_type_queries() << " Type Queries\n";
+        int count = 0;
+        tr.traverse_type_queries([&](itlib::span<const mixin_info* const>, const type&) { ++count; });
+
+        out << "## " << count << " Type Queries\n";
         tr.traverse_type_queries([&](itlib::span<const mixin_info* const> mixins, const type& qt) {
             out << "tq: ";
             output_mixins(out, mixins);
-- 
2.43.0


From 815e736882c0839a302f0c07ace6f07e5540c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:54 +0000
Subject: [PATCH 12/16] fix: functions which may throw were marked as noexcept

unregister_from throws for a mixin which is not registered in the domain, and
the others allocate. Such errors led to std::terminate.
---
 code/dynamix/domain.cpp          | 2 +-
 code/dynamix/domain_traverse.hpp | 2 +-
 code/dynamix/mixin_info_data.cpp | 2 +-
 code/dynamix/mixin_info_data.hpp | 2 +-
 code/dynamix/type_mutation.cpp   | 2 +-
 code/dynamix/type_mutation.hpp   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 68232d4..2a1e516 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -881,7 +881,7 @@ struct domain_traverse::impl {
     data_mutex<domain::impl::element_registry>::shared_lock_t er;
 };
 
-domain_traverse::domain_traverse(const domain& d) noexcept {
+domain_traverse::domain_traverse(const domain& d) {
     m_impl = new impl{
         d.m_impl->m_type_registry.shared_lock(),
         d.m_impl->m_element_registry.shared_lock()
diff --git a/code/dynamix/domain_traverse.hpp b/code/dynamix/domain_traverse.hpp
index 7d14022..3ecac09 100644
--- a/code/dynamix/domain_traverse.hpp
+++ b/code/dynamix/domain_traverse.hpp
@@ -25,7 +25,7 @@ class DYNAMIX_API domain_traverse {
     struct impl;
     impl* m_impl;
 public:
-    domain_traverse(const domain& d) noexcept;
+    domain_traverse(const domain& d);
     ~domain_traverse();
 
     domain_traverse(const domain_traverse&) = delete;
diff --git a/code/dynamix/mixin_info_data.cpp b/code/dynamix/mixin_info_data.cpp
index 7b7729a..92b2264 100644
--- a/code/dynamix/mixin_info_data.cpp
+++ b/code/dynamix/mixin_info_data.cpp
@@ -13,7 +13,7 @@ void mixin_info_data::register_in(domain& dom) {
     dom.register_mixin(info);
 }
 
-void mixin_info_data::unregister_from(domain& dom) noexcept {
+void mixin_info_data::unregister_from(domain& dom) {
     dom.unregister_mixin(info);
     for (auto* r : mutation_rule_infos) {
         dom.remove_mutation_rule(*r);
diff --git a/code/dynamix/mixin_info_data.hpp b/code/dynamix/mixin_info_data.hpp
index 3fed2ef..00be064 100644
--- a/code/dynamix/mixin_info_data.hpp
+++ b/code/dynamix/mixin_info_data.hpp
@@ -50,7 +50,7 @@ struct DYNAMIX_API mixin_info_data {
     // use these to register infos build from this data
     // these function will automatically manage the associated mutation rules
     void register_in(domain& dom);
-    void unregister_from(domain& dom) noexcept;
+    void unregister_from(domain& dom);
 };
 
 // Now, an EDSL which builds mixin_info_data:
diff --git a/code/dynamix/type_mutation.cpp b/code/dynamix/type_mutation.cpp
index 7cf6ccd..e66f4aa 100644
--- a/code/dynamix/type_mutation.cpp
+++ b/code/dynamix/type_mutation.cpp
@@ -22,7 +22,7 @@ type_mutation::type_mutation(domain& d, const allocator& alloc) noexcept
     , mixins(alloc)
 {}
 
-type_mutation::type_mutation(const type& base, const allocator& alloc) noexcept
+type_mutation::type_mutation(const type& base, const allocator& alloc)
     : type_mutation(base.dom, alloc)
 {
     mixins.assign(base.mixins.begin(), base.mixins.end());
diff --git a/code/dynamix/type_mutation.hpp b/code/dynamix/type_mutation.hpp
index c82d647..5c78418 100644
--- a/code/dynamix/type_mutation.hpp
+++ b/code/dynamix/type_mutation.hpp
@@ -30,7 +30,7 @@ public:
 
     // start a mutation with a specific base
     // optionally provide an allocator for the type template
-    explicit type_mutation(const type& base, const allocator& alloc = {}) noexcept;
+    explicit type_mutation(const type& base, const allocator& alloc = {});
 
     // add mixin
     void add(const mixin_info& info) { mixins.push_back(&info); }
-- 
2.43.0


From 5b03edc9c6b39cb1c105f63f71414839f19b62b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:03 +0000
Subject: [PATCH 13/16] fix: mutation rules left in the domain when registering
 their mixin fails

---
 code/dynamix/mixin_info_data.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/code/dynamix/mixin_info_data.cpp b/code/dynamix/mixin_info_data.cpp
index 92b2264..d2d0fa9 100644
--- a/code/dynamix/mixin_info_data.cpp
+++ b/code/dynamix/mixin_info_data.cpp
@@ -7,10 +7,21 @@
 namespace dynamix::util {
 
 void mixin_info_data::register_in(domain& dom) {
-    for (auto* r : mutation_rule_infos) {
-        dom.add_mutation_rule(*r);
+    size_t num_added = 0;
+    try {
+        for (auto* r : mutation_rule_infos) {
+            dom.add_mutation_rule(*r);
+            ++num_added;
+        }
+        dom.register_mixin(info);
+    }
+    catch (...) {
+        // don't leave rules of a mixin which is not registered in the domain
+        while (num_added-- > 0) {
+            dom.remove_mutation_rule(*mutation_rule_infos[num_added]);
+        }
+        throw;
     }
-    dom.register_mixin(info);
 }
 
 void mixin_info_data::unregister_from(domain& dom) {
-- 
2.43.0


From 443989bfb99b9e992824bb4d875521da88c389e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:10 +0000
Subject: [PATCH 14/16] fix: add(name, func) mutate op could not be compiled
 (no member info_to_add)

---
 code/dynamix/mutate_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/mutate_ops.hpp b/code/dynamix/mutate_ops.hpp
index c30c5d0..d00fe95 100644
--- a/code/dynamix/mutate_ops.hpp
+++ b/code/dynamix/mutate_ops.hpp
@@ -58,7 +58,7 @@ struct add_mixin_op_with_func_by_name final : public mutate_op_by_name, public o
         : mutate_op_by_name(name)
         , object_mutate_op_with_func<ConstructNew_Func>(std::forward<ConstructNew_Func>(func))
     {}
-    void apply_to_type_mutation(type_mutation& mut) { this->info_to_add = &mut.add(name); }
+    void apply_to_type_mutation(type_mutation& mut) { this->affected_info = &mut.add(name); }
 };
 
 template <typename ConstructNew_Func>
-- 
2.43.0


From ae08e669bc5243afb7552da2c52413230c42d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:22 +0000
Subject: [PATCH 15/16] fix: a mutation with a leftover dependency mixin is not
 cyclic when there are no rules

---
 code/dynamix/domain.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 2a1e516..47f50df 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -474,6 +474,9 @@ public:
         // first erase all deps from mixins
         itlib::erase_all_if(nt_mixins, [](const mixin_info* m) { return m->dependency; });
 
+        // no rules, so there's nothing else to change (and nothing which can be cyclic)
+        if (rules.empty()) return last_result;
+
         for (int i = 0; ; ++i) {
             // apply rules
             for (auto& r : rules) {
-- 
2.43.0


From c8ae099e78baae2e362ba93e6fb40c3de04fe3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:20 +0000
Subject: [PATCH 16/16] fix: a piecewise mutation accepted the index after the
 last mixin and did nothing

---
 code/dynamix/object_mutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/object_mutation.hpp b/code/dynamix/object_mutation.hpp
index fa56a78..70ef65e 100644
--- a/code/dynamix/object_mutation.hpp
+++ b/code/dynamix/object_mutation.hpp
@@ -86,7 +86,7 @@ public:
     // with domain_settings::canonicalize_types set to true, this might get tricky
     template <typename ConstructNew_Func, typename UpdateCommon_Func>
     void update_at(mixin_index_t index, ConstructNew_Func&& construct_new, UpdateCommon_Func&& update_common) {
-        if (index < m_updated_upto || index > m_target_type.num_mixins()) {
+        if (index < m_updated_upto || index >= m_target_type.num_mixins()) {
             throw_bad_piecewise_mutation();
         }
         default_construct_each_new_mixin(index);
-- 
2.43.0

