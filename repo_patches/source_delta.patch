From 34489b3651662a3b27941e8e60b251f34f4f3d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 01/10] fix: keep the metadata commit lock until all entity
 lists of the commit are swapped

A transaction started without read permission for a component may still list the entities that have it.
Unlocking the metadata before the component storages were swapped let such a transaction observe (and race with)
a partially published commit.
---
 inc/Tecs_transaction.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_transaction.hh b/inc/Tecs_transaction.hh
index b96fb2f..c61a6da 100644
--- a/inc/Tecs_transaction.hh
+++ b/inc/Tecs_transaction.hh
@@ -247,7 +247,6 @@ namespace Tecs {
                         this->instance.metadata.readComponents.swap(this->instance.metadata.writeComponents);
                         this->instance.metadata.readValidEntities.swap(this->instance.metadata.writeValidEntities);
                         this->instance.globalReadMetadata = this->instance.globalWriteMetadata;
-                        this->instance.metadata.CommitUnlock();
                     }
                 }
                 ( // For each AllComponentTypes
@@ -267,6 +266,11 @@ namespace Tecs {
                         }
                     }(),
                     ...);
+                if constexpr (is_add_remove_allowed<LockType>()) {
+                    // Any transaction can view the entities with a Component, even without permissions for it, so the
+                    // metadata can't be unlocked until all of the valid entity lists are swapped.
+                    if (this->writeAccessedFlags[0]) this->instance.metadata.CommitUnlock();
+                }
             }
 
             ( // For each AllComponentTypes, reset the write storage to match read.
-- 
2.43.0


From b3537119bd80d4bda33455a48b0f6d410e2e0afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 02/10] fix: EntityView::rend() must be one past the first
 entity

Reverse iteration skipped the first entity of the view, and never ended for an empty view.
---
 inc/Tecs_entity_view.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 5c393f5..2ce6cfa 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -138,7 +138,7 @@ namespace Tecs {
         }
 
         inline reverse_iterator rend() const noexcept {
-            return reverse_iterator(iterator{*this, start_index + 1});
+            return reverse_iterator(iterator{*this, start_index});
         }
 
         inline reference operator[](size_type index) const {
-- 
2.43.0


From f21c32b0053f930bc58138417fedd9571fdd63bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 03/10] fix: EntityView::subview() overflowed with its default
 count

start_index + offset + count wrapped around for any non-zero start, so a subview to the end of the view threw, and
large offsets could wrap to before the view.
---
 inc/Tecs_entity_view.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 2ce6cfa..29e5344 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -161,8 +161,12 @@ namespace Tecs {
         inline EntityView subview(size_type offset, size_type count = std::numeric_limits<size_type>::max()) const {
 #ifndef TECS_UNCHECKED_MODE
             if (storage == nullptr) throw std::runtime_error("EntityView::subview storage is null");
+            if (offset > size()) {
+                throw std::runtime_error("EntityView::subview offset out of range: " + std::to_string(offset));
+            }
 #endif
-            return EntityView(*storage, start_index + offset, std::min(end_index, start_index + offset + count));
+            size_t start = start_index + offset;
+            return EntityView(*storage, start, start + std::min(count, end_index - start));
         }
 
     private:
-- 
2.43.0


From 47392bb562688e460e765281bb062ceeeafc80b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 04/10] fix: EntityView::operator[] must be relative to the
 start of the view

Indexes 0..size()-1 of a subview returned entities before the view's range or threw.
---
 inc/Tecs_entity_view.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 29e5344..26ef312 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -143,11 +143,11 @@ namespace Tecs {
 
         inline reference operator[](size_type index) const {
 #ifndef TECS_UNCHECKED_MODE
-            if (index < start_index || index >= end_index) {
+            if (index >= size()) {
                 throw std::runtime_error("EntityView index out of range: " + std::to_string(index));
             }
 #endif
-            return (*storage)[index];
+            return (*storage)[start_index + index];
         }
 
         inline size_type size() const noexcept {
-- 
2.43.0


From e07836bbf2f5117c11034589c1ace4af4e87f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 05/10] fix: a const Get() of a missing global component must
 not create it

The value was created without marking the component as accessed, so its storage was not committed along with its
presence. Same rule as Entity::Get<const T>().
---
 inc/Tecs_lock.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index 71a0ee0..d2d31f6 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -209,7 +209,7 @@ namespace Tecs {
 #endif
 
             auto &storage = instance.template Storage<CompType>();
-            if constexpr (is_add_remove_allowed<LockType>()) {
+            if constexpr (is_add_remove_allowed<LockType>() && !std::is_const<ReturnType>()) {
 #ifdef TECS_UNCHECKED_MODE
                 auto &metadata = permissions[0] ? instance.globalWriteMetadata : instance.globalReadMetadata;
 #endif
-- 
2.43.0


From 862abce012fcd7fa6534375165017cef21e75aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 06/10] fix: AddRemove permission was lost inside of nested
 lock permissions

A lock can be used as a permission of another lock. Read and write permissions are looked up recursively, AddRemove was
not: DynamicLock<ECS, WriteAll>::TryLock<AddRemove>() succeeded for a transaction without AddRemove.
---
 inc/Tecs_permissions.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/Tecs_permissions.hh b/inc/Tecs_permissions.hh
index decc83d..93f2133 100644
--- a/inc/Tecs_permissions.hh
+++ b/inc/Tecs_permissions.hh
@@ -131,13 +131,13 @@ namespace Tecs {
     struct is_write_allowed<T, const DynamicLock<ECSType, Permissions...>> : std::disjunction<is_write_allowed<T, Permissions>...> {};
 
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<Lock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<Lock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<const Lock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<const Lock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<DynamicLock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<DynamicLock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<const DynamicLock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<const DynamicLock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     // clang-format on
 
     // Check SubLock <= Lock for component type T
-- 
2.43.0


From 616e930f5c108347086e8ae5b6f8af824125b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 07/10] fix: Entity::Unset<A, B>() through a reference into the
 list of A removed B from entity 0

Removing A clears the list's entry, which *this may refer to (for example while iterating EntitiesWith<A>()).
---
 inc/Tecs_entity.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_entity.hh b/inc/Tecs_entity.hh
index e8dfd80..ec2d657 100644
--- a/inc/Tecs_entity.hh
+++ b/inc/Tecs_entity.hh
@@ -292,7 +292,11 @@ namespace Tecs {
             }
 #endif
 
-            (lock.template RemoveComponents<Tn>(index), ...);
+            // It is possible for *this to be a reference to a component's writeValidEntities list
+            // Copy the index so all of the components are removed from the same entity.
+            size_t copy = index;
+
+            (lock.template RemoveComponents<Tn>(copy), ...);
         }
 
         template<typename LockType>
-- 
2.43.0


From 50e7b51c5b88dd73be6394c39c7e2ed78a67c317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 08/10] fix: TECS_HEADER_ONLY did not compile

GetInstanceId() and the creation of entities use ecsId in every configuration.
---
 inc/Tecs.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/inc/Tecs.hh b/inc/Tecs.hh
index 1a027c7..6312cc4 100644
--- a/inc/Tecs.hh
+++ b/inc/Tecs.hh
@@ -182,9 +182,7 @@ namespace Tecs {
         TraceInfo transactionTrace;
 #endif
 
-#ifndef TECS_HEADER_ONLY
-        size_t ecsId;
-#endif
+        size_t ecsId = 0;
 
         template<typename, typename...>
         friend class Lock;
-- 
2.43.0


From 9ccd05920b853cbded952140987964b35d769b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:18 +0000
Subject: [PATCH 09/10] fix: StopTrace() returned events that other threads
 were still writing

---
 inc/Tecs_tracing.hh | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/inc/Tecs_tracing.hh b/inc/Tecs_tracing.hh
index b9cd2f5..8a2a14c 100644
--- a/inc/Tecs_tracing.hh
+++ b/inc/Tecs_tracing.hh
@@ -142,17 +142,22 @@ namespace Tecs {
 
     class TraceInfo {
     public:
-        TraceInfo() : traceEnabled(false), nextEventIndex(0), events(TECS_PERFORMANCE_TRACING_MAX_EVENTS) {}
+        TraceInfo() : traceEnabled(false), activeEvents(0), nextEventIndex(0), events(TECS_PERFORMANCE_TRACING_MAX_EVENTS) {}
 
         inline void Trace(TraceEvent::Type eventType) {
             if (traceEnabled) {
-                auto index = nextEventIndex++;
-                if (index < events.size()) {
-                    auto &event = events[index];
-                    event.time = std::chrono::steady_clock::now();
-                    event.thread = std::this_thread::get_id();
-                    event.type = eventType;
+                activeEvents++;
+                // The trace may have been stopped before this event became active.
+                if (traceEnabled) {
+                    auto index = nextEventIndex++;
+                    if (index < events.size()) {
+                        auto &event = events[index];
+                        event.time = std::chrono::steady_clock::now();
+                        event.thread = std::this_thread::get_id();
+                        event.type = eventType;
+                    }
                 }
+                activeEvents--;
             }
         }
 
@@ -165,11 +170,16 @@ namespace Tecs {
         inline nonstd::span<TraceEvent> StopTrace() {
             if (!traceEnabled) throw std::runtime_error("No trace has been started");
             traceEnabled = false;
+            // Wait for events that are still being written by other threads.
+            while (activeEvents > 0) {
+                std::this_thread::yield();
+            }
             return nonstd::span<TraceEvent>(events.data(), std::min(events.size(), (size_t)nextEventIndex.load()));
         }
 
     private:
         std::atomic_bool traceEnabled;
+        std::atomic_uint32_t activeEvents;
         std::atomic_uint32_t nextEventIndex;
         std::vector<TraceEvent> events;
     };
-- 
2.43.0


From c228895612cd7cc2ac60b5ceede88ff9fc0fd320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 10/10] fix: DynamicLock::TryLock() does not compile with 64 or
 more component types

---
 inc/Tecs_lock.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index d2d31f6..8a98ed4 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -468,8 +468,8 @@ namespace Tecs {
             if constexpr (Lock<ECS, StaticPermissions...>::template has_permissions<DynamicLockType>()) {
                 return DynamicLockType(this->instance, this->base, this->permissions);
             } else {
-                static constexpr auto requestedRead = generateReadBitset<DynamicLockType>();
-                static constexpr auto requestedWrite = generateWriteBitset<DynamicLockType>();
+                static const auto requestedRead = generateReadBitset<DynamicLockType>();
+                static const auto requestedWrite = generateWriteBitset<DynamicLockType>();
                 if ((requestedRead & readPermissions) == requestedRead &&
                     (requestedWrite & this->permissions) == requestedWrite) {
                     return DynamicLockType(this->instance, this->base, this->permissions);
-- 
2.43.0

