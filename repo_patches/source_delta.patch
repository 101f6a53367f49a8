From fc75fe3b6d0c05a68e1354a3a2c5f842c50a05b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 01/37] fix: copy the elements when copy-constructing a
 ChunkedList

---
 redGrapes/util/chunked_list.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 84629df..6c0fe5d 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -25,6 +25,7 @@
 #include <limits>
 #include <memory>
 #include <optional>
+#include <vector>
 
 namespace redGrapes
 {
@@ -503,7 +504,13 @@ namespace redGrapes
 
         ChunkedList(Allocator&& alloc, ChunkedList const& other) : ChunkedList(std::move(alloc))
         {
-            spdlog::error("copy construct ChunkedList!!");
+            // elements can only be visited backwards, so reverse them again to keep their order
+            std::vector<T> items;
+            for(auto it = other.rbegin(); it != other.rend(); ++it)
+                items.push_back(*it);
+
+            for(auto it = items.rbegin(); it != items.rend(); ++it)
+                push(*it);
         }
 
         /* decrement item_count and in case all items of this chunk are deleted,
-- 
2.43.0


From fe9c7988d3b300f553b578eb4bdb94b1ba812777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 02/37] fix: leave the access list unchanged when
 update_properties() rejects a patch

---
 redGrapes/task/property/resource.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/redGrapes/task/property/resource.hpp b/redGrapes/task/property/resource.hpp
index 9a2f57e..b9e42df 100644
--- a/redGrapes/task/property/resource.hpp
+++ b/redGrapes/task/property/resource.hpp
@@ -114,23 +114,37 @@ namespace redGrapes
 
         void apply_patch(Patch const& patch)
         {
-            ResourceUser before(*this);
+            // check the result first, a rejected patch must not change the access list
+            ResourceUser after(*this);
 
             for(auto x : patch.diff)
             {
                 switch(x.first)
                 {
                 case Patch::DiffType::ADD:
-                    (*this) += x.second;
+                    after.add_resource_access(x.second);
                     break;
                 case Patch::DiffType::REMOVE:
-                    (*this) -= x.second;
+                    after.rm_resource_access(x.second);
                     break;
                 }
             }
 
-            if(!before.is_superset_of(*this))
+            if(!this->is_superset_of(after))
                 throw std::runtime_error("redGrapes: ResourceUserPolicy: updated access list is no subset!");
+
+            for(auto x : patch.diff)
+            {
+                switch(x.first)
+                {
+                case Patch::DiffType::ADD:
+                    (*this) += x.second;
+                    break;
+                case Patch::DiffType::REMOVE:
+                    (*this) -= x.second;
+                    break;
+                }
+            }
         }
     };
 
-- 
2.43.0


From 0255dc916d452bda799fe4863a9989b60dc939e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 03/37] fix: do not let a task with two accesses to one
 resource wait for itself

---
 redGrapes/resource/resource_user.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/redGrapes/resource/resource_user.cpp b/redGrapes/resource/resource_user.cpp
index 489bd05..ce0ec38 100644
--- a/redGrapes/resource/resource_user.cpp
+++ b/redGrapes/resource/resource_user.cpp
@@ -39,7 +39,12 @@ namespace redGrapes
     {
         this->access_list.push(ra);
         std::shared_ptr<ResourceBase> r = ra.get_resource();
-        // unique_resources.erase(ResourceEntry{ r, r->users.end() });
+
+        // every resource is listed once, even if it is accessed multiple times
+        for(auto it = unique_resources.rbegin(); it != unique_resources.rend(); ++it)
+            if(it->resource == r)
+                return;
+
         unique_resources.push(ResourceUsageEntry{r, r->users.rend()});
     }
 
-- 
2.43.0


From dc9df88a99bf860601ba26c28f7236a152cf6ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 04/37] fix: let the parent wait for children which are not
 initialized yet

---
 redGrapes/task/property/graph.cpp | 7 -------
 redGrapes/task/task_space.cpp     | 6 ++++++
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/redGrapes/task/property/graph.cpp b/redGrapes/task/property/graph.cpp
index 3680c79..75f1ebc 100644
--- a/redGrapes/task/property/graph.cpp
+++ b/redGrapes/task/property/graph.cpp
@@ -72,13 +72,6 @@ namespace redGrapes
                 }
             }
         }
-
-        // add dependency to parent
-        if(auto parent = this->space->parent)
-        {
-            SPDLOG_TRACE("add event dep to parent");
-            this->post_event.add_follower(parent->get_post_event());
-        }
     }
 
     void GraphProperty::delete_from_resources()
diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index c889d53..11c9727 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -76,8 +76,14 @@ namespace redGrapes
         ++task_count;
 
         if(parent)
+        {
             assert(this->is_superset(*parent, *task));
 
+            // add dependency to parent before the parent gets the chance to finish
+            SPDLOG_TRACE("add event dep to parent");
+            task->post_event.add_follower(parent->get_post_event());
+        }
+
         for(auto r = task->unique_resources.rbegin(); r != task->unique_resources.rend(); ++r)
         {
             r->task_entry = r->resource->users.push(task);
-- 
2.43.0


From 24bc960c77751168af146487f0e7b559d6eae72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 05/37] fix: release followers completely and keep the parents
 event in update_graph()

---
 redGrapes/task/property/graph.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redGrapes/task/property/graph.cpp b/redGrapes/task/property/graph.cpp
index 75f1ebc..a8d1151 100644
--- a/redGrapes/task/property/graph.cpp
+++ b/redGrapes/task/property/graph.cpp
@@ -110,14 +110,16 @@ namespace redGrapes
         for(auto it = post_event.followers.rbegin(); it != post_event.followers.rend(); ++it)
         {
             scheduler::EventPtr follower = *it;
-            if(follower.task)
+            // only successors in the same space, not the post-event of the parent
+            if(follower.task && follower.tag == scheduler::T_EVT_PRE)
             {
                 if(!space->is_serial(*this->task, *follower.task))
                 {
                     // remove dependency
                     // follower.task->in_edges.erase(std::find(std::begin(follower.task->in_edges),
                     // std::end(follower.task->in_edges), this));
-                    post_event.followers.erase(follower);
+                    // a follower is listed (and has to be notified) once per shared resource
+                    post_event.followers.remove(it);
 
                     follower.notify();
                 }
-- 
2.43.0


From d1713e03a16228b9ea7bd4adc32ed3f8f263af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 06/37] fix: do not miss the event on which a task is being
 paused

The event could be reached while (or right before) the pre-event of the
pausing task was added to its followers: the task was then either never
resumed, or resumed twice.
---
 redGrapes/dispatch/thread/execute.cpp |  2 --
 redGrapes/scheduler/event.cpp         | 11 ++++++++++-
 redGrapes/scheduler/event.hpp         |  4 ++++
 redGrapes/task/property/graph.hpp     |  6 +++++-
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/redGrapes/dispatch/thread/execute.cpp b/redGrapes/dispatch/thread/execute.cpp
index 2e2dc25..b8ea289 100644
--- a/redGrapes/dispatch/thread/execute.cpp
+++ b/redGrapes/dispatch/thread/execute.cpp
@@ -40,8 +40,6 @@ namespace thread
         {
             event->get_event().waker_id = current_worker->get_waker_id();
             task.sg_pause(*event);
-
-            task.pre_event.up();
             task.get_pre_event().notify();
         }
         else
diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 566c9c4..4bc6491 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -68,11 +68,14 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "add_follower");
 
+            std::unique_lock<SpinLock> lock(followers_mutex);
+
             if(!is_reached())
             {
                 SPDLOG_TRACE("Event add follower");
-                followers.push(follower);
+                // count the edge before the follower can be notified
                 follower->state++;
+                followers.push(follower);
             }
         }
 
@@ -88,6 +91,12 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "notify_followers");
 
+            // the event is reached, so no new follower can be added,
+            // but wait for those which are just being added
+            {
+                std::unique_lock<SpinLock> lock(followers_mutex);
+            }
+
             for(auto follower = followers.rbegin(); follower != followers.rend(); ++follower)
                 follower->notify();
         }
diff --git a/redGrapes/scheduler/event.hpp b/redGrapes/scheduler/event.hpp
index 8ff2c5c..6a94797 100644
--- a/redGrapes/scheduler/event.hpp
+++ b/redGrapes/scheduler/event.hpp
@@ -8,6 +8,7 @@
 #pragma once
 
 #include <redGrapes/scheduler/scheduler.hpp>
+#include <redGrapes/sync/spinlock.hpp>
 #include <redGrapes/util/chunked_list.hpp>
 
 #include <spdlog/spdlog.h>
@@ -99,6 +100,9 @@ namespace redGrapes
             //! the set of subsequent events
             ChunkedList<EventPtr, REDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE> followers;
 
+            //! no follower is added once the followers are being notified
+            SpinLock followers_mutex;
+
             Event();
             Event(Event&);
             Event(Event&&);
diff --git a/redGrapes/task/property/graph.hpp b/redGrapes/task/property/graph.hpp
index d7d7cad..878bb1b 100644
--- a/redGrapes/task/property/graph.hpp
+++ b/redGrapes/task/property/graph.hpp
@@ -127,10 +127,14 @@ namespace redGrapes
         /*!
          * represent ›pausation of the task until event is reached‹
          * in the scheduling graph
+         *
+         * note: the pre-event has to be notified afterwards
          */
         inline void sg_pause(scheduler::EventPtr event)
         {
-            pre_event.state = 1;
+            // hold the task back with an additional edge until the pre-event is notified,
+            // `event` may already be reached while the follower is being added
+            pre_event.state = 2;
             event->add_follower(get_pre_event());
         }
 
-- 
2.43.0


From 2c60519559849ada33179efdf2f7f05d28e85248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 07/37] fix: do not redirect the waker of an event when a task
 pauses

The paused task is activated through the followers; overwriting waker_id
robbed a waiting main thread of its wake-up, raced with the notifying
thread and dereferenced current_worker, which is null outside workers.
---
 redGrapes/dispatch/thread/execute.cpp | 1 -
 redGrapes/scheduler/event.cpp         | 4 ++--
 redGrapes/scheduler/event.hpp         | 2 +-
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/redGrapes/dispatch/thread/execute.cpp b/redGrapes/dispatch/thread/execute.cpp
index b8ea289..35afcfe 100644
--- a/redGrapes/dispatch/thread/execute.cpp
+++ b/redGrapes/dispatch/thread/execute.cpp
@@ -38,7 +38,6 @@ namespace thread
 
         if(event)
         {
-            event->get_event().waker_id = current_worker->get_waker_id();
             task.sg_pause(*event);
             task.get_pre_event().notify();
         }
diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 4bc6491..41f1b82 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -32,14 +32,14 @@ namespace redGrapes
 
         Event::Event(Event& other)
             : state((uint16_t) other.state)
-            , waker_id(other.waker_id)
+            , waker_id(other.waker_id.load())
             , followers(memory::Allocator())
         {
         }
 
         Event::Event(Event&& other)
             : state((uint16_t) other.state)
-            , waker_id(other.waker_id)
+            , waker_id(other.waker_id.load())
             , followers(memory::Allocator())
         {
         }
diff --git a/redGrapes/scheduler/event.hpp b/redGrapes/scheduler/event.hpp
index 6a94797..001ca7b 100644
--- a/redGrapes/scheduler/event.hpp
+++ b/redGrapes/scheduler/event.hpp
@@ -95,7 +95,7 @@ namespace redGrapes
             std::atomic_uint16_t state;
 
             //! waker that is waiting for this event
-            WakerId waker_id;
+            std::atomic<WakerId> waker_id;
 
             //! the set of subsequent events
             ChunkedList<EventPtr, REDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE> followers;
-- 
2.43.0


From a5ed1a20a96da871a03d27531a6e1e3060a1437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 08/37] fix: do not access the pre-event of a task after
 activating it

---
 redGrapes/scheduler/event.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 41f1b82..05b9df4 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -165,8 +165,9 @@ namespace redGrapes
                     task->delete_from_resources();
             }
 
-            // if event is ready or reached (state ∈ {0,1})
-            if(state <= 1 && this->get_event().waker_id >= 0)
+            // if event is reached
+            // (a task whose pre-event is only ready may already be executed and removed by another worker)
+            if(state == 0 && this->get_event().waker_id >= 0)
                 SingletonContext::get().scheduler->wake(this->get_event().waker_id);
 
             if(state == 0)
-- 
2.43.0


From fadec53f86fa0b30d8dbe617a15c4197f245265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 09/37] fix: allow activating a task from a thread which is no
 worker

---
 redGrapes/scheduler/default_scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/default_scheduler.cpp b/redGrapes/scheduler/default_scheduler.cpp
index bf2366f..7bfbea4 100644
--- a/redGrapes/scheduler/default_scheduler.cpp
+++ b/redGrapes/scheduler/default_scheduler.cpp
@@ -79,7 +79,8 @@ namespace redGrapes
             if(worker_id < 0)
             {
                 worker_id = next_worker.fetch_add(1) % SingletonContext::get().worker_pool->size();
-                if(worker_id == SingletonContext::get().current_worker->get_worker_id())
+                auto const& current_worker = SingletonContext::get().current_worker;
+                if(current_worker && worker_id == current_worker->get_worker_id())
                     worker_id = next_worker.fetch_add(1) % SingletonContext::get().worker_pool->size();
             }
 
-- 
2.43.0


From 3d7173f59bdd125a048cb21678be92afdaf3acca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 10/37] fix: let no task miss the old or the new access list in
 update_properties()

A task which was submitted between apply_patch() and update_graph() (or
while either was running) could be missed, or be released twice.
---
 redGrapes/redGrapes.cpp              |  3 +++
 redGrapes/resource/resource_user.cpp | 20 ++++++++++++++++++++
 redGrapes/resource/resource_user.hpp |  6 ++++++
 3 files changed, 29 insertions(+)

diff --git a/redGrapes/redGrapes.cpp b/redGrapes/redGrapes.cpp
index 9d1e502..9c48b63 100644
--- a/redGrapes/redGrapes.cpp
+++ b/redGrapes/redGrapes.cpp
@@ -174,6 +174,9 @@ namespace redGrapes
     {
         if(current_task)
         {
+            // no dependencies to this task may be created in between
+            auto locks = current_task->lock_users();
+
             current_task->apply_patch(patch);
             current_task->update_graph();
         }
diff --git a/redGrapes/resource/resource_user.cpp b/redGrapes/resource/resource_user.cpp
index ce0ec38..8c14caa 100644
--- a/redGrapes/resource/resource_user.cpp
+++ b/redGrapes/resource/resource_user.cpp
@@ -5,6 +5,8 @@
 #include <redGrapes/task/task.hpp>
 #include <redGrapes/util/trace.hpp>
 
+#include <algorithm>
+
 namespace redGrapes
 {
     bool ResourceUsageEntry::operator==(ResourceUsageEntry const& other) const
@@ -63,6 +65,24 @@ namespace redGrapes
         }
     }
 
+    std::vector<std::unique_lock<SpinLock>> ResourceUser::lock_users() const
+    {
+        std::vector<ResourceBase*> resources;
+        for(auto it = unique_resources.rbegin(); it != unique_resources.rend(); ++it)
+            resources.push_back(it->resource.get());
+
+        // always lock in the same order to avoid deadlocks
+        std::sort(
+            resources.begin(),
+            resources.end(),
+            [](ResourceBase* a, ResourceBase* b) { return a->id < b->id; });
+
+        std::vector<std::unique_lock<SpinLock>> locks;
+        for(ResourceBase* r : resources)
+            locks.emplace_back(r->users_mutex);
+        return locks;
+    }
+
     bool ResourceUser::has_sync_access(std::shared_ptr<ResourceBase> res)
     {
         for(auto ra = access_list.rbegin(); ra != access_list.rend(); ++ra)
diff --git a/redGrapes/resource/resource_user.hpp b/redGrapes/resource/resource_user.hpp
index 3edf608..fcde62a 100644
--- a/redGrapes/resource/resource_user.hpp
+++ b/redGrapes/resource/resource_user.hpp
@@ -18,6 +18,8 @@
 #include <fmt/format.h>
 
 #include <list>
+#include <mutex>
+#include <vector>
 
 namespace redGrapes
 {
@@ -46,6 +48,10 @@ namespace redGrapes
         void add_resource_access(ResourceAccess ra);
         void rm_resource_access(ResourceAccess ra);
         void build_unique_resource_list();
+
+        //! lock the user lists of all resources, so that no dependencies can be created
+        std::vector<std::unique_lock<SpinLock>> lock_users() const;
+
         bool has_sync_access(std::shared_ptr<ResourceBase> res);
         bool is_superset_of(ResourceUser const& a) const;
         static bool is_superset(ResourceUser const& a, ResourceUser const& b);
-- 
2.43.0


From b5c75a6bfea6cc2b6db1343422531a6b8b75da02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 11/37] fix: count more than 65535 incoming edges of an event

---
 redGrapes/scheduler/event.cpp | 4 ++--
 redGrapes/scheduler/event.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 05b9df4..d676283 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -31,14 +31,14 @@ namespace redGrapes
         }
 
         Event::Event(Event& other)
-            : state((uint16_t) other.state)
+            : state((uint32_t) other.state)
             , waker_id(other.waker_id.load())
             , followers(memory::Allocator())
         {
         }
 
         Event::Event(Event&& other)
-            : state((uint16_t) other.state)
+            : state((uint32_t) other.state)
             , waker_id(other.waker_id.load())
             , followers(memory::Allocator())
         {
diff --git a/redGrapes/scheduler/event.hpp b/redGrapes/scheduler/event.hpp
index 001ca7b..2890626 100644
--- a/redGrapes/scheduler/event.hpp
+++ b/redGrapes/scheduler/event.hpp
@@ -92,7 +92,7 @@ namespace redGrapes
             /*! number of incoming edges
              * state == 0: event is reached and can be removed
              */
-            std::atomic_uint16_t state;
+            std::atomic_uint32_t state;
 
             //! waker that is waiting for this event
             std::atomic<WakerId> waker_id;
-- 
2.43.0


From 506e4c7a7812089e7b493474f8bf6cfce1d12c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 12/37] fix: destroy a task before it stops counting and drop
 its child space

barrier() returned before the last task was destroyed, free_task() used
the space after the task which kept it alive was destroyed, and the child
spaces of removed tasks were never released.
---
 redGrapes/task/task_space.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index 11c9727..45f5247 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -14,6 +14,8 @@
 #include <redGrapes/task/task_space.hpp>
 #include <redGrapes/util/trace.hpp>
 
+#include <algorithm>
+
 namespace redGrapes
 {
     TaskSpace::~TaskSpace()
@@ -50,7 +52,16 @@ namespace redGrapes
     void TaskSpace::free_task(Task* task)
     {
         TRACE_EVENT("TaskSpace", "free_task()");
-        unsigned count = task_count.fetch_sub(1) - 1;
+        // the task might hold the last reference to this space
+        auto self = this->shared_from_this();
+
+        if(task->children)
+        {
+            std::unique_lock<std::shared_mutex> wr_lock(active_child_spaces_mutex);
+            active_child_spaces.erase(
+                std::remove(active_child_spaces.begin(), active_child_spaces.end(), task->children),
+                active_child_spaces.end());
+        }
 
         unsigned arena_id = task->arena_id;
         task->~Task();
@@ -59,6 +70,9 @@ namespace redGrapes
         SingletonContext::get().worker_pool->get_worker(arena_id).alloc.deallocate(
             memory::Block{(uintptr_t) task, sizeof(Task)});
 
+        // whoever sees the space being empty may rely on the tasks being destroyed
+        unsigned count = task_count.fetch_sub(1) - 1;
+
         // TODO: implement this using post-event of root-task?
         //  - event already has in_edge count
         //  -> never have current_task = nullptr
-- 
2.43.0


From 1b847aca34b93dcbf77de42532d58769d0ec93a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 13/37] fix: let a task finish after yield() without stack
 switching

The leftover event made execute_task() pause the finished task and run it
a second time.
---
 redGrapes/task/task_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redGrapes/task/task_base.hpp b/redGrapes/task/task_base.hpp
index e9f40e5..510a327 100644
--- a/redGrapes/task/task_base.hpp
+++ b/redGrapes/task/task_base.hpp
@@ -72,10 +72,10 @@ namespace redGrapes
 
         void yield(scheduler::EventPtr event)
         {
-            this->event = event;
-
             if(enable_stack_switching)
             {
+                this->event = event;
+
                 std::optional<boost::context::continuation> old_yield;
                 this->yield_cont.swap(old_yield);
 
-- 
2.43.0


From 3c7e2953b57c06bc681d98e56609a8f52feae223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 14/37] fix: return the previous value of bits beyond the 32nd
 in AtomicBitfield::set()

Also do not negate the minimal int64 when searching for the first set bit.
---
 redGrapes/util/bitfield.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redGrapes/util/bitfield.hpp b/redGrapes/util/bitfield.hpp
index 716f42a..2881549 100644
--- a/redGrapes/util/bitfield.hpp
+++ b/redGrapes/util/bitfield.hpp
@@ -37,7 +37,7 @@ namespace redGrapes
         inline bool set(unsigned idx, bool new_value)
         {
             __INDEX_CALC(idx, chunk_idx, k, mask)
-            unsigned old_val;
+            uint64_t old_val;
 
             switch(new_value)
             {
@@ -138,7 +138,7 @@ namespace redGrapes
         static inline unsigned int first_one_idx(uint64_t v)
         {
             unsigned int c = 64; // c will be the number of zero bits on the right
-            v &= -int64_t(v);
+            v &= ~v + 1;
             if(v)
                 c--;
             if(v & 0x0000'0000'FFFF'FFFF)
-- 
2.43.0


From 13674f1a92b3f39b5eda35ddc70127e4a3b674f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 15/37] fix: do not move from an lvalue callable in
 emplace_task()

A callable which is used to create multiple tasks was left empty after the
first one.
---
 redGrapes/redGrapes.hpp         | 4 ++--
 redGrapes/task/task_builder.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/redGrapes/redGrapes.hpp b/redGrapes/redGrapes.hpp
index 0fc5a5c..e489d6e 100644
--- a/redGrapes/redGrapes.hpp
+++ b/redGrapes/redGrapes.hpp
@@ -164,7 +164,7 @@ namespace redGrapes
     template<typename Callable, typename... Args>
     inline auto emplace_task(Callable&& f, Args&&... args)
     {
-        return std::move(SingletonContext::get().emplace_task(std::move(f), std::forward<Args>(args)...));
+        return std::move(SingletonContext::get().emplace_task(std::forward<Callable>(f), std::forward<Args>(args)...));
     }
 
 } // namespace redGrapes
@@ -189,6 +189,6 @@ namespace redGrapes
 
         SPDLOG_TRACE("emplace task to worker {} next_worker={}", worker_id, next_worker);
 
-        return std::move(TaskBuilder<Callable, Args...>(std::move(f), std::forward<Args>(args)...));
+        return std::move(TaskBuilder<Callable, Args...>(std::forward<Callable>(f), std::forward<Args>(args)...));
     }
 } // namespace redGrapes
diff --git a/redGrapes/task/task_builder.hpp b/redGrapes/task/task_builder.hpp
index 6f6af0c..6b3d4a2 100644
--- a/redGrapes/task/task_builder.hpp
+++ b/redGrapes/task/task_builder.hpp
@@ -53,7 +53,7 @@ namespace redGrapes
         {
             inline auto operator()(Callable&& f, Args&&... args)
             {
-                return std::move([f = std::move(f), args...]() mutable { return f(std::forward<Args>(args)...); });
+                return std::move([f = std::forward<Callable>(f), args...]() mutable { return f(std::forward<Args>(args)...); });
             }
         };
 
@@ -89,7 +89,7 @@ namespace redGrapes
             this->init_id();
 
             // set impl
-            task->impl.emplace(BindArgs{}(std::move(f), std::forward<Args>(args)...));
+            task->impl.emplace(BindArgs{}(std::forward<Callable>(f), std::forward<Args>(args)...));
         }
 
         TaskBuilder(TaskBuilder& other)
-- 
2.43.0


From 4a602f95fcdbb0c13ee99e54f80e6670e79651be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 16/37] fix: give every worker its own arena if there are more
 workers than PUs

Tasks are allocated in the arena of their worker but were deallocated in
the arena of the workers PU.
---
 redGrapes/dispatch/thread/worker_pool.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/redGrapes/dispatch/thread/worker_pool.cpp b/redGrapes/dispatch/thread/worker_pool.cpp
index 194df68..ee5ed9b 100644
--- a/redGrapes/dispatch/thread/worker_pool.cpp
+++ b/redGrapes/dispatch/thread/worker_pool.cpp
@@ -45,9 +45,13 @@ namespace redGrapes
                     hwloc_obj_t obj = hwloc_get_obj_by_type(hwloc_ctx.topology, HWLOC_OBJ_PU, pu_id);
                     allocs.emplace_back(memory::HwlocAlloc(hwloc_ctx, obj), REDGRAPES_ALLOC_CHUNKSIZE);
 
-                    SingletonContext::get().current_arena = pu_id;
-                    auto worker
-                        = memory::alloc_shared_bind<WorkerThread>(pu_id, get_alloc(pu_id), hwloc_ctx, obj, worker_id);
+                    SingletonContext::get().current_arena = worker_id;
+                    auto worker = memory::alloc_shared_bind<WorkerThread>(
+                        worker_id,
+                        get_alloc(worker_id),
+                        hwloc_ctx,
+                        obj,
+                        worker_id);
                     //        auto worker = std::make_shared< WorkerThread >( get_alloc(i), hwloc_ctx, obj, i );
                     workers.emplace_back(worker);
                 }
-- 
2.43.0


From d8c2e943914f7ed9f2448bf749ce3010921cd369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 17/37] fix: reject allocations which do not fit into an arena
 chunk

The chunk overhead was not considered, so such a request allocated new
chunks in an endless loop. StdAllocator must not return null then.
---
 redGrapes/memory/allocator.hpp | 4 ++++
 redGrapes/util/atomic_list.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/redGrapes/memory/allocator.hpp b/redGrapes/memory/allocator.hpp
index 5167b26..a63eacf 100644
--- a/redGrapes/memory/allocator.hpp
+++ b/redGrapes/memory/allocator.hpp
@@ -7,6 +7,7 @@
 #include <spdlog/spdlog.h>
 
 #include <memory>
+#include <new>
 
 namespace redGrapes
 {
@@ -61,6 +62,9 @@ namespace redGrapes
             inline T* allocate(std::size_t n)
             {
                 Block blk = alloc.allocate(sizeof(T) * n);
+                if(!blk)
+                    throw std::bad_alloc();
+
                 SPDLOG_TRACE(
                     "allocate {},{},{}",
                     (uintptr_t) blk.ptr,
diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index f67cc00..91a2f2f 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -142,9 +142,12 @@ namespace redGrapes
                 return sizeof(ItemControlBlock) + shared_ptr_size;
             }
 
+            /* number of bytes which are available to the item for its data
+             */
             constexpr size_t get_chunk_capacity()
             {
-                return chunk_capacity;
+                size_t const overhead = get_controlblock_size() + sizeof(Item);
+                return chunk_capacity > overhead ? chunk_capacity - overhead : 0;
             }
 
             constexpr size_t get_chunk_allocsize()
-- 
2.43.0


From ace20507b8a89c72be0e1b963c444aa03ed34b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 18/37] fix: keep arena blocks aligned

A small allocation made all following blocks of the chunk misaligned, and
an allocation of zero bytes shared its address with another block.
---
 redGrapes/memory/chunked_bump_alloc.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 20a6e87..cde6426 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -17,6 +17,7 @@
 #include <boost/core/demangle.hpp>
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <atomic>
 #include <cstddef>
 #include <cstdint>
@@ -82,7 +83,8 @@ namespace redGrapes
             Block allocate(std::size_t n = 1) noexcept
             {
                 TRACE_EVENT("Allocator", "ChunkedBumpAlloc::allocate()");
-                size_t alloc_size = roundup_to_poweroftwo(n);
+                // every block is aligned for any fundamental type and has at least one byte
+                size_t alloc_size = roundup_to_poweroftwo(std::max(n, alignof(std::max_align_t)));
 
                 size_t const chunk_capacity = bump_allocators.get_chunk_capacity();
 
-- 
2.43.0


From 8e11d6ae7689949e3ad5e23498071aabcf45ce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 19/37] fix: free the whole block of an AtomicList chunk

Only the control block was returned to the allocator, so with HwlocAlloc
most of every chunk was never unmapped.
---
 redGrapes/util/atomic_list.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index 91a2f2f..99a713b 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -104,14 +104,19 @@ namespace redGrapes
 
                 Allocator alloc;
                 T* ptr;
+                size_t n_bytes;
 
-                StaticAlloc(Allocator alloc, size_t n_bytes) : alloc(alloc), ptr((T*) alloc.allocate(n_bytes))
+                StaticAlloc(Allocator alloc, size_t n_bytes)
+                    : alloc(alloc)
+                    , ptr((T*) alloc.allocate(n_bytes))
+                    , n_bytes(n_bytes)
                 {
                 }
 
                 template<typename U>
                 constexpr StaticAlloc(StaticAlloc<U> const& other) noexcept : alloc(other.alloc)
                                                                             , ptr((T*) other.ptr)
+                                                                            , n_bytes(other.n_bytes)
                 {
                 }
 
@@ -122,7 +127,7 @@ namespace redGrapes
 
                 void deallocate(T* p, std::size_t n) noexcept
                 {
-                    alloc.deallocate(Block{.ptr = (uintptr_t) p, .len = sizeof(T) * n});
+                    alloc.deallocate(Block{.ptr = (uintptr_t) p, .len = n_bytes});
                 }
             };
 
-- 
2.43.0


From 47ff8d6481eaceec5c45da38d80a13da9c31d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 20/37] fix: access the links of AtomicList atomically while
 iterating

---
 redGrapes/util/atomic_list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index 99a713b..1c2d88b 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -44,7 +44,7 @@ namespace redGrapes
             // private:
             struct ItemControlBlock
             {
-                bool volatile deleted;
+                std::atomic<bool> deleted;
                 std::shared_ptr<ItemControlBlock> prev;
                 uintptr_t item_data_ptr;
 
@@ -248,7 +248,7 @@ namespace redGrapes
                     if(c)
                     {
                         c->skip_deleted_prev();
-                        c = c->prev;
+                        c = std::atomic_load(&c->prev);
                     }
 
                     return *this;
-- 
2.43.0


From 402f3f018a62186bcb9e55853eeb4aa30a729457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 21/37] fix: do not free an arena chunk which still serves an
 allocation

The last deallocate() could erase the chunk while allocate() had already
reserved a block but not counted it yet. Also release chunks whose blocks
were all deallocated before they became full, and count more than 65535
blocks.
---
 redGrapes/memory/bump_allocator.cpp     | 13 +++++++------
 redGrapes/memory/bump_allocator.hpp     |  4 ++--
 redGrapes/memory/chunked_bump_alloc.hpp |  6 ++++++
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/redGrapes/memory/bump_allocator.cpp b/redGrapes/memory/bump_allocator.cpp
index ba77e2a..b4556e2 100644
--- a/redGrapes/memory/bump_allocator.cpp
+++ b/redGrapes/memory/bump_allocator.cpp
@@ -57,17 +57,18 @@ namespace redGrapes
 
         Block BumpAllocator::allocate(size_t n_bytes)
         {
+            // count first, so that a concurrent deallocate() never takes this chunk for unused
+            count++;
+
             uintptr_t addr = next_addr.fetch_sub(n_bytes) - n_bytes;
             if(addr >= lower_limit)
-            {
-                count++;
                 return Block{addr, n_bytes};
-            }
-            else
-                return Block::null();
+
+            count--;
+            return Block::null();
         }
 
-        uint16_t BumpAllocator::deallocate(Block blk)
+        uint32_t BumpAllocator::deallocate(Block blk)
         {
             assert(owns(blk));
             return count.fetch_sub(1);
diff --git a/redGrapes/memory/bump_allocator.hpp b/redGrapes/memory/bump_allocator.hpp
index f6aa939..792a4a4 100644
--- a/redGrapes/memory/bump_allocator.hpp
+++ b/redGrapes/memory/bump_allocator.hpp
@@ -55,11 +55,11 @@ namespace redGrapes
             /*! @return how many active allocations remain,
              * if it returns 0, this allocator needs to be reset.
              */
-            uint16_t deallocate(Block blk);
+            uint32_t deallocate(Block blk);
 
         private:
             //! number of active allocations
-            std::atomic<uint16_t> count;
+            std::atomic<uint32_t> count;
 
             //! pointer to the upper-limit of the next allocation
             std::atomic<uintptr_t> next_addr;
diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index cde6426..0296b9f 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -103,7 +103,13 @@ namespace redGrapes
 
                             // chunk is full, create a new one
                             if(!blk)
+                            {
+                                // all blocks might be deallocated before this chunk became full
+                                if(chunk->empty())
+                                    bump_allocators.erase(chunk);
+
                                 bump_allocators.allocate_item();
+                            }
                         }
                         // no chunk exists, create a new one
                         else
-- 
2.43.0


From d3abcb7aa5aa11a99315fe4a7b565e0ed2860d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 22/37] fix: create resources concurrently without a data race

---
 redGrapes/resource/resource.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redGrapes/resource/resource.hpp b/redGrapes/resource/resource.hpp
index 52b2326..e414478 100644
--- a/redGrapes/resource/resource.hpp
+++ b/redGrapes/resource/resource.hpp
@@ -18,6 +18,7 @@
 
 #include <boost/type_index.hpp>
 
+#include <atomic>
 #include <functional>
 #include <iostream>
 #include <memory> // std::unique_ptr<>
@@ -305,7 +306,7 @@ namespace redGrapes
     public:
         Resource()
         {
-            static unsigned i = 0;
+            static std::atomic<unsigned> i{0};
 
             /* NOTE: Because of #include loops we cannot access Context and thus not worker_pool->size().
              *       for this reason the modulo is done in constructor of Allocator()
-- 
2.43.0


From 38e1079abb398430a8e636e20821766289e09b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 23/37] fix: construct and destruct exactly the initialized
 items of a ChunkedList

The destructor ran on every slot of a chunk, initialized or not, and
values were assigned to storage without a living object.
---
 redGrapes/util/chunked_list.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 6c0fe5d..47a003c 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -146,7 +146,9 @@ namespace redGrapes
 
             ~Item()
             {
-                release<false>();
+                // items which were never initialized or already removed hold no value
+                if(iter_offset == 0)
+                    release<false>();
             }
 
             /* initialize value of this item.
@@ -160,7 +162,8 @@ namespace redGrapes
                 assert(iter_offset != 0);
                 assert(refcount == 0);
 
-                storage.value = value;
+                // there is no value yet which could be assigned to
+                new(&storage.value) T(value);
 
                 /* here, item.value is now fully initalized,
                  * so allow iterators to access this item now.
-- 
2.43.0


From 898436cf910f09fd00a5542fd7298ba9db76b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 24/37] fix: let the last reference to a removed ChunkedList
 item destruct it

An iterator which acquired an item during its removal dropped the
reference without destructing the item, and could make a destructed item
look alive to others.
---
 redGrapes/util/chunked_list.hpp | 42 ++++++++++++++-------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 47a003c..b63d12b 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -183,34 +183,28 @@ namespace redGrapes
             iter_offset_t acquire()
             {
                 iter_offset_t off = iter_offset.load();
-                refcount_t old_refcount = refcount.load();
 
-                if(off == 0 && old_refcount >= 0)
+                if(off == 0)
                 {
-                    old_refcount = refcount.fetch_add(1);
-                    off = iter_offset.load();
+                    /* Only take a reference while the item data is not
+                     * destructed. A destructed item must never be counted,
+                     * not even temporarily, else others could acquire it.
+                     */
+                    refcount_t old_refcount = refcount.load();
+                    while(old_refcount >= 0 && !refcount.compare_exchange_weak(old_refcount, old_refcount + 1))
+                        ;
 
-                    if(old_refcount >= 0)
-                    {
-                        /* The item data is not already destructed,
-                         * but only when `iter_offset` is still set to `0`
-                         * as initialized by `operator=`, the item still exists.
-                         * In case `off > 0`, some thread already called `remove()`
-                         * on this iterator position.
-                         */
+                    off = iter_offset.load();
 
-                        /* keep others from falsely trying to acquire this item
-                         * if it is deleted already.
-                         */
-                        if(off != 0)
-                            --refcount;
-                    }
-                    else
-                        /* item data is already destructed.
-                         * just decrement refcount to keep others from trying to
-                         * acquire this item.
-                         */
-                        --refcount;
+                    /* The item data is kept alive from now on,
+                     * but only when `iter_offset` is still set to `0`
+                     * as initialized by `operator=`, the item still exists.
+                     * In case `off > 0`, some thread already called `remove()`
+                     * on this iterator position, so this might have become the
+                     * last reference.
+                     */
+                    if(old_refcount >= 0 && off != 0)
+                        release();
                 }
 
                 return off;
-- 
2.43.0


From c844937a454e1190add32dc45e8cc10a5e8aceec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 25/37] fix: do not skip ChunkedList items which are still
 being pushed

Removing an item next to one which was not initialized yet made iterators
jump over the latter forever.
---
 redGrapes/util/chunked_list.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index b63d12b..c268d21 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -121,9 +121,16 @@ namespace redGrapes
              * iter_offset = 0 means this item exists
              * iter_offset = 1 means previous item exists
              * ...
+             * iter_offset = uninitialized means this item does not exist yet
              */
             std::atomic<iter_offset_t> iter_offset;
 
+            /* value of `iter_offset` for items which are not initialized yet.
+             * other items must not jump over them, since they will exist later.
+             */
+            static constexpr iter_offset_t uninitialized = std::numeric_limits<iter_offset_t>::max();
+            static_assert(T_chunk_size < uninitialized, "ChunkedList: chunk size exceeds iter_offset_t");
+
             /* counts the number of iterators pointing
              * at this item currently.
              * It is possible that iterators keep their
@@ -138,7 +145,7 @@ namespace redGrapes
 
             Item()
                 // any item starts uninitialized
-                : iter_offset(1)
+                : iter_offset(uninitialized)
                 , refcount(0)
                 , storage(TrivialInit_t{})
             {
@@ -207,7 +214,8 @@ namespace redGrapes
                         release();
                 }
 
-                return off;
+                // nothing is known about the items before an uninitialized one
+                return (off == uninitialized) ? 1 : off;
             }
 
             /* decrement refcount and in case this
@@ -587,7 +595,10 @@ namespace redGrapes
 
                 // if we have a predecessor in this chunk, reuse their offset
                 else
-                    pos.item().iter_offset = (pos.get_item_ptr() - 1)->iter_offset + 1;
+                {
+                    iter_offset_t off = (pos.get_item_ptr() - 1)->iter_offset;
+                    pos.item().iter_offset = (off == Item::uninitialized) ? 1 : off + 1;
+                }
 
 
                 /* TODO: scan in other direction for deleted items too,
-- 
2.43.0


From f19b91a12a01051242bf02fdcaee7dbae4b9a223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 26/37] fix: iterate over all ChunkedList items while a new
 chunk is still empty

A reader which started between the allocation of a chunk and the first
push into it saw an empty list.
---
 redGrapes/util/chunked_list.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index c268d21..e3eb18c 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -372,8 +372,16 @@ namespace redGrapes
              */
             void acquire_next_item()
             {
-                while(is_valid_idx())
+                while(chunk)
                 {
+                    // goto next chunk if necessary, the chunk might also be empty
+                    if(!is_valid_idx())
+                    {
+                        ++chunk;
+                        cur_item = chunk ? (uintptr_t) chunk->get_last_item() : 0;
+                        continue;
+                    }
+
                     iter_offset_t step = try_acquire();
                     if(step == 0)
                     {
@@ -388,16 +396,6 @@ namespace redGrapes
 
                         // jump to next valid item
                         cur_item = (uintptr_t) (get_item_ptr() - step);
-
-                        // goto next chunk if necessary
-                        if(!is_valid_idx())
-                        {
-                            ++chunk;
-                            if(chunk)
-                                cur_item = (uintptr_t) chunk->get_last_item();
-                            else
-                                cur_item = 0;
-                        }
                     }
                 }
 
-- 
2.43.0


From dac27c6d16992f4ccc9f5f9c229b2d467836e033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 27/37] fix: delegate task_dependency_type() in the tag-match
 scheduler

The signature did not match, so it did not override the default of
IScheduler and the schedulers dependency types were ignored.
---
 redGrapes/scheduler/tag_match.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/tag_match.hpp b/redGrapes/scheduler/tag_match.hpp
index 4fd9533..a6f51ef 100644
--- a/redGrapes/scheduler/tag_match.hpp
+++ b/redGrapes/scheduler/tag_match.hpp
@@ -81,7 +81,7 @@ namespace redGrapes
                 return std::nullopt;
             }
 
-            bool task_dependency_type(Task const& a, Task& b)
+            bool task_dependency_type(Task const& a, Task const& b)
             {
                 /// fixme: b or a ?
                 if(auto sub_scheduler = get_matching_scheduler(b.required_scheduler_tags))
-- 
2.43.0


From a6a489654e0fef97cb3e6f3d271a4f40ebef9a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 28/37] verification hook: observe arena blocks (guarded by
 REDGRAPES_VERIF)

---
 redGrapes/memory/chunked_bump_alloc.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 0296b9f..10dd2eb 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -31,6 +31,14 @@
 #    include <backward.hpp>
 #endif
 
+#ifdef REDGRAPES_VERIF
+/* observers of the block lifetimes, provided by a verification harness:
+ * called after a block was allocated and before it is deallocated
+ */
+extern "C" void redgrapes_verif_alloc(void const* arena, uintptr_t ptr, size_t n_bytes, size_t block_len);
+extern "C" void redgrapes_verif_dealloc(void const* arena, uintptr_t ptr);
+#endif
+
 namespace redGrapes
 {
     namespace memory
@@ -117,6 +125,9 @@ namespace redGrapes
                     }
 
                     SPDLOG_TRACE("ChunkedBumpAlloc: alloc {},{}", blk.ptr, blk.len);
+#ifdef REDGRAPES_VERIF
+                    redgrapes_verif_alloc(this, blk.ptr, n, blk.len);
+#endif
                     return blk;
                 }
                 else
@@ -133,6 +144,9 @@ namespace redGrapes
             {
                 TRACE_EVENT("Allocator", "ChunkedBumpAlloc::deallocate()");
                 SPDLOG_TRACE("ChunkedBumpAlloc[{}]: free {} ", (void*) this, (uintptr_t) blk.ptr);
+#ifdef REDGRAPES_VERIF
+                redgrapes_verif_dealloc(this, blk.ptr);
+#endif
 
                 /* find the chunk that contains `ptr` and deallocate there.
                  * Additionally, delete the chunk if possible.
-- 
2.43.0


From 7c3c7a2360cf4ceae1233ba6cc98e3e435cf2820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 29/37] fix: align arena blocks for any chunk size

---
 redGrapes/memory/chunked_bump_alloc.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 10dd2eb..361a844 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -61,7 +61,8 @@ namespace redGrapes
 
             ChunkedBumpAlloc(Alloc&& alloc, size_t chunk_size = REDGRAPES_ALLOC_CHUNKSIZE)
                 : chunk_size(chunk_size)
-                , bump_allocators(std::move(alloc), chunk_size)
+                // blocks are taken from the end of each chunk, so it has to be aligned
+                , bump_allocators(std::move(alloc), chunk_size - chunk_size % alignof(std::max_align_t))
             {
             }
 
-- 
2.43.0


From 8f5a602eb5df37f1c7568417c4f78123914ec570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 30/37] fix: keep arena chunks whose last block was allocated
 during a deallocation

---
 redGrapes/memory/chunked_bump_alloc.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 361a844..bcf8e85 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -165,7 +165,8 @@ namespace redGrapes
                         if(it->deallocate(blk) == 1)
                         {
                             SPDLOG_TRACE("ChunkedBumpAlloc: erase chunk");
-                            if(it->full())
+                            // the last piece of this chunk might have been allocated in the meantime
+                            if(it->full() && it->empty())
                             {
                                 bump_allocators.erase(it);
                                 prev.optimize();
-- 
2.43.0


From 63151781f071094d92a259aba7be9f1ba6b6fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 31/37] fix: report a failed allocation of an arena chunk
 instead of using a null chunk

---
 redGrapes/memory/chunked_bump_alloc.hpp | 38 +++++++++++++++----------
 redGrapes/util/atomic_list.hpp          |  3 ++
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index bcf8e85..85cbfc0 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -101,28 +101,36 @@ namespace redGrapes
                 {
                     Block blk = Block::null();
 
-                    while(!blk)
+                    try
                     {
-                        // try to alloc in current chunk
-                        auto chunk = bump_allocators.rbegin();
-
-                        if(chunk != bump_allocators.rend())
+                        while(!blk)
                         {
-                            blk = chunk->allocate(alloc_size);
+                            // try to alloc in current chunk
+                            auto chunk = bump_allocators.rbegin();
 
-                            // chunk is full, create a new one
-                            if(!blk)
+                            if(chunk != bump_allocators.rend())
                             {
-                                // all blocks might be deallocated before this chunk became full
-                                if(chunk->empty())
-                                    bump_allocators.erase(chunk);
+                                blk = chunk->allocate(alloc_size);
 
-                                bump_allocators.allocate_item();
+                                // chunk is full, create a new one
+                                if(!blk)
+                                {
+                                    // all blocks might be deallocated before this chunk became full
+                                    if(chunk->empty())
+                                        bump_allocators.erase(chunk);
+
+                                    bump_allocators.allocate_item();
+                                }
                             }
+                            // no chunk exists, create a new one
+                            else
+                                bump_allocators.allocate_item();
                         }
-                        // no chunk exists, create a new one
-                        else
-                            bump_allocators.allocate_item();
+                    }
+                    catch(std::bad_alloc const&)
+                    {
+                        // no memory for another chunk
+                        return Block::null();
                     }
 
                     SPDLOG_TRACE("ChunkedBumpAlloc: alloc {},{}", blk.ptr, blk.len);
diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index 1c2d88b..2d823ce 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -18,6 +18,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <memory>
+#include <new>
 #include <optional>
 
 namespace redGrapes
@@ -111,6 +112,8 @@ namespace redGrapes
                     , ptr((T*) alloc.allocate(n_bytes))
                     , n_bytes(n_bytes)
                 {
+                    if(!ptr)
+                        throw std::bad_alloc();
                 }
 
                 template<typename U>
-- 
2.43.0


From 17fbacf4388dca31cdb64c50bf542f0a1c720c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 32/37] fix: empty areas are in conflict with nothing

---
 redGrapes/resource/access/area.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redGrapes/resource/access/area.hpp b/redGrapes/resource/access/area.hpp
index 521b353..925f3f3 100644
--- a/redGrapes/resource/access/area.hpp
+++ b/redGrapes/resource/access/area.hpp
@@ -13,6 +13,7 @@
 
 #include <fmt/format.h>
 
+#include <algorithm>
 #include <array>
 #include <limits>
 
@@ -41,7 +42,8 @@ namespace redGrapes
 
             static bool is_serial(AreaAccess const& a, AreaAccess const& b)
             {
-                return !((a[1] <= b[0]) || (a[0] >= b[1]));
+                // an empty area has nothing in common with any other
+                return std::max(a[0], b[0]) < std::min(a[1], b[1]);
             }
 
             bool is_superset_of(AreaAccess const& a) const
-- 
2.43.0


From 59b5c30984715b946f81693ffa8ec78594817290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 33/37] fix: give back a task's memory if its arguments cannot
 be copied

---
 redGrapes/task/task_builder.hpp | 40 ++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/redGrapes/task/task_builder.hpp b/redGrapes/task/task_builder.hpp
index 6b3d4a2..bab441f 100644
--- a/redGrapes/task/task_builder.hpp
+++ b/redGrapes/task/task_builder.hpp
@@ -75,21 +75,39 @@ namespace redGrapes
             if(!task)
                 throw std::runtime_error("out of memory");
 
-            // construct task in-place
-            new(task) FunTask<Impl>();
+            // the arguments, the callable or the task might throw while they are copied or constructed
+            try
+            {
+                // construct task in-place
+                new(task) FunTask<Impl>();
+            }
+            catch(...)
+            {
+                alloc.deallocate(blk);
+                throw;
+            }
 
-            task->arena_id = SingletonContext::get().current_arena;
+            try
+            {
+                task->arena_id = SingletonContext::get().current_arena;
 
-            // init properties from args
-            PropBuildHelper<TaskBuilder> build_helper{*this};
-            pass(build_helper.template build<Args>(std::forward<Args>(args))...);
-            build_helper.foo();
+                // init properties from args
+                PropBuildHelper<TaskBuilder> build_helper{*this};
+                pass(build_helper.template build<Args>(std::forward<Args>(args))...);
+                build_helper.foo();
 
-            // init id
-            this->init_id();
+                // init id
+                this->init_id();
 
-            // set impl
-            task->impl.emplace(BindArgs{}(std::forward<Callable>(f), std::forward<Args>(args)...));
+                // set impl
+                task->impl.emplace(BindArgs{}(std::forward<Callable>(f), std::forward<Args>(args)...));
+            }
+            catch(...)
+            {
+                task->~FunTask<Impl>();
+                alloc.deallocate(blk);
+                throw;
+            }
         }
 
         TaskBuilder(TaskBuilder& other)
-- 
2.43.0


From fc719db639c9efab11b1984ddfc76b83b45d5c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 34/37] fix: do not wrap the scope level of tasks nested deeper
 than 255

---
 redGrapes/resource/resource_user.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/resource/resource_user.hpp b/redGrapes/resource/resource_user.hpp
index fcde62a..fe8dcce 100644
--- a/redGrapes/resource/resource_user.hpp
+++ b/redGrapes/resource/resource_user.hpp
@@ -57,7 +57,7 @@ namespace redGrapes
         static bool is_superset(ResourceUser const& a, ResourceUser const& b);
         static bool is_serial(ResourceUser const& a, ResourceUser const& b);
 
-        uint8_t scope_level;
+        unsigned int scope_level;
 
         ChunkedList<ResourceAccess, 8> access_list;
         ChunkedList<ResourceUsageEntry, 8> unique_resources;
-- 
2.43.0


From a2f0336ef887f09d149a4d2e4f507e4d519e839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 35/37] fix: notify the followers of a pre-event only once,
 also if the task is resumed

---
 redGrapes/task/property/graph.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redGrapes/task/property/graph.hpp b/redGrapes/task/property/graph.hpp
index 878bb1b..30386dc 100644
--- a/redGrapes/task/property/graph.hpp
+++ b/redGrapes/task/property/graph.hpp
@@ -132,6 +132,10 @@ namespace redGrapes
          */
         inline void sg_pause(scheduler::EventPtr event)
         {
+            // the followers were notified already, resuming the task must not notify them again
+            for(auto it = pre_event.followers.rbegin(); it != pre_event.followers.rend(); ++it)
+                pre_event.followers.remove(it);
+
             // hold the task back with an additional edge until the pre-event is notified,
             // `event` may already be reached while the follower is being added
             pre_event.state = 2;
-- 
2.43.0


From 6342553031387f05f1b06d8163c1cc69a7cc2e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 36/37] fix: give back arena chunks which were used up or
 replaced while empty

The last block of a chunk is usually returned before the chunk is full. It
was erased at the next allocation, but stayed linked (and so allocated) since
it is only unlinked when iterating beyond the head. If several threads
replace a full chunk, all but the last new chunk were never used up and so
never erased. Memory usage was growing with the number of tasks.
---
 redGrapes/memory/bump_allocator.cpp     |  5 +++++
 redGrapes/memory/bump_allocator.hpp     |  5 +++++
 redGrapes/memory/chunked_bump_alloc.hpp | 24 ++++++++++++++++++++++--
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/redGrapes/memory/bump_allocator.cpp b/redGrapes/memory/bump_allocator.cpp
index b4556e2..d7a0805 100644
--- a/redGrapes/memory/bump_allocator.cpp
+++ b/redGrapes/memory/bump_allocator.cpp
@@ -49,6 +49,11 @@ namespace redGrapes
             return next_addr <= lower_limit;
         }
 
+        void BumpAllocator::close()
+        {
+            next_addr = lower_limit;
+        }
+
         void BumpAllocator::reset()
         {
             next_addr = upper_limit;
diff --git a/redGrapes/memory/bump_allocator.hpp b/redGrapes/memory/bump_allocator.hpp
index 792a4a4..5a1474f 100644
--- a/redGrapes/memory/bump_allocator.hpp
+++ b/redGrapes/memory/bump_allocator.hpp
@@ -42,6 +42,11 @@ namespace redGrapes
              */
             bool full() const;
 
+            /* mark this allocator as exhausted,
+             * no further blocks will be allocated.
+             */
+            void close();
+
             /*! checks whether this block is managed by this allocator
              */
             bool owns(Block const&) const;
diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 85cbfc0..7074059 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -119,12 +119,12 @@ namespace redGrapes
                                     if(chunk->empty())
                                         bump_allocators.erase(chunk);
 
-                                    bump_allocators.allocate_item();
+                                    append_chunk();
                                 }
                             }
                             // no chunk exists, create a new one
                             else
-                                bump_allocators.allocate_item();
+                                append_chunk();
                         }
                     }
                     catch(std::bad_alloc const&)
@@ -149,6 +149,26 @@ namespace redGrapes
                 }
             }
 
+        private:
+            void append_chunk()
+            {
+                auto old_head = bump_allocators.allocate_item();
+
+                /* blocks are only taken from `head`, so this chunk will never become full by itself.
+                 * Other threads might have appended it meanwhile, so it might even be unused.
+                 */
+                if(old_head)
+                {
+                    old_head->close();
+                    if(old_head->empty())
+                        bump_allocators.erase(old_head);
+                }
+
+                // unlink erased chunks behind `head`
+                bump_allocators.rbegin().optimize();
+            }
+
+        public:
             void deallocate(Block blk)
             {
                 TRACE_EVENT("Allocator", "ChunkedBumpAlloc::deallocate()");
-- 
2.43.0


From 3152667bd9a56aad34419048eb8b1c2eceb4968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:17 +0000
Subject: [PATCH 37/37] fix: unlink erased chunks of a ChunkedList

They were only unlinked by iterations which reach them. The iteration over
the users of a resource usually stops at the last writer, so a continuous
stream of tasks on a resource kept all chunks of its list.
---
 redGrapes/util/chunked_list.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index e3eb18c..ce91eb3 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -522,7 +522,13 @@ namespace redGrapes
         void release_chunk(typename memory::AtomicList<Chunk, Allocator>::MutBackwardIterator chunk)
         {
             if(chunk->freed_items.fetch_add(1) == T_chunk_size - 1u)
+            {
                 chunks.erase(chunk);
+
+                // unlink erased chunks, since other iterations might always stop before they get there
+                for(auto it = chunks.rbegin(); it != chunks.rend(); ++it)
+                    ;
+            }
         }
 
         MutBackwardIterator push(T const& item)
-- 
2.43.0

