From 0aed305866a404a7d38769d24e62ec74a9672193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 01/26] fix: concurrent_queue::empty() read the queue without
 taking the lock

---
 include/oqpi/concurrent_queue.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/concurrent_queue.hpp b/include/oqpi/concurrent_queue.hpp
index f4071bd..c508a75 100644
--- a/include/oqpi/concurrent_queue.hpp
+++ b/include/oqpi/concurrent_queue.hpp
@@ -35,10 +35,11 @@ public:
 
     bool empty() const
     {
+        lock_t __l(mutex_);
         return queue_.empty();
     }
 
 private:
-    std::mutex      mutex_;
-    std::queue<T>   queue_;
+    mutable std::mutex  mutex_;
+    std::queue<T>       queue_;
 };
-- 
2.43.0


From 02f3a02f1b587795845759461cb77aa0ecb2f73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 02/26] fix: posix_semaphore::waitFor never returned its result

---
 include/oqpi/synchronization/posix/posix_semaphore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore.hpp b/include/oqpi/synchronization/posix/posix_semaphore.hpp
index 4d840dc..891c866 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore.hpp
@@ -91,7 +91,7 @@ namespace oqpi {
         template<typename _Rep, typename _Period>
         bool waitFor(const std::chrono::duration<_Rep, _Period> &relTime)
         {
-            sem_.waitFor(relTime);
+            return sem_.waitFor(relTime);
         }
 
     private:
-- 
2.43.0


From 4a078a9eff95eef63e7abc060a62d6b9906249d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 03/26] fix: timed waits passed a deadline with out of range
 nanoseconds to sem_timedwait

---
 .../posix/posix_semaphore_wrapper.hpp               | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 7008dad..4a96c43 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -131,6 +131,19 @@ namespace oqpi {
             t.tv_sec            += secs.count();
             t.tv_nsec           += nanoseconds.count();
 
+            // Keep the nanoseconds in [0, 1e9), otherwise sem_timedwait fails with EINVAL
+            constexpr auto nanosecondsPerSecond = 1000000000l;
+            if (t.tv_nsec >= nanosecondsPerSecond)
+            {
+                t.tv_nsec -= nanosecondsPerSecond;
+                t.tv_sec  += 1;
+            }
+            else if (t.tv_nsec < 0)
+            {
+                t.tv_nsec += nanosecondsPerSecond;
+                t.tv_sec  -= 1;
+            }
+
             const auto error    = sem_timedwait(handle_, &t);
             if(error == -1 && errno != ETIMEDOUT)
             {
-- 
2.43.0


From bd0d17f06199478ff1bdf9447b861976d2904d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 04/26] fix: waits returned early when interrupted by a signal
 handler

---
 .../posix/posix_semaphore_wrapper.hpp          | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 4a96c43..b27c1d4 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -94,7 +94,11 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         bool tryWait()
         {
-            const auto error = sem_trywait(handle_);
+            auto error = sem_trywait(handle_);
+            while (error == -1 && errno == EINTR)
+            {
+                error = sem_trywait(handle_);
+            }
             // errno is set to EAGAIN if the decrement cannot be immediately performed (i.e. semaphore has value 0).
             if (error == -1 && errno != EAGAIN)
             {
@@ -106,7 +110,11 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         bool wait()
         {
-            const auto error = sem_wait(handle_);
+            auto error = sem_wait(handle_);
+            while (error == -1 && errno == EINTR)
+            {
+                error = sem_wait(handle_);
+            }
             if (error == -1)
             {
                 oqpi_error("sem_wait failed with error code %d", errno);
@@ -144,7 +152,11 @@ namespace oqpi {
                 t.tv_sec  -= 1;
             }
 
-            const auto error    = sem_timedwait(handle_, &t);
+            auto error          = sem_timedwait(handle_, &t);
+            while (error == -1 && errno == EINTR)
+            {
+                error = sem_timedwait(handle_, &t);
+            }
             if(error == -1 && errno != ETIMEDOUT)
             {
                 oqpi_error("sem_timedwait failed with error code %d", errno);
-- 
2.43.0


From 45807e3391ac38ce84c8cac4ac14a7534753676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 05/26] fix: move assignment of a valid posix semaphore was
 silently ignored

---
 include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index b27c1d4..8d5de8d 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -57,8 +57,9 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         posix_semaphore_wrapper &operator =(posix_semaphore_wrapper &&rhs)
         {
-            if (this != &rhs && !isValid())
+            if (this != &rhs)
             {
+                release();
                 handle_     = rhs.handle_;
                 name_       = rhs.name_;
                 rhs.handle_ = nullptr;
-- 
2.43.0


From ebe294d15078edc38b2d321b5dd0692c2e24a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 06/26] fix: resetting a manual reset event could block forever

---
 include/oqpi/synchronization/posix/posix_event.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_event.hpp b/include/oqpi/synchronization/posix/posix_event.hpp
index 3485d70..9badf10 100644
--- a/include/oqpi/synchronization/posix/posix_event.hpp
+++ b/include/oqpi/synchronization/posix/posix_event.hpp
@@ -140,19 +140,9 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         void reset(posix_semaphore_wrapper &sem)
         {
-            auto semValue = sem.getValue();
-
             // Decrement internal counter to 0. Event is unsignaled.
-            while (semValue != 0)
-            {
-                if (!sem.wait())
-                {
-                    oqpi_error("Was not able to reset event.");
-                    break;
-                }
-
-                semValue = sem.getValue();
-            }
+            // Never block, another thread may have consumed the notification in the meantime.
+            while (sem.tryWait());
         }
     };
 
-- 
2.43.0


From 1f22f0ae4362757a60159bfb5eea2216c0a6aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 07/26] fix: closing an event did not compile on posix

---
 include/oqpi/synchronization/posix/posix_event.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/oqpi/synchronization/posix/posix_event.hpp b/include/oqpi/synchronization/posix/posix_event.hpp
index 9badf10..5b642b5 100644
--- a/include/oqpi/synchronization/posix/posix_event.hpp
+++ b/include/oqpi/synchronization/posix/posix_event.hpp
@@ -116,6 +116,12 @@ namespace oqpi {
             return true;
         }
 
+        //------------------------------------------------------------------------------------------
+        void close()
+        {
+            sem_ = posix_semaphore_wrapper();
+        }
+
     private:
         //------------------------------------------------------------------------------------------
         // Not copyable
-- 
2.43.0


From 67fb4817eb97dcc542340ea18491074fb5e43c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 08/26] fix: opening a named posix semaphore could create it,
 or create it with a wrong initial count

---
 .../posix/posix_semaphore_wrapper.hpp           | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 8d5de8d..70c8698 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -204,21 +204,14 @@ namespace oqpi {
 
             // If both O_CREAT and O_EXCL are specified, then an error is returned if a semaphore with the given
             // name already exists. Otherwise it creates it.
-            handle_ = sem_open(name_.c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR, initCount);
-
-            if (handle_ != SEM_FAILED && creationOption == sync_object_creation_options::open_existing)
-            {
-                // We've created a semaphore even though given the open_existing creation option.
-                oqpi_error("Trying to open an existing semaphore that doesn't exist.");
-                return false;
-            }
+            // With none of them the semaphore is only opened, never created, not even temporarily.
+            const auto openFlags = (creationOption == sync_object_creation_options::open_existing) ? 0 : O_CREAT | O_EXCL;
+            handle_ = sem_open(name_.c_str(), openFlags, S_IRUSR | S_IWUSR, initCount);
 
             // Open a semaphore
-            if (handle_ == SEM_FAILED &&
-                (creationOption == sync_object_creation_options::open_existing
-                    || creationOption == sync_object_creation_options::open_or_create))
+            if (handle_ == SEM_FAILED && creationOption == sync_object_creation_options::open_or_create)
             {
-                handle_ = sem_open(name_.c_str(), O_CREAT, S_IRUSR | S_IWUSR, 0);
+                handle_ = sem_open(name_.c_str(), O_CREAT, S_IRUSR | S_IWUSR, initCount);
             }
 
             if (handle_ == SEM_FAILED)
-- 
2.43.0


From 8d20fdde8498ac3693e90fda38cffaf4af5f8d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 09/26] fix: this_thread::sleep_for did not compile on posix

---
 include/oqpi/threading/posix_thread.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index ebf615a..bed0a2c 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -4,6 +4,7 @@
 #include <pthread.h>
 #include <unistd.h>
 #include <math.h>
+#include <thread>
 #include <cstring>
 #include <sys/resource.h>
 
@@ -403,7 +404,7 @@ namespace oqpi {
         template<typename _Rep, typename _Period>
         inline void sleep_for(const std::chrono::duration<_Rep, _Period>& relTime)
         {
-            pthread_sleep(std::chrono::duration_cast<std::chrono::milliseconds>(relTime).count());
+            std::this_thread::sleep_for(relTime);
         }
         //------------------------------------------------------------------------------------------
         inline uint32_t get_current_core()
-- 
2.43.0


From 4000adb80d5dd0582b4a9fc438a7976246b6084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 10/26] fix: a posix_thread could be joinable after a failed
 creation, and leaked its attributes

---
 include/oqpi/threading/posix_thread.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index bed0a2c..25b0104 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -151,7 +151,8 @@ namespace oqpi {
             if(error != 0)
             {
                 oqpi_error("pthread_create failed with error number: %d", error);
-                return false;
+                // The content of the handle is undefined when pthread_create fails
+                handle_ = 0;
             }
 
             if(pThreadAttr != nullptr)
@@ -159,6 +160,11 @@ namespace oqpi {
                 pthread_attr_destroy(pThreadAttr);
             }
 
+            if(error != 0)
+            {
+                return false;
+            }
+
             setCoreAffinityMask(attributes.coreAffinityMask_);
 
             return true;
-- 
2.43.0


From 5dc1cb4c7aa40d7cfab989a5a584c7b6a44feec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 11/26] fix: terminating a posix_thread leaked its resources

---
 include/oqpi/threading/posix_thread.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index 25b0104..be5f6d7 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -240,6 +240,8 @@ namespace oqpi {
             const auto error = pthread_cancel(handle_);
             if (error == 0)
             {
+                // Nobody can join this thread anymore
+                pthread_detach(handle_);
                 handle_ = 0;
             }
             else
-- 
2.43.0


From 7d1943bdd799f3fd7e722c02ed66f7a7836ddeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 12/26] fix: a failed affinity query returned uninitialized
 memory

---
 include/oqpi/threading/posix_thread.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index be5f6d7..5cd01e5 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -315,8 +315,13 @@ namespace oqpi {
         static core_affinity get_core_affinity_mask(native_handle_type handle)
         {
             auto affinity = core_affinity{};
-            cpu_set_t set;
-            pthread_getaffinity_np(handle, sizeof(cpu_set_t), &set);
+            auto set = cpu_set_t{};
+            const auto error = pthread_getaffinity_np(handle, sizeof(cpu_set_t), &set);
+            if(error != 0)
+            {
+                oqpi_error("pthread_getaffinity_np failed with error code %d", error);
+                return affinity;
+            }
             memcpy(&affinity, &set.__bits, sizeof(core_affinity));
 
             return affinity;
-- 
2.43.0


From fdc8ccd9f018e149e14868b8e57239ef2e53fc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 13/26] fix: thread move assignment skipped the layer of the
 thread

---
 include/oqpi/threading/interface_thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/oqpi/threading/interface_thread.hpp b/include/oqpi/threading/interface_thread.hpp
index 5d1ceda..3d3786a 100644
--- a/include/oqpi/threading/interface_thread.hpp
+++ b/include/oqpi/threading/interface_thread.hpp
@@ -86,7 +86,7 @@ namespace oqpi { namespace itfc {
                 {
                     std::terminate();
                 }
-                thread_impl::operator =(std::move(rhs));
+                base_type::operator =(std::move(rhs));
             }
             return (*this);
         }
-- 
2.43.0


From 9f68783849e8e4f3adc7838316ef9deb33b582fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 14/26] fix: error_handling.hpp used va_list and vsnprintf
 without their headers

---
 include/oqpi/error_handling.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/oqpi/error_handling.hpp b/include/oqpi/error_handling.hpp
index afbe669..ef52bd3 100644
--- a/include/oqpi/error_handling.hpp
+++ b/include/oqpi/error_handling.hpp
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <string>
+#include <cstdio>
 #include <cassert>
+#include <cstdarg>
 #include <iostream>
 
 #include "oqpi/platform.hpp"
-- 
2.43.0


From 8de1dc3ada2b33901efaaa62d19b3ef120e8e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 15/26] fix: atomic_partitioner lost or invented indices when
 the first index is not zero

---
 include/oqpi/parallel_algorithms/atomic_partitioner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/oqpi/parallel_algorithms/atomic_partitioner.hpp b/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
index 1263cc9..417312f 100644
--- a/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
+++ b/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
@@ -46,7 +46,7 @@ namespace oqpi {
                 // Get a copy of where we're at in the array
                 auto expectedIndex = sharedIndex_.load();
                 // Compute how many indices we could grab
-                const auto count = std::min<int32_t>(elementCount_ - expectedIndex, indicesToGrab_);
+                const auto count = std::min<int32_t>(lastIndex_ - expectedIndex, indicesToGrab_);
                 if (count > 0)
                 {
                     // There's still something to grab, try to do it, by being the one to increment the shared index.
-- 
2.43.0


From aa4acd471fc50bf183fa33995647f4295d4e9707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 16/26] fix: stopping the scheduler could drop a grabbed task
 or execute an invalid one

---
 include/oqpi/scheduling/scheduler.hpp | 10 ++++++----
 include/oqpi/scheduling/worker.hpp    | 24 +++++++++++-------------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index e2839df..8de489f 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -113,13 +113,15 @@ namespace oqpi {
         // Stops the workers and waits on them
         void stop()
         {
-            running_.store(false);
-
+            // A worker returning without a task from signalAvailableWorker has to know that it's being stopped,
+            // so the workers have to be flagged first
             for (auto &upWorker : workers_)
             {
                 upWorker->stop();
             }
 
+            running_.store(false);
+
             wakeUpAllWorkers();
 
             for (auto &upWorker : workers_)
@@ -287,8 +289,8 @@ namespace oqpi {
                 // Grab the next task
                 task_handle hTask = waitForNextTask(w);
 
-                // We could have been waken up to stop
-                if (!running_.load())
+                // We could have been waken up to stop, but never drop a task that we've already grabbed
+                if (!hTask.isValid())
                 {
                     return;
                 }
diff --git a/include/oqpi/scheduling/worker.hpp b/include/oqpi/scheduling/worker.hpp
index cee6369..871320a 100644
--- a/include/oqpi/scheduling/worker.hpp
+++ b/include/oqpi/scheduling/worker.hpp
@@ -106,20 +106,18 @@ namespace oqpi {
                 // We consider ourselves active either way
                 _WorkerContext::worker_onActive();
 
-                // Check if we've waken up to work on a new task
-                if (isRunning())
+                // Check if we've waken up to work on a new task, a task that we've been assigned is already grabbed
+                // so it has to be executed even if we've been asked to stop in the meantime
+                if (!worker_base::isAvailable())
                 {
-                    if (oqpi_ensure(worker_base::hTask_.isValid()))
-                    {
-                        // Inform the context that we're about to start the execution of a new task
-                        _WorkerContext::worker_onPreExecute(worker_base::hTask_);
-                        // Actually execute the task
-                        worker_base::hTask_.execute();
-                        // Inform the context that we just finished the execution of a task
-                        _WorkerContext::worker_onPostExecute(worker_base::hTask_);
-                        // Reset the task, can potentially free the memory if there's no more reference to that task
-                        worker_base::hTask_.reset();
-                    }
+                    // Inform the context that we're about to start the execution of a new task
+                    _WorkerContext::worker_onPreExecute(worker_base::hTask_);
+                    // Actually execute the task
+                    worker_base::hTask_.execute();
+                    // Inform the context that we just finished the execution of a task
+                    _WorkerContext::worker_onPostExecute(worker_base::hTask_);
+                    // Reset the task, can potentially free the memory if there's no more reference to that task
+                    worker_base::hTask_.reset();
                 }
             }
 
-- 
2.43.0


From 8b993aa290a532b9f92d1cdc4fa74f635d6a236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 17/26] fix: a parallel group limited to one simultaneous task
 executed two of them at once

---
 include/oqpi/scheduling/parallel_group.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/oqpi/scheduling/parallel_group.hpp b/include/oqpi/scheduling/parallel_group.hpp
index 8ae89c8..b86cb28 100644
--- a/include/oqpi/scheduling/parallel_group.hpp
+++ b/include/oqpi/scheduling/parallel_group.hpp
@@ -92,15 +92,14 @@ namespace oqpi {
                 size_t i = 0;
                 int32_t scheduledTasks = 0;
 
-                while ((i = currentTaskIndex_.fetch_add(1)) < taskCount)
+                // The first task counts as one of the simultaneous tasks, it's executed by the current thread below
+                while ((maxSimultaneousTasks_ <= 0 || scheduledTasks < maxSimultaneousTasks_-1)
+                    && (i = currentTaskIndex_.fetch_add(1)) < taskCount)
                 {
                     if (!tasks_[i].isGrabbed() && !tasks_[i].isDone())
                     {
                         this->scheduler_.add(tasks_[i]);
-                        if (maxSimultaneousTasks_ > 0 && ++scheduledTasks >= maxSimultaneousTasks_-1)
-                        {
-                            break;
-                        }
+                        ++scheduledTasks;
                     }
                 }
 
-- 
2.43.0


From fc91289d3e698387accd586c66084028f710578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 18/26] fix: moving a task lost its result

---
 include/oqpi/scheduling/task.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/oqpi/scheduling/task.hpp b/include/oqpi/scheduling/task.hpp
index 0508f71..6f2cc80 100644
--- a/include/oqpi/scheduling/task.hpp
+++ b/include/oqpi/scheduling/task.hpp
@@ -36,6 +36,7 @@ namespace oqpi {
         // Movable
         task(self_type &&other)
             : task_base(std::move(other))
+            , task_result_type(std::move(other))
             , _TaskContext(std::move(other))
             , notifier_type(std::move(other))
             , func_(std::move(other.func_))
@@ -47,6 +48,7 @@ namespace oqpi {
             if (this != &rhs)
             {
                 task_base::operator =(std::move(rhs));
+                task_result_type::operator =(std::move(rhs));
                 _TaskContext::operator =(std::move(rhs));
                 notifier_type::operator =(std::move(rhs));
                 func_ = std::move(rhs.func_);
-- 
2.43.0


From f798f246b2c46121fbe7216657ca2f4eef1cc601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 19/26] fix: executing a group single threaded signalled it
 even when another thread owned it

---
 include/oqpi/scheduling/parallel_group.hpp | 15 ++++++---------
 include/oqpi/scheduling/sequence_group.hpp |  9 +++------
 include/oqpi/scheduling/task_group.hpp     | 14 +++++++++-----
 3 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/include/oqpi/scheduling/parallel_group.hpp b/include/oqpi/scheduling/parallel_group.hpp
index b86cb28..f0ed698 100644
--- a/include/oqpi/scheduling/parallel_group.hpp
+++ b/include/oqpi/scheduling/parallel_group.hpp
@@ -46,19 +46,16 @@ namespace oqpi {
         // For debug purposes
         virtual void executeSingleThreadedImpl() override final
         {
-            if (task_base::tryGrab())
+            const auto taskCount = tasks_.size();
+            if (oqpi_ensure(taskCount > 0))
             {
-                const auto taskCount = tasks_.size();
-                if (oqpi_ensure(taskCount > 0))
+                oqpi_check(taskCount == activeTasksCount_);
+                for (size_t i = 0; i < taskCount; ++i)
                 {
-                    oqpi_check(taskCount == activeTasksCount_);
-                    for (size_t i = 0; i < taskCount; ++i)
-                    {
-                        tasks_[i].executeSingleThreaded();
-                    }
+                    tasks_[i].executeSingleThreaded();
                 }
-                tasks_.clear();
             }
+            tasks_.clear();
         }
 
         //------------------------------------------------------------------------------------------
diff --git a/include/oqpi/scheduling/sequence_group.hpp b/include/oqpi/scheduling/sequence_group.hpp
index 94ca50c..90ace90 100644
--- a/include/oqpi/scheduling/sequence_group.hpp
+++ b/include/oqpi/scheduling/sequence_group.hpp
@@ -38,13 +38,10 @@ namespace oqpi {
         // For debug purposes
         virtual void executeSingleThreadedImpl() override final
         {
-            if (task_base::tryGrab())
+            while (!empty())
             {
-                while (!empty())
-                {
-                    auto hTask = popTask();
-                    hTask.executeSingleThreaded();
-                }
+                auto hTask = popTask();
+                hTask.executeSingleThreaded();
             }
         }
 
diff --git a/include/oqpi/scheduling/task_group.hpp b/include/oqpi/scheduling/task_group.hpp
index 2b4e4a1..40bfac7 100644
--- a/include/oqpi/scheduling/task_group.hpp
+++ b/include/oqpi/scheduling/task_group.hpp
@@ -57,12 +57,16 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         virtual void executeSingleThreaded() override final
         {
-            _GroupContext::group_onPreExecute();
-            executeSingleThreadedImpl();
-            _GroupContext::group_onPostExecute();
+            // Somebody else is executing this group, its completion is not ours to signal
+            if (task_base::tryGrab())
+            {
+                _GroupContext::group_onPreExecute();
+                executeSingleThreadedImpl();
+                _GroupContext::group_onPostExecute();
 
-            task_base::setDone();
-            notifier_type::notify();
+                task_base::setDone();
+                notifier_type::notify();
+            }
         }
 
         //------------------------------------------------------------------------------------------
-- 
2.43.0


From 4b431d27cdb76ba1ddce252edbe579d760093a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:01 +0000
Subject: [PATCH 20/26] fix: attributes of a thread that is not joinable are
 not queried nor set

Querying or setting the affinity of a default constructed, joined or moved
from thread passed a null handle to the system, which crashes.
---
 include/oqpi/threading/posix_thread.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index 5cd01e5..0b22631 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -262,11 +262,23 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         core_affinity getCoreAffinityMask() const
         {
+            if (handle_ == 0)
+            {
+                oqpi_warning("Trying to get the affinity of a non joinable thread.");
+                return core_affinity{};
+            }
+
             return get_core_affinity_mask(handle_);
         }
         //------------------------------------------------------------------------------------------
         void setCoreAffinityMask(core_affinity affinityMask)
         {
+            if (handle_ == 0)
+            {
+                oqpi_warning("Trying to set the affinity of a non joinable thread.");
+                return;
+            }
+
             set_core_affinity_mask(handle_, affinityMask);
         }
         //------------------------------------------------------------------------------------------
@@ -275,11 +287,23 @@ namespace oqpi {
         //------------------------------------------------------------------------------------------
         thread_priority getPriority() const
         {
+            if (handle_ == 0)
+            {
+                oqpi_warning("Trying to get the priority of a non joinable thread.");
+                return thread_priority::normal;
+            }
+
             return get_priority(handle_);
         }
         //------------------------------------------------------------------------------------------
         void setPriority(thread_priority priority)
         {
+            if (handle_ == 0)
+            {
+                oqpi_warning("Trying to set the priority of a non joinable thread.");
+                return;
+            }
+
             set_priority(handle_, priority);
         }
         //------------------------------------------------------------------------------------------
-- 
2.43.0


From 33165b8146052478a3a47184450a82aca5885210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:50 +0000
Subject: [PATCH 21/26] fix: a priority above the limit of the user prevented
 the creation of the thread

---
 include/oqpi/threading/posix_thread.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index 0b22631..6ea759a 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -116,9 +116,10 @@ namespace oqpi {
                     oqpi_error("getrlimit failed with error number: %d", error);
                 }
 
-                if(rlim.rlim_cur != 0)
+                // Creating a thread with a priority above the limit would fail
+                const auto posixPriority = sched_param { posix_thread_priority(attributes.priority_) };
+                if(rlim.rlim_cur >= static_cast<rlim_t>(posixPriority.sched_priority))
                 {
-                    const auto posixPriority = sched_param { posix_thread_priority(attributes.priority_) };
                     error = pthread_attr_setschedparam(pThreadAttr, &posixPriority);
                     if(error != 0)
                     {
-- 
2.43.0


From 27340e7c22108be4997fffdd1c7543845d50d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:41 +0000
Subject: [PATCH 22/26] fix: headers used standard components and headers they
 did not include

---
 include/oqpi/empty_layer.hpp                              | 2 ++
 include/oqpi/parallel_algorithms/atomic_partitioner.hpp   | 1 +
 include/oqpi/parallel_algorithms/base_partitioner.hpp     | 2 ++
 include/oqpi/scheduling/context_container.hpp             | 2 ++
 include/oqpi/scheduling/scheduler.hpp                     | 2 ++
 include/oqpi/scheduling/task_type.hpp                     | 2 ++
 .../synchronization/posix/posix_semaphore_wrapper.hpp     | 8 ++++++++
 include/oqpi/threading/posix_thread.hpp                   | 1 +
 8 files changed, 20 insertions(+)

diff --git a/include/oqpi/empty_layer.hpp b/include/oqpi/empty_layer.hpp
index 768f4cb..c342cd6 100644
--- a/include/oqpi/empty_layer.hpp
+++ b/include/oqpi/empty_layer.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <type_traits>
+
 namespace oqpi {
 
     // Defines an empty layer for augmented interfaces
diff --git a/include/oqpi/parallel_algorithms/atomic_partitioner.hpp b/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
index 417312f..68a8fb8 100644
--- a/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
+++ b/include/oqpi/parallel_algorithms/atomic_partitioner.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <atomic>
 
 #include "oqpi/parallel_algorithms/base_partitioner.hpp"
diff --git a/include/oqpi/parallel_algorithms/base_partitioner.hpp b/include/oqpi/parallel_algorithms/base_partitioner.hpp
index 32f6790..eff86f6 100644
--- a/include/oqpi/parallel_algorithms/base_partitioner.hpp
+++ b/include/oqpi/parallel_algorithms/base_partitioner.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <cstdint>
+
 
 namespace oqpi {
 
diff --git a/include/oqpi/scheduling/context_container.hpp b/include/oqpi/scheduling/context_container.hpp
index 8e9fd69..4a70d70 100644
--- a/include/oqpi/scheduling/context_container.hpp
+++ b/include/oqpi/scheduling/context_container.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <memory>
+
 #include "oqpi/platform.hpp"
 
 #if OQPI_PLATFORM_WIN
diff --git a/include/oqpi/scheduling/scheduler.hpp b/include/oqpi/scheduling/scheduler.hpp
index 8de489f..8c9d887 100644
--- a/include/oqpi/scheduling/scheduler.hpp
+++ b/include/oqpi/scheduling/scheduler.hpp
@@ -2,7 +2,9 @@
 
 #include <vector>
 #include <atomic>
+#include <cstring>
 
+#include "oqpi/threading/this_thread.hpp"
 #include "oqpi/scheduling/worker.hpp"
 #include "oqpi/scheduling/task_handle.hpp"
 #include "oqpi/scheduling/worker_context.hpp"
diff --git a/include/oqpi/scheduling/task_type.hpp b/include/oqpi/scheduling/task_type.hpp
index 0eae817..0e2d441 100644
--- a/include/oqpi/scheduling/task_type.hpp
+++ b/include/oqpi/scheduling/task_type.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <cstdint>
+
 namespace oqpi {
     
     //----------------------------------------------------------------------------------------------
diff --git a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
index 70c8698..abac90d 100644
--- a/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
+++ b/include/oqpi/synchronization/posix/posix_semaphore_wrapper.hpp
@@ -1,9 +1,17 @@
 #pragma once
 
+#include <algorithm>
+#include <chrono>
+#include <cstdint>
+#include <string>
+#include <limits.h>
 #include <semaphore.h>
 #include <fcntl.h>
 #include <sys/stat.h>
 
+#include "oqpi/error_handling.hpp"
+#include "oqpi/synchronization/sync_common.hpp"
+
 
 namespace oqpi {
 
diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index 6ea759a..41e74e2 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -10,6 +10,7 @@
 
 #include "oqpi/platform.hpp"
 #include "oqpi/error_handling.hpp"
+#include "oqpi/threading/thread_attributes.hpp"
 
 // Only Real Time Scheduling policies (SCHED_FIFO or SCHED_RR) allow setting thread priority.
 // SCHED_FIFO corresponds to first in first out, SCHED_RR to round-robin.
-- 
2.43.0


From 84f52f35a592c485973076a0140c0af102248588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:41 +0000
Subject: [PATCH 23/26] fix: parallel_for.hpp could not be included before
 scheduling.hpp

---
 include/oqpi/parallel_algorithms/parallel_for.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/oqpi/parallel_algorithms/parallel_for.hpp b/include/oqpi/parallel_algorithms/parallel_for.hpp
index 428b887..1ecd55b 100644
--- a/include/oqpi/parallel_algorithms/parallel_for.hpp
+++ b/include/oqpi/parallel_algorithms/parallel_for.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
-#include "oqpi/scheduling.hpp"
+#include "oqpi/scheduling/task.hpp"
+#include "oqpi/scheduling/task_handle.hpp"
+#include "oqpi/scheduling/parallel_group.hpp"
 
 namespace oqpi {
 
-- 
2.43.0


From 0d7e26ba9f935bbbbffa50ea1b6bd847deb03ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:55 +0000
Subject: [PATCH 24/26] fix: a local mutex could not be constructed

---
 include/oqpi/synchronization/posix/posix_mutex.hpp | 2 +-
 include/oqpi/synchronization/win/win_mutex.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/synchronization/posix/posix_mutex.hpp b/include/oqpi/synchronization/posix/posix_mutex.hpp
index 3004847..6477da2 100644
--- a/include/oqpi/synchronization/posix/posix_mutex.hpp
+++ b/include/oqpi/synchronization/posix/posix_mutex.hpp
@@ -21,7 +21,7 @@ namespace oqpi {
 
     protected:
         //------------------------------------------------------------------------------------------
-        posix_mutex(const std::string &name, sync_object_creation_options creationOption, bool lockOnCreation)
+        posix_mutex(const std::string &name, sync_object_creation_options creationOption, bool lockOnCreation = false)
             : sem_()
         {
             // A mutex is simply a binary semaphore!
diff --git a/include/oqpi/synchronization/win/win_mutex.hpp b/include/oqpi/synchronization/win/win_mutex.hpp
index e8c0b4c..6207ebe 100644
--- a/include/oqpi/synchronization/win/win_mutex.hpp
+++ b/include/oqpi/synchronization/win/win_mutex.hpp
@@ -21,7 +21,7 @@ namespace oqpi {
 
     protected:
         //------------------------------------------------------------------------------------------
-        win_mutex(const std::string &name, sync_object_creation_options creationOption, bool lockOnCreation)
+        win_mutex(const std::string &name, sync_object_creation_options creationOption, bool lockOnCreation = false)
             : handle_(nullptr)
         {
             if (creationOption == sync_object_creation_options::open_existing)
-- 
2.43.0


From 9e30e9b53b4fd57493672e8f189641c2a3f443a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 25/26] fix: the documentation of contexts asked for a virtual
 inheritance that does not compile

---
 include/oqpi/scheduling/group_context.hpp  | 2 +-
 include/oqpi/scheduling/task_context.hpp   | 2 +-
 include/oqpi/scheduling/worker_context.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/oqpi/scheduling/group_context.hpp b/include/oqpi/scheduling/group_context.hpp
index e241d8a..0a374a7 100644
--- a/include/oqpi/scheduling/group_context.hpp
+++ b/include/oqpi/scheduling/group_context.hpp
@@ -12,7 +12,7 @@ namespace oqpi {
     //----------------------------------------------------------------------------------------------
 
     //----------------------------------------------------------------------------------------------
-    // Optional base class for group contexts, should be inherited from virtually
+    // Optional base class for group contexts
     //
     class group_context_base
     {
diff --git a/include/oqpi/scheduling/task_context.hpp b/include/oqpi/scheduling/task_context.hpp
index 63e8e35..ab022d7 100644
--- a/include/oqpi/scheduling/task_context.hpp
+++ b/include/oqpi/scheduling/task_context.hpp
@@ -11,7 +11,7 @@ namespace oqpi {
     //----------------------------------------------------------------------------------------------
 
     //----------------------------------------------------------------------------------------------
-    // Optional base class for task contexts, should be inherited from virtually
+    // Optional base class for task contexts
     //
     class task_context_base
     {
diff --git a/include/oqpi/scheduling/worker_context.hpp b/include/oqpi/scheduling/worker_context.hpp
index 6eab407..bbdf3e2 100644
--- a/include/oqpi/scheduling/worker_context.hpp
+++ b/include/oqpi/scheduling/worker_context.hpp
@@ -11,7 +11,7 @@ namespace oqpi {
     //----------------------------------------------------------------------------------------------
 
     //----------------------------------------------------------------------------------------------
-    // Optional base class for worker contexts, should be inherited from virtually
+    // Optional base class for worker contexts
     //
     class worker_context_base
     {
-- 
2.43.0


From f93e3ed9c49419f78b27015b723c406ac2407ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:16 +0000
Subject: [PATCH 26/26] fix: valid affinities failed a check on machines with
 64 processors or more

---
 include/oqpi/threading/posix_thread.hpp | 2 +-
 include/oqpi/threading/win_thread.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/oqpi/threading/posix_thread.hpp b/include/oqpi/threading/posix_thread.hpp
index 41e74e2..ad9a58e 100644
--- a/include/oqpi/threading/posix_thread.hpp
+++ b/include/oqpi/threading/posix_thread.hpp
@@ -329,7 +329,7 @@ namespace oqpi {
             memcpy(&set.__bits, &affinityMask, sizeof(affinityMask));
 
             // Make sure the selected mask is valid
-            oqpi_check(static_cast<uint64_t>(affinityMask) < (1ull << hardware_concurrency()) || affinityMask == core_affinity::all_cores);
+            oqpi_check(hardware_concurrency() >= 64 || static_cast<uint64_t>(affinityMask) < (1ull << hardware_concurrency()) || affinityMask == core_affinity::all_cores);
 
             const auto error = pthread_setaffinity_np(handle, sizeof(cpu_set_t), &set);
             if(error != 0)
diff --git a/include/oqpi/threading/win_thread.hpp b/include/oqpi/threading/win_thread.hpp
index f5c2ae8..5fa2b1e 100644
--- a/include/oqpi/threading/win_thread.hpp
+++ b/include/oqpi/threading/win_thread.hpp
@@ -239,7 +239,7 @@ namespace oqpi {
         static void set_core_affinity_mask(native_handle_type handle, core_affinity affinityMask)
         {
             // Make sure the selected mask is valid
-            oqpi_check(static_cast<uint64_t>(affinityMask) < (1ull << hardware_concurrency()) || affinityMask == core_affinity::all_cores);
+            oqpi_check(hardware_concurrency() >= 64 || static_cast<uint64_t>(affinityMask) < (1ull << hardware_concurrency()) || affinityMask == core_affinity::all_cores);
             oqpi_verify(SetThreadAffinityMask(handle, static_cast<DWORD_PTR>(affinityMask)) != 0);
         }
         //------------------------------------------------------------------------------------------
-- 
2.43.0

