From bccae3b55694141796823961cfe84b5d3e808102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:33 +0000
Subject: [PATCH 01/49] fix: clear the stale previous-coroutine pointer before
 it can be destroyed

A freshly started coroutine keeps a pointer to the coroutine that ran
before it. If that one was finished and detached, the first yield of the
new coroutine destroyed it and then shrank its stack through the dangling
pointer.
---
 source/cocpp/core/co_env.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index c6e6f2c..4d959e9 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -312,6 +312,9 @@ void co_env::schedule_switch()
 {
     lock_schedule();
     CoDefer(unlock_schedule());
+    // A coroutine that was just started still points to the coroutine that ran before it,
+    // which may be destroyed below
+    current_ctx()->clear_pre_ctx();
     remove_detached_ctx__();
     if (shared_stack_switch_info__.need_switch)
     {
-- 
2.43.0


From a738e01f4ea9da4447b49b2966fc73cbbb189f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:31 +0000
Subject: [PATCH 02/49] fix: keep the coroutine of a pending shared-stack
 switch alive until it is switched

The schedule routine destroyed finished detached coroutines before doing a
pending shared-stack switch. The coroutine the switch comes from could be one
of them, so its freed memory was read.
---
 source/cocpp/core/co_env.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 4d959e9..a96001a 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -315,13 +315,14 @@ void co_env::schedule_switch()
     // A coroutine that was just started still points to the coroutine that ran before it,
     // which may be destroyed below
     current_ctx()->clear_pre_ctx();
-    remove_detached_ctx__();
     if (shared_stack_switch_info__.need_switch)
     {
+        // The pending switch still refers to the coroutine it comes from, so nothing is removed here
         switch_shared_stack_ctx__();
     }
     else
     {
+        remove_detached_ctx__();
         switch_normal_ctx__();
     }
     if (current_ctx()->pre_ctx() != nullptr)
-- 
2.43.0


From 3b760f03f00c29a1b56cbe10e62eddb5a3e4cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:09 +0000
Subject: [PATCH 03/49] fix: remove the lock order inversions between timers,
 the timer queue and envs

The timer routine locked the queue, then a timer or the scheduling lock of an
env. Starting or stopping a timer took the same locks in the opposite order,
so a sleeping coroutine and the timer routine could block each other forever.
---
 source/cocpp/core/co_manager.cpp | 14 +++++++++-----
 source/cocpp/core/co_timer.cpp   |  3 +++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index a128fe2..326e693 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -363,11 +363,6 @@ void co_manager::timer_routine__()
         auto front = *timer_queue__.begin();
         if (front->is_expired())
         {
-            create_and_schedule_ctx(
-                {}, [front](co_any &) {
-                    front->run();
-                },
-                false);
             if (front->expire_type() == co_expire_type::once)
             {
                 front->stop();
@@ -376,6 +371,15 @@ void co_manager::timer_routine__()
             {
                 front->reset();
             }
+            // A coroutine can start a timer while it holds the scheduling lock of an env,
+            // so that lock must not be taken with the queue locked
+            lck.unlock();
+            create_and_schedule_ctx(
+                {}, [front](co_any &) {
+                    front->run();
+                },
+                false);
+            lck.lock();
         }
         else
         {
diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index e58a31d..1449efa 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -56,6 +56,8 @@ bool co_timer::is_running() const
 
 void co_timer::start()
 {
+    // The timer routine locks the queue before it locks a timer, use the same order here
+    scoped_lock queue_lock(co_manager::instance()->mu_timer_queue__);
     scoped_lock lock(mutex__);
     if (status__ == co_timer_status::running)
     {
@@ -68,6 +70,7 @@ void co_timer::start()
 
 void co_timer::stop()
 {
+    scoped_lock queue_lock(co_manager::instance()->mu_timer_queue__);
     scoped_lock lock(mutex__);
     if (status__ == co_timer_status::stopped)
     {
-- 
2.43.0


From e6a8e4e5a13b796eb77686656d2ba954e2e2ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:09 +0000
Subject: [PATCH 04/49] fix: check that the timer queue is not empty after
 waiting for a timer

A timer that is stopped before the timer routine wakes up leaves the queue
empty, and the routine then read the first element of an empty set.
---
 source/cocpp/core/co_manager.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 326e693..8ed1e80 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -354,11 +354,9 @@ void co_manager::timer_routine__()
     {
         if (timer_queue__.empty())
         {
+            // The queue can still be empty after the wait, e.g. when a new timer is stopped at once
             cv_timer_queue__.wait(lck);
-        }
-        if (clean_up__)
-        {
-            break;
+            continue;
         }
         auto front = *timer_queue__.begin();
         if (front->is_expired())
-- 
2.43.0


From aea2f55cf56f4f516cef01e9ac749d894236f1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:09 +0000
Subject: [PATCH 05/49] fix: keep timers that expire at the same time apart

Timers are stored in a set ordered by expire time only. A timer was dropped when
another timer with the same expire time was already queued, and stopping one of
them removed the other.
---
 source/cocpp/core/co_timer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index 1449efa..02742aa 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -138,7 +138,10 @@ bool operator==(const shared_ptr<co_timer> &lhs, const shared_ptr<co_timer> &rhs
 
 bool operator<(const shared_ptr<co_timer> &lhs, const shared_ptr<co_timer> &rhs)
 {
-    return lhs->expire_time() < rhs->expire_time();
+    auto lhs_time = lhs->expire_time();
+    auto rhs_time = rhs->expire_time();
+    // Timers with the same expire time are still different timers
+    return lhs_time != rhs_time ? lhs_time < rhs_time : lhs->get_handle() < rhs->get_handle();
 }
 
 function<void()> co_timer::set_expire_callback(const function<void()> &func)
-- 
2.43.0


From 1f1c13459ddc83ff069e706da219b3cb19e83de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:09 +0000
Subject: [PATCH 06/49] fix: do not hold the timer lock while the timer
 callback runs

A callback that sleeps or waits kept the lock of its timer across the switch.
The timer routine then blocked on that lock with the whole queue locked.
---
 source/cocpp/core/co_timer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index 02742aa..e34f274 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -124,10 +124,15 @@ bool co_timer::is_expired() const
 
 void co_timer::run() const
 {
-    scoped_lock lock(mutex__);
-    if (callback__)
+    function<void()> callback;
+    {
+        scoped_lock lock(mutex__);
+        callback = callback__;
+    }
+    // The callback may switch to other coroutines, so it is called without the lock
+    if (callback)
     {
-        callback__();
+        callback();
     }
 }
 
-- 
2.43.0


From 975464f3175fa0c3879fd7e7e1e07b8946485ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:57 +0000
Subject: [PATCH 07/49] fix: do not use a coroutine after it was handed over to
 an env

A detached coroutine can finish and be destroyed on another thread right after
it was added to the list of its env, so its priority is read before that.
---
 source/cocpp/core/co_env.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index a96001a..b4d220c 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -84,13 +84,15 @@ void co_env::move_ctx_to_here(co_ctx *ctx)
 
     ctx->set_env(this);
 
+    // Once the ctx is in the list it can run, finish and be destroyed at any time
+    auto priority = ctx->priority();
     {
         scoped_lock lock(mu_normal_ctx__);
-        all_normal_ctx__[ctx->priority()].push_back(ctx);
+        all_normal_ctx__[priority].push_back(ctx);
         ++ctx_count__;
     }
 
-    update_min_priority__(ctx->priority());
+    update_min_priority__(priority);
     set_state(co_env_state::busy);
 
     wake_up();
-- 
2.43.0


From fd21f3c9a929bf3615d3fdc3ccabb0aa1ae6eb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:09 +0000
Subject: [PATCH 08/49] fix: do not let a coroutine be destroyed while it is
 being woken up

A woken coroutine could finish and be destroyed by its env before the waker was
done with it. The waker then used the freed coroutine to find the env.
---
 source/cocpp/core/co_ctx.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index ef1ed8e..33c5a53 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -191,6 +191,10 @@ void co_ctx::enter_wait_resource_state(void *rc)
 
 void co_ctx::leave_wait_resource_state(void *rc)
 {
+    // Once the ctx is not waiting any more it can run, finish and be destroyed,
+    // so its env must not schedule it before everything is done here
+    auto env = env__;
+    scoped_lock schedule_lock(env->schedule_lock());
     {
         scoped_lock lock(wait_data__.mu);
         wait_data__.resource.erase(rc);
@@ -201,8 +205,8 @@ void co_ctx::leave_wait_resource_state(void *rc)
     }
     if (!test_flag(CO_CTX_FLAG_WAITING))
     {
-        env__->ctx_leave_wait_state(this);
-        env__->wake_up();
+        env->ctx_leave_wait_state(this);
+        env->wake_up();
     }
 }
 
-- 
2.43.0


From 79794eabc9f9cb470c4a86386b1fc2a7ad98df0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:00 +0000
Subject: [PATCH 09/49] fix: allow co_recursive_timed_mutex to be instantiated

It derives from co_recursive_mutex, which was final, so any use of it failed to compile.
---
 include/cocpp/sync/co_recursive_mutex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cocpp/sync/co_recursive_mutex.h b/include/cocpp/sync/co_recursive_mutex.h
index 46e4c44..c4eaea3 100644
--- a/include/cocpp/sync/co_recursive_mutex.h
+++ b/include/cocpp/sync/co_recursive_mutex.h
@@ -10,7 +10,7 @@ CO_NAMESPACE_BEGIN
 
 class co_ctx;
 
-class co_recursive_mutex final : private co_noncopyable
+class co_recursive_mutex : private co_noncopyable
 {
 private:
     co_spinlock spinlock__;
-- 
2.43.0


From 59a6e939bc31b8bdbf5444b90607746a17713a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:14 +0000
Subject: [PATCH 10/49] fix: wake up all waiting readers of a shared mutex and
 keep its writers queued

The readers were taken from behind the iterator returned by remove_if, where the
elements are unspecified. With a mixed queue a writer could be granted the lock
as a reader and some waiters were lost.
---
 source/cocpp/sync/co_shared_mutex.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/sync/co_shared_mutex.cpp b/source/cocpp/sync/co_shared_mutex.cpp
index d10d05c..5389cb1 100644
--- a/source/cocpp/sync/co_shared_mutex.cpp
+++ b/source/cocpp/sync/co_shared_mutex.cpp
@@ -206,8 +206,9 @@ void co_shared_mutex::wake_up_waiters__()
         return;
     }
 
-    auto iter = remove_if(wait_deque__.begin(), wait_deque__.end(), [](auto &c) {
-        return c.type == lock_type::shared;
+    // Writers stay in the queue in front, readers are moved behind them and woken up
+    auto iter = stable_partition(wait_deque__.begin(), wait_deque__.end(), [](auto &c) {
+        return c.type != lock_type::shared;
     });
     lock_type__ = lock_type::shared;
     transform(iter, wait_deque__.end(), inserter(owners__, owners__.begin()), [this](auto &context) {
-- 
2.43.0


From 5d68da96841326213817862515c2f36222b1c15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:12 +0000
Subject: [PATCH 11/49] fix: check the predicate before waiting on a condition
 variable

wait(lock, pred) waited for a notification even if the predicate was
already true and hung if no notification came any more.
---
 include/cocpp/sync/co_condition_variable.h | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/include/cocpp/sync/co_condition_variable.h b/include/cocpp/sync/co_condition_variable.h
index a73e38c..3cbe99c 100644
--- a/include/cocpp/sync/co_condition_variable.h
+++ b/include/cocpp/sync/co_condition_variable.h
@@ -69,22 +69,10 @@ void co_condition_variable_impl::wait(Lock &lock)
 template <typename Lock, typename Predicate>
 void co_condition_variable_impl::wait(Lock &lock, Predicate pred)
 {
-    CoPreemptGuard();
-    auto ctx = CoCurrentCtx();
-
-    do
+    while (!pred())
     {
-        {
-            std::scoped_lock lk(cv_lock__);
-            waiters__.push_back(ctx);
-            lock.unlock();
-            ctx->enter_wait_resource_state(this);
-        }
-
-        CoYield();
-
-        lock.lock();
-    } while (!pred());
+        wait(lock);
+    }
 }
 
 template <typename Lock, typename Clock, typename Duration>
-- 
2.43.0


From 7e78752e7f1a50e24f8c244bd5e92cca0a2cd36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:52 +0000
Subject: [PATCH 12/49] fix: do not lose the notification of
 notify_all_at_co_exit

The notification was sent after the coroutine had been marked as
finished. If it had to wait for the lock of the condition variable, the
coroutine was never scheduled again and the waiters were not woken up.
---
 include/cocpp/core/co_ctx.h                 | 1 +
 source/cocpp/core/co_ctx.cpp                | 1 +
 source/cocpp/sync/co_condition_variable.cpp | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cocpp/core/co_ctx.h b/include/cocpp/core/co_ctx.h
index 830e493..0f685b1 100644
--- a/include/cocpp/core/co_ctx.h
+++ b/include/cocpp/core/co_ctx.h
@@ -29,6 +29,7 @@ private:
 #endif
 #endif
 
+    RegCoEvent(exiting); // published by the coroutine itself, before it is finished
     RegCoEvent(finished);
     RegCoEvent(priority_changed, int, int);
 
diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index 33c5a53..9453b5a 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -72,6 +72,7 @@ void co_ctx::real_entry(co_ctx *ctx)
     {
         ctx->exception__ = current_exception();
     }
+    ctx->exiting().pub();
     CoPreemptGuard();
     // CO_DEBUG("ctx %s %p finished", ctx->config().name.c_str(), ctx);
     ctx->lock_finished_state();
diff --git a/source/cocpp/sync/co_condition_variable.cpp b/source/cocpp/sync/co_condition_variable.cpp
index 72a8e31..8938bb6 100644
--- a/source/cocpp/sync/co_condition_variable.cpp
+++ b/source/cocpp/sync/co_condition_variable.cpp
@@ -10,7 +10,8 @@ CO_NAMESPACE_BEGIN
 void notify_all_at_co_exit(co_condition_variable &cond)
 {
     auto ctx = CoCurrentCtx();
-    ctx->finished().sub([&]() {
+    // The notification may have to wait for a lock, which a finished coroutine can't do
+    ctx->exiting().sub([&]() {
         cond.notify_all();
     });
 }
-- 
2.43.0


From a5c3ddeb6fa04df354a105f574d011b15a26fc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:57:31 +0000
Subject: [PATCH 13/49] fix: judge every timed wait on a condition variable on
 its own

The timeout flag belonged to the condition variable and was never reset,
so all later waits reported a timeout. The timer was started before the
wait was registered and could expire unnoticed, its callback could run
after the wait was over, the scheduling lock was held while the user's
lock was acquired, and a predicate that was already true was not checked.
---
 include/cocpp/sync/co_condition_variable.h | 70 +++++++++++-----------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/include/cocpp/sync/co_condition_variable.h b/include/cocpp/sync/co_condition_variable.h
index 3cbe99c..a484f93 100644
--- a/include/cocpp/sync/co_condition_variable.h
+++ b/include/cocpp/sync/co_condition_variable.h
@@ -11,6 +11,7 @@ _Pragma("once");
 
 #include <chrono>
 #include <list>
+#include <memory>
 #include <mutex>
 
 CO_NAMESPACE_BEGIN
@@ -28,7 +29,13 @@ class co_condition_variable_impl final : private co_noncopyable
 private:
     mutable co_spinlock cv_lock__;
     std::list<co_ctx *> waiters__;
-    bool timeout__ {false};
+
+    struct timed_wait_state
+    {
+        co_spinlock lock;
+        bool finished {false};
+        bool timeout {false};
+    };
 
 public:
     template <typename Lock>
@@ -78,30 +85,41 @@ void co_condition_variable_impl::wait(Lock &lock, Predicate pred)
 template <typename Lock, typename Clock, typename Duration>
 bool co_condition_variable_impl::wait_until(Lock &lock, const std::chrono::time_point<Clock, Duration> &abs_time)
 {
-    CoScheduleGuard();
+    CoPreemptGuard();
     auto ctx = CoCurrentCtx();
+    // The expire callback can still run after this wait is over, so it shares this state with the wait
+    auto state = std::make_shared<timed_wait_state>();
 
-    auto timer = co_timer::create([this, ctx] {
+    auto timer = co_timer::create([this, ctx, state] {
+        std::scoped_lock state_lk(state->lock);
+        if (state->finished)
+        {
+            return;
+        }
         std::scoped_lock lk(cv_lock__);
-        waiters__.remove(ctx);
-        timeout__ = true;
-        ctx->leave_wait_resource_state(this);
+        if (waiters__.remove(ctx) != 0)
+        {
+            state->timeout = true;
+            ctx->leave_wait_resource_state(this);
+        }
     },
                                   abs_time);
-    timer->start();
     {
         std::scoped_lock lk(cv_lock__);
 
         waiters__.push_back(ctx);
         lock.unlock();
         ctx->enter_wait_resource_state(this);
+        timer->start();
     }
-    CoUnlockSchedule();
     CoYield();
-    CoLockSchedule();
-    lock.lock();
     timer->stop();
-    return !timeout__;
+    {
+        std::scoped_lock state_lk(state->lock);
+        state->finished = true;
+    }
+    lock.lock();
+    return !state->timeout;
 }
 
 template <typename Lock, typename Clock, typename Duration>
@@ -114,34 +132,14 @@ template <typename Lock, typename Clock, typename Duration, typename Predicate>
 bool co_condition_variable_impl::wait_until(Lock &lock, const std::chrono::time_point<Clock, Duration> &abs_time,
                                             Predicate pred)
 {
-    CoScheduleGuard();
-    auto ctx = CoCurrentCtx();
-    auto timer = co_timer::create([this, ctx] {
-        std::scoped_lock lk(cv_lock__);
-        waiters__.remove(ctx);
-        timeout__ = true;
-        ctx->leave_wait_resource_state(this);
-    },
-                                  abs_time);
-    timer->start();
-    do
+    while (!pred())
     {
+        if (!wait_until(lock, abs_time))
         {
-            std::scoped_lock lk(cv_lock__);
-
-            waiters__.push_back(ctx);
-            lock.unlock();
-            ctx->enter_wait_resource_state(this);
+            return pred();
         }
-        CoUnlockSchedule();
-        CoYield();
-        CoLockSchedule();
-        lock.lock();
-    } while (!timeout__ && !pred());
-
-    timer->stop();
-
-    return !timeout__ && pred();
+    }
+    return true;
 }
 
 template <typename Lock, typename Clock, typename Duration, typename Predicate>
-- 
2.43.0


From 1d52b75a0ecb4d22da6c0635555954d4272b5ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:24 +0000
Subject: [PATCH 14/49] fix: complete barrier phases by arrivals and make
 arrive_and_drop drop

A phase ended when the arrived ones had waited, so arrive() without wait()
and arrive_and_drop() blocked all others, arrive_and_drop() did not lower
the expected count, a wait after the end of its phase failed, and the
generation was not initialised.
---
 include/cocpp/sync/co_barrier.h  |  5 ++--
 source/cocpp/sync/co_barrier.cpp | 47 ++++++++++++++++++--------------
 2 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/include/cocpp/sync/co_barrier.h b/include/cocpp/sync/co_barrier.h
index ac20e09..36732ee 100644
--- a/include/cocpp/sync/co_barrier.h
+++ b/include/cocpp/sync/co_barrier.h
@@ -21,11 +21,12 @@ class co_barrier final : private co_noncopyable
 private:
     std::atomic<std::ptrdiff_t> expected__;
     std::atomic<std::ptrdiff_t> generation__;
-    std::atomic<std::ptrdiff_t> count__;
-    const std::ptrdiff_t max__;
+    std::ptrdiff_t max__;
     co_mutex mutex__;
     co_condition_variable cond__;
 
+    co_arrival_token arrive__(std::ptrdiff_t n);
+
 public:
     explicit co_barrier(std::ptrdiff_t expected);
     co_arrival_token arrive(std::ptrdiff_t n = 1);
diff --git a/source/cocpp/sync/co_barrier.cpp b/source/cocpp/sync/co_barrier.cpp
index f3815cc..a693d56 100644
--- a/source/cocpp/sync/co_barrier.cpp
+++ b/source/cocpp/sync/co_barrier.cpp
@@ -6,45 +6,46 @@ CO_NAMESPACE_BEGIN
 
 co_barrier::co_barrier(ptrdiff_t expected)
     : expected__(expected)
-    , count__(expected)
+    , generation__(0)
     , max__(expected)
 {
 }
 
-co_arrival_token co_barrier::arrive(ptrdiff_t n)
+co_arrival_token co_barrier::arrive__(ptrdiff_t n)
 {
-    scoped_lock lock(mutex__);
     if (expected__ - n < 0)
     {
         throw logic_error("co_barrier::arrive: count < 0");
     }
-    expected__ -= n;
-    return co_arrival_token {
+    co_arrival_token token {
         .generation__ = generation__,
         .barrier__ = this,
         .n__ = n};
+    expected__ -= n;
+    if (expected__ == 0)
+    {
+        generation__++;
+        expected__ = max__;
+        cond__.notify_all();
+    }
+    return token;
+}
+
+co_arrival_token co_barrier::arrive(ptrdiff_t n)
+{
+    scoped_lock lock(mutex__);
+    return arrive__(n);
 }
 
 void co_barrier::wait(co_arrival_token &&arrival)
 {
     unique_lock lock(mutex__);
-    if (arrival.generation__ != generation__ || arrival.barrier__ != this)
+    if (arrival.generation__ > generation__ || arrival.barrier__ != this)
     {
         throw logic_error("co_barrier::wait: invalid token");
     }
-    if (count__ - arrival.n__ < 0)
-    {
-        throw logic_error("co_barrier::wait: count < 0");
-    }
-    count__ -= arrival.n__;
-    if (count__ == 0)
-    {
-        generation__++;
-        count__ = max__;
-        expected__ = max__;
-        cond__.notify_all();
-    }
-    else
+    // The phase of the token may be over already
+    while (arrival.generation__ == generation__)
     {
         cond__.wait(lock);
     }
@@ -57,7 +58,13 @@ void co_barrier::arrive_and_wait()
 
 void co_barrier::arrive_and_drop()
 {
-    arrive();
+    scoped_lock lock(mutex__);
+    if (expected__ == 0)
+    {
+        throw logic_error("co_barrier::arrive_and_drop: count < 0");
+    }
+    --max__;
+    arrive__(1);
 }
 
 CO_NAMESPACE_END
\ No newline at end of file
-- 
2.43.0


From b67f73e1742f84e2fe1ff05961a376fed3574107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:05 +0000
Subject: [PATCH 15/49] fix: let co_call_once wait until the function was
 completed

Other callers returned while the function was still running, and a
function that threw counted as completed.
---
 include/cocpp/sync/co_call_once.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/cocpp/sync/co_call_once.h b/include/cocpp/sync/co_call_once.h
index 92101d1..0db0fb0 100644
--- a/include/cocpp/sync/co_call_once.h
+++ b/include/cocpp/sync/co_call_once.h
@@ -2,9 +2,11 @@ _Pragma("once");
 #include "cocpp/core/co_define.h"
 #include "cocpp/core/co_env.h"
 #include "cocpp/core/co_manager.h"
+#include "cocpp/sync/co_mutex.h"
 #include "cocpp/utils/co_noncopyable.h"
 #include <atomic>
 #include <functional>
+#include <mutex>
 
 CO_NAMESPACE_BEGIN
 
@@ -12,16 +14,21 @@ class co_once_flag : private co_noncopyable
 {
 public:
     std::atomic<bool> flag__ {false};
+    co_mutex mutex__; // held while the function runs
 };
 
 template <class Callable, class... Args>
 void co_call_once(co_once_flag &flag, Callable &&f, Args &&...args)
 {
-    CoPreemptGuard();
-    bool key = false;
-    if (flag.flag__.compare_exchange_strong(key, true))
+    if (flag.flag__)
+    {
+        return;
+    }
+    std::scoped_lock lock(flag.mutex__);
+    if (!flag.flag__)
     {
         std::invoke(std::forward<Callable>(f), std::forward<Args>(args)...);
+        flag.flag__ = true;
     }
 }
 
-- 
2.43.0


From 056d5e4d0efbce4ca7eca6c5d7db61f7a3fd0c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:18 +0000
Subject: [PATCH 16/49] fix: let several producers use an unbuffered channel

A push that found another value in the channel waited until the channel
was closed, a push could return before its value was taken, and a push
whose value was never taken because of close() returned true.
---
 include/cocpp/event/co_chan.h | 49 ++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/include/cocpp/event/co_chan.h b/include/cocpp/event/co_chan.h
index ba6d781..b48bddc 100644
--- a/include/cocpp/event/co_chan.h
+++ b/include/cocpp/event/co_chan.h
@@ -24,6 +24,8 @@ private:
         std::shared_ptr<co_condition_variable> cv_full__ = {std::make_shared<co_condition_variable>()};
         std::shared_ptr<co_condition_variable> cv_empty__ = {std::make_shared<co_condition_variable>()};
 
+        virtual void value_popped__();
+
     public:
         std::optional<ValueType> pop();
         void close();
@@ -58,6 +60,12 @@ private:
 
     class sync_chan final : public chan_base
     {
+    private:
+        size_t pushed_count__ {0};
+        size_t popped_count__ {0};
+
+        void value_popped__() override;
+
     public:
         bool push(ValueType value) override;
         int max_size() const override;
@@ -206,25 +214,28 @@ bool co_chan<ValueType>::sync_chan::push(ValueType value)
     {
         return false;
     }
-    auto max_size = 1;
 
-    if (chan_base::data__->size() == static_cast<size_t>(max_size))
+    chan_base::cv_full__->wait(lock, [this] {
+        return *chan_base::closed__ || chan_base::data__->empty();
+    });
+    if (*chan_base::closed__)
     {
-        chan_base::cv_full__->wait(lock, [this] {
-            return *chan_base::closed__;
-        });
-        if (*chan_base::closed__)
-        {
-            return false;
-        }
+        return false;
     }
 
     chan_base::data__->push_back(value);
+    auto number = ++pushed_count__;
     chan_base::cv_empty__->notify_one();
 
-    chan_base::cv_full__->wait(lock, [this] {
-        return *chan_base::closed__ || chan_base::data__->empty();
+    chan_base::cv_full__->wait(lock, [this, number] {
+        return *chan_base::closed__ || popped_count__ >= number;
     });
+    if (popped_count__ < number)
+    {
+        // Closed before the value was taken
+        chan_base::data__->clear();
+        return false;
+    }
 
     return true;
 }
@@ -258,10 +269,24 @@ std::optional<ValueType> co_chan<ValueType>::chan_base::pop()
 
     ret = data__->front();
     data__->pop_front();
-    cv_full__->notify_one();
+    value_popped__();
     return ret;
 }
 
+template <std::copyable ValueType>
+void co_chan<ValueType>::chan_base::value_popped__()
+{
+    cv_full__->notify_one();
+}
+
+template <std::copyable ValueType>
+void co_chan<ValueType>::sync_chan::value_popped__()
+{
+    ++popped_count__;
+    // The one whose value was taken and those that wait to push the next one wait here
+    chan_base::cv_full__->notify_all();
+}
+
 template <std::copyable ValueType>
 std::optional<ValueType> co_chan<ValueType>::pop()
 {
-- 
2.43.0


From 1b3b5812427d960f2eb468074aa8908322c6d993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:14 +0000
Subject: [PATCH 17/49] fix: deliver the exception of a coroutine to one waiter
 only

Two waiters on different threads could both see the stored exception and
both rethrow it. It is now taken under the lock of the coroutine.
---
 source/cocpp/core/co_ctx.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index 9453b5a..5f61b77 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -131,10 +131,14 @@ void co_ctx::unset_flag(size_t flag)
 
 void co_ctx::check_and_rethrow_exception()
 {
-    if (exception__)
+    exception_ptr e;
+    {
+        // Several waiters may arrive here at the same time
+        scoped_lock lock(finish_lock__);
+        swap(e, exception__); // 仅第一次抛出异常
+    }
+    if (e)
     {
-        auto e = exception__;
-        exception__ = nullptr; // 仅第一次抛出异常
         rethrow_exception(e);
     }
 }
-- 
2.43.0


From a2938cb7c05ffdc8857ae05efd3ab98e99e701e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:28 +0000
Subject: [PATCH 18/49] fix: make timed waits for a coroutine precise and safe

The timeout was truncated to milliseconds, a negative one became huge, and
the expiry callback could touch a coroutine that was already destroyed.
The wait now has a deadline, and its state is shared with the timer and the
finish event so that only one of them wakes up the waiter.
---
 source/cocpp/core/co_env.cpp | 38 ++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index b4d220c..cd52e71 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -112,29 +112,41 @@ optional<co_return_value> co_env::wait_ctx(co_ctx *ctx, const chrono::nanosecond
 
     optional<co_return_value> ret;
 
+    auto now = chrono::steady_clock::now();
+    auto deadline = timeout < chrono::steady_clock::time_point::max() - now ? now + timeout : chrono::steady_clock::time_point::max();
+
     ctx->lock_finished_state();
     lock_schedule();
     auto curr_ctx = current_ctx();
     if (ctx->state() != co_state::finished)
     {
-        auto timer = co_timer::create(
-            nullptr,
-            co_expire_type::once, chrono::duration_cast<chrono::milliseconds>(timeout).count());
-        auto timer_id = timer.get();
-        curr_ctx->enter_wait_resource_state(timer_id);
-        auto handle = ctx->finished().sub([curr_ctx, timer, timer_id] {
-            timer->stop(); // Handle delete callbacks first and wake up later to prevent timing problems
-            curr_ctx->leave_wait_resource_state(timer_id);
-        });
-        timer->set_expire_callback([curr_ctx, ctx, handle, timer_id] {
-            ctx->finished().unsub(handle); // Unsubscribe before wake up to prevent timing problems
-            curr_ctx->leave_wait_resource_state(timer_id);
-        });
+        // Either the timer or the finished event wakes up this wait, the other one must not touch it any more
+        struct wait_state
+        {
+            mutex mu;
+            bool waked_up {false};
+        };
+        auto state = make_shared<wait_state>();
+        auto wake_up = [curr_ctx, state] {
+            scoped_lock lock(state->mu);
+            if (!state->waked_up)
+            {
+                state->waked_up = true;
+                curr_ctx->leave_wait_resource_state(state.get());
+            }
+        };
+        auto timer = co_timer::create(wake_up, deadline);
+        curr_ctx->enter_wait_resource_state(state.get());
+        auto handle = ctx->finished().sub(wake_up);
         timer->start();
 
         unlock_schedule();
         ctx->unlock_finished_state();
         schedule_switch();
+
+        CoPreemptGuard();
+        timer->stop();
+        ctx->finished().unsub(handle);
     }
     else
     {
-- 
2.43.0


From ad5da944617360a8b26bb3de13ed330975618f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:52 +0000
Subject: [PATCH 19/49] fix: do not let a timer appear stopped while it is
 reset

reset() stopped and started the timer without keeping its lock, so that a
running loop timer looked stopped for a moment whenever it expired.
---
 source/cocpp/core/co_timer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index e34f274..75cc1ab 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -83,6 +83,9 @@ void co_timer::stop()
 
 void co_timer::reset()
 {
+    // Nobody may see the timer stopped in between
+    scoped_lock queue_lock(co_manager::instance()->mu_timer_queue__);
+    scoped_lock lock(mutex__);
     stop();
     start();
 }
-- 
2.43.0


From 4614d597c88805b87a24842739a590cb295e0f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:54 +0000
Subject: [PATCH 20/49] fix: an idle exclusive env is not chosen for unbound
 coroutines

---
 source/cocpp/core/co_manager.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 8ed1e80..31ef06d 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -33,6 +33,11 @@ co_env *co_manager::get_best_env__()
     size_t can_schedule_env_count = 0;
     for (auto &&env : env_set__.normal_set)
     {
+        // 独占的env不参与调度
+        if (env->test_flag(CO_ENV_FLAG_EXCLUSIVE))
+        {
+            continue;
+        }
         if (env->state() == co_env_state::idle)
         {
             return env;
@@ -41,11 +46,6 @@ co_env *co_manager::get_best_env__()
         {
             continue;
         }
-        // 独占的env不参与调度
-        if (env->test_flag(CO_ENV_FLAG_EXCLUSIVE))
-        {
-            continue;
-        }
         // 统计可用于调度的env数量
         ++can_schedule_env_count;
         if (env->workload() < min_workload)
-- 
2.43.0


From 4ea8d96cafea2a1912862c0fe7ef80cc6fa36009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:23:20 +0000
Subject: [PATCH 21/49] fix: align the stack of a coroutine whose stack size is
 not a multiple of 16

---
 source/cocpp/core/co_vos_gcc_x86_64.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/core/co_vos_gcc_x86_64.cpp b/source/cocpp/core/co_vos_gcc_x86_64.cpp
index 1552d78..e3b7a49 100644
--- a/source/cocpp/core/co_vos_gcc_x86_64.cpp
+++ b/source/cocpp/core/co_vos_gcc_x86_64.cpp
@@ -98,8 +98,10 @@ __attribute__((naked)) void switch_to(co_byte **curr, co_byte **next)
 void init_ctx(co_stack *stack, co_ctx *ctx)
 {
     auto context = get_sigcontext_64(ctx);
-    CO_SETREG(context, sp, stack->stack_top() - 8);
-    CO_SETREG(context, bp, stack->stack_top() - 8);
+    // The ABI needs an aligned stack, whatever its size is
+    auto stack_top = reinterpret_cast<co_byte *>(reinterpret_cast<unsigned long long>(stack->stack_top()) & ~15ULL);
+    CO_SETREG(context, sp, stack_top - 8);
+    CO_SETREG(context, bp, stack_top - 8);
     CO_SETREG(context, ip, &co_ctx::real_entry);
     CO_SETREG(context, di, ctx);
     // Store the address of '_start' at the bottom of the stack to prevent segment fault in case of exception backtracking of the call chain
-- 
2.43.0


From fe5d253361fdfa4677b199235de65ffd1214a731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:57 +0000
Subject: [PATCH 22/49] fix: an interrupted coroutine keeps its floating point
 registers and the data below its stack pointer

---
 source/cocpp/core/co_vos_gcc_x86_64.cpp | 47 +++++++++----------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/source/cocpp/core/co_vos_gcc_x86_64.cpp b/source/cocpp/core/co_vos_gcc_x86_64.cpp
index e3b7a49..4064058 100644
--- a/source/cocpp/core/co_vos_gcc_x86_64.cpp
+++ b/source/cocpp/core/co_vos_gcc_x86_64.cpp
@@ -8,6 +8,7 @@
 #include "cocpp/exception/co_exception.h"
 #include "cocpp/utils/co_defer.h"
 
+#include <cerrno>
 #include <cstddef>
 #include <cstdio>
 #include <cstdlib>
@@ -127,43 +128,27 @@ void send_switch_from_outside_signal(co_env *env)
     }
 }
 
-static void save_context_to_ctx(sigcontext_64 *context, co_ctx *ctx)
-{
-    *reinterpret_cast<sigcontext_64 *>(ctx->regs()) = *context;
-    // printf("rip: 0x%llx\n", context->ip);
-    // printf("rsp: 0x%llx\n", context->sp);
-    // printf("rbp: 0x%llx\n", context->bp);
-    // print_backtrace();
-}
-
-static void restore_context_from_ctx(sigcontext_64 *context, co_ctx *ctx)
-{
-    *context = *reinterpret_cast<sigcontext_64 *>(ctx->regs());
-}
-
 void switch_from_outside(sigcontext_64 *context)
 {
     auto env = CoCurrentEnv();
 
-    co_ctx *curr = nullptr;
-    co_ctx *next = nullptr;
+    if (!env->can_force_schedule())
     {
-        if (!env->can_force_schedule())
-        {
-            return;
-        }
-        if (!env->try_lock_schedule())
-        {
-            return;
-        }
-        CoDefer(env->unlock_schedule());
-        if (!env->prepare_to_switch(curr, next))
-        {
-            return;
-        }
+        return;
     }
-    save_context_to_ctx(context, curr);
-    restore_context_from_ctx(context, next);
+
+    // The signal frame stays on the stack of the interrupted coroutine and holds its complete state
+    // (floating point registers too), which is restored when the coroutine is scheduled again and
+    // this handler returns. Until then the other coroutines must be interruptible.
+    auto old_errno = errno;
+    sigset_t switch_signal;
+    sigemptyset(&switch_signal);
+    sigaddset(&switch_signal, CO_SWITCH_SIGNAL);
+    pthread_sigmask(SIG_UNBLOCK, &switch_signal, nullptr);
+
+    env->schedule_switch();
+
+    errno = old_errno;
 }
 
 bool set_mem_dontneed(void *ptr, size_t size)
-- 
2.43.0


From 4af063dc6487e9edfd5e072199f840bb80367e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:29:47 +0000
Subject: [PATCH 23/49] fix: coroutines stay interruptible after another one of
 their env ended or waits

---
 include/cocpp/core/co_env.h  |  2 ++
 source/cocpp/core/co_ctx.cpp |  2 ++
 source/cocpp/core/co_env.cpp | 21 ++++++++++++++++-----
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/cocpp/core/co_env.h b/include/cocpp/core/co_env.h
index e06ed40..ad08438 100644
--- a/include/cocpp/core/co_env.h
+++ b/include/cocpp/core/co_env.h
@@ -24,6 +24,7 @@ class co_recursive_mutex_with_count final : public std::recursive_mutex
 {
 private:
     std::atomic<long long int> count__;
+    std::atomic<long long int> preempt_count__ {0}; // guards of the running coroutine, only changed by the thread of the env
 
 public:
     using std::recursive_mutex::recursive_mutex;
@@ -33,6 +34,7 @@ public:
     long long int count() const;
     void increate_count();
     void decreate_count();
+    long long int exchange_preempt_count(long long int count);
 };
 
 class co_preempt_guard final : private co_noncopyable
diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index 5f61b77..964cd93 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -64,6 +64,8 @@ function<void(co_any &)> co_ctx::entry() const
 
 void co_ctx::real_entry(co_ctx *ctx)
 {
+    // The switch to this coroutine is complete
+    CoEnablePreempt();
     try
     {
         ctx->entry()(ctx->ret_ref());
diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index cd52e71..788827a 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -317,9 +317,13 @@ void co_env::switch_normal_ctx__()
         return;
     }
 
+    // The preempt guards belong to the coroutine and do not apply while it is suspended.
+    // No interruption until the switch is complete, which is when the next coroutine continues.
+    auto preempt_count = schedule_lock__.exchange_preempt_count(1);
     unlock_schedule();
     switch_to(curr->regs(), next->regs());
     lock_schedule();
+    schedule_lock__.exchange_preempt_count(preempt_count);
 }
 
 void co_env::schedule_switch()
@@ -398,9 +402,11 @@ void co_env::switch_shared_stack_ctx__()
 
     // 切换到to
 
+    auto preempt_count = schedule_lock__.exchange_preempt_count(1);
     unlock_schedule();
     switch_to(idle_ctx__->regs(), shared_stack_switch_info__.to->regs());
     lock_schedule();
+    schedule_lock__.exchange_preempt_count(preempt_count);
 }
 
 void co_env::start_schedule_routine__()
@@ -813,19 +819,24 @@ bool co_recursive_mutex_with_count::try_lock()
 
 long long int co_recursive_mutex_with_count::count() const
 {
-    return count__;
+    return count__ + preempt_count__;
 }
 
 void co_recursive_mutex_with_count::increate_count()
 {
-    ++count__;
-    assert(count__ > 0);
+    ++preempt_count__;
+    assert(preempt_count__ > 0);
 }
 
 void co_recursive_mutex_with_count::decreate_count()
 {
-    --count__;
-    assert(count__ >= 0);
+    --preempt_count__;
+    assert(preempt_count__ >= 0);
+}
+
+long long int co_recursive_mutex_with_count::exchange_preempt_count(long long int count)
+{
+    return preempt_count__.exchange(count);
 }
 
 co_schedule_guard::co_schedule_guard(co_recursive_mutex_with_count &lk)
-- 
2.43.0


From 67728d38c6146d01fae4bd57bf8a3aaaa219aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:30:15 +0000
Subject: [PATCH 24/49] fix: a suspended coroutine keeps the exceptions it is
 handling

---
 include/cocpp/core/co_vos.h             |  9 +++++++++
 source/cocpp/core/co_ctx.cpp            |  2 ++
 source/cocpp/core/co_env.cpp            |  5 +++++
 source/cocpp/core/co_vos_gcc_x86_64.cpp | 11 +++++++++++
 4 files changed, 27 insertions(+)

diff --git a/include/cocpp/core/co_vos.h b/include/cocpp/core/co_vos.h
index 3871055..d50119a 100644
--- a/include/cocpp/core/co_vos.h
+++ b/include/cocpp/core/co_vos.h
@@ -17,6 +17,15 @@ co_tid gettid();
 co_pid getpid();
 void send_switch_from_outside_signal(co_env *env);
 void switch_from_outside(sigcontext_64 *context);
+
+// The exceptions that are being thrown and handled, which the C++ runtime keeps per thread
+struct co_eh_state
+{
+    void *caught_exceptions {nullptr};
+    unsigned int uncaught_exceptions {0};
+};
+co_eh_state get_eh_state();
+void set_eh_state(const co_eh_state &state);
 bool set_mem_dontneed(void *ptr, size_t size);
 void *alloc_mem_by_mmap(size_t size);
 bool free_mem_by_munmap(void *ptr, size_t size);
diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index 964cd93..b1a6fc1 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -64,6 +64,8 @@ function<void(co_any &)> co_ctx::entry() const
 
 void co_ctx::real_entry(co_ctx *ctx)
 {
+    // A new coroutine handles no exceptions
+    set_eh_state({});
     // The switch to this coroutine is complete
     CoEnablePreempt();
     try
diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 788827a..830d0c2 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -320,9 +320,12 @@ void co_env::switch_normal_ctx__()
     // The preempt guards belong to the coroutine and do not apply while it is suspended.
     // No interruption until the switch is complete, which is when the next coroutine continues.
     auto preempt_count = schedule_lock__.exchange_preempt_count(1);
+    // The same holds for the exceptions it is handling
+    auto eh_state = get_eh_state();
     unlock_schedule();
     switch_to(curr->regs(), next->regs());
     lock_schedule();
+    set_eh_state(eh_state);
     schedule_lock__.exchange_preempt_count(preempt_count);
 }
 
@@ -403,9 +406,11 @@ void co_env::switch_shared_stack_ctx__()
     // 切换到to
 
     auto preempt_count = schedule_lock__.exchange_preempt_count(1);
+    auto eh_state = get_eh_state();
     unlock_schedule();
     switch_to(idle_ctx__->regs(), shared_stack_switch_info__.to->regs());
     lock_schedule();
+    set_eh_state(eh_state);
     schedule_lock__.exchange_preempt_count(preempt_count);
 }
 
diff --git a/source/cocpp/core/co_vos_gcc_x86_64.cpp b/source/cocpp/core/co_vos_gcc_x86_64.cpp
index 4064058..cea305e 100644
--- a/source/cocpp/core/co_vos_gcc_x86_64.cpp
+++ b/source/cocpp/core/co_vos_gcc_x86_64.cpp
@@ -12,6 +12,7 @@
 #include <cstddef>
 #include <cstdio>
 #include <cstdlib>
+#include <cxxabi.h>
 #include <fstream>
 #include <iterator>
 #include <signal.h>
@@ -151,6 +152,16 @@ void switch_from_outside(sigcontext_64 *context)
     errno = old_errno;
 }
 
+co_eh_state get_eh_state()
+{
+    return *reinterpret_cast<co_eh_state *>(abi::__cxa_get_globals());
+}
+
+void set_eh_state(const co_eh_state &state)
+{
+    *reinterpret_cast<co_eh_state *>(abi::__cxa_get_globals()) = state;
+}
+
 bool set_mem_dontneed(void *ptr, size_t size)
 {
     return madvise(ptr, size, MADV_DONTNEED) == 0;
-- 
2.43.0


From 27e1f62e185799dd16ff18ce62c0b1cef29d6852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:31:44 +0000
Subject: [PATCH 25/49] fix: coroutines keep their floating point control words

---
 source/cocpp/core/co_vos_gcc_x86_64.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/cocpp/core/co_vos_gcc_x86_64.cpp b/source/cocpp/core/co_vos_gcc_x86_64.cpp
index cea305e..c0b1cb8 100644
--- a/source/cocpp/core/co_vos_gcc_x86_64.cpp
+++ b/source/cocpp/core/co_vos_gcc_x86_64.cpp
@@ -65,6 +65,9 @@ __attribute__((naked)) void switch_to(co_byte **curr, co_byte **next)
     __asm volatile("popq 128(%rdi)");
     __asm volatile("pushf");
     __asm volatile("popq 136(%rdi)");
+    // The floating point control words are preserved across function calls
+    __asm volatile("stmxcsr 144(%rdi)");
+    __asm volatile("fnstcw 148(%rdi)");
 
     __asm volatile("movq %rdi, 256(%rsi)"); // 32*8=256 ，放在reg后面一个字段
 
@@ -72,6 +75,8 @@ __attribute__((naked)) void switch_to(co_byte **curr, co_byte **next)
     /////////////////////////////////////////////////
     __asm volatile("movq 120(%rsi), %rsp");
 
+    __asm volatile("ldmxcsr 144(%rsi)");
+    __asm volatile("fldcw 148(%rsi)");
     __asm volatile("pushq 136(%rsi)");
     __asm volatile("popf");
     __asm volatile("pushq 128(%rsi)");
@@ -106,6 +111,8 @@ void init_ctx(co_stack *stack, co_ctx *ctx)
     CO_SETREG(context, bp, stack_top - 8);
     CO_SETREG(context, ip, &co_ctx::real_entry);
     CO_SETREG(context, di, ctx);
+    // Default floating point control words, see switch_to
+    ctx->regs()[18] = reinterpret_cast<co_byte *>((0x037fULL << 32) | 0x1f80);
     // Store the address of '_start' at the bottom of the stack to prevent segment fault in case of exception backtracking of the call chain
     *reinterpret_cast<void **>(context->sp) = reinterpret_cast<void *>(&::_start);
 }
-- 
2.43.0


From 32d4525b214d046ad41e04e98d8bf565f5f0efee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:40:22 +0000
Subject: [PATCH 26/49] fix: do not interrupt a coroutine while it schedules,
 creates, waits, sets timers or priorities

---
 source/cocpp/core/co_ctx.cpp     | 8 ++++++++
 source/cocpp/core/co_env.cpp     | 5 ++++-
 source/cocpp/core/co_manager.cpp | 1 +
 source/cocpp/core/co_timer.cpp   | 8 ++++++++
 4 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index b1a6fc1..649926d 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -13,6 +13,7 @@
 #include <cassert>
 #include <exception>
 #include <mutex>
+#include <optional>
 #include <sstream>
 
 using namespace std;
@@ -89,6 +90,7 @@ void co_ctx::real_entry(co_ctx *ctx)
 
 size_t co_ctx::priority() const
 {
+    CoPreemptGuard();
     scoped_lock lock(priority_lock__);
     return priority__;
 }
@@ -99,6 +101,11 @@ void co_ctx::set_priority(int priority)
     {
         return;
     }
+    optional<co_preempt_guard> guard;
+    if (env__ != nullptr) // 首次调用的时候env为空
+    {
+        guard.emplace(CoCurrentEnv()->schedule_lock());
+    }
     unique_lock lock(priority_lock__);
     int old_priority = priority__;
     if (priority >= CO_MAX_PRIORITY)
@@ -164,6 +171,7 @@ void co_ctx::lock_destroy()
 
 void co_ctx::unlock_destroy()
 {
+    CoPreemptGuard();
     unset_flag(CO_CTX_FLAG_LOCKED);
 }
 
diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 830d0c2..982a1a4 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -100,6 +100,7 @@ void co_env::move_ctx_to_here(co_ctx *ctx)
 
 optional<co_return_value> co_env::wait_ctx(co_ctx *ctx, const chrono::nanoseconds &timeout)
 {
+    CoPreemptGuard();
     if (curr_ctx__ == ctx)
     {
         throw std::runtime_error("can't wait self");
@@ -144,7 +145,6 @@ optional<co_return_value> co_env::wait_ctx(co_ctx *ctx, const chrono::nanosecond
         ctx->unlock_finished_state();
         schedule_switch();
 
-        CoPreemptGuard();
         timer->stop();
         ctx->finished().unsub(handle);
     }
@@ -167,6 +167,7 @@ optional<co_return_value> co_env::wait_ctx(co_ctx *ctx, const chrono::nanosecond
 
 co_return_value co_env::wait_ctx(co_ctx *ctx)
 {
+    CoPreemptGuard();
     if (curr_ctx__ == ctx)
     {
         throw std::runtime_error("can't wait self");
@@ -331,6 +332,8 @@ void co_env::switch_normal_ctx__()
 
 void co_env::schedule_switch()
 {
+    // The scheduling lock is released in between, but this must not be interrupted
+    co_preempt_guard guard(schedule_lock__);
     lock_schedule();
     CoDefer(unlock_schedule());
     // A coroutine that was just started still points to the coroutine that ran before it,
diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 31ef06d..236bc0e 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -422,6 +422,7 @@ void co_manager::wait_background_task__()
 
 co_ctx *co_manager::create_and_schedule_ctx(const co_ctx_config &config, function<void(co_any &)> entry, bool lock_destroy)
 {
+    CoPreemptGuard();
     auto ctx = co_ctx_factory::create_ctx(config, entry);
     subscribe_ctx_event__(ctx);
     if (lock_destroy)
diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index 75cc1ab..39b74b2 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -1,4 +1,6 @@
 #include "cocpp/core/co_timer.h"
+#include "cocpp/core/co_define.h"
+#include "cocpp/core/co_env.h"
 #include "cocpp/core/co_manager.h"
 
 #include <sstream>
@@ -50,12 +52,14 @@ co_timer_handle co_timer::get_handle() const
 
 bool co_timer::is_running() const
 {
+    CoPreemptGuard();
     scoped_lock lock(mutex__);
     return status__ == co_timer_status::running;
 }
 
 void co_timer::start()
 {
+    CoPreemptGuard();
     // The timer routine locks the queue before it locks a timer, use the same order here
     scoped_lock queue_lock(co_manager::instance()->mu_timer_queue__);
     scoped_lock lock(mutex__);
@@ -70,6 +74,7 @@ void co_timer::start()
 
 void co_timer::stop()
 {
+    CoPreemptGuard();
     scoped_lock queue_lock(co_manager::instance()->mu_timer_queue__);
     scoped_lock lock(mutex__);
     if (status__ == co_timer_status::stopped)
@@ -83,6 +88,7 @@ void co_timer::stop()
 
 void co_timer::reset()
 {
+    CoPreemptGuard();
     // Nobody may see the timer stopped in between
     scoped_lock queue_lock(co_manager::instance()->mu_timer_queue__);
     scoped_lock lock(mutex__);
@@ -129,6 +135,7 @@ void co_timer::run() const
 {
     function<void()> callback;
     {
+        CoPreemptGuard();
         scoped_lock lock(mutex__);
         callback = callback__;
     }
@@ -154,6 +161,7 @@ bool operator<(const shared_ptr<co_timer> &lhs, const shared_ptr<co_timer> &rhs)
 
 function<void()> co_timer::set_expire_callback(const function<void()> &func)
 {
+    CoPreemptGuard();
     scoped_lock lock(mutex__);
     auto old_cb = callback__;
     callback__ = func;
-- 
2.43.0


From a9f6d0b1ab5c668653f88a266a1e88a0fdfcedc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:52:58 +0000
Subject: [PATCH 27/49] fix: callbacks of an event may unsubscribe themselves

Unsubscribing the running callback destroyed it and the position in the
list. A callback that subscribed was called in the same publication.
---
 include/cocpp/event/co_event.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/cocpp/event/co_event.h b/include/cocpp/event/co_event.h
index 2e7167e..4efc37d 100644
--- a/include/cocpp/event/co_event.h
+++ b/include/cocpp/event/co_event.h
@@ -7,6 +7,7 @@ _Pragma("once");
 #include <concepts>
 #include <functional>
 #include <map>
+#include <memory>
 #include <mutex>
 
 CO_NAMESPACE_BEGIN
@@ -17,7 +18,7 @@ template <std::copyable... Args>
 class co_event final : private co_noncopyable
 {
 private:
-    std::map<int, std::function<void(Args... args)> > cb_list__;
+    std::map<co_event_handle, std::shared_ptr<std::function<void(Args... args)> > > cb_list__;
     mutable std::recursive_mutex mu_cb_list__;
     co_event_handle current_handler__ {0};
 
@@ -31,7 +32,7 @@ template <std::copyable... Args>
 co_event_handle co_event<Args...>::sub(std::function<void(Args... args)> cb)
 {
     std::scoped_lock lck(mu_cb_list__);
-    cb_list__[current_handler__] = cb;
+    cb_list__[current_handler__] = std::make_shared<std::function<void(Args... args)> >(std::move(cb));
     return current_handler__++;
 }
 
@@ -46,9 +47,13 @@ template <std::copyable... Args>
 void co_event<Args...>::pub(Args... args) const
 {
     std::scoped_lock lck(mu_cb_list__);
-    for (auto &&[_, cb] : cb_list__)
+    // A callback may subscribe and unsubscribe, itself included
+    const auto end = current_handler__;
+    for (auto iter = cb_list__.begin(); iter != cb_list__.end() && iter->first < end;)
     {
-        cb(args...);
+        auto [handle, cb] = *iter;
+        (*cb)(args...);
+        iter = cb_list__.upper_bound(handle);
     }
 }
 
-- 
2.43.0


From 1b11b86bcfc58fbefb93e3d91ccf8e96429543da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:28 +0000
Subject: [PATCH 28/49] fix: a coroutine is not interrupted while it changes
 the list of an event

The lock of the list is recursive, so another coroutine of the same
thread found the list half changed.
---
 include/cocpp/event/co_event.h | 32 ++++++++++++++++++++++++++++----
 source/cocpp/core/co_env.cpp   | 17 +++++++++++++++++
 2 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/include/cocpp/event/co_event.h b/include/cocpp/event/co_event.h
index 4efc37d..cfce847 100644
--- a/include/cocpp/event/co_event.h
+++ b/include/cocpp/event/co_event.h
@@ -12,8 +12,21 @@ _Pragma("once");
 
 CO_NAMESPACE_BEGIN
 
+class co_env;
+
 using co_event_handle = unsigned long long;
 
+// While it exists, the running coroutine is not interrupted. It does not create an env for the thread.
+class co_event_guard final : private co_noncopyable
+{
+private:
+    co_env *env__;
+
+public:
+    co_event_guard();
+    ~co_event_guard();
+};
+
 template <std::copyable... Args>
 class co_event final : private co_noncopyable
 {
@@ -31,6 +44,7 @@ public:
 template <std::copyable... Args>
 co_event_handle co_event<Args...>::sub(std::function<void(Args... args)> cb)
 {
+    co_event_guard guard;
     std::scoped_lock lck(mu_cb_list__);
     cb_list__[current_handler__] = std::make_shared<std::function<void(Args... args)> >(std::move(cb));
     return current_handler__++;
@@ -39,6 +53,7 @@ co_event_handle co_event<Args...>::sub(std::function<void(Args... args)> cb)
 template <std::copyable... Args>
 void co_event<Args...>::unsub(co_event_handle h)
 {
+    co_event_guard guard;
     std::scoped_lock lck(mu_cb_list__);
     cb_list__.erase(h);
 }
@@ -48,12 +63,21 @@ void co_event<Args...>::pub(Args... args) const
 {
     std::scoped_lock lck(mu_cb_list__);
     // A callback may subscribe and unsubscribe, itself included
-    const auto end = current_handler__;
-    for (auto iter = cb_list__.begin(); iter != cb_list__.end() && iter->first < end;)
+    co_event_handle next = 0, end = current_handler__;
+    while (true)
     {
-        auto [handle, cb] = *iter;
+        std::shared_ptr<std::function<void(Args... args)> > cb;
+        {
+            co_event_guard guard;
+            auto iter = cb_list__.lower_bound(next);
+            if (iter == cb_list__.end() || iter->first >= end)
+            {
+                break;
+            }
+            next = iter->first + 1;
+            cb = iter->second;
+        }
         (*cb)(args...);
-        iter = cb_list__.upper_bound(handle);
     }
 }
 
diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 982a1a4..aebcf3f 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -869,4 +869,21 @@ co_preempt_guard::~co_preempt_guard()
     lk__.decreate_count();
 }
 
+co_event_guard::co_event_guard()
+    : env__(current_env__)
+{
+    if (env__ != nullptr)
+    {
+        env__->schedule_lock().increate_count();
+    }
+}
+
+co_event_guard::~co_event_guard()
+{
+    if (env__ != nullptr)
+    {
+        env__->schedule_lock().decreate_count();
+    }
+}
+
 CO_NAMESPACE_END
-- 
2.43.0


From 29cd6d90edb5ad24d029abc5107804f1b1f82e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:46 +0000
Subject: [PATCH 29/49] fix: release the stack copy of a finished shared-stack
 coroutine

A copy of the shared stack was made at the last switch of every
shared-stack coroutine and never released.
---
 source/cocpp/core/co_env.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index aebcf3f..0ddbfa0 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -483,6 +483,12 @@ size_t co_env::get_valid_stack_size__(co_ctx *ctx)
 
 void co_env::save_shared_stack__(co_ctx *ctx)
 {
+    // Nobody returns to a finished coroutine
+    if (ctx->state() == co_state::finished)
+    {
+        ctx->set_stack(nullptr);
+        return;
+    }
     auto stack_size = get_valid_stack_size__(ctx);
     auto tmp_stack = co_stack_factory::create_stack(stack_size);
     memcpy(tmp_stack->stack(), get_rsp(ctx), stack_size);
-- 
2.43.0


From aef0edac1e7740a6cac8b7d904b8cbcaba0fe0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:41 +0000
Subject: [PATCH 30/49] fix: an idle env releases finished coroutines

Finished coroutines were only released at the next switch of their env,
so an idle env kept them (and their stacks, functions and results)
until it got new work, and was never removed from the pool.
---
 include/cocpp/core/co_env.h  |  1 +
 source/cocpp/core/co_ctx.cpp |  9 +++++++++
 source/cocpp/core/co_env.cpp | 13 +++++++++++--
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/cocpp/core/co_env.h b/include/cocpp/core/co_env.h
index ad08438..ede6a15 100644
--- a/include/cocpp/core/co_env.h
+++ b/include/cocpp/core/co_env.h
@@ -105,6 +105,7 @@ private:
     co_ctx *choose_ctx_from_normal_list__();
     std::list<co_ctx *> all_ctx__();
     bool can_schedule__() const;
+    bool has_removable_ctx__() const;
     void update_min_priority__(size_t priority);
     void create_shared_stack__();
     static size_t get_valid_stack_size__(co_ctx *ctx);
diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index 649926d..ca3f0f7 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -172,7 +172,16 @@ void co_ctx::lock_destroy()
 void co_ctx::unlock_destroy()
 {
     CoPreemptGuard();
+    auto env = env__;
+    if (env == nullptr)
+    {
+        unset_flag(CO_CTX_FLAG_LOCKED);
+        return;
+    }
+    // Once it is unlocked it can be removed at any time, which an idle env must be told
+    scoped_lock lock(env->schedule_lock());
     unset_flag(CO_CTX_FLAG_LOCKED);
+    env->wake_up();
 }
 
 void co_ctx::set_stack(co_stack *stack)
diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 0ddbfa0..8982880 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -549,6 +549,14 @@ bool co_env::can_schedule__() const
                           });
 }
 
+bool co_env::has_removable_ctx__() const
+{
+    scoped_lock lock(mu_normal_ctx__);
+    return ranges::any_of(all_normal_ctx__ | views::join, [](co_ctx *ctx) {
+        return ctx->state() == co_state::finished && ctx->can_destroy();
+    });
+}
+
 bool co_env::is_blocked() const
 {
     return (state() == co_env_state::busy || state() == co_env_state::blocked) && !test_flag(CO_ENV_FLAG_SCHEDULED);
@@ -558,8 +566,9 @@ bool co_env::need_sleep__()
 {
     // Hibernation requires the following conditions:
     // 1. No schedulable coroutines
-    // 2. The destroy flag is not set
-    return !can_schedule__() && state() != co_env_state::destroying;
+    // 2. No finished coroutines to remove
+    // 3. The destroy flag is not set
+    return !can_schedule__() && !has_removable_ctx__() && state() != co_env_state::destroying;
 }
 
 co_ctx *co_env::choose_ctx_from_normal_list__()
-- 
2.43.0


From 267591441d19e96dbc2b8faa85cf038b2b2d59c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:14:52 +0000
Subject: [PATCH 31/49] fix: a new coroutine is not given to an env that is
 being removed

The env was chosen under the lock of the pool but got the coroutine
after that, when the pool could already have removed it.
---
 source/cocpp/core/co_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 236bc0e..6dfee2b 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -348,6 +348,8 @@ void co_manager::monitor_routine__()
 
 void co_manager::timer_routine__()
 {
+    // The env of this thread must not be created with the queue locked
+    current_env();
     unique_lock lck(mu_timer_queue__);
 
     while (!clean_up__)
@@ -436,6 +438,8 @@ co_ctx *co_manager::create_and_schedule_ctx(const co_ctx_config &config, functio
     }
     else
     {
+        // The chosen env must not be removed before it has the ctx
+        scoped_lock lock(env_set__.normal_lock);
         get_best_env__()->add_ctx(ctx);
     }
     return ctx;
-- 
2.43.0


From 8ba4e5f939b365d329ce3e7422e847b1ebccb321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:38 +0000
Subject: [PATCH 32/49] fix: an env is not deleted while other threads are
 leaving its lock

The thread that woke up an env still counts down in the lock after it
released it. At that time the pool can already have removed the env.
---
 include/cocpp/core/co_env.h  |  2 ++
 source/cocpp/core/co_env.cpp | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/cocpp/core/co_env.h b/include/cocpp/core/co_env.h
index ede6a15..9b0ae0e 100644
--- a/include/cocpp/core/co_env.h
+++ b/include/cocpp/core/co_env.h
@@ -32,6 +32,7 @@ public:
     void unlock();
     bool try_lock();
     long long int count() const;
+    long long int lock_count() const;
     void increate_count();
     void decreate_count();
     long long int exchange_preempt_count(long long int count);
@@ -93,6 +94,7 @@ private:
     void sleep_if_need__(std::function<bool()> checker);
 
     co_env(size_t shared_stack_size, co_ctx *idle_ctx, bool create_new_thread);
+    ~co_env();
     void start_schedule_routine__();
     void remove_detached_ctx__();
     void remove_all_ctx__();
diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 8982880..31c8083 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -50,6 +50,19 @@ co_env::co_env(size_t shared_stack_size, co_ctx *idle_ctx, bool create_new_threa
     }
 }
 
+co_env::~co_env()
+{
+    if (worker__.valid())
+    {
+        worker__.wait();
+    }
+    // A thread that has just woken up this env can still be leaving the lock
+    while (schedule_lock__.lock_count() != 0)
+    {
+        this_thread::yield();
+    }
+}
+
 void co_env::create_shared_stack__()
 {
     shared_stack__ = co_stack_factory::create_stack(shared_stack_size__);
@@ -845,6 +858,11 @@ long long int co_recursive_mutex_with_count::count() const
     return count__ + preempt_count__;
 }
 
+long long int co_recursive_mutex_with_count::lock_count() const
+{
+    return count__;
+}
+
 void co_recursive_mutex_with_count::increate_count()
 {
     ++preempt_count__;
-- 
2.43.0


From 89a5830723ed5028a34490548260e2a36472e0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:16:05 +0000
Subject: [PATCH 33/49] fix: an env whose new coroutine already finished is not
 marked busy

The mark stayed until the next switch, so the idle env was neither used
first nor removed from the pool.
---
 source/cocpp/core/co_env.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 31c8083..4c2a1ea 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -99,6 +99,8 @@ void co_env::move_ctx_to_here(co_ctx *ctx)
 
     // Once the ctx is in the list it can run, finish and be destroyed at any time
     auto priority = ctx->priority();
+    // and the env can be idle again
+    set_state(co_env_state::busy);
     {
         scoped_lock lock(mu_normal_ctx__);
         all_normal_ctx__[priority].push_back(ctx);
@@ -106,7 +108,6 @@ void co_env::move_ctx_to_here(co_ctx *ctx)
     }
 
     update_min_priority__(priority);
-    set_state(co_env_state::busy);
 
     wake_up();
 }
-- 
2.43.0


From becb0b87284133ca2bd883901cb7056f023bd14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:25:32 +0000
Subject: [PATCH 34/49] fix: pipeline stages can change the type of the items

reduce, fork and group did not compile when their result had another
type than the items.
---
 include/cocpp/pipeline/co_pipeline.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/cocpp/pipeline/co_pipeline.h b/include/cocpp/pipeline/co_pipeline.h
index b9e6772..c570acc 100644
--- a/include/cocpp/pipeline/co_pipeline.h
+++ b/include/cocpp/pipeline/co_pipeline.h
@@ -36,6 +36,10 @@ template <typename ItemType>
 class co_pipeline final : private co_noncopyable
 {
 private:
+    // A stage can change the type of the items
+    template <typename OtherType>
+    friend class co_pipeline;
+
     std::shared_ptr<co> co__;
     co_chan<ItemType> channel__;
 
@@ -43,9 +47,9 @@ private:
     requires pipeline::FilterFunc<FilterType, ItemType>
     co_pipeline(co_chan<ItemType> ch, const pipeline::filter<FilterType> &filter);
 
-    template <typename ReduceType, typename InitType>
-    requires pipeline::ReduceFunc<ReduceType, InitType, ItemType>
-    co_pipeline(co_chan<InitType> ch, const pipeline::reduce<ReduceType, InitType> &reducer);
+    template <typename ReduceType, typename OldType>
+    requires pipeline::ReduceFunc<ReduceType, ItemType, OldType>
+    co_pipeline(co_chan<OldType> ch, const pipeline::reduce<ReduceType, ItemType> &reducer);
 
     co_pipeline(co_chan<ItemType> ch, const pipeline::take &take);
 
@@ -380,9 +384,9 @@ requires pipeline::ReduceFunc<ReduceType, InitType, ItemType> auto co_pipeline<I
 }
 
 template <typename ItemType>
-template <typename ReduceType, typename InitType>
-requires pipeline::ReduceFunc<ReduceType, InitType, ItemType>
-co_pipeline<ItemType>::co_pipeline(co_chan<InitType> ch, const pipeline::reduce<ReduceType, InitType> &reducer)
+template <typename ReduceType, typename OldType>
+requires pipeline::ReduceFunc<ReduceType, ItemType, OldType>
+co_pipeline<ItemType>::co_pipeline(co_chan<OldType> ch, const pipeline::reduce<ReduceType, ItemType> &reducer)
 {
     co__ = std::make_shared<co>([this_ch = channel__, ch, reducer]() mutable {
         auto result = reducer.init__;
-- 
2.43.0


From 2cf47517f63d35fce2365302cb74307fab3a15da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:26:20 +0000
Subject: [PATCH 35/49] fix: a pipeline stage that ends early ends the stages
 before it

Only take and group closed their input. With any other stage in between
the stages before it waited or went on producing forever.
---
 include/cocpp/pipeline/co_pipeline.h | 30 +++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/cocpp/pipeline/co_pipeline.h b/include/cocpp/pipeline/co_pipeline.h
index c570acc..380c6ac 100644
--- a/include/cocpp/pipeline/co_pipeline.h
+++ b/include/cocpp/pipeline/co_pipeline.h
@@ -51,6 +51,10 @@ private:
     requires pipeline::ReduceFunc<ReduceType, ItemType, OldType>
     co_pipeline(co_chan<OldType> ch, const pipeline::reduce<ReduceType, ItemType> &reducer);
 
+    template <typename FuncType, typename OldType>
+    requires pipeline::ReturnIsNotVoid<FuncType, OldType>
+    co_pipeline(co_chan<OldType> ch, FuncType func);
+
     co_pipeline(co_chan<ItemType> ch, const pipeline::take &take);
 
     co_pipeline(co_chan<ItemType> ch, const pipeline::skip &skip);
@@ -255,14 +259,27 @@ template <typename ItemType>
 template <typename FuncType>
 requires pipeline::ReturnIsNotVoid<FuncType, ItemType> auto co_pipeline<ItemType>::operator|(FuncType func)
 {
-    return co_pipeline<std::invoke_result_t<FuncType, ItemType> >([ch = channel__, func]() mutable -> std::optional<std::invoke_result_t<FuncType, ItemType> > {
-        auto item = ch.pop();
-        if (!item)
+    return co_pipeline<std::invoke_result_t<FuncType, ItemType> >(channel__, func);
+}
+
+template <typename ItemType>
+template <typename FuncType, typename OldType>
+requires pipeline::ReturnIsNotVoid<FuncType, OldType>
+co_pipeline<ItemType>::co_pipeline(co_chan<OldType> ch, FuncType func)
+{
+    co__ = std::make_shared<co>([this_ch = channel__, ch, func]() mutable {
+        for (const auto &item : ch)
         {
-            return std::nullopt;
+            if (!this_ch.push(func(item)))
+            {
+                break;
+            }
         }
-        return func(*item);
+
+        this_ch.close();
+        ch.close();
     });
+    co__->detach();
 }
 
 template <typename ItemType>
@@ -284,6 +301,7 @@ co_pipeline<ItemType>::co_pipeline(co_chan<OldType> ch, const pipeline::fork<Fun
                     }
                     if (!this_ch.push(fork.func__(*item)))
                     {
+                        ch.close();
                         break;
                     }
                 }
@@ -365,6 +383,7 @@ co_pipeline<ItemType>::co_pipeline(co_chan<ItemType> ch, const pipeline::filter<
         }
 
         this_ch.close();
+        ch.close();
     });
     co__->detach();
 }
@@ -458,6 +477,7 @@ co_pipeline<ItemType>::co_pipeline(co_chan<ItemType> ch, const pipeline::skip &s
             }
         }
         this_ch.close();
+        ch.close();
     });
     co__->detach();
 }
-- 
2.43.0


From fb97489ff56bd5597a2a1f6f90f5c44027c92fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:26:52 +0000
Subject: [PATCH 36/49] fix: a pipeline copies the values of its initializer
 list

The list refers to values that end with the statement, before the
pipeline reads them.
---
 include/cocpp/pipeline/co_pipeline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cocpp/pipeline/co_pipeline.h b/include/cocpp/pipeline/co_pipeline.h
index 380c6ac..f899225 100644
--- a/include/cocpp/pipeline/co_pipeline.h
+++ b/include/cocpp/pipeline/co_pipeline.h
@@ -242,7 +242,7 @@ template <typename ItemType>
 co_pipeline<ItemType>::co_pipeline(const std::initializer_list<ItemType> &col, int max_chan_size)
     : channel__(max_chan_size)
 {
-    co__ = std::make_shared<co>([ch = channel__, col]() mutable {
+    co__ = std::make_shared<co>([ch = channel__, col = std::vector<ItemType>(col)]() mutable {
         for (const auto &t : col)
         {
             if (!ch.push(t))
-- 
2.43.0


From a5142c974ce59d254bca88aaa757bb8d59c78825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:57 +0000
Subject: [PATCH 37/49] fix: connect reports the real outcome

A connection that was made at once was reported as failed, and one that
was refused later as made. Waiting with select also stopped the whole
thread and could not handle descriptors from 1024 on.
---
 source/cocpp/io/co_net.cpp | 41 ++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/source/cocpp/io/co_net.cpp b/source/cocpp/io/co_net.cpp
index 6657e4f..86cf603 100644
--- a/source/cocpp/io/co_net.cpp
+++ b/source/cocpp/io/co_net.cpp
@@ -1,4 +1,5 @@
 #include <optional>
+#include <poll.h>
 #include <sys/socket.h>
 #include <string.h>
 #include "cocpp/io/co_net.h"
@@ -58,45 +59,55 @@ int co_net::bind(const struct sockaddr *addr, socklen_t addrlen)
 int co_net::connect(const struct sockaddr *addr, socklen_t addrlen)
 {
     int ret = ::connect(fd__, addr, addrlen);
+    while (ret == -1 && errno == EAGAIN)
+    {
+        // The queue of a local socket is full
+        CoYield();
+        ret = ::connect(fd__, addr, addrlen);
+    }
 
-    if (ret > 0)
+    if (ret >= 0)
     {
         return ret;
     }
 
-    if (errno != EINPROGRESS)
+    if (errno != EINPROGRESS && errno != EINTR)
     {
         CO_O_ERROR("connect error: %s", strerror(errno));
         return -1;
     }
 
-    fd_set write_fds;
-    struct timeval timeout;
-    timeout.tv_sec = 0;
-    timeout.tv_usec = 10 * 1000;
     while (1)
     {
-        FD_ZERO(&write_fds);
-        FD_SET(fd__, &write_fds);
-
-        int result = select(fd__ + 1, NULL, &write_fds, NULL, &timeout);
+        struct pollfd fds = {fd__, POLLOUT, 0};
+        int result = ::poll(&fds, 1, 0);
 
-        if (result < 0)
+        if (result < 0 && errno != EINTR)
         {
-            CO_O_ERROR("select error: %s", strerror(errno));
+            CO_O_ERROR("poll error: %s", strerror(errno));
             return -1;
         }
-        else if (result == 0)
+        else if (result <= 0)
         {
             CoYield();
             continue;
         }
         else
         {
-            if (FD_ISSET(fd__, &write_fds))
+            int error = 0;
+            socklen_t len = sizeof(error);
+            if (::getsockopt(fd__, SOL_SOCKET, SO_ERROR, &error, &len) == -1)
+            {
+                CO_O_ERROR("getsockopt error: %s", strerror(errno));
+                return -1;
+            }
+            if (error != 0)
             {
-                return 0;
+                errno = error;
+                CO_O_ERROR("connect error: %s", strerror(errno));
+                return -1;
             }
+            return 0;
         }
     }
 }
-- 
2.43.0


From fdf40e3e2b7044e0eb43bc0d165e95423f15f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:57 +0000
Subject: [PATCH 38/49] fix: read and write go on when a signal interrupts them

The scheduler interrupts threads with signals, and the socket calls
already go on.
---
 source/cocpp/io/co_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/io/co_io.cpp b/source/cocpp/io/co_io.cpp
index a1b38f6..89f1f67 100644
--- a/source/cocpp/io/co_io.cpp
+++ b/source/cocpp/io/co_io.cpp
@@ -53,7 +53,7 @@ int co_io::read(void *buf, size_t count)
         int ret = ::read(fd__, buf, count);
         if (ret == -1)
         {
-            if (errno == EAGAIN || errno == EWOULDBLOCK)
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK)
             {
                 CoYield();
                 continue;
@@ -75,7 +75,7 @@ int co_io::write(const void *buf, size_t count)
         int ret = ::write(fd__, buf, count);
         if (ret == -1)
         {
-            if (errno == EAGAIN || errno == EWOULDBLOCK)
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK)
             {
                 CoYield();
                 continue;
-- 
2.43.0


From c6e1521b2f60e6fee26ffee6faf82f338ae6b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:57 +0000
Subject: [PATCH 39/49] fix: sendto waits until it can send

It failed when the buffer was full, unlike the other calls.
---
 source/cocpp/io/co_net.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/io/co_net.cpp b/source/cocpp/io/co_net.cpp
index 86cf603..7f8fb36 100644
--- a/source/cocpp/io/co_net.cpp
+++ b/source/cocpp/io/co_net.cpp
@@ -134,7 +134,22 @@ int co_net::send(const void *buf, size_t len, int flags)
 
 int co_net::sendto(const void *buf, size_t len, int flags, const struct sockaddr *dest_addr, socklen_t addrlen)
 {
-    return ::sendto(fd__, buf, len, flags, dest_addr, addrlen);
+    for (;;)
+    {
+        int ret = ::sendto(fd__, buf, len, flags, dest_addr, addrlen);
+
+        if (ret == -1)
+        {
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK)
+            {
+                CoYield();
+                continue;
+            }
+            CO_O_ERROR("sendto error: %s", strerror(errno));
+            return -1;
+        }
+        return ret;
+    }
 }
 
 int co_net::recv(void *buf, size_t len, int flags)
-- 
2.43.0


From e91275419a9aecd94f05cf46131a30f8d97f8b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:57 +0000
Subject: [PATCH 40/49] fix: fcntl and ioctl pass on their argument

They passed the argument list itself.
---
 source/cocpp/io/co_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/io/co_io.cpp b/source/cocpp/io/co_io.cpp
index 89f1f67..dd3f22b 100644
--- a/source/cocpp/io/co_io.cpp
+++ b/source/cocpp/io/co_io.cpp
@@ -109,7 +109,7 @@ int co_io::fcntl(int cmd, ...)
 {
     va_list args;
     va_start(args, cmd);
-    int ret = ::fcntl(fd__, cmd, args);
+    int ret = ::fcntl(fd__, cmd, va_arg(args, void *));
     va_end(args);
 
     return ret;
@@ -119,7 +119,7 @@ int co_io::ioctl(int cmd, ...)
 {
     va_list args;
     va_start(args, cmd);
-    int ret = ::ioctl(fd__, cmd, args);
+    int ret = ::ioctl(fd__, cmd, va_arg(args, void *));
     va_end(args);
     return ret;
 }
-- 
2.43.0


From 23dcd2729b3c82bb8831cfe9c10505c88616bf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:57 +0000
Subject: [PATCH 41/49] fix: lseek returns offsets from 2 GB on

---
 include/cocpp/io/co_io.h  | 2 +-
 source/cocpp/io/co_io.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cocpp/io/co_io.h b/include/cocpp/io/co_io.h
index 26c1359..1653fdf 100644
--- a/include/cocpp/io/co_io.h
+++ b/include/cocpp/io/co_io.h
@@ -20,7 +20,7 @@ public:
     virtual int close();
     virtual int read(void *buf, size_t count);
     virtual int write(const void *buf, size_t count);
-    virtual int lseek(off_t offset, int whence);
+    virtual off_t lseek(off_t offset, int whence);
     virtual int fchmod(mode_t mode);
     virtual int fchown(uid_t owner, gid_t group);
     virtual int fcntl(int cmd, ...);
diff --git a/source/cocpp/io/co_io.cpp b/source/cocpp/io/co_io.cpp
index dd3f22b..cfb80b6 100644
--- a/source/cocpp/io/co_io.cpp
+++ b/source/cocpp/io/co_io.cpp
@@ -90,7 +90,7 @@ int co_io::write(const void *buf, size_t count)
     }
 }
 
-int co_io::lseek(off_t offset, int whence)
+off_t co_io::lseek(off_t offset, int whence)
 {
     return ::lseek(fd__, offset, whence);
 }
-- 
2.43.0


From 4a4f74dbadd34ff657ded71ed1b1f1975ddedfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:03 +0000
Subject: [PATCH 42/49] fix: read_n reports the end of the data

It read forever when the peer closed the connection early.
---
 source/cocpp/io/co_client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cocpp/io/co_client.cpp b/source/cocpp/io/co_client.cpp
index be0a631..d5e3e92 100644
--- a/source/cocpp/io/co_client.cpp
+++ b/source/cocpp/io/co_client.cpp
@@ -32,6 +32,10 @@ co_error co_client::read_n(co_buffer &buf)
         {
             return co_error(co_error_code::co_client_read_error, "read error", strerror(errno));
         }
+        if (ret == 0)
+        {
+            return co_error(co_error_code::co_client_read_error, "end of file");
+        }
         remain -= ret;
     }
     return co_error();
-- 
2.43.0


From 192321109849fea1490993c6094463cf81aa5f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:26:45 +0000
Subject: [PATCH 43/49] fix: the program ends while coroutines are running

The end of the program destroyed environments and coroutines that others
were still using, and did so without waiting for the threads that run them.
They are only stopped now, and nothing is started any more.
---
 include/cocpp/core/co_manager.h  |  9 +++---
 source/cocpp/core/co_env.cpp     |  8 +++--
 source/cocpp/core/co_manager.cpp | 54 ++++++++++++++------------------
 3 files changed, 34 insertions(+), 37 deletions(-)

diff --git a/include/cocpp/core/co_manager.h b/include/cocpp/core/co_manager.h
index 63118bb..f028caf 100644
--- a/include/cocpp/core/co_manager.h
+++ b/include/cocpp/core/co_manager.h
@@ -6,6 +6,7 @@ _Pragma("once");
 #include "cocpp/utils/co_noncopyable.h"
 #include "cocpp/utils/co_singleton.h"
 
+#include <atomic>
 #include <functional>
 #include <future>
 #include <list>
@@ -20,7 +21,7 @@ class co_timer;
 struct co_ctx_config;
 
 using namespace std::chrono_literals;
-class co_manager final : public co_singleton_static<co_manager>
+class co_manager final : public co_singleton<co_manager>
 {
     RegCoEvent(timing_routine_timeout);
 
@@ -38,7 +39,7 @@ private:
         .max_env_count = std::thread::hardware_concurrency() * 2};
 
     // Other threads can access this data.
-    bool clean_up__ {false};
+    std::atomic<bool> clean_up__ {false};
 
     mutable std::recursive_mutex mu_timer_duration__;
     std::chrono::steady_clock::duration timer_duration__ {10ms};
@@ -88,10 +89,10 @@ public:
     void set_timer_tick_duration(
         const std::chrono::steady_clock::duration &duration);
     const std::chrono::steady_clock::duration &timing_duration() const;
-    ~co_manager();
+    bool is_clean_up() const;
     std::string manager_info();
 
-    friend class co_singleton_static<co_manager>;
+    friend class co_singleton<co_manager>;
     friend class co_timer;
 };
 
diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 4c2a1ea..aad5cc6 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -458,8 +458,12 @@ void co_env::start_schedule_routine__()
         }
     }
 
-    remove_all_ctx__();
-    task_finished().pub();
+    // When the program ends, the coroutines of other envs can still refer to these
+    if (!co_manager::instance()->is_clean_up())
+    {
+        remove_all_ctx__();
+        task_finished().pub();
+    }
     current_env__ = nullptr;
 }
 
diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 6dfee2b..45d29cc 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -147,6 +147,12 @@ co_manager::co_manager()
 {
     subscribe_manager_event__();
     create_background_task__();
+    // The envs and coroutines can still be running when the program ends, so they are stopped but not destroyed
+    atexit([] {
+        CoPreemptGuard();
+        instance()->set_clean_up__();
+        instance()->wait_background_task__();
+    });
     set_up_signal_handler({CO_SWITCH_SIGNAL, SIGHUP, SIGINT, SIGTERM, SIGQUIT, SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGSYS, SIGXCPU, SIGXFSZ, SIGPIPE});
 }
 
@@ -178,46 +184,28 @@ co_env *co_manager::current_env()
 void co_manager::set_clean_up__()
 {
     scoped_lock lock(env_set__.normal_lock);
-    clean_up__ = true;
-    auto backup_data = env_set__.normal_set;
-    for (auto &&env : backup_data)
+    {
+        scoped_lock timer_lock(mu_timer_queue__);
+        clean_up__ = true;
+        cv_timer_queue__.notify_one();
+    }
+    for (auto &&env : env_set__.normal_set)
     {
         if (env->test_flag(CO_ENV_FLAG_NO_SCHE_THREAD))
         {
-            // 对于没有调度线程的env，无法将自己加入销毁队列，需要由manager__加入
-            remove_env__(env);
             continue;
         }
         env->stop_schedule(); // 注意：没有调度线程的env不能调用stop_schedule
     }
     env_set__.cv_expired_env.notify_one();
-    cv_timer_queue__.notify_one();
 }
 
 void co_manager::clean_env_routine__()
 {
     unique_lock lck(env_set__.normal_lock);
-    while (!clean_up__ || !env_set__.normal_set.empty())
+    while (!clean_up__)
     {
-        if (clean_up__)
-        {
-            auto backup = env_set__.normal_set;
-            for (auto &&env : backup)
-            {
-                if (env->test_flag(CO_ENV_FLAG_NO_SCHE_THREAD))
-                {
-                    // 对于没有调度线程的env，无法将自己加入销毁队列，需要由manager__加入
-                    remove_env__(env);
-                    continue;
-                }
-                env->stop_schedule(); // 注意：没有调度线程的env不能调用stop_schedule
-            }
-            env_set__.normal_set.clear();
-        }
-        else
-        {
-            env_set__.cv_expired_env.wait(lck);
-        }
+        env_set__.cv_expired_env.wait(lck);
         for (auto &&p : env_set__.expired_set)
         {
             co_env_factory::destroy_env(p);
@@ -408,10 +396,9 @@ const chrono::steady_clock::duration &co_manager::timing_duration() const
     return timer_duration__;
 }
 
-co_manager::~co_manager()
+bool co_manager::is_clean_up() const
 {
-    set_clean_up__();
-    wait_background_task__(); // 此处所有的流程都已经结束了，可以清理一些单例的资源了
+    return clean_up__;
 }
 
 void co_manager::wait_background_task__()
@@ -431,6 +418,13 @@ co_ctx *co_manager::create_and_schedule_ctx(const co_ctx_config &config, functio
     {
         ctx->lock_destroy();
     }
+    // The chosen env must not be removed before it has the ctx
+    scoped_lock lock(env_set__.normal_lock);
+    if (clean_up__)
+    {
+        // The program ends, nothing is started any more
+        return ctx;
+    }
     auto bind_env = ctx->config().bind_env;
     if (bind_env != nullptr)
     {
@@ -438,8 +432,6 @@ co_ctx *co_manager::create_and_schedule_ctx(const co_ctx_config &config, functio
     }
     else
     {
-        // The chosen env must not be removed before it has the ctx
-        scoped_lock lock(env_set__.normal_lock);
         get_best_env__()->add_ctx(ctx);
     }
     return ctx;
-- 
2.43.0


From 690978b3ddce300d85c2d01687708fce5960bdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:30:12 +0000
Subject: [PATCH 44/49] fix: a coroutine is not interrupted while it wakes up
 another one

It holds the scheduling lock of the other environment, which would be
blocked until the coroutine runs again.
---
 source/cocpp/core/co_ctx.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index ca3f0f7..f46d3f0 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -219,6 +219,7 @@ void co_ctx::leave_wait_resource_state(void *rc)
 {
     // Once the ctx is not waiting any more it can run, finish and be destroyed,
     // so its env must not schedule it before everything is done here
+    CoPreemptGuard();
     auto env = env__;
     scoped_lock schedule_lock(env->schedule_lock());
     {
-- 
2.43.0


From cf71712008805ea807fa2ef8492aef1c7075cd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:33:55 +0000
Subject: [PATCH 45/49] fix: a stopping environment runs its idle coroutine

The scheduling signal took the last coroutine for the running one and
switched away from the wrong stack.
---
 source/cocpp/core/co_env.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index aad5cc6..52d190f 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -247,6 +247,7 @@ co_ctx *co_env::next_ctx__()
     // 如果要销毁、并且可以销毁，切换到idle销毁
     if (state() == co_env_state::destroying)
     {
+        curr_ctx__ = nullptr;
         return idle_ctx__;
     }
     else
-- 
2.43.0


From 5bcc29ff4c1d1aef82eb95e450698fd09a71f38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:01:45 +0000
Subject: [PATCH 46/49] fix: the report of a fatal signal is complete

The buffer for the path of the executable was too small for realpath,
which ended the report, and the path was dropped when it was found.
---
 source/cocpp/exception/co_exception.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/exception/co_exception.cpp b/source/cocpp/exception/co_exception.cpp
index 4536fe4..61f43fd 100644
--- a/source/cocpp/exception/co_exception.cpp
+++ b/source/cocpp/exception/co_exception.cpp
@@ -2,6 +2,7 @@
 #include "cocpp/core/co_define.h"
 #include "cocpp/core/co_manager.h"
 #include "cocpp/core/co_vos.h"
+#include <climits>
 #include <cstdio>
 #include <cstdlib>
 #include <execinfo.h>
@@ -22,9 +23,9 @@ static void signal_handler(int signo) __attribute__((optimize("O0"))); // 信号
 
 static string exe_path()
 {
-    char buf[1024];
+    char buf[PATH_MAX];
     char *ret = realpath("/proc/self/exe", buf);
-    if (ret != nullptr)
+    if (ret == nullptr)
     {
         return "";
     }
-- 
2.43.0


From 13491b0924aa604e3ab09da7927c692c63e3cb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:14:47 +0000
Subject: [PATCH 47/49] fix: the report of a fatal signal does not deadlock

It kept the timer queue locked while it locked the environments, which are
locked in the opposite order elsewhere.
---
 source/cocpp/core/co_manager.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 45d29cc..9940814 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -505,8 +505,6 @@ void co_manager::remove_timer_from_queue__(shared_ptr<co_timer> timer)
 
 string co_manager::manager_info()
 {
-    scoped_lock lock(mu_timer_queue__, mu_timer_duration__, mu_timer_queue__);
-
     stringstream ss;
 
     // env set
@@ -539,7 +537,7 @@ string co_manager::manager_info()
     ss << "clean up: " << clean_up__ << endl;
 
     // timer duration
-    ss << "timer duration: " << timer_duration__.count() << endl;
+    ss << "timer duration: " << timing_duration().count() << endl;
 
     // timer queue
     ss << "timer queue: " << endl;
-- 
2.43.0


From 8b76a241b39393d713406652349cda062de27e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:05:51 +0000
Subject: [PATCH 48/49] fix: a coroutine is not interrupted while it holds a
 lock of a timer, a timed wait or the manager

---
 source/cocpp/core/co_env.cpp     | 1 +
 source/cocpp/core/co_manager.cpp | 3 +++
 source/cocpp/core/co_timer.cpp   | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 52d190f..c744ccc 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -143,6 +143,7 @@ optional<co_return_value> co_env::wait_ctx(co_ctx *ctx, const chrono::nanosecond
         };
         auto state = make_shared<wait_state>();
         auto wake_up = [curr_ctx, state] {
+            CoPreemptGuard();
             scoped_lock lock(state->mu);
             if (!state->waked_up)
             {
diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 9940814..36ebbb4 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -86,6 +86,7 @@ void co_manager::subscribe_ctx_event__(co_ctx *ctx)
 
 co_env *co_manager::create_env(bool dont_auto_destroy)
 {
+    co_event_guard guard;
     assert(!clean_up__);
     auto env = co_env_factory::create_env(default_shared_stack_size__);
 
@@ -379,6 +380,7 @@ void co_manager::timer_routine__()
 void co_manager::set_timer_tick_duration(
     const chrono::steady_clock::duration &duration)
 {
+    co_event_guard guard;
     scoped_lock lock(mu_timer_duration__);
     if (duration < chrono::milliseconds(DEFAULT_TIMING_TICK_DURATION_IN_MS))
     {
@@ -392,6 +394,7 @@ void co_manager::set_timer_tick_duration(
 
 const chrono::steady_clock::duration &co_manager::timing_duration() const
 {
+    co_event_guard guard;
     scoped_lock lock(mu_timer_duration__);
     return timer_duration__;
 }
diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index 39b74b2..91210a3 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -116,6 +116,7 @@ void co_timer::remove_from_timer_queue__()
 
 chrono::steady_clock::time_point co_timer::expire_time() const
 {
+    co_event_guard guard;
     scoped_lock lock(mutex__);
     return expire_time__;
 }
@@ -127,6 +128,7 @@ co_timer_type co_timer::timer_type() const
 
 bool co_timer::is_expired() const
 {
+    co_event_guard guard;
     scoped_lock lock(mutex__);
     return chrono::steady_clock::now() >= expire_time__;
 }
@@ -174,6 +176,7 @@ string co_timer::timer_info()
 
     ss << "------------ timer start -----------" << endl;
 
+    co_event_guard guard;
     scoped_lock lock(mutex__);
 
     // timer handle
-- 
2.43.0


From 7f9fea51c9f6189d2a491cb2db2037fa3c380a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:10:38 +0000
Subject: [PATCH 49/49] fix: a coroutine that is interrupted while it reads the
 state of another one does not block it

---
 include/cocpp/utils/co_flag_manager.h  | 17 +++++++----------
 include/cocpp/utils/co_state_manager.h | 14 ++++++--------
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/include/cocpp/utils/co_flag_manager.h b/include/cocpp/utils/co_flag_manager.h
index 495a25f..6372a0f 100644
--- a/include/cocpp/utils/co_flag_manager.h
+++ b/include/cocpp/utils/co_flag_manager.h
@@ -2,8 +2,7 @@ _Pragma("once");
 
 #include "cocpp/core/co_define.h"
 
-#include <bitset>
-#include <mutex>
+#include <atomic>
 
 CO_NAMESPACE_BEGIN
 
@@ -11,24 +10,22 @@ template <size_t MAX_FLAG_COUNT>
 class co_flag_manager final
 {
 private:
-    std::bitset<MAX_FLAG_COUNT> flags__;
-    mutable std::recursive_mutex mu__;
+    static_assert(MAX_FLAG_COUNT <= sizeof(unsigned long long) * 8);
+    // no lock, a coroutine can be interrupted while it reads the flags of another one
+    std::atomic<unsigned long long> flags__ {0};
 
 public:
     void set_flag(size_t flag)
     {
-        std::scoped_lock lock(mu__);
-        flags__.set(flag);
+        flags__ |= 1ULL << flag;
     }
     void unset_flag(size_t flag)
     {
-        std::scoped_lock lock(mu__);
-        flags__.reset(flag);
+        flags__ &= ~(1ULL << flag);
     }
     bool test_flag(size_t flag) const
     {
-        std::scoped_lock lock(mu__);
-        return flags__.test(flag);
+        return flags__ & (1ULL << flag);
     }
 };
 
diff --git a/include/cocpp/utils/co_state_manager.h b/include/cocpp/utils/co_state_manager.h
index a67bce1..da7ce08 100644
--- a/include/cocpp/utils/co_state_manager.h
+++ b/include/cocpp/utils/co_state_manager.h
@@ -2,7 +2,7 @@ _Pragma("once");
 
 #include "cocpp/core/co_define.h"
 
-#include <mutex>
+#include <atomic>
 
 CO_NAMESPACE_BEGIN
 
@@ -10,8 +10,8 @@ template <typename T, T InitState, T FinalState>
 class co_state_manager final
 {
 private:
-    mutable std::recursive_mutex mu_state__;
-    T state__ {InitState};
+    // no lock, a coroutine can be interrupted while it reads the state of another one
+    std::atomic<T> state__ {InitState};
 
 public:
     void set_state(const T &state);
@@ -21,18 +21,16 @@ public:
 template <typename T, T InitState, T FinalState>
 void co_state_manager<T, InitState, FinalState>::set_state(const T &state)
 {
-    std::scoped_lock lock(mu_state__);
-    if (state__ != FinalState)
+    auto old = state__.load();
+    while (old != FinalState && !state__.compare_exchange_weak(old, state))
     {
-        state__ = state;
     }
 }
 
 template <typename T, T InitState, T FinalState>
 T co_state_manager<T, InitState, FinalState>::state() const
 {
-    std::scoped_lock lock(mu_state__);
-    return state__;
+    return state__.load();
 }
 
 CO_NAMESPACE_END
\ No newline at end of file
-- 
2.43.0

