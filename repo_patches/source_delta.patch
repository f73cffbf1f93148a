From 3a96be3ac3d8713ebf9a468da381bbb02bc2f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:07:15 +0000
Subject: [PATCH 01/28] fix: wake the queued readers of a shared mutex, not the
 tail left by remove_if

---
 source/cocpp/sync/co_shared_mutex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/sync/co_shared_mutex.cpp b/source/cocpp/sync/co_shared_mutex.cpp
index d10d05c..ac2894a 100644
--- a/source/cocpp/sync/co_shared_mutex.cpp
+++ b/source/cocpp/sync/co_shared_mutex.cpp
@@ -206,8 +206,8 @@ void co_shared_mutex::wake_up_waiters__()
         return;
     }
 
-    auto iter = remove_if(wait_deque__.begin(), wait_deque__.end(), [](auto &c) {
-        return c.type == lock_type::shared;
+    auto iter = stable_partition(wait_deque__.begin(), wait_deque__.end(), [](auto &c) {
+        return c.type != lock_type::shared;
     });
     lock_type__ = lock_type::shared;
     transform(iter, wait_deque__.end(), inserter(owners__, owners__.begin()), [this](auto &context) {
-- 
2.43.0


From 9e7fa9dad83302949bc5e5e2c148a29c014933d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:00:27 +0000
Subject: [PATCH 02/28] fix: let every producer of an unbuffered channel make
 progress

A producer that waited for the slot was only woken by the first notification,
and a second producer could overwrite or miss its turn. Wait for an empty slot
before pushing and wake all producers when a value has been taken.
---
 include/cocpp/event/co_chan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cocpp/event/co_chan.h b/include/cocpp/event/co_chan.h
index ba6d781..0d6a959 100644
--- a/include/cocpp/event/co_chan.h
+++ b/include/cocpp/event/co_chan.h
@@ -211,7 +211,7 @@ bool co_chan<ValueType>::sync_chan::push(ValueType value)
     if (chan_base::data__->size() == static_cast<size_t>(max_size))
     {
         chan_base::cv_full__->wait(lock, [this] {
-            return *chan_base::closed__;
+            return *chan_base::closed__ || chan_base::data__->empty();
         });
         if (*chan_base::closed__)
         {
@@ -258,7 +258,7 @@ std::optional<ValueType> co_chan<ValueType>::chan_base::pop()
 
     ret = data__->front();
     data__->pop_front();
-    cv_full__->notify_one();
+    cv_full__->notify_all();
     return ret;
 }
 
-- 
2.43.0


From b01d85905820a5d3786d332434b74285d406b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:00:27 +0000
Subject: [PATCH 03/28] fix: allow co_recursive_timed_mutex to derive from
 co_recursive_mutex

The base class was marked final, so the timed variant could not be instantiated.
---
 include/cocpp/sync/co_recursive_mutex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cocpp/sync/co_recursive_mutex.h b/include/cocpp/sync/co_recursive_mutex.h
index 46e4c44..c4eaea3 100644
--- a/include/cocpp/sync/co_recursive_mutex.h
+++ b/include/cocpp/sync/co_recursive_mutex.h
@@ -10,7 +10,7 @@ CO_NAMESPACE_BEGIN
 
 class co_ctx;
 
-class co_recursive_mutex final : private co_noncopyable
+class co_recursive_mutex : private co_noncopyable
 {
 private:
     co_spinlock spinlock__;
-- 
2.43.0


From 8531771aeab8d5d3bf00dd9a9ebd5bd8626a1318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:00:27 +0000
Subject: [PATCH 04/28] fix: complete a barrier phase at the last arrival

A participant that only called arrive() left the others blocked, because the
phase ended in wait(). Advance the generation when the last participant
arrives, and let wait() accept the token of the current or the completed phase.
---
 include/cocpp/sync/co_barrier.h  |  1 -
 source/cocpp/sync/co_barrier.cpp | 27 +++++++++++----------------
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/include/cocpp/sync/co_barrier.h b/include/cocpp/sync/co_barrier.h
index ac20e09..acd364d 100644
--- a/include/cocpp/sync/co_barrier.h
+++ b/include/cocpp/sync/co_barrier.h
@@ -21,7 +21,6 @@ class co_barrier final : private co_noncopyable
 private:
     std::atomic<std::ptrdiff_t> expected__;
     std::atomic<std::ptrdiff_t> generation__;
-    std::atomic<std::ptrdiff_t> count__;
     const std::ptrdiff_t max__;
     co_mutex mutex__;
     co_condition_variable cond__;
diff --git a/source/cocpp/sync/co_barrier.cpp b/source/cocpp/sync/co_barrier.cpp
index f3815cc..882789f 100644
--- a/source/cocpp/sync/co_barrier.cpp
+++ b/source/cocpp/sync/co_barrier.cpp
@@ -6,7 +6,6 @@ CO_NAMESPACE_BEGIN
 
 co_barrier::co_barrier(ptrdiff_t expected)
     : expected__(expected)
-    , count__(expected)
     , max__(expected)
 {
 }
@@ -19,32 +18,28 @@ co_arrival_token co_barrier::arrive(ptrdiff_t n)
         throw logic_error("co_barrier::arrive: count < 0");
     }
     expected__ -= n;
-    return co_arrival_token {
+    co_arrival_token token {
         .generation__ = generation__,
         .barrier__ = this,
         .n__ = n};
+    if (expected__ == 0)
+    {
+        generation__++;
+        expected__ = max__;
+        cond__.notify_all();
+    }
+    return token;
 }
 
 void co_barrier::wait(co_arrival_token &&arrival)
 {
     unique_lock lock(mutex__);
-    if (arrival.generation__ != generation__ || arrival.barrier__ != this)
+    // the token is valid for the current phase and for the one that has just been completed
+    if ((arrival.generation__ != generation__ && arrival.generation__ + 1 != generation__) || arrival.barrier__ != this)
     {
         throw logic_error("co_barrier::wait: invalid token");
     }
-    if (count__ - arrival.n__ < 0)
-    {
-        throw logic_error("co_barrier::wait: count < 0");
-    }
-    count__ -= arrival.n__;
-    if (count__ == 0)
-    {
-        generation__++;
-        count__ = max__;
-        expected__ = max__;
-        cond__.notify_all();
-    }
-    else
+    while (arrival.generation__ == generation__)
     {
         cond__.wait(lock);
     }
-- 
2.43.0


From 31a2cc284aedc9c4474c83915115f2be8e35d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:35:56 +0000
Subject: [PATCH 05/28] fix: keep timers with equal expiry times apart in the
 timer queue

The queue is a set ordered by expiry time only, so a second timer with the same
expiry was dropped, and stopping one timer removed the other.
---
 source/cocpp/core/co_timer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index e58a31d..7356ace 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -135,7 +135,10 @@ bool operator==(const shared_ptr<co_timer> &lhs, const shared_ptr<co_timer> &rhs
 
 bool operator<(const shared_ptr<co_timer> &lhs, const shared_ptr<co_timer> &rhs)
 {
-    return lhs->expire_time() < rhs->expire_time();
+    auto lhs_time = lhs->expire_time();
+    auto rhs_time = rhs->expire_time();
+    // 超时时间相同的定时器是不同的定时器，使用handle区分
+    return lhs_time != rhs_time ? lhs_time < rhs_time : lhs->get_handle() < rhs->get_handle();
 }
 
 function<void()> co_timer::set_expire_callback(const function<void()> &func)
-- 
2.43.0


From f7cf2aabb3c5d0e77be160f90fd7f11bc5bd3125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:35:56 +0000
Subject: [PATCH 06/28] fix: take the timer queue lock before the timer lock

start() and stop() locked the timer first and the queue second, while the timer
thread does the opposite. run() also held the timer lock during the callback,
which blocked the queue for as long as the callback ran.
---
 source/cocpp/core/co_timer.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/source/cocpp/core/co_timer.cpp b/source/cocpp/core/co_timer.cpp
index 7356ace..3b68132 100644
--- a/source/cocpp/core/co_timer.cpp
+++ b/source/cocpp/core/co_timer.cpp
@@ -56,6 +56,8 @@ bool co_timer::is_running() const
 
 void co_timer::start()
 {
+    // 与timer_routine__保持一致的加锁顺序：先队列锁，再定时器锁
+    scoped_lock queue_lock(co_manager::instance()->mu_timer_queue__);
     scoped_lock lock(mutex__);
     if (status__ == co_timer_status::running)
     {
@@ -68,6 +70,7 @@ void co_timer::start()
 
 void co_timer::stop()
 {
+    scoped_lock queue_lock(co_manager::instance()->mu_timer_queue__);
     scoped_lock lock(mutex__);
     if (status__ == co_timer_status::stopped)
     {
@@ -121,10 +124,15 @@ bool co_timer::is_expired() const
 
 void co_timer::run() const
 {
-    scoped_lock lock(mutex__);
-    if (callback__)
+    function<void()> callback;
+    {
+        scoped_lock lock(mutex__);
+        callback = callback__;
+    }
+    // 不能持锁执行回调，否则回调执行期间会阻塞定时器队列
+    if (callback)
     {
-        callback__();
+        callback();
     }
 }
 
-- 
2.43.0


From ff15b227c80805cbbff0f4e665142f12b4cdde1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:35:56 +0000
Subject: [PATCH 07/28] fix: do not read the first timer of an empty queue

A timer started and stopped before the timer thread woke up left the queue
empty, and the thread dereferenced its begin().
---
 source/cocpp/core/co_manager.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index a128fe2..a6067e0 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -355,10 +355,7 @@ void co_manager::timer_routine__()
         if (timer_queue__.empty())
         {
             cv_timer_queue__.wait(lck);
-        }
-        if (clean_up__)
-        {
-            break;
+            continue; // 被唤醒时队列可能仍为空
         }
         auto front = *timer_queue__.begin();
         if (front->is_expired())
-- 
2.43.0


From d0f711c30e6ca9c48784a21cc5ee702b873aa5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:35:56 +0000
Subject: [PATCH 08/28] fix: schedule timer callbacks without holding the timer
 queue lock

Adding a coroutine takes the schedule lock of its env. A coroutine that starts
a timer holds that lock and waits for the queue lock, so both could wait for
each other. Stopping or resetting the timer first also keeps a start() made by
the callback from being undone.
---
 source/cocpp/core/co_manager.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index a6067e0..b82dbc2 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -360,11 +360,6 @@ void co_manager::timer_routine__()
         auto front = *timer_queue__.begin();
         if (front->is_expired())
         {
-            create_and_schedule_ctx(
-                {}, [front](co_any &) {
-                    front->run();
-                },
-                false);
             if (front->expire_type() == co_expire_type::once)
             {
                 front->stop();
@@ -373,6 +368,14 @@ void co_manager::timer_routine__()
             {
                 front->reset();
             }
+            // 添加ctx需要env的调度锁，不能持有队列锁，否则与持有调度锁启动定时器的协程互相等待
+            lck.unlock();
+            create_and_schedule_ctx(
+                {}, [front](co_any &) {
+                    front->run();
+                },
+                false);
+            lck.lock();
         }
         else
         {
-- 
2.43.0


From 7f14fcc2e54dcf1a436237590342e5fef8d3c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:35:56 +0000
Subject: [PATCH 09/28] fix: notify the timer thread at shutdown under the
 queue lock

The thread checks clean_up__ under that lock; a notification between the check
and the wait was lost and the process never exited.
---
 source/cocpp/core/co_manager.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index b82dbc2..8916c20 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -177,20 +177,24 @@ co_env *co_manager::current_env()
 
 void co_manager::set_clean_up__()
 {
-    scoped_lock lock(env_set__.normal_lock);
-    clean_up__ = true;
-    auto backup_data = env_set__.normal_set;
-    for (auto &&env : backup_data)
     {
-        if (env->test_flag(CO_ENV_FLAG_NO_SCHE_THREAD))
+        scoped_lock lock(env_set__.normal_lock);
+        clean_up__ = true;
+        auto backup_data = env_set__.normal_set;
+        for (auto &&env : backup_data)
         {
-            // 对于没有调度线程的env，无法将自己加入销毁队列，需要由manager__加入
-            remove_env__(env);
-            continue;
+            if (env->test_flag(CO_ENV_FLAG_NO_SCHE_THREAD))
+            {
+                // 对于没有调度线程的env，无法将自己加入销毁队列，需要由manager__加入
+                remove_env__(env);
+                continue;
+            }
+            env->stop_schedule(); // 注意：没有调度线程的env不能调用stop_schedule
         }
-        env->stop_schedule(); // 注意：没有调度线程的env不能调用stop_schedule
+        env_set__.cv_expired_env.notify_one();
     }
-    env_set__.cv_expired_env.notify_one();
+    // timer_routine__在持有队列锁的情况下检查clean_up__，不加锁通知可能丢失
+    scoped_lock lock(mu_timer_queue__);
     cv_timer_queue__.notify_one();
 }
 
-- 
2.43.0


From 836779bfb6d2f30968414ed2253f3aeea56c29e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:35:56 +0000
Subject: [PATCH 10/28] fix: keep the timeout of a condition variable wait to
 that wait

The timeout flag was shared by all waits and never reset, the timer was started
before the coroutine was queued so its expiry could be lost, and the callback
could run after the wait was over. Predicate waits also blocked although the
predicate already held.
---
 include/cocpp/sync/co_condition_variable.h | 89 ++++++++++------------
 1 file changed, 42 insertions(+), 47 deletions(-)

diff --git a/include/cocpp/sync/co_condition_variable.h b/include/cocpp/sync/co_condition_variable.h
index a73e38c..92b7d67 100644
--- a/include/cocpp/sync/co_condition_variable.h
+++ b/include/cocpp/sync/co_condition_variable.h
@@ -9,8 +9,10 @@ _Pragma("once");
 #include "cocpp/sync/co_mutex.h"
 #include "cocpp/utils/co_noncopyable.h"
 
+#include <algorithm>
 #include <chrono>
 #include <list>
+#include <memory>
 #include <mutex>
 
 CO_NAMESPACE_BEGIN
@@ -28,7 +30,13 @@ class co_condition_variable_impl final : private co_noncopyable
 private:
     mutable co_spinlock cv_lock__;
     std::list<co_ctx *> waiters__;
-    bool timeout__ {false};
+
+    struct timed_wait_state
+    {
+        co_spinlock mu;
+        bool active {true};
+        bool timeout {false};
+    };
 
 public:
     template <typename Lock>
@@ -69,22 +77,10 @@ void co_condition_variable_impl::wait(Lock &lock)
 template <typename Lock, typename Predicate>
 void co_condition_variable_impl::wait(Lock &lock, Predicate pred)
 {
-    CoPreemptGuard();
-    auto ctx = CoCurrentCtx();
-
-    do
+    while (!pred())
     {
-        {
-            std::scoped_lock lk(cv_lock__);
-            waiters__.push_back(ctx);
-            lock.unlock();
-            ctx->enter_wait_resource_state(this);
-        }
-
-        CoYield();
-
-        lock.lock();
-    } while (!pred());
+        wait(lock);
+    }
 }
 
 template <typename Lock, typename Clock, typename Duration>
@@ -93,14 +89,27 @@ bool co_condition_variable_impl::wait_until(Lock &lock, const std::chrono::time_
     CoScheduleGuard();
     auto ctx = CoCurrentCtx();
 
-    auto timer = co_timer::create([this, ctx] {
+    // 超时状态属于本次等待，定时器回调可能在等待结束之后才执行
+    auto state = std::make_shared<timed_wait_state>();
+
+    auto timer = co_timer::create([this, ctx, state] {
+        CoPreemptGuard();
+        std::scoped_lock state_lock(state->mu);
+        if (!state->active)
+        {
+            return;
+        }
         std::scoped_lock lk(cv_lock__);
-        waiters__.remove(ctx);
-        timeout__ = true;
+        auto iter = std::find(waiters__.begin(), waiters__.end(), ctx);
+        if (iter == waiters__.end()) // 已经被通知
+        {
+            return;
+        }
+        waiters__.erase(iter);
+        state->timeout = true;
         ctx->leave_wait_resource_state(this);
     },
                                   abs_time);
-    timer->start();
     {
         std::scoped_lock lk(cv_lock__);
 
@@ -108,12 +117,18 @@ bool co_condition_variable_impl::wait_until(Lock &lock, const std::chrono::time_
         lock.unlock();
         ctx->enter_wait_resource_state(this);
     }
+    // 加入等待队列之后再启动定时器，否则超时可能丢失
+    timer->start();
     CoUnlockSchedule();
     CoYield();
     CoLockSchedule();
-    lock.lock();
+    {
+        std::scoped_lock state_lock(state->mu);
+        state->active = false;
+    }
     timer->stop();
-    return !timeout__;
+    lock.lock();
+    return !state->timeout;
 }
 
 template <typename Lock, typename Clock, typename Duration>
@@ -126,34 +141,14 @@ template <typename Lock, typename Clock, typename Duration, typename Predicate>
 bool co_condition_variable_impl::wait_until(Lock &lock, const std::chrono::time_point<Clock, Duration> &abs_time,
                                             Predicate pred)
 {
-    CoScheduleGuard();
-    auto ctx = CoCurrentCtx();
-    auto timer = co_timer::create([this, ctx] {
-        std::scoped_lock lk(cv_lock__);
-        waiters__.remove(ctx);
-        timeout__ = true;
-        ctx->leave_wait_resource_state(this);
-    },
-                                  abs_time);
-    timer->start();
-    do
+    while (!pred())
     {
+        if (!wait_until(lock, abs_time))
         {
-            std::scoped_lock lk(cv_lock__);
-
-            waiters__.push_back(ctx);
-            lock.unlock();
-            ctx->enter_wait_resource_state(this);
+            return pred();
         }
-        CoUnlockSchedule();
-        CoYield();
-        CoLockSchedule();
-        lock.lock();
-    } while (!timeout__ && !pred());
-
-    timer->stop();
-
-    return !timeout__ && pred();
+    }
+    return true;
 }
 
 template <typename Lock, typename Clock, typename Duration, typename Predicate>
-- 
2.43.0


From 2a7beb97e9aa0c53df37a19cfb0e2583bb3d8213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:38:19 +0000
Subject: [PATCH 11/28] fix: key event callbacks by the full event handle

Handles are 64 bits wide but the map was keyed by int, so unsubscribing an
unknown large handle removed a callback whose handle has the same low bits.
---
 include/cocpp/event/co_event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cocpp/event/co_event.h b/include/cocpp/event/co_event.h
index 2e7167e..6c7e3e4 100644
--- a/include/cocpp/event/co_event.h
+++ b/include/cocpp/event/co_event.h
@@ -17,7 +17,7 @@ template <std::copyable... Args>
 class co_event final : private co_noncopyable
 {
 private:
-    std::map<int, std::function<void(Args... args)> > cb_list__;
+    std::map<co_event_handle, std::function<void(Args... args)> > cb_list__;
     mutable std::recursive_mutex mu_cb_list__;
     co_event_handle current_handler__ {0};
 
-- 
2.43.0


From d87bf3a6467a829c9703c1351ac614b1d380db2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:39:03 +0000
Subject: [PATCH 12/28] fix: let event callbacks subscribe and unsubscribe
 while being called

pub() iterated over the live map, so a callback that unsubscribed itself or the
next one left the loop with an invalid iterator.
---
 include/cocpp/event/co_event.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cocpp/event/co_event.h b/include/cocpp/event/co_event.h
index 6c7e3e4..d69e436 100644
--- a/include/cocpp/event/co_event.h
+++ b/include/cocpp/event/co_event.h
@@ -46,9 +46,14 @@ template <std::copyable... Args>
 void co_event<Args...>::pub(Args... args) const
 {
     std::scoped_lock lck(mu_cb_list__);
-    for (auto &&[_, cb] : cb_list__)
+    // 回调中可能会订阅或取消订阅，遍历副本，并跳过已经取消的回调
+    auto cb_list = cb_list__;
+    for (auto &&[handle, cb] : cb_list)
     {
-        cb(args...);
+        if (cb_list__.contains(handle))
+        {
+            cb(args...);
+        }
     }
 }
 
-- 
2.43.0


From a029f79d8c74b412d694f32ab5c76c5d6917dcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:44:57 +0000
Subject: [PATCH 13/28] fix: retry co_io::read and co_io::write when
 interrupted by a signal

---
 source/cocpp/io/co_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/io/co_io.cpp b/source/cocpp/io/co_io.cpp
index a1b38f6..89f1f67 100644
--- a/source/cocpp/io/co_io.cpp
+++ b/source/cocpp/io/co_io.cpp
@@ -53,7 +53,7 @@ int co_io::read(void *buf, size_t count)
         int ret = ::read(fd__, buf, count);
         if (ret == -1)
         {
-            if (errno == EAGAIN || errno == EWOULDBLOCK)
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK)
             {
                 CoYield();
                 continue;
@@ -75,7 +75,7 @@ int co_io::write(const void *buf, size_t count)
         int ret = ::write(fd__, buf, count);
         if (ret == -1)
         {
-            if (errno == EAGAIN || errno == EWOULDBLOCK)
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK)
             {
                 CoYield();
                 continue;
-- 
2.43.0


From 77026c462fe8b85ed6e3dfcacfebffb311f2cf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:44:57 +0000
Subject: [PATCH 14/28] fix: pass the argument of co_io::fcntl and co_io::ioctl
 instead of the va_list

---
 source/cocpp/io/co_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/io/co_io.cpp b/source/cocpp/io/co_io.cpp
index 89f1f67..dd3f22b 100644
--- a/source/cocpp/io/co_io.cpp
+++ b/source/cocpp/io/co_io.cpp
@@ -109,7 +109,7 @@ int co_io::fcntl(int cmd, ...)
 {
     va_list args;
     va_start(args, cmd);
-    int ret = ::fcntl(fd__, cmd, args);
+    int ret = ::fcntl(fd__, cmd, va_arg(args, void *));
     va_end(args);
 
     return ret;
@@ -119,7 +119,7 @@ int co_io::ioctl(int cmd, ...)
 {
     va_list args;
     va_start(args, cmd);
-    int ret = ::ioctl(fd__, cmd, args);
+    int ret = ::ioctl(fd__, cmd, va_arg(args, void *));
     va_end(args);
     return ret;
 }
-- 
2.43.0


From 2cd340d9b0c7ebdc740753bc60889a6be47ef42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:44:57 +0000
Subject: [PATCH 15/28] fix: retry co_net::sendto when it would block or was
 interrupted

---
 source/cocpp/io/co_net.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/io/co_net.cpp b/source/cocpp/io/co_net.cpp
index 6657e4f..b45c760 100644
--- a/source/cocpp/io/co_net.cpp
+++ b/source/cocpp/io/co_net.cpp
@@ -123,7 +123,22 @@ int co_net::send(const void *buf, size_t len, int flags)
 
 int co_net::sendto(const void *buf, size_t len, int flags, const struct sockaddr *dest_addr, socklen_t addrlen)
 {
-    return ::sendto(fd__, buf, len, flags, dest_addr, addrlen);
+    for (;;)
+    {
+        int ret = ::sendto(fd__, buf, len, flags, dest_addr, addrlen);
+
+        if (ret == -1)
+        {
+            if (errno == EINTR || errno == EAGAIN || errno == EWOULDBLOCK)
+            {
+                CoYield();
+                continue;
+            }
+            CO_O_ERROR("sendto error: %s", strerror(errno));
+            return -1;
+        }
+        return ret;
+    }
 }
 
 int co_net::recv(void *buf, size_t len, int flags)
-- 
2.43.0


From dbc04f337aa1a4ffb0c5a10e78e8eb4b8eab0d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:44:57 +0000
Subject: [PATCH 16/28] fix: report the real outcome of co_net::connect

An immediate success was judged by a stale errno, a connection that failed in
the background was reported as established, an interruption failed the call,
and descriptors beyond FD_SETSIZE overflowed the fd_set.
---
 source/cocpp/io/co_net.cpp | 39 ++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/source/cocpp/io/co_net.cpp b/source/cocpp/io/co_net.cpp
index b45c760..4df3b9e 100644
--- a/source/cocpp/io/co_net.cpp
+++ b/source/cocpp/io/co_net.cpp
@@ -1,4 +1,5 @@
 #include <optional>
+#include <poll.h>
 #include <sys/socket.h>
 #include <string.h>
 #include "cocpp/io/co_net.h"
@@ -59,45 +60,47 @@ int co_net::connect(const struct sockaddr *addr, socklen_t addrlen)
 {
     int ret = ::connect(fd__, addr, addrlen);
 
-    if (ret > 0)
+    if (ret == 0)
     {
         return ret;
     }
 
-    if (errno != EINPROGRESS)
+    if (errno != EINPROGRESS && errno != EINTR)
     {
         CO_O_ERROR("connect error: %s", strerror(errno));
         return -1;
     }
 
-    fd_set write_fds;
-    struct timeval timeout;
-    timeout.tv_sec = 0;
-    timeout.tv_usec = 10 * 1000;
     while (1)
     {
-        FD_ZERO(&write_fds);
-        FD_SET(fd__, &write_fds);
+        struct pollfd write_fd { fd__, POLLOUT, 0 };
+        int           result = ::poll(&write_fd, 1, 0);
 
-        int result = select(fd__ + 1, NULL, &write_fds, NULL, &timeout);
-
-        if (result < 0)
+        if (result < 0 && errno != EINTR)
         {
-            CO_O_ERROR("select error: %s", strerror(errno));
+            CO_O_ERROR("poll error: %s", strerror(errno));
             return -1;
         }
-        else if (result == 0)
+        else if (result <= 0)
         {
             CoYield();
             continue;
         }
-        else
+
+        int       error = 0;
+        socklen_t len   = sizeof(error);
+        if (::getsockopt(fd__, SOL_SOCKET, SO_ERROR, &error, &len) == -1)
         {
-            if (FD_ISSET(fd__, &write_fds))
-            {
-                return 0;
-            }
+            CO_O_ERROR("getsockopt error: %s", strerror(errno));
+            return -1;
+        }
+        if (error != 0)
+        {
+            CO_O_ERROR("connect error: %s", strerror(error));
+            errno = error;
+            return -1;
         }
+        return 0;
     }
 }
 
-- 
2.43.0


From 1377ff5bafa7cdc7b8983fabe3edae390cde2fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:44:57 +0000
Subject: [PATCH 17/28] fix: end co_client::read_n and write_n when the peer
 closed the connection

---
 source/cocpp/io/co_client.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/cocpp/io/co_client.cpp b/source/cocpp/io/co_client.cpp
index be0a631..95abd0e 100644
--- a/source/cocpp/io/co_client.cpp
+++ b/source/cocpp/io/co_client.cpp
@@ -32,6 +32,10 @@ co_error co_client::read_n(co_buffer &buf)
         {
             return co_error(co_error_code::co_client_read_error, "read error", strerror(errno));
         }
+        if (ret == 0)
+        {
+            return co_error(co_error_code::co_client_read_error, "read error", "connection closed by peer");
+        }
         remain -= ret;
     }
     return co_error();
@@ -57,6 +61,10 @@ co_error co_client::write_n(const co_buffer &buf)
         {
             return co_error(co_error_code::co_client_write_error, "write error", strerror(errno));
         }
+        if (ret == 0)
+        {
+            return co_error(co_error_code::co_client_write_error, "write error", "connection closed by peer");
+        }
         send_size += ret;
     }
     return co_error();
-- 
2.43.0


From 61697f23073da73a1edccc555aba4ba77167f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:53:56 +0000
Subject: [PATCH 18/28] fix: rethrow a coroutine's exception to one waiter only

Waiters on different threads could all take the exception at the same time.
---
 source/cocpp/core/co_ctx.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index ef1ed8e..fa595eb 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -130,10 +130,13 @@ void co_ctx::unset_flag(size_t flag)
 
 void co_ctx::check_and_rethrow_exception()
 {
-    if (exception__)
+    exception_ptr e;
+    {
+        scoped_lock lock(finish_lock__); // 多个协程可能同时等待结束
+        swap(e, exception__);            // 仅第一次抛出异常
+    }
+    if (e)
     {
-        auto e = exception__;
-        exception__ = nullptr; // 仅第一次抛出异常
         rethrow_exception(e);
     }
 }
-- 
2.43.0


From 4388748988edc547a208d4549731c3ecc2d1771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:54:24 +0000
Subject: [PATCH 19/28] fix: do not shorten the timeout of wait_for to whole
 milliseconds

---
 source/cocpp/core/co_env.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index c6e6f2c..9597768 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -115,9 +115,7 @@ optional<co_return_value> co_env::wait_ctx(co_ctx *ctx, const chrono::nanosecond
     auto curr_ctx = current_ctx();
     if (ctx->state() != co_state::finished)
     {
-        auto timer = co_timer::create(
-            nullptr,
-            co_expire_type::once, chrono::duration_cast<chrono::milliseconds>(timeout).count());
+        auto timer = co_timer::create(nullptr, chrono::steady_clock::now() + timeout);
         auto timer_id = timer.get();
         curr_ctx->enter_wait_resource_state(timer_id);
         auto handle = ctx->finished().sub([curr_ctx, timer, timer_id] {
-- 
2.43.0


From ea0079ec00925f1a99ff5d21ce62e9e250ef649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:56:17 +0000
Subject: [PATCH 20/28] fix: ignore the timer of a timed coroutine wait once
 the wait is over

The expiry callback could run after the waited coroutine had been destroyed.
---
 source/cocpp/core/co_env.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 9597768..6eeb100 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -122,7 +122,20 @@ optional<co_return_value> co_env::wait_ctx(co_ctx *ctx, const chrono::nanosecond
             timer->stop(); // Handle delete callbacks first and wake up later to prevent timing problems
             curr_ctx->leave_wait_resource_state(timer_id);
         });
-        timer->set_expire_callback([curr_ctx, ctx, handle, timer_id] {
+        // 定时器回调可能在等待结束之后才执行，此时ctx可能已经销毁
+        struct timed_wait_state
+        {
+            mutex mu;
+            bool active {true};
+        };
+        auto state = make_shared<timed_wait_state>();
+        timer->set_expire_callback([curr_ctx, ctx, handle, timer_id, state] {
+            CoPreemptGuard();
+            scoped_lock state_lock(state->mu);
+            if (!state->active)
+            {
+                return;
+            }
             ctx->finished().unsub(handle); // Unsubscribe before wake up to prevent timing problems
             curr_ctx->leave_wait_resource_state(timer_id);
         });
@@ -131,6 +144,9 @@ optional<co_return_value> co_env::wait_ctx(co_ctx *ctx, const chrono::nanosecond
         unlock_schedule();
         ctx->unlock_finished_state();
         schedule_switch();
+
+        scoped_lock state_lock(state->mu);
+        state->active = false;
     }
     else
     {
-- 
2.43.0


From bf9c4d7a6891b49a13b268303961bd1be5720954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:17:53 +0000
Subject: [PATCH 21/28] fix: do not place coroutines on an idle exclusive env

---
 source/cocpp/core/co_manager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 8916c20..2e913e2 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -33,10 +33,6 @@ co_env *co_manager::get_best_env__()
     size_t can_schedule_env_count = 0;
     for (auto &&env : env_set__.normal_set)
     {
-        if (env->state() == co_env_state::idle)
-        {
-            return env;
-        }
         if (!env->can_schedule_ctx())
         {
             continue;
@@ -46,6 +42,10 @@ co_env *co_manager::get_best_env__()
         {
             continue;
         }
+        if (env->state() == co_env_state::idle)
+        {
+            return env;
+        }
         // 统计可用于调度的env数量
         ++can_schedule_env_count;
         if (env->workload() < min_workload)
-- 
2.43.0


From 6a32fd1bb6aa89221e324064684d338d07cacc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:17:53 +0000
Subject: [PATCH 22/28] fix: do not add a coroutine to an env that is being
 stopped as redundant

The env chosen for a new coroutine could be stopped before the coroutine was
added, so creating it failed or it was destroyed without having run.
---
 source/cocpp/core/co_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cocpp/core/co_manager.cpp b/source/cocpp/core/co_manager.cpp
index 2e913e2..fadca0c 100644
--- a/source/cocpp/core/co_manager.cpp
+++ b/source/cocpp/core/co_manager.cpp
@@ -437,6 +437,8 @@ co_ctx *co_manager::create_and_schedule_ctx(const co_ctx_config &config, functio
     }
     else
     {
+        // 防止选中的env在加入ctx之前被destroy_redundant_env__停止
+        scoped_lock lock(env_set__.normal_lock);
         get_best_env__()->add_ctx(ctx);
     }
     return ctx;
-- 
2.43.0


From 4418bce2faf999eae0ea47f774731374cbe233a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:17:53 +0000
Subject: [PATCH 23/28] fix: take blocked coroutines of high priority off an
 env too

min_priority__ is the lowest priority value of the coroutines that can run, so
waiting coroutines below it were left behind.
---
 source/cocpp/core/co_env.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 6eeb100..65222e9 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -588,9 +588,9 @@ void co_env::ctx_enter_wait_state(co_ctx *ctx)
 
 list<co_ctx *> co_env::take_all_movable_ctx()
 {
-    scoped_lock lock(mu_normal_ctx__, mu_min_priority__, schedule_lock__);
+    scoped_lock lock(mu_normal_ctx__, schedule_lock__);
     list<co_ctx *> ret;
-    for (unsigned int i = min_priority__; i < all_normal_ctx__.size(); ++i)
+    for (unsigned int i = 0; i < all_normal_ctx__.size(); ++i)
     {
         auto backup = all_normal_ctx__[i];
         for (auto &&ctx : backup)
@@ -608,8 +608,8 @@ list<co_ctx *> co_env::take_all_movable_ctx()
 
 co_ctx *co_env::take_one_movable_ctx()
 {
-    scoped_lock lock(mu_normal_ctx__, mu_min_priority__, schedule_lock__);
-    for (unsigned int i = min_priority__; i < all_normal_ctx__.size(); ++i)
+    scoped_lock lock(mu_normal_ctx__, schedule_lock__);
+    for (unsigned int i = 0; i < all_normal_ctx__.size(); ++i)
     {
         auto backup = all_normal_ctx__[i];
         for (auto &&ctx : backup)
-- 
2.43.0


From 725fc50ec66396165cb1aac8fd7c68c3d21c715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:26:45 +0000
Subject: [PATCH 24/28] fix: align the initial stack pointer for every stack
 size

A stack size that is not a multiple of 16 gave the entry function a
misaligned stack.
---
 source/cocpp/core/co_vos_gcc_x86_64.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/core/co_vos_gcc_x86_64.cpp b/source/cocpp/core/co_vos_gcc_x86_64.cpp
index 1552d78..336c13b 100644
--- a/source/cocpp/core/co_vos_gcc_x86_64.cpp
+++ b/source/cocpp/core/co_vos_gcc_x86_64.cpp
@@ -98,8 +98,10 @@ __attribute__((naked)) void switch_to(co_byte **curr, co_byte **next)
 void init_ctx(co_stack *stack, co_ctx *ctx)
 {
     auto context = get_sigcontext_64(ctx);
-    CO_SETREG(context, sp, stack->stack_top() - 8);
-    CO_SETREG(context, bp, stack->stack_top() - 8);
+    // The ABI requires the stack to be 16-byte aligned before the return address is pushed
+    auto top = reinterpret_cast<unsigned long long>(stack->stack_top()) & ~15ull;
+    CO_SETREG(context, sp, top - 8);
+    CO_SETREG(context, bp, top - 8);
     CO_SETREG(context, ip, &co_ctx::real_entry);
     CO_SETREG(context, di, ctx);
     // Store the address of '_start' at the bottom of the stack to prevent segment fault in case of exception backtracking of the call chain
-- 
2.43.0


From 4eaebf80a5bcf9cd1223b388422c0211cc1654a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:31:05 +0000
Subject: [PATCH 25/28] fix: keep a finished shared-stack context until its
 switch is complete

The scheduler removed the finished context before switch_shared_stack_ctx__
used it. The stack of a finished context is no longer copied either, the copy
was never freed.
---
 source/cocpp/core/co_env.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 65222e9..32d294b 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -326,13 +326,14 @@ void co_env::schedule_switch()
 {
     lock_schedule();
     CoDefer(unlock_schedule());
-    remove_detached_ctx__();
     if (shared_stack_switch_info__.need_switch)
     {
         switch_shared_stack_ctx__();
     }
     else
     {
+        // 共享栈切换完成之前不能清理，被切出的ctx可能已经结束，但是切换时还会访问
+        remove_detached_ctx__();
         switch_normal_ctx__();
     }
     if (current_ctx()->pre_ctx() != nullptr)
@@ -383,7 +384,8 @@ void co_env::switch_shared_stack_ctx__()
     CoPreemptGuard();
     shared_stack_switch_info__.need_switch = false;
 
-    if (shared_stack_switch_info__.from->test_flag(CO_CTX_FLAG_SHARED_STACK))
+    // 已经结束的ctx不再需要栈的内容
+    if (shared_stack_switch_info__.from->test_flag(CO_CTX_FLAG_SHARED_STACK) && shared_stack_switch_info__.from->state() != co_state::finished)
     {
         save_shared_stack__(shared_stack_switch_info__.from);
     }
-- 
2.43.0


From 4c6e00e53c59e5a649192878796899ab96f0525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:32:52 +0000
Subject: [PATCH 26/28] fix: do not use the previous context after it was
 destroyed

A context that was scheduled for the first time kept a pointer to the context
it was switched from, which may be finished and removed by the time it yields.
---
 source/cocpp/core/co_env.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cocpp/core/co_env.cpp b/source/cocpp/core/co_env.cpp
index 32d294b..db6eec1 100644
--- a/source/cocpp/core/co_env.cpp
+++ b/source/cocpp/core/co_env.cpp
@@ -326,6 +326,8 @@ void co_env::schedule_switch()
 {
     lock_schedule();
     CoDefer(unlock_schedule());
+    // 首次被调度的ctx不会清理pre_ctx，其指向的ctx可能会在下面被销毁
+    current_ctx()->clear_pre_ctx();
     if (shared_stack_switch_info__.need_switch)
     {
         switch_shared_stack_ctx__();
-- 
2.43.0


From 044e3559f0bb41e08d5dfb4d8c5c4a555d22f103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:43:12 +0000
Subject: [PATCH 27/28] fix: do not touch a woken coroutine after it may have
 been destroyed

Once the waiting flag is cleared the coroutine can run, finish and be removed
by its scheduler thread while leave_wait_resource_state still uses it. Keep
that thread from scheduling until the wake-up is complete.
---
 source/cocpp/core/co_ctx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cocpp/core/co_ctx.cpp b/source/cocpp/core/co_ctx.cpp
index fa595eb..bfee910 100644
--- a/source/cocpp/core/co_ctx.cpp
+++ b/source/cocpp/core/co_ctx.cpp
@@ -194,6 +194,8 @@ void co_ctx::enter_wait_resource_state(void *rc)
 
 void co_ctx::leave_wait_resource_state(void *rc)
 {
+    // 标记清除之后ctx可能被调度、结束并被销毁，因此在唤醒完成之前不允许调度
+    scoped_lock schedule_lock(env__->schedule_lock());
     {
         scoped_lock lock(wait_data__.mu);
         wait_data__.resource.erase(rc);
-- 
2.43.0


From bbb193aecef69599fd77f935dff9aab7ad87371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:42:59 +0000
Subject: [PATCH 28/28] fix: keep a copy of an initializer list used as
 pipeline source

The source coroutine kept the initializer_list itself, whose array is gone
once the constructor expression ends.
---
 include/cocpp/pipeline/co_pipeline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cocpp/pipeline/co_pipeline.h b/include/cocpp/pipeline/co_pipeline.h
index b9e6772..b1c1b7b 100644
--- a/include/cocpp/pipeline/co_pipeline.h
+++ b/include/cocpp/pipeline/co_pipeline.h
@@ -234,7 +234,7 @@ template <typename ItemType>
 co_pipeline<ItemType>::co_pipeline(const std::initializer_list<ItemType> &col, int max_chan_size)
     : channel__(max_chan_size)
 {
-    co__ = std::make_shared<co>([ch = channel__, col]() mutable {
+    co__ = std::make_shared<co>([ch = channel__, col = std::vector<ItemType>(col)]() mutable {
         for (const auto &t : col)
         {
             if (!ch.push(t))
-- 
2.43.0

