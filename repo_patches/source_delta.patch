From 42d0c022b8d3b1b56f9bad8980760caf4ab76b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 01/38] fix: assigning over a packaged_task breaks its promise
 instead of leaving the future pending

---
 include/stlab/concurrency/future.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index ce61c43..04feb3e 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -665,7 +665,12 @@ public:
     auto operator=(const packaged_task&) -> packaged_task& = delete;
 
     packaged_task(packaged_task&&) noexcept = default;
-    auto operator=(packaged_task&& x) noexcept -> packaged_task& = default;
+    auto operator=(packaged_task&& x) noexcept -> packaged_task& {
+        // a task that is assigned over is abandoned, as if destroyed
+        packaged_task tmp{std::move(x)};
+        _p.swap(tmp._p);
+        return *this;
+    }
 
     template <class... A>
     void operator()(A&&... args) noexcept {
-- 
2.43.0


From 9e396c2893bdc133822d503d4ccea07f47ee7e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 02/38] fix: when_any of void futures no longer moves from the
 executor it still has to use

---
 include/stlab/concurrency/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 04feb3e..37bb8f7 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1301,7 +1301,7 @@ struct make_when_any<void> {
         });
         shared->_f = std::move(p.first);
 
-        detail::attach_when_args(std::forward<E>(executor), shared, std::move(args)...);
+        detail::attach_when_args(executor, shared, std::move(args)...);
 
         return std::move(p.second);
     }
-- 
2.43.0


From f8b10e1177497fcc6b9ac92af439d39e3486c810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 03/38] fix: pre_exit joins pool threads that are added while
 the pool drains

A task that waits while `join()` runs calls `add_thread()`: `_threads` was modified
while join() iterated over it (a data race), and the added thread was not joined.
---
 include/stlab/concurrency/default_executor.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/default_executor.hpp b/include/stlab/concurrency/default_executor.hpp
index 351b622..685567e 100644
--- a/include/stlab/concurrency/default_executor.hpp
+++ b/include/stlab/concurrency/default_executor.hpp
@@ -384,8 +384,18 @@ public:
             e.done();
         for (auto& e : _waiters)
             e.done();
-        for (auto& e : _threads)
-            e.join();
+
+        // A task that waits while the queues drain can still call `add_thread()`, each thread is
+        // taken under the lock and the size is checked again after each join.
+        for (std::size_t n = 0;; ++n) {
+            std::thread t;
+            {
+                lock_t lock{_mutex};
+                if (n == _threads.size()) break;
+                t = std::move(_threads[n]);
+            }
+            t.join();
+        }
 
         _q.clear();
     }
-- 
2.43.0


From 8232faa157685ef99049e4895a5edf9c017dbc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 04/38] fix: pool threads no longer skip a contended queue and
 go to sleep

A thread that was woken or added for a waiting task could find the queue locked by a
submitter or by join(), go to sleep (or leave, when the pool drains) and strand the task
that is waited for.
---
 include/stlab/concurrency/default_executor.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/default_executor.hpp b/include/stlab/concurrency/default_executor.hpp
index 685567e..b93391d 100644
--- a/include/stlab/concurrency/default_executor.hpp
+++ b/include/stlab/concurrency/default_executor.hpp
@@ -255,9 +255,11 @@ class notification_queue {
     }
 
 public:
+    // Waits for the lock: a thread that skipped a contended queue could go to sleep and leave a task
+    // in it with no other thread to run it.
     auto try_pop() -> task<void() noexcept> {
-        lock_t lock{_mutex, std::try_to_lock};
-        if (!lock || _q.empty()) return nullptr;
+        lock_t lock{_mutex};
+        if (_q.empty()) return nullptr;
         return pop_not_empty();
     }
 
-- 
2.43.0


From 7825761547165e36907f5a18992e579be7611ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 05/38] fix: a pool thread woken for a waiting task looks for
 it before it leaves at pre-exit

When `done()` followed `wake()` before the woken thread ran, the thread left without
looking at the queues, and the task that is waited for was stranded.
---
 include/stlab/concurrency/default_executor.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/stlab/concurrency/default_executor.hpp b/include/stlab/concurrency/default_executor.hpp
index b93391d..2bc4594 100644
--- a/include/stlab/concurrency/default_executor.hpp
+++ b/include/stlab/concurrency/default_executor.hpp
@@ -207,14 +207,14 @@ public:
         return true;
     }
 
-    // Will wait until `wake()` or `done()` returns true if done
+    // Will wait until `wake()` or `done()` returns true if done. A thread that `wake()` reported as
+    // woken has to look for a task before it may leave, even if `done()` follows at once.
     bool wait() {
         lock_t lock{_mutex};
         _waiting = true;
         while (_waiting && !_done)
             _ready.wait(lock);
-        _waiting = false;
-        return _done;
+        return std::exchange(_waiting, false) && _done;
     }
 };
 
@@ -279,8 +279,8 @@ public:
         _waiting = true;
         while (_q.empty() && !_done && _waiting)
             _ready.wait(lock);
-        _waiting = false;
-        if (_q.empty()) return {_done, nullptr};
+        const bool woken = !std::exchange(_waiting, false); // by `wake()`, look for a task first
+        if (_q.empty()) return {_done && !woken, nullptr};
         return {false, pop_not_empty()};
     }
 
-- 
2.43.0


From c8706b06f979bc371541998b2e4fd71751b7bdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 06/38] fix: blocking_get_for returns the future it waited for

---
 include/stlab/concurrency/await.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/await.hpp b/include/stlab/concurrency/await.hpp
index 8780d03..7aba406 100644
--- a/include/stlab/concurrency/await.hpp
+++ b/include/stlab/concurrency/await.hpp
@@ -152,7 +152,7 @@ auto blocking_get(future<T> x) -> T {
 template <class T>
 [[deprecated("Use await_for instead.")]]
 auto blocking_get_for(future<T> x, const std::chrono::nanoseconds& timeout) -> future<T> {
-    await_for(std::move(x), timeout);
+    return await_for(std::move(x), timeout);
 }
 
 template <class T>
-- 
2.43.0


From 804dfd5776e8c00f51ae2947dac6e3e949712d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:44 +0000
Subject: [PATCH 07/38] fix: an exception thrown while co_return copies or
 converts its operand resolves the future

It reached packaged_task::operator(), which is noexcept, and terminated the program.
---
 include/stlab/concurrency/future.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 37bb8f7..e701d1d 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1723,7 +1723,10 @@ struct std::coroutine_traits<stlab::future<T>, Args...> {
 
         template <class U>
         void return_value(U&& val) {
-            _promise.first(std::forward<U>(val));
+            // converted here, packaged_task::operator() is noexcept: an exception thrown by the
+            // conversion resolves the future
+            T result = std::forward<U>(val);
+            _promise.first(std::move(result));
         }
 
         void unhandled_exception() { _promise.first.set_exception(std::current_exception()); }
-- 
2.43.0


From d039508db8a99da79aad4724ccfe9a01d097c8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 08/38] fix: an execute_at / execute_delayed executor can be
 used for more than one task

The first task moved the underlying executor out of it, the next one was handed to an
empty std::function (std::terminate on the timer's thread).
---
 include/stlab/concurrency/executor_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/executor_base.hpp b/include/stlab/concurrency/executor_base.hpp
index 76410c2..76299a9 100644
--- a/include/stlab/concurrency/executor_base.hpp
+++ b/include/stlab/concurrency/executor_base.hpp
@@ -36,7 +36,7 @@ auto execute_at(std::chrono::duration<Rep, Per> duration, executor_t executor) -
     return [_duration = std::move(duration), _executor = std::move(executor)](auto f) mutable {
         if (_duration != std::chrono::duration<Rep, Per>{})
             system_timer(_duration,
-                         [_f = std::move(f), _executor = std::move(_executor)]() mutable noexcept {
+                         [_f = std::move(f), _executor = _executor]() mutable noexcept {
                              _executor(std::move(_f));
                          });
         else
-- 
2.43.0


From 1065abf73fb510ebbd93729fa03bd34e4984d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 09/38] fix: annotating an annotated process sets the
 annotation on the result instead of on the moved-from operand

---
 include/stlab/concurrency/channel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 21bc9b2..ea4ccaf 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1433,14 +1433,14 @@ auto operator&(F&& f, detail::annotations&& a) -> detail::annotated_process<F> {
 template <typename F>
 auto operator&(detail::annotated_process<F>&& a, executor&& e) -> detail::annotated_process<F> {
     auto result{std::move(a)};
-    a._annotations._executor = std::move(e._executor);
+    result._annotations._executor = std::move(e._executor);
     return result;
 }
 
 template <typename F>
 auto operator&(detail::annotated_process<F>&& a, buffer_size bs) -> detail::annotated_process<F> {
     auto result{std::move(a)};
-    a._annotations._buffer_size = bs._value;
+    result._annotations._buffer_size = bs._value;
     return result;
 }
 
-- 
2.43.0


From a68fa005d64bd1f0eec5ecb3bb6ac7fbd59159a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 10/38] fix: move-assigning over a live sender or receiver
 releases it

---
 include/stlab/concurrency/channel.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index ea4ccaf..90e5c3d 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1487,7 +1487,13 @@ public:
         return *this = receiver(x);
     }
 
-    auto operator=(receiver&& x) noexcept -> receiver& = default;
+    // the assigned-over channel no longer waits for this receiver
+    auto operator=(receiver&& x) noexcept -> receiver& {
+        receiver tmp(std::move(x));
+        std::swap(_p, tmp._p);
+        std::swap(_ready, tmp._ready);
+        return *this;
+    }
 
     void set_ready() {
         if (!_ready && _p) _p->remove_receiver();
@@ -1585,7 +1591,12 @@ public:
         return *this = sender(x);
     }
 
-    auto operator=(sender&&) noexcept -> sender& = default;
+    // the assigned-over channel loses this sender
+    auto operator=(sender&& x) noexcept -> sender& {
+        sender tmp(std::move(x));
+        std::swap(_p, tmp._p);
+        return *this;
+    }
 
     void swap(sender& x) noexcept { std::swap(*this, x); }
 
@@ -1643,7 +1654,12 @@ public:
     sender(const sender& x) = delete;
     sender(sender&&) noexcept = default;
     auto operator=(const sender& x) -> sender& = delete;
-    auto operator=(sender&&) noexcept -> sender& = default;
+    // the assigned-over channel loses this sender
+    auto operator=(sender&& x) noexcept -> sender& {
+        sender tmp(std::move(x));
+        std::swap(_p, tmp._p);
+        return *this;
+    }
 
     void swap(sender& x) noexcept { std::swap(*this, x); }
 
-- 
2.43.0


From f718f4c2dd59440052eec70a2cfa3cc6e9c958ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 11/38] fix: close is not called on a channel process each time
 its queue runs empty

---
 include/stlab/concurrency/channel.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 90e5c3d..3a6ae28 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -893,8 +893,6 @@ struct shared_process
                     do_close = true;
             } else
                 await_variant_args<process_t, Args...>(*_process, *message);
-        } else {
-            do_close = true;
         }
 
         if (do_close) process_close(_process);
-- 
2.43.0


From 92d85ef7f987e97e7855a0e796690dc1a8f0b753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 12/38] fix: set_error is called on a channel process attached
 by reference wrapper

---
 include/stlab/concurrency/channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 3a6ae28..8391c68 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -887,7 +887,7 @@ struct shared_process
         if (message) {
             auto error = find_argument_error(*message);
             if (error) {
-                if (has_set_process_error_v<T>)
+                if (has_set_process_error_v<unwrap_reference_t<T>>)
                     set_process_error(*_process, std::move(*error));
                 else
                     do_close = true;
-- 
2.43.0


From d136cdf434085586dcd32ea0525f0231e6e9a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 13/38] fix: a channel process is resumed only when it is
 suspended and all its downstream processes have room

A downstream process reports room for each value it takes. With a buffer
size other than one such a report reached an upstream process that was not
suspended and started it a second time, concurrently: values overtook each
other. The process state was read concurrently with the process, too.
---
 include/stlab/concurrency/channel.hpp | 112 ++++++++++++++++++--------
 1 file changed, 78 insertions(+), 34 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 8391c68..feaa7c1 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -630,10 +630,10 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
 
     [[nodiscard]] auto free_buffer() const -> std::size_t override {
         std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
-        return _shared_process._process_buffer_size == 0 ?
-                   std::numeric_limits<std::size_t>::max() :
-                   (_shared_process._process_buffer_size -
-                    _shared_process._queue.template queue_size<I>());
+        const std::size_t buffer_size = _shared_process._process_buffer_size;
+        const std::size_t queue_size = _shared_process._queue.template queue_size<I>();
+        if (buffer_size == 0) return std::numeric_limits<std::size_t>::max();
+        return buffer_size - std::min(buffer_size, queue_size);
     }
 };
 
@@ -672,13 +672,13 @@ struct downstream<R, std::enable_if_t<std::is_copy_constructible_v<R> || std::is
         stlab::for_each_n(begin(_data), n, [&](const auto& e) { e(args...); });
     }
 
+    // processes that are gone do not limit the upstream process
     [[nodiscard]] auto minimum_free_buffer() const -> std::size_t {
-        if (size() == 0) return 0;
         // std::reduce with C++17
         return std::accumulate(_data.cbegin(), _data.cend(),
                                std::numeric_limits<std::size_t>::max(),
                                [](auto val, const auto& e) {
-                                   return std::min(val, e.free_buffer() ? *e.free_buffer() : val);
+                                   return std::min(val, e.free_buffer().value_or(val));
                                });
     }
 };
@@ -703,8 +703,8 @@ struct downstream<R,
     }
 
     [[nodiscard]] auto minimum_free_buffer() const -> std::size_t {
-        if (_data && (*_data).free_buffer()) return *(*_data).free_buffer();
-        return 0;
+        constexpr auto unlimited = std::numeric_limits<std::size_t>::max();
+        return _data ? (*_data).free_buffer().value_or(unlimited) : unlimited;
     }
 };
 
@@ -741,7 +741,13 @@ struct shared_process
     std::mutex _process_mutex;
 
     bool _process_running = false;
-    std::atomic_size_t _process_suspend_count{0};
+    // The process waits for room downstream. Whoever resets it continues the process.
+    bool _process_suspended = false;
+    // There was a clear_to_send() while the process was not suspended.
+    bool _process_cleared = false;
+    // The next step is scheduled while the process still broadcasts, and has to wait for that.
+    bool _process_broadcasting = false;
+    bool _process_deferred = false;
     bool _process_close_queue = false;
     // REVISIT (sparent) : I'm not certain final needs to be under the mutex
     bool _process_final = false;
@@ -830,22 +836,42 @@ struct shared_process
             if (_process_final) {
                 return;
             }
+            _process_cleared = true;
+            if (!_process_suspended) return;
+            _process_suspended = false;
+        }
+        resume();
+    }
+
+    /*
+        Continue after a broadcast, as soon as there is room in each downstream process. Only one
+        thread at a time gets here: the one that ran the process, or the one that took it out of
+        its suspension.
+    */
+    void resume() {
+        while (true) {
+            {
+                std::unique_lock<std::mutex> lock(_process_mutex);
+                _process_cleared = false;
+            }
+            if (_downstream.minimum_free_buffer() != 0) break;
+            {
+                // There may be room since we looked.
+                std::unique_lock<std::mutex> lock(_process_mutex);
+                if (!_process_cleared) {
+                    _process_suspended = true;
+                    return;
+                }
+            }
         }
 
         bool do_run = false;
         {
             const auto ps = get_process_state(_process);
             std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_suspend_count > 0) --_process_suspend_count; // could be atomic?
-
-            if (!_process_suspend_count) {
-                if (ps.first == process_state::yield || !_queue.empty() || _process_close_queue) {
-                    do_run = true;
-                } else {
-                    _process_running = false;
-                    do_run = false;
-                }
-            }
+            if (_process_final) return;
+            do_run = ps.first == process_state::yield || !_queue.empty() || _process_close_queue;
+            _process_running = do_run;
         }
         // Somebody told me that his name was Bill
         if (do_run) run();
@@ -1121,10 +1147,16 @@ struct shared_process
     void run() {
         _executor([_p = make_weak_ptr(this->shared_from_this())]() noexcept {
             auto p = _p.lock();
-            if (p) p->template step<T>();
+            if (p && p->begin_step()) p->template step<T>();
         });
     }
 
+    auto begin_step() -> bool {
+        std::unique_lock<std::mutex> lock(_process_mutex);
+        _process_deferred = _process_broadcasting;
+        return !_process_deferred;
+    }
+
     template <typename... A>
     void broadcast(A&&... args) {
         /*
@@ -1132,24 +1164,26 @@ struct shared_process
         */
 
         std::size_t n;
-        bool suspend_process;
+        bool proceed;
         {
             std::unique_lock<std::mutex> lock(_downstream_mutex);
             n = _downstream.size();
-            suspend_process = _downstream.minimum_free_buffer() <= 1;
+            proceed = n != 0 && _downstream.minimum_free_buffer() > 1;
         }
 
-        {
-            std::unique_lock<std::mutex> lock(_process_mutex);
-            if (suspend_process) {
-                /*
-                    Suspend for however many downstream processes we have + 1 for this process -
-                   that ensures that we are not kicked to run while still broadcasting.
-                */
-                _process_suspend_count = n + 1;
-            } else
-                _process_suspend_count = 1;
+        /*
+            A process that yields until the buffer downstream is full is scheduled ahead of the
+            downstream processes, but does not start before the broadcast is done.
+        */
+        proceed = proceed && get_process_state(_process).first == process_state::yield;
+        if (proceed) {
+            {
+                std::unique_lock<std::mutex> lock(_process_mutex);
+                _process_broadcasting = true;
+            }
+            run();
         }
+
         /*
             There is no lock on _downstream here. We only ever append to this deque so the first
             n elements are good.
@@ -1157,8 +1191,18 @@ struct shared_process
 
         _downstream.send(n, std::forward<A>(args)...);
 
-        clear_to_send(); // unsuspend this process and decrement the _process_suspend_count
-                         // immediately by 1
+        if (!proceed) {
+            resume();
+            return;
+        }
+
+        bool do_run = false;
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            _process_broadcasting = false;
+            std::swap(do_run, _process_deferred);
+        }
+        if (do_run) run();
     }
 
     void map(sender<result_t> f) override {
-- 
2.43.0


From 7c18a079bdfbafaf9bf9d383233af76c09fd343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 14/38] fix: a channel process does not wait for room in a
 downstream process that is gone

---
 include/stlab/concurrency/channel.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index feaa7c1..75d34c7 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -781,6 +781,18 @@ struct shared_process
         _receiver_count = !std::is_same_v<result_t, void>;
     }
 
+    ~shared_process() override {
+        // An upstream process does not wait any longer for room in this process.
+        tuple_for_each(_upstream, [](auto& u) {
+            if (u) u->clear_to_send();
+        });
+    }
+
+    shared_process(const shared_process&) = delete;
+    shared_process(shared_process&&) = delete;
+    auto operator=(const shared_process&) -> shared_process& = delete;
+    auto operator=(shared_process&&) -> shared_process& = delete;
+
     void add_receiver() override {
         if (std::is_same_v<result_t, void>) return;
         ++_receiver_count;
@@ -824,9 +836,13 @@ struct shared_process
         // I met him on a Monday and my heart stood still
         if (do_run) run();
         if (do_final) {
-            std::unique_lock<std::mutex> lock(_downstream_mutex);
-            _downstream.clear(); // This will propagate the close to anything downstream
-            _process = std::nullopt;
+            downstream<result_t> closing;
+            {
+                std::unique_lock<std::mutex> lock(_downstream_mutex);
+                std::swap(closing, _downstream);
+                _process = std::nullopt;
+            }
+            closing.clear(); // This will propagate the close to anything downstream
         }
     }
 
-- 
2.43.0


From 89e4a3db19989011f594d67013529324aa245fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 15/38] fix: a closed channel process gives all its yields and
 passes the close on

The first value yielded after the close was the last, and the close never
reached the downstream processes. A process closed by an error was never
completed, or called and closed again.
---
 include/stlab/concurrency/channel.hpp | 54 +++++++++++++++------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 75d34c7..cbb4391 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -632,7 +632,8 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
         std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
         const std::size_t buffer_size = _shared_process._process_buffer_size;
         const std::size_t queue_size = _shared_process._queue.template queue_size<I>();
-        if (buffer_size == 0) return std::numeric_limits<std::size_t>::max();
+        if (buffer_size == 0 || _shared_process._process_final)
+            return std::numeric_limits<std::size_t>::max();
         return buffer_size - std::min(buffer_size, queue_size);
     }
 };
@@ -821,18 +822,21 @@ struct shared_process
 
     auto executor() const -> executor_t override { return _executor; }
 
+    /*
+        The process has nothing more to do just now. Run it again if there is more work, complete it
+        after it was closed.
+    */
     void task_done() {
+        const auto ps = get_process_state(_process);
         bool do_run;
         bool do_final;
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
-            do_run = !_queue.empty() || _process_close_queue;
-            _process_running = do_run;
-            do_final = _process_final;
+            do_run = ps.first == process_state::yield ||
+                     (!_process_final && (!_queue.empty() || _process_close_queue));
+            do_final = !do_run && _process_final;
+            _process_running = do_run || do_final; // a completed process never runs again
         }
-        // The mutual exclusiveness of this assert implies too many variables. Should have a single
-        // "get state" call.
-        assert(!(do_run && do_final) && "ERROR (sparent) : can't run and close at the same time.");
         // I met him on a Monday and my heart stood still
         if (do_run) run();
         if (do_final) {
@@ -843,15 +847,16 @@ struct shared_process
                 _process = std::nullopt;
             }
             closing.clear(); // This will propagate the close to anything downstream
+            // Whatever an upstream process still sends is ignored, it must not wait for room.
+            tuple_for_each(_upstream, [](auto& u) {
+                if (u) u->clear_to_send();
+            });
         }
     }
 
     void clear_to_send() override {
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_final) {
-                return;
-            }
             _process_cleared = true;
             if (!_process_suspended) return;
             _process_suspended = false;
@@ -881,16 +886,7 @@ struct shared_process
             }
         }
 
-        bool do_run = false;
-        {
-            const auto ps = get_process_state(_process);
-            std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_final) return;
-            do_run = ps.first == process_state::yield || !_queue.empty() || _process_close_queue;
-            _process_running = do_run;
-        }
-        // Somebody told me that his name was Bill
-        if (do_run) run();
+        task_done();
     }
 
     auto pop_from_queue() {
@@ -901,7 +897,7 @@ struct shared_process
         std::unique_lock<std::mutex> lock(_process_mutex);
         if (_queue.empty()) {
             std::swap(do_close, _process_close_queue);
-            _process_final = do_close; // unravel after any yield
+            _process_final = _process_final || do_close; // unravel after any yield
         } else {
             message = std::move(_queue.front());
             _queue.pop_front();
@@ -912,6 +908,14 @@ struct shared_process
         return std::make_tuple(std::move(message), do_cts, do_close);
     }
 
+    void close_process() {
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            _process_final = true;
+        }
+        process_close(_process);
+    }
+
     auto dequeue() -> bool {
         using queue_t = typename Q::value_type;
         std::optional<queue_t> message;
@@ -937,7 +941,10 @@ struct shared_process
                 await_variant_args<process_t, Args...>(*_process, *message);
         }
 
-        if (do_close) process_close(_process);
+        if (do_close) {
+            close_process();
+            return false;
+        }
 
         return bool(message);
     }
@@ -1146,7 +1153,8 @@ struct shared_process
         if (message) {
             auto error = find_argument_error(*message);
             if (error) {
-                do_close = true;
+                close_process();
+                task_done();
             } else {
                 try {
                     broadcast(
-- 
2.43.0


From 3d89817fa07167d7d391cfd706480aea15183314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 16/38] fix: a channel process is not woken for a timeout that
 a value cancelled

The timeout called yield() although the value had been processed, and
several values arriving before the timeout started the process several times.
---
 include/stlab/concurrency/channel.hpp | 100 ++++++++++----------------
 1 file changed, 36 insertions(+), 64 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index cbb4391..b28fd46 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -616,10 +616,11 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
             std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
             _shared_process._queue.template append<I>(
                 std::forward<U>(u)); // TODO (sparent) : overwrite here.
-            do_run = !_shared_process._receiver_count && (!_shared_process._process_running ||
-                                                          _shared_process._timeout_function_active);
+            do_run = !_shared_process._receiver_count &&
+                     (!_shared_process._process_running || _shared_process._timeout_active);
 
             _shared_process._process_running = _shared_process._process_running || do_run;
+            if (do_run) _shared_process._timeout_active = false; // cancel the timeout
         }
         if (do_run) _shared_process.run();
     }
@@ -753,8 +754,9 @@ struct shared_process
     // REVISIT (sparent) : I'm not certain final needs to be under the mutex
     bool _process_final = false;
 
-    std::mutex _timeout_function_control;
-    std::atomic_bool _timeout_function_active{false};
+    // The process waits until a timeout, or until a value cancels it.
+    bool _timeout_active = false;
+    std::size_t _timeout_id = 0; // of the latest timeout
 
     std::atomic_size_t _sender_count{0};
     std::atomic_size_t _receiver_count;
@@ -957,15 +959,6 @@ struct shared_process
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
                                     !has_process_await_v<unwrap_reference_t<T>, Args...>> {
-        // in case that the timeout function is just been executed then we have to re-schedule
-        // the current run
-        lock_t lock(_timeout_function_control, std::try_to_lock);
-        if (!lock) {
-            run();
-            return;
-        }
-        _timeout_function_active = false;
-
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
@@ -1009,27 +1002,7 @@ struct shared_process
                        std::chrono::nanoseconds::min()) {
                 broadcast(unwrap(*_process).yield());
             } else {
-                /* Schedule a timeout. */
-                _timeout_function_active = true;
-                execute_at(duration, _executor)(
-                    [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
-                        auto _this = _weak_this.lock();
-                        // It may be that the complete channel is gone in the meanwhile
-                        if (!_this) return;
-
-                        // try_lock can fail spuriously
-                        while (true) {
-                            lock_t lock(_this->_timeout_function_control, std::try_to_lock);
-                            if (!lock) continue;
-
-                            // we were cancelled
-                            if (get_process_state(_this->_process).first != process_state::yield) {
-                                _this->try_broadcast();
-                                _this->_timeout_function_active = false;
-                            }
-                            return;
-                        }
-                    });
+                await_timeout(duration);
             }
         } catch (...) { // this catches exceptions during _process.await() and _process.yield()
             broadcast(std::move(std::current_exception()));
@@ -1039,15 +1012,6 @@ struct shared_process
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
                                     has_process_await_v<unwrap_reference_t<T>, Args...>> {
-        // in case that the timeout function is just been executed then we have to re-schedule
-        // the current run
-        lock_t lock(_timeout_function_control, std::try_to_lock);
-        if (!lock) {
-            run();
-            return;
-        }
-        _timeout_function_active = false;
-
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
@@ -1093,33 +1057,41 @@ struct shared_process
                        std::chrono::nanoseconds::min()) {
                 broadcast(unwrap(*_process).yield());
             } else {
-                /* Schedule a timeout. */
-                _timeout_function_active = true;
-                execute_at(duration, _executor)(
-                    [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
-                        auto _this = _weak_this.lock();
-                        // It may be that the complete channel is gone in the meanwhile
-                        if (!_this) return;
-
-                        // try_lock can fail spuriously
-                        while (true) {
-                            lock_t lock(_this->_timeout_function_control, std::try_to_lock);
-                            if (!lock) continue;
-
-                            // we were cancelled
-                            if (get_process_state(_this->_process).first != process_state::yield) {
-                                _this->try_broadcast();
-                                _this->_timeout_function_active = false;
-                            }
-                            return;
-                        }
-                    });
+                await_timeout(duration);
             }
         } catch (...) { // this catches exceptions during _process.await() and _process.yield()
             broadcast(std::move(std::current_exception()));
         }
     }
 
+    void await_timeout(std::chrono::nanoseconds duration) {
+        bool do_run;
+        std::size_t id;
+        {
+            lock_t lock(_process_mutex);
+            do_run = !_process_final && !_queue.empty(); // something arrived in the meantime
+            _timeout_active = !do_run;
+            id = ++_timeout_id;
+        }
+        if (do_run) {
+            run();
+            return;
+        }
+        execute_at(duration, _executor)(
+            [_weak_this = make_weak_ptr(this->shared_from_this()), id]() noexcept {
+                auto _this = _weak_this.lock();
+                // It may be that the complete channel is gone in the meanwhile
+                if (!_this) return;
+                {
+                    lock_t lock(_this->_process_mutex);
+                    // we were cancelled
+                    if (!_this->_timeout_active || _this->_timeout_id != id) return;
+                    _this->_timeout_active = false;
+                }
+                _this->try_broadcast();
+            });
+    }
+
     void try_broadcast() {
         try {
             if (_process) broadcast(unwrap(*_process).yield());
-- 
2.43.0


From 0d91abcf27238bba26d5e85f7adeba445a3f2278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 17/38] fix: copying a ready receiver does not block the
 channel

---
 include/stlab/concurrency/channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index b28fd46..037edae 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1514,7 +1514,7 @@ public:
     }
 
     receiver(const receiver& x) : _p(x._p), _ready(x._ready) {
-        if (_p) _p->add_receiver();
+        if (!_ready && _p) _p->add_receiver();
     }
 
     receiver(receiver&&) noexcept = default;
-- 
2.43.0


From 965528a63f798122db2c2eb57457ba057ae4d70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 18/38] fix: a channel process that awaits with a timeout after
 a yield is woken at that time

---
 include/stlab/concurrency/channel.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 037edae..7d99883 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -830,12 +830,15 @@ struct shared_process
     */
     void task_done() {
         const auto ps = get_process_state(_process);
+        const bool timed = has_process_await_v<unwrap_reference_t<T>, Args...> &&
+                           ps.second != std::chrono::nanoseconds::max();
         bool do_run;
         bool do_final;
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
+            // a process that awaits with a timeout is run to wait for it
             do_run = ps.first == process_state::yield ||
-                     (!_process_final && (!_queue.empty() || _process_close_queue));
+                     (!_process_final && (!_queue.empty() || _process_close_queue || timed));
             do_final = !do_run && _process_final;
             _process_running = do_run || do_final; // a completed process never runs again
         }
-- 
2.43.0


From f1c3719e1260e2de767e72e38bbafe924005c0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 19/38] fix: an executor-annotated process can be given a
 buffer size

---
 include/stlab/concurrency/channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 7d99883..c769aad 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1413,7 +1413,7 @@ struct annotated_process {
     annotated_process(F f, executor&& e) : _f(std::move(f)), _annotations(std::move(e._executor)) {}
     annotated_process(F f, annotations&& a) : _f(std::move(f)), _annotations(std::move(a)) {}
     annotated_process(executor_task_pair<F>&& etp, buffer_size bs) :
-        _f(std::move(etp._f)), _annotations(std::move(etp._executor), bs) {}
+        _f(std::move(etp._f)), _annotations(std::move(etp._executor), bs._value) {}
 };
 
 template <typename B, typename E>
-- 
2.43.0


From cd90653349d4c3fd0a3b8eb5cbec360de0554044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 20/38] fix: assigning over a tracked function takes it out of
 the progress tracker's steps

---
 include/stlab/concurrency/progress.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/progress.hpp b/include/stlab/concurrency/progress.hpp
index 1617665..e80ffa0 100644
--- a/include/stlab/concurrency/progress.hpp
+++ b/include/stlab/concurrency/progress.hpp
@@ -12,6 +12,7 @@
 #include <atomic>
 #include <functional>
 #include <memory>
+#include <utility>
 
 namespace stlab {
 namespace detail {
@@ -53,14 +54,23 @@ struct tracker_client {
 
     tracker_client& operator=(const tracker_client& x) {
         _f = x._f;
+        auto old = _p.lock();
         _p = x._p;
         auto p = _p.lock();
         if (p) p->add_task();
+        if (old) old->drop_task(); // the assigned-over task
         return *this;
     }
 
     tracker_client(tracker_client&&) = default;
-    tracker_client& operator=(tracker_client&&) = default;
+    tracker_client& operator=(tracker_client&& x) {
+        if (this == &x) return *this;
+        _f = std::move(x._f);
+        auto old = _p.lock();
+        _p = std::move(x._p);
+        if (old) old->drop_task(); // the assigned-over task
+        return *this;
+    }
 
     tracker_client(std::shared_ptr<tracker_server>& p, F&& f) : _f(std::move(f)), _p(p) {
         p->add_task();
-- 
2.43.0


From fea3a8dd2515190692fe285545ffc07234b16805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:53 +0000
Subject: [PATCH 21/38] fix: self-move-assignment and self-swap of a task do
 not destroy what it holds

---
 include/stlab/concurrency/task.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stlab/concurrency/task.hpp b/include/stlab/concurrency/task.hpp
index 4e4e541..cc972a8 100644
--- a/include/stlab/concurrency/task.hpp
+++ b/include/stlab/concurrency/task.hpp
@@ -224,6 +224,7 @@ public:
     auto operator=(const task_&) -> task_& = delete;
 
     auto operator=(task_&& x) noexcept -> task_& {
+        if (this == &x) return *this;
         _vtable_ptr->dtor(&_model);
         _vtable_ptr = x._vtable_ptr;
         _invoke = x._invoke;
-- 
2.43.0


From bdc46bf3fa366c4c42acab2fab3b5938d35495bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 22/38] fix: a task returns the reference that it declares, not
 a copy

---
 include/stlab/concurrency/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/task.hpp b/include/stlab/concurrency/task.hpp
index cc972a8..da70005 100644
--- a/include/stlab/concurrency/task.hpp
+++ b/include/stlab/concurrency/task.hpp
@@ -263,7 +263,7 @@ public:
     }
 
     template <class... Brgs>
-    auto operator()(Brgs&&... brgs) noexcept(NoExcept) {
+    auto operator()(Brgs&&... brgs) noexcept(NoExcept) -> R {
         return _invoke(&_model, std::forward<Brgs>(brgs)...);
     }
 
-- 
2.43.0


From a6d41e8433d4cb5a048c8aa95c4c73bda3406374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 23/38] fix: reverse_append (and so forest::reverse) relinks
 the nodes of the range

---
 include/stlab/algorithm/reverse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/algorithm/reverse.hpp b/include/stlab/algorithm/reverse.hpp
index aeb2a28..8b68749 100644
--- a/include/stlab/algorithm/reverse.hpp
+++ b/include/stlab/algorithm/reverse.hpp
@@ -32,7 +32,7 @@ namespace unsafe {
 template <STLAB_CONCEPT(FORWARD_NODE_ITERATOR) I>
 auto reverse_append(I first, I last, I end) -> I {
     while (first != last) {
-        I prior(end);
+        I prior(first);
         ++first;
         stlab::unsafe::set_next(prior, end);
         end = prior;
-- 
2.43.0


From 57700559802d33322640b5ee7e5845dfb7ae3128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 24/38] fix: equal_shape of a forest and a larger one with the
 same beginning is false when a size is not known

---
 include/stlab/forest_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/forest_algorithms.hpp b/include/stlab/forest_algorithms.hpp
index 9ec9837..c035ccf 100644
--- a/include/stlab/forest_algorithms.hpp
+++ b/include/stlab/forest_algorithms.hpp
@@ -26,7 +26,7 @@ auto equal_shape(const Forest1& x, const Forest2& y) -> bool {
     for (auto first(x.begin()), last(x.end()); first != last; ++first, ++pos) {
         if (first.edge() != pos.edge()) return false;
     }
-    return true;
+    return pos == y.end();
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From 85b5e3145904cf6d919f9736050924d32b3d2a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 25/38] fix: reverse_fullorder_iterator compares and converts
 by its edge after leading_of, trailing_of or pivot

---
 include/stlab/forest.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index 1474226..4c54a95 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -361,7 +361,11 @@ struct reverse_fullorder_iterator {
     reverse_fullorder_iterator(const reverse_fullorder_iterator<U>& x) :
         _base(--x.base()), _edge(pivot(_base.edge())) {}
 
-    [[nodiscard]] auto base() const -> iterator_type { return std::next(_base); }
+    [[nodiscard]] auto base() const -> iterator_type {
+        auto result{_base};
+        result.edge() = pivot(_edge); // edge() may have been assigned
+        return std::next(result);
+    }
 
     [[nodiscard]] auto edge() const -> forest_edge { return _edge; }
     auto edge() -> forest_edge& { return _edge; }
@@ -417,7 +421,7 @@ private:
     [[nodiscard]] auto dereference() const -> reference { return *_base; }
 
     [[nodiscard]] auto equal(const reverse_fullorder_iterator& y) const -> bool {
-        return (_base == y._base) && (_edge == y._edge);
+        return _base.equal_node(y._base) && (_edge == y._edge);
     }
 };
 
-- 
2.43.0


From abed32aeabe59dc7a34b7a25acd72f9850d6afd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:44 +0000
Subject: [PATCH 26/38] fix: reversing a range of nodes that does not end at
 its parent's end stops there

---
 include/stlab/algorithm/reverse.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/stlab/algorithm/reverse.hpp b/include/stlab/algorithm/reverse.hpp
index 8b68749..1da4f62 100644
--- a/include/stlab/algorithm/reverse.hpp
+++ b/include/stlab/algorithm/reverse.hpp
@@ -31,13 +31,21 @@ namespace unsafe {
 
 template <STLAB_CONCEPT(FORWARD_NODE_ITERATOR) I>
 auto reverse_append(I first, I last, I end) -> I {
+    if (first == last) return end;
+
+    // `end` may be `last`, and is linked only when `first` has gone past the range: navigation on
+    // nodes with prior links depends on them.
+    I tail(first);
+    I result(first);
+    ++first;
     while (first != last) {
         I prior(first);
         ++first;
-        stlab::unsafe::set_next(prior, end);
-        end = prior;
+        stlab::unsafe::set_next(prior, result);
+        result = prior;
     }
-    return end;
+    stlab::unsafe::set_next(tail, end);
+    return result;
 }
 
 /// Reverses `range` and appends `end`.  Returns the beginning of the reversed range such that
-- 
2.43.0


From 142d5fb8e5bc688ad20681e3d2c849632120f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 27/38] fix: the end of a filter_fullorder_range can be
 decremented: skipped nodes are skipped

---
 include/stlab/forest.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index 4c54a95..a6468e9 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -246,6 +246,10 @@ struct filter_fullorder_iterator {
     filter_fullorder_iterator(I f, I l) :
         _x(skip_forward(f, l, P())), _inside(true), _first(f), _last(l) {}
 
+    // Precondition: x is in [f, l] and is not skipped
+    filter_fullorder_iterator(I x, I f, I l, P p) :
+        _x(x), _inside(true), _first(f), _last(l), _predicate(p) {}
+
     template <class U>
     filter_fullorder_iterator(const filter_fullorder_iterator<U, P>& x) :
         _x(x.base()), _inside(x._inside), _first(x._first), _last(x._last),
@@ -1174,7 +1178,7 @@ auto filter_fullorder_range(R& x, P p) {
     using iterator = filter_fullorder_iterator<typename R::iterator, P>;
 
     return forest_range<iterator>{iterator(std::begin(x), std::end(x), p),
-                                  iterator(std::end(x), std::end(x), p)};
+                                  iterator(std::end(x), std::begin(x), std::end(x), p)};
 }
 
 template <class R, typename P> // R models FullorderRange
@@ -1182,7 +1186,7 @@ auto filter_fullorder_range(const R& x, P p) {
     using iterator = filter_fullorder_iterator<typename R::const_iterator, P>;
 
     return forest_range<iterator>{iterator(std::begin(x), std::end(x), p),
-                                  iterator(std::end(x), std::end(x), p)};
+                                  iterator(std::end(x), std::begin(x), std::end(x), p)};
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From f55a88695eb911d7116b5a83b1cc69d82a5bd195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 28/38] fix: decrementing a filter_fullorder_iterator to its
 end does not read a value there

---
 include/stlab/forest.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index a6468e9..b71535d 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -339,8 +339,10 @@ private:
 
         if (i == _first) _inside = false;
         --i;
-        if (i == _last) _inside = true;
-        if (_inside) i = skip_backward(_first, i, _predicate);
+        if (i == _last)
+            _inside = true; // the end has no value to filter by
+        else if (_inside)
+            i = skip_backward(_first, i, _predicate);
         this->base_reference() = i;
     }
 
-- 
2.43.0


From 3b27a4adee66075ae1bc13aeb4d3028b3b95facc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 29/38] fix: when_all and when_any become ready with the error
 when copying an input's value throws

---
 include/stlab/concurrency/future.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index e701d1d..3ab3b09 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1228,7 +1228,11 @@ void attach_when_arg_(E&& executor, std::shared_ptr<P>& shared, T a) {
             if (auto ex = x.exception()) {
                 p->failure(std::move(ex));
             } else {
-                p->template done<i>(std::move(x));
+                try {
+                    p->template done<i>(std::move(x));
+                } catch (...) { // copying the value failed
+                    p->failure(std::current_exception());
+                }
             }
         });
     std::unique_lock<std::mutex> lock{shared->_guard};
@@ -1432,11 +1436,11 @@ struct single_trigger {
         {
             std::unique_lock<std::mutex> lock{context._guard};
             if (!context._single_event) {
+                context.apply(std::forward<F>(f), index); // may throw
                 for (auto i = 0u; i < context._holds.size(); ++i) {
                     if (i != index) context._holds[i].reset();
                 }
                 context._single_event = true;
-                context.apply(std::forward<F>(f), index);
                 run = true;
             }
         }
@@ -1514,7 +1518,11 @@ void attach_tasks(size_t index, E&& executor, const std::shared_ptr<C>& context,
             if (auto ex = x.exception()) {
                 p->failure(std::move(ex), _i);
             } else {
-                p->done(std::move(x), _i);
+                try {
+                    p->done(std::move(x), _i);
+                } catch (...) { // copying the value failed
+                    p->failure(std::current_exception(), _i);
+                }
             }
         });
 
-- 
2.43.0


From 4a8d0aa6260d84be3b598790b694252cd9b01a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 30/38] fix: an exception from copying the value of a reduced
 future becomes the outcome instead of terminating

---
 include/stlab/concurrency/future.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 3ab3b09..137b268 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1002,8 +1002,12 @@ auto package(E executor, F&& f)
                                 if (auto e = f.exception()) {
                                     std::move(_p).set_exception(std::move(e));
                                 } else {
-                                    std::move(_p).set_value(invoke_void_to_monostate_result(
-                                        [&] { return std::move(f).get_ready(); }));
+                                    try {
+                                        std::move(_p).set_value(invoke_void_to_monostate_result(
+                                            [&] { return std::move(f).get_ready(); }));
+                                    } catch (...) { // copying the value failed
+                                        std::move(_p).set_exception(std::current_exception());
+                                    }
                                 }
                             });
                     } catch (...) {
-- 
2.43.0


From 588b75652db3042524fc0acddd006ee2d1866dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 31/38] fix: when_any of a range takes its function as an
 lvalue

---
 include/stlab/concurrency/future.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 137b268..da368a7 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1613,11 +1613,14 @@ template <class E, // models task executor
           class I> // models ForwardIterator that reference to a range of futures of the same
                    // type
 auto when_any(const E& executor, F&& f, std::pair<I, I> range) {
+    using function_t = std::decay_t<F>;
     using param_t = typename std::iterator_traits<I>::value_type::result_type;
-    using result_t = std::decay_t<typename detail::result_of_when_any_t<F, param_t>::result_type>;
+    using result_t =
+        std::decay_t<typename detail::result_of_when_any_t<function_t, param_t>::result_type>;
     using context_result_t = std::conditional_t<std::is_same_v<void, param_t>, void, param_t>;
-    using context_t = detail::common_context<detail::context_result<F, true, context_result_t>, F,
-                                             detail::single_trigger, detail::all_trigger>;
+    using context_t =
+        detail::common_context<detail::context_result<function_t, true, context_result_t>,
+                               function_t, detail::single_trigger, detail::all_trigger>;
 
     if (range.first == range.second) {
         return future_with_broken_promise<std::decay_t<result_t>>(executor);
-- 
2.43.0


From 975d21cafae790ff501a2ceda871279df372465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 32/38] fix: an exception from copying a value that is
 broadcast does not leave the process stuck

---
 include/stlab/concurrency/channel.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index c769aad..b5ce868 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1188,7 +1188,12 @@ struct shared_process
             n elements are good.
         */
 
-        _downstream.send(n, std::forward<A>(args)...);
+        try {
+            _downstream.send(n, std::forward<A>(args)...);
+        } catch (...) {
+            // Copying the value failed. The error takes its place, this is still one broadcast.
+            _downstream.send(n, std::current_exception());
+        }
 
         if (!proceed) {
             resume();
-- 
2.43.0


From b1b295683c161e7c8671dd4a2781e09b55258506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 33/38] fix: a round robin merge moves its values out of the
 queue, a throwing copy does not terminate

---
 include/stlab/concurrency/channel.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index b5ce868..351f6ac 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -492,7 +492,8 @@ struct round_robin_queue_strategy {
 
     auto front() {
         assert(!empty() && "front on an empty container is a very bad idea!");
-        return std::make_tuple(get_i(_queue, _index, [](auto& c) { return c.front(); }, item_t{}));
+        return std::make_tuple(get_i(
+            _queue, _index, [](auto& c) { return std::move(c.front()); }, item_t{}));
     }
 
     void pop_front() {
-- 
2.43.0


From bbd7446e215210f7376684071051af54c84b2c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 34/38] fix: process objects in round robin and unordered
 merges are given the values

---
 include/stlab/concurrency/channel.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 351f6ac..f317c17 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -364,6 +364,13 @@ constexpr bool has_process_await_v = is_detected_v<process_await_t, T, Args...>;
 
 /**************************************************************************************************/
 
+/// A queue that combines its inputs into one (N == 1) gives its process a single argument.
+template <std::size_t N, typename T, typename... Args>
+constexpr bool has_queue_await_v =
+    N == 1 ? has_process_await_v<T, first_t<Args...>> : has_process_await_v<T, Args...>;
+
+/**************************************************************************************************/
+
 template <typename P, typename... T, std::size_t... I>
 void await_variant_args_(P& process,
                          std::tuple<std::variant<detail::avoid<T>, std::exception_ptr>...>& args,
@@ -831,7 +838,7 @@ struct shared_process
     */
     void task_done() {
         const auto ps = get_process_state(_process);
-        const bool timed = has_process_await_v<unwrap_reference_t<T>, Args...> &&
+        const bool timed = has_queue_await_v<Q::arguments_size, unwrap_reference_t<T>, Args...> &&
                            ps.second != std::chrono::nanoseconds::max();
         bool do_run;
         bool do_final;
@@ -943,7 +950,9 @@ struct shared_process
                     set_process_error(*_process, std::move(*error));
                 else
                     do_close = true;
-            } else
+            } else if constexpr (Q::arguments_size == 1)
+                await_variant_args<process_t, first_t<Args...>>(*_process, *message);
+            else
                 await_variant_args<process_t, Args...>(*_process, *message);
         }
 
@@ -961,8 +970,9 @@ struct shared_process
     */
 
     template <typename U>
-    auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
-                                    !has_process_await_v<unwrap_reference_t<T>, Args...>> {
+    auto step() -> std::enable_if_t<
+        has_process_yield_v<unwrap_reference_t<U>> &&
+        !has_queue_await_v<Q::arguments_size, unwrap_reference_t<T>, Args...>> {
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
@@ -1014,8 +1024,9 @@ struct shared_process
     }
 
     template <typename U>
-    auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
-                                    has_process_await_v<unwrap_reference_t<T>, Args...>> {
+    auto step()
+        -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
+                            has_queue_await_v<Q::arguments_size, unwrap_reference_t<T>, Args...>> {
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
-- 
2.43.0


From 0b2bedaafe758202979e7e2a0e813dfc00df0396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 35/38] fix: copying a forest frees the copied nodes when
 copying a value throws

---
 include/stlab/forest.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index b71535d..e02f45f 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -805,7 +805,7 @@ public:
     forest() = default;
     ~forest() { clear(); }
 
-    forest(const forest& x) {
+    forest(const forest& x) : forest() { // if copying a value throws, the destructor clears
         insert(end(), const_child_iterator(x.begin()), const_child_iterator(x.end()));
     }
     forest(forest&& x) noexcept : forest() { splice(end(), x); }
-- 
2.43.0


From 4afa63a096429c2bb1056aadd9c3228b9fb6b2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 36/38] fix: when_all and when_any release the other inputs
 after unlocking, releasing one can resolve another

---
 include/stlab/concurrency/future.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index da368a7..5fcb08e 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -1096,10 +1096,10 @@ struct when_all_shared {
     void failure(const std::exception_ptr& error) {
         auto run{false};
         {
+            decltype(_holds) holds; // released after unlocking, that can resolve other arguments
             std::unique_lock<std::mutex> lock{_guard};
             if (!_exception) {
-                for (auto& h : _holds)
-                    h.reset();
+                std::swap(holds, _holds);
                 _exception = error;
                 run = true;
             }
@@ -1165,8 +1165,8 @@ struct when_any_shared<S, void> {
 
     void failure(const std::exception_ptr& error) {
         auto run{false};
-        std::unique_lock<std::mutex> lock{_guard};
         {
+            std::unique_lock<std::mutex> lock{_guard};
             if (--_remaining == 0) {
                 _exception = error;
                 run = true;
@@ -1438,11 +1438,13 @@ struct single_trigger {
     static auto go(C& context, F&& f, size_t index) -> bool {
         auto run{false};
         {
+            // released after unlocking, that can resolve other futures of the range
+            decltype(context._holds) holds(context._holds.size());
             std::unique_lock<std::mutex> lock{context._guard};
             if (!context._single_event) {
                 context.apply(std::forward<F>(f), index); // may throw
                 for (auto i = 0u; i < context._holds.size(); ++i) {
-                    if (i != index) context._holds[i].reset();
+                    if (i != index) std::swap(holds[i], context._holds[i]);
                 }
                 context._single_event = true;
                 run = true;
-- 
2.43.0


From 47eb9e537bd96a94f050cb2f52ce0dc0ba937d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:36 +0000
Subject: [PATCH 37/38] fix: a detached future of a move only type stays
 detached when a continuation is attached

---
 include/stlab/concurrency/future.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 5fcb08e..7351ed1 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -453,7 +453,8 @@ struct shared_base<T, enable_if_copyable<void_to_monostate_t<T>>>
 template <class T>
 struct shared_base<T, enable_if_not_copyable<void_to_monostate_t<T>>>
     : std::enable_shared_from_this<shared_base<T>> {
-    using then_t = std::pair<executor_t, task<void() noexcept>>;
+    // a future that was detached may have a continuation as well
+    using then_t = std::vector<std::pair<executor_t, task<void() noexcept>>>;
 
     executor_t _executor;
     std::optional<T> _result;
@@ -487,7 +488,7 @@ struct shared_base<T, enable_if_not_copyable<void_to_monostate_t<T>>>
         {
             std::unique_lock<std::mutex> lock(_mutex);
             ready = _ready;
-            if (!ready) _then = {std::move(executor), std::move(pro)};
+            if (!ready) _then.emplace_back(std::move(executor), std::move(pro));
         }
         if (ready) executor(std::move(pro)); // cannot reference this after here
 
@@ -504,7 +505,7 @@ struct shared_base<T, enable_if_not_copyable<void_to_monostate_t<T>>>
         {
             std::unique_lock<std::mutex> lock(_mutex);
             ready = _ready;
-            if (!ready) _then = {immediate_executor, std::move(pro)};
+            if (!ready) _then.emplace_back(immediate_executor, std::move(pro));
         }
 
         if (ready) std::move(pro)(); // cannot reference this after here
@@ -512,7 +513,8 @@ struct shared_base<T, enable_if_not_copyable<void_to_monostate_t<T>>>
 
     void _detach() {
         std::unique_lock<std::mutex> lock(_mutex);
-        if (!_ready) _then = then_t([](auto&&) {}, [_p = this->shared_from_this()]() noexcept {});
+        if (!_ready)
+            _then.emplace_back([](auto&&) {}, [_p = this->shared_from_this()]() noexcept {});
     }
 
     void _set_exception(const std::exception_ptr& error) noexcept {
@@ -520,11 +522,13 @@ struct shared_base<T, enable_if_not_copyable<void_to_monostate_t<T>>>
         then_t then;
         {
             std::unique_lock<std::mutex> lock(_mutex);
-            if (_then.second) then = std::move(_then);
+            then = std::move(_then);
             _ready = true;
         }
         // propagate exception with scheduling
-        if (then.second) then.first(std::move(then.second));
+        for (auto& e : then) {
+            e.first(std::move(e.second));
+        }
     }
 
     template <class A>
@@ -1686,7 +1690,8 @@ struct value_<T, enable_if_not_copyable<void_to_monostate_t<T>>> {
             sb._ready = true;
             then = std::move(sb._then);
         }
-        if (then.first) then.first(std::move(then.second));
+        for (auto& e : then)
+            e.first(std::move(e.second));
     }
 
     template <class R, class A>
-- 
2.43.0


From 0e6cfdf1179b36cb82936ce10bd55f9353a5f864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:24 +0000
Subject: [PATCH 38/38] fix: a task may be assigned a task that is owned by the
 function it replaces

---
 include/stlab/concurrency/task.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stlab/concurrency/task.hpp b/include/stlab/concurrency/task.hpp
index da70005..c42a639 100644
--- a/include/stlab/concurrency/task.hpp
+++ b/include/stlab/concurrency/task.hpp
@@ -225,6 +225,7 @@ public:
 
     auto operator=(task_&& x) noexcept -> task_& {
         if (this == &x) return *this;
+        task_ old(std::move(*this)); // destroyed last, x may be owned by it
         _vtable_ptr->dtor(&_model);
         _vtable_ptr = x._vtable_ptr;
         _invoke = x._invoke;
-- 
2.43.0

