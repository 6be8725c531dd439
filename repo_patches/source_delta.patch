From 847e8312026beb1572411273a9feb6087470c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:56 +0000
Subject: [PATCH 01/14] fix: interruptible shared_future::then must not
 invalidate the shared_future

---
 portable_concurrency/bits/shared_future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/shared_future.hpp b/portable_concurrency/bits/shared_future.hpp
index 069745d..0fe53ff 100644
--- a/portable_concurrency/bits/shared_future.hpp
+++ b/portable_concurrency/bits/shared_future.hpp
@@ -191,7 +191,7 @@ shared_future<T>::then(E &&exec, F &&f) {
   detail::continuations_stack &subscriptions = state_->continuations();
   return detail::make_then_state<result_type>(
       subscriptions, std::forward<E>(exec),
-      [f = std::forward<F>(f), parent = std::move(state_)](
+      [f = std::forward<F>(f), parent = state_](
           std::shared_ptr<detail::shared_state<result_type>>
               state) mutable noexcept {
         promise<result_type> p{std::exchange(state, nullptr)};
-- 
2.43.0


From 5575b67d35ad0816e1ee91f8bce765fa79d54abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:56 +0000
Subject: [PATCH 02/14] fix: latch::count_down must not touch the latch after
 releasing its mutex

---
 .../bits/portable_concurrency.cpp                | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 7d12602..0854c3b 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -117,14 +117,14 @@ void latch::count_down_and_wait() {
 }
 
 void latch::count_down(ptrdiff_t n) {
-  {
-    std::lock_guard<std::mutex> lock{mutex_};
-    assert(counter_ >= n);
-    assert(n >= 0);
-    counter_ -= n;
-    if (counter_ > 0)
-      return;
-  }
+  // Notification must be sent with the mutex locked: once it is unlocked a
+  // waiter may return and destroy the latch.
+  std::lock_guard<std::mutex> lock{mutex_};
+  assert(counter_ >= n);
+  assert(n >= 0);
+  counter_ -= n;
+  if (counter_ > 0)
+    return;
   cv_.notify_all();
 }
 
-- 
2.43.0


From c88593227c2db39eb4415134da91e0ae96829177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:02 +0000
Subject: [PATCH 03/14] fix: thread pool must not destroy executed tasks with
 the queue mutex locked

---
 portable_concurrency/bits/portable_concurrency.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 0854c3b..1dd77a6 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -89,8 +89,12 @@ void process_queue(
   const std::atomic<bool> &stopped
 ) noexcept {
   unique_function<void()> task;
-  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task))
+  while (!stopped.load(std::memory_order_relaxed) && queue.pop(task)) {
     task();
+    // Executed task must not be destroyed inside of the next pop with the queue
+    // mutex locked: its destructor is allowed to post to the same queue.
+    task = unique_function<void()>{};
+  }
 }
 
 } // namespace
-- 
2.43.0


From d707fb25cf8aa47276570af69769b92e077d7c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:12 +0000
Subject: [PATCH 04/14] fix: executor refusing one continuation must not lose
 the others or terminate

An exception thrown by post() of the executor of one continuation escaped from
continuations_stack::execute: the remaining continuations and waiters were
destroyed without being run (threads blocked in wait() hang forever), or
std::terminate was called if the future is completed by another continuation.
---
 portable_concurrency/bits/portable_concurrency.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 1dd77a6..f4b056c 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -34,8 +34,15 @@ void continuations_stack::push(continuation &&cnt) {
 
 void continuations_stack::execute() {
   auto continuations = stack_.consume();
-  for (auto &cnt : continuations)
-    cnt();
+  for (auto &cnt : continuations) {
+    // A continuation throws when its executor refuses the task. The refused task
+    // is already abandoned then. The thread setting the result has nothing to do
+    // with it and the rest of continuations must be executed anyway.
+    try {
+      cnt();
+    } catch (...) {
+    }
+  }
 }
 
 bool continuations_stack::executed() const { return stack_.is_consumed(); }
-- 
2.43.0


From 2fa440393c8e0530d85a81cd8db1a5a1f2410b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:48 +0000
Subject: [PATCH 05/14] fix: failure to subscribe on a nested future must not
 hang or terminate

If allocation of the continuation fails while unwrapping the future returned
from a task or continuation then the outer state remained associated with the
inner one which never notifies it: set_exception in noexcept continuation
throws promise_already_satisfied (std::terminate) or the future never becomes
ready. Report the failure as the result instead.
---
 portable_concurrency/bits/shared_state.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/portable_concurrency/bits/shared_state.h b/portable_concurrency/bits/shared_state.h
index 78707eb..7657870 100644
--- a/portable_concurrency/bits/shared_state.h
+++ b/portable_concurrency/bits/shared_state.h
@@ -100,10 +100,16 @@ public:
       return;
     }
     self->storage_.emplace(in_place_index_t<2>{}, val);
-    val->continuations().push([wself = std::weak_ptr<shared_state>(self)] {
-      if (auto self = wself.lock())
-        self->continuations().execute();
-    });
+    try {
+      val->continuations().push([wself = std::weak_ptr<shared_state>(self)] {
+        if (auto self = wself.lock())
+          self->continuations().execute();
+      });
+    } catch (...) {
+      // Nobody is going to be notified by the val, so it can't be the result.
+      self->storage_.clean();
+      self->set_exception(std::current_exception());
+    }
   }
 
   static void unwrap(std::shared_ptr<shared_state> &self, future<T> &&val) {
-- 
2.43.0


From d0af3079c15c45e450083a129941d903081e273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:53 +0000
Subject: [PATCH 06/14] fix: static_thread_pool constructor must not terminate
 if thread can't be started

---
 portable_concurrency/bits/portable_concurrency.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index f4b056c..59ca0dd 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -183,8 +183,15 @@ future<when_any_result<std::tuple<>>> when_any() {
 
 static_thread_pool::static_thread_pool(std::size_t num_threads) {
   threads_.reserve(num_threads);
-  while (num_threads-- > 0)
-    threads_.push_back(std::thread{&static_thread_pool::attach, this});
+  try {
+    while (num_threads-- > 0)
+      threads_.push_back(std::thread{&static_thread_pool::attach, this});
+  } catch (...) {
+    // Destructors of the joinable threads started so far call std::terminate.
+    stop();
+    wait();
+    throw;
+  }
 }
 
 static_thread_pool::~static_thread_pool() {
-- 
2.43.0


From 83787ad763f1ab2894cb0519e8cec161ef304fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:33 +0000
Subject: [PATCH 07/14] fix: abandon the continuation held by a task which is
 assigned over

An executor which move-assigns one posted task over another left the future
of the overwritten continuation never ready: cnt_action's move assignment
dropped the reference without abandoning the continuation as its destructor
does.
---
 portable_concurrency/bits/then.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/then.hpp b/portable_concurrency/bits/then.hpp
index bca2740..bb41743 100644
--- a/portable_concurrency/bits/then.hpp
+++ b/portable_concurrency/bits/then.hpp
@@ -184,7 +184,8 @@ template <typename CntState> struct cnt_action {
   cnt_action(std::weak_ptr<CntState> wdata) : wdata(std::move(wdata)) {}
   cnt_action(cnt_action &&rhs) noexcept : wdata(std::move(rhs.wdata)) {}
   cnt_action &operator=(cnt_action &&rhs) noexcept {
-    wdata = std::move(rhs.wdata);
+    cnt_action tmp{std::move(rhs)};
+    std::swap(wdata, tmp.wdata);
     return *this;
   }
 
-- 
2.43.0


From 7f745dcfe77514d20187fb888d127f53d80b3e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:05 +0000
Subject: [PATCH 08/14] fix: running a packaged_task from its own continuation
 must not call the function again

---
 portable_concurrency/bits/packaged_task.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/packaged_task.h b/portable_concurrency/bits/packaged_task.h
index 1c58381..a10b118 100644
--- a/portable_concurrency/bits/packaged_task.h
+++ b/portable_concurrency/bits/packaged_task.h
@@ -29,7 +29,8 @@ struct task_state final : packaged_task_state<R, A...> {
 
   void run(std::shared_ptr<shared_state<R>> &state_ptr, A &&...a) override {
     assert(state_ptr.get() == &state);
-    if (func.state() == 0)
+    // func is still alive while continuations of this very run are executed.
+    if (func.state() == 0 || state.continuations().executed())
       throw_already_satisfied();
     scope_either_cleaner<decltype(func)> claner{func};
     ::portable_concurrency::cxx14_v1::detail::set_state_value(
-- 
2.43.0


From 63b8b94c5f31bbd7fd56536294875991e5cb2bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:45 +0000
Subject: [PATCH 09/14] fix: exception of the result's constructor must be
 stored, not terminate the process

---
 portable_concurrency/bits/utils.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/portable_concurrency/bits/utils.h b/portable_concurrency/bits/utils.h
index 6df231f..cdfc4fb 100644
--- a/portable_concurrency/bits/utils.h
+++ b/portable_concurrency/bits/utils.h
@@ -12,15 +12,13 @@ namespace detail {
 template <typename R, typename F, typename... A>
 void set_state_value(std::shared_ptr<shared_state<R>> &state, F &&f, A &&...a) {
   assert(state);
-  bool executed = false;
   try {
     auto &&res = ::portable_concurrency::cxx14_v1::detail::invoke(
         std::forward<F>(f), std::forward<A>(a)...);
-    executed = true;
     shared_state<R>::unwrap(state, std::move(res));
   } catch (...) {
-    if (executed)
-      throw;
+    // Either the function or the constructor of the stored value has thrown.
+    // Throws promise_already_satisfied if there is a result already.
     state->set_exception(std::current_exception());
   }
 }
-- 
2.43.0


From 7876e66d868b962b6b583b8c2cc76054375ab42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:09 +0000
Subject: [PATCH 10/14] fix: unique_function holding a big callable must not
 return a reference to a temporary

---
 portable_concurrency/bits/unique_function.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/unique_function.hpp b/portable_concurrency/bits/unique_function.hpp
index 9933172..df98fdd 100644
--- a/portable_concurrency/bits/unique_function.hpp
+++ b/portable_concurrency/bits/unique_function.hpp
@@ -33,7 +33,9 @@ unique_function<R(A...)>::unique_function(F &&f, std::false_type) {
   if (detail::is_null(f))
     return;
   func_ = [func = std::make_unique<std::decay_t<F>>(std::forward<F>(f))](
-              A... a) { return detail::invoke(*func, std::forward<A>(a)...); };
+              A... a) -> decltype(auto) {
+    return detail::invoke(*func, std::forward<A>(a)...);
+  };
 }
 
 template <typename R, typename... A>
-- 
2.43.0


From 9bb860b75b647f9d13044c8c02afadd49d1a5d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:49 +0000
Subject: [PATCH 11/14] fix: static_thread_pool must wait for attached threads
 before it is destroyed

---
 .../bits/portable_concurrency.cpp               | 17 +++++++++++------
 portable_concurrency/bits/thread_pool.h         |  1 +
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/portable_concurrency/bits/portable_concurrency.cpp b/portable_concurrency/bits/portable_concurrency.cpp
index 59ca0dd..e2f44b3 100644
--- a/portable_concurrency/bits/portable_concurrency.cpp
+++ b/portable_concurrency/bits/portable_concurrency.cpp
@@ -203,14 +203,16 @@ void static_thread_pool::attach() {
   {
     std::lock_guard<std::mutex> lock{mutex_};
     ++attached_threads_;
+    ++threads_inside_;
   }
   process_queue(queue_, stopped_);
-  {
-    std::unique_lock<std::mutex> lock{mutex_};
-    --attached_threads_;
-    cv_.wait(lock, [&] { return attached_threads_ == 0; });
-  }
-  cv_.notify_all();
+  std::unique_lock<std::mutex> lock{mutex_};
+  if (--attached_threads_ == 0)
+    cv_.notify_all();
+  cv_.wait(lock, [&] { return attached_threads_ == 0; });
+  // Once the mutex is unlocked wait() may return and the pool may be destroyed.
+  if (--threads_inside_ == 0)
+    cv_.notify_all();
 }
 
 void static_thread_pool::stop() { 
@@ -225,6 +227,9 @@ void static_thread_pool::wait() {
       thread.join();
   }
   threads_.clear();
+  // Attached threads are not joined.
+  std::unique_lock<std::mutex> lock{mutex_};
+  cv_.wait(lock, [&] { return threads_inside_ == 0; });
 }
 
 } // namespace cxx14_v1
diff --git a/portable_concurrency/bits/thread_pool.h b/portable_concurrency/bits/thread_pool.h
index c3410d9..b13d83a 100644
--- a/portable_concurrency/bits/thread_pool.h
+++ b/portable_concurrency/bits/thread_pool.h
@@ -62,6 +62,7 @@ private:
   detail::closable_queue<unique_function<void()>> queue_;
   std::vector<std::thread> threads_;
   unsigned attached_threads_ = 0;
+  unsigned threads_inside_ = 0;
   std::mutex mutex_;
   std::condition_variable cv_;
   std::atomic<bool> stopped_{false};
-- 
2.43.0


From 2c9338d544315765bbec0d89a035ee68627a7157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:41 +0000
Subject: [PATCH 12/14] fix: move assignment of unique_function to itself must
 not destroy the function

---
 portable_concurrency/bits/small_unique_function.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portable_concurrency/bits/small_unique_function.hpp b/portable_concurrency/bits/small_unique_function.hpp
index 0aadd0a..a302af3 100644
--- a/portable_concurrency/bits/small_unique_function.hpp
+++ b/portable_concurrency/bits/small_unique_function.hpp
@@ -123,6 +123,8 @@ small_unique_function<R(A...)>::small_unique_function(
 template <typename R, typename... A>
 small_unique_function<R(A...)> &small_unique_function<R(A...)>::operator=(
     small_unique_function<R(A...)> &&rhs) noexcept {
+  if (this == &rhs)
+    return *this;
   if (vtbl_)
     vtbl_->destroy(buffer_);
   if (rhs.vtbl_)
-- 
2.43.0


From 671519c1a7b471389d6ee320c868c0144b35199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:19 +0000
Subject: [PATCH 13/14] fix: unique_function copies and moves its callable,
 never list-initialises it

F{std::move(f)} picks an initializer_list constructor of the callable when
it has one that accepts the callable itself, so (with gcc) the function
stored was a wrapper around the given one.
---
 portable_concurrency/bits/small_unique_function.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portable_concurrency/bits/small_unique_function.hpp b/portable_concurrency/bits/small_unique_function.hpp
index a302af3..a70ee85 100644
--- a/portable_concurrency/bits/small_unique_function.hpp
+++ b/portable_concurrency/bits/small_unique_function.hpp
@@ -40,7 +40,7 @@ const callable_vtbl<R, A...> &get_callable_vtbl() {
   static const callable_vtbl<R, A...> res = {
       [](small_buffer &buf) { reinterpret_cast<F &>(buf).~F(); },
       [](small_buffer &src, small_buffer &dst) {
-        new (&dst) F{std::move(reinterpret_cast<F &>(src))};
+        new (&dst) F(std::move(reinterpret_cast<F &>(src)));
       },
       [](small_buffer &buf, A... a) -> R {
 #if !defined(_MSC_VER)
@@ -102,7 +102,7 @@ small_unique_function<R(A...)>::small_unique_function(F &&f) {
                 "Can't embed object into small_unique_function");
   if (detail::is_null(f))
     return;
-  new (&buffer_) std::decay_t<F>{std::forward<F>(f)};
+  new (&buffer_) std::decay_t<F>(std::forward<F>(f));
   vtbl_ = &detail::get_callable_vtbl<std::decay_t<F>, R, A...>();
 }
 
-- 
2.43.0


From 7ac5d1778c737c44aa64030bb3f32b1fbac29cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:19 +0000
Subject: [PATCH 14/14] fix: don't move from an object a function returns by
 reference

A task or continuation declared to produce T may return T&: the result is a
copy, as for std::packaged_task; the referenced object is still in use.
---
 portable_concurrency/bits/shared_state.h | 5 +++++
 portable_concurrency/bits/utils.h        | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/portable_concurrency/bits/shared_state.h b/portable_concurrency/bits/shared_state.h
index 7657870..fd042b5 100644
--- a/portable_concurrency/bits/shared_state.h
+++ b/portable_concurrency/bits/shared_state.h
@@ -121,6 +121,11 @@ public:
     unwrap(self, state_of(std::move(val)));
   }
 
+  static void unwrap(std::shared_ptr<shared_state> &self,
+                     shared_future<T> &val) {
+    unwrap(self, state_of(val));
+  }
+
   template <typename U>
   static std::enable_if_t<
       !std::is_same<std::decay_t<U>, std::shared_ptr<future_state<T>>>::value>
diff --git a/portable_concurrency/bits/utils.h b/portable_concurrency/bits/utils.h
index cdfc4fb..f8e6364 100644
--- a/portable_concurrency/bits/utils.h
+++ b/portable_concurrency/bits/utils.h
@@ -15,7 +15,8 @@ void set_state_value(std::shared_ptr<shared_state<R>> &state, F &&f, A &&...a) {
   try {
     auto &&res = ::portable_concurrency::cxx14_v1::detail::invoke(
         std::forward<F>(f), std::forward<A>(a)...);
-    shared_state<R>::unwrap(state, std::move(res));
+    // The function may return a reference to an object which is still in use.
+    shared_state<R>::unwrap(state, std::forward<decltype(res)>(res));
   } catch (...) {
     // Either the function or the constructor of the stored value has thrown.
     // Throws promise_already_satisfied if there is a result already.
-- 
2.43.0

