From 2025f86fa9c6fbc6f9fccb75767252c782ea14ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:50 +0000
Subject: [PATCH 01/38] fix: unlink a thread before destroying the tasks left
 in its queue

Destroying the context could run user code (a broken promise continuation or
a functor destructor) that still found the dying context through the
thread-local pointer.
---
 threadpp/thread.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 96292f3..3f66065 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -139,7 +139,7 @@ auto register_thread_impl(std::thread::id native_thread_id, const std::string& n
     return local_context;
 }
 
-void unregister_thread_impl(thread::id id)
+auto unregister_thread_impl(thread::id id) -> std::shared_ptr<thread_context>
 {
     // unlock of global mutex must happen before
     // destructor of context
@@ -149,7 +149,7 @@ void unregister_thread_impl(thread::id id)
     auto it = global_context.contexts.find(id);
     if(it == global_context.contexts.end())
     {
-        return;
+        return context;
     }
 
     // get the context and lock it
@@ -158,7 +158,7 @@ void unregister_thread_impl(thread::id id)
 
     global_context.id_map.erase(context->native_thread_id);
     // now we can safely remove the context
-    // from the global container and the local variable
+    // from the global container and the returned variable
     // will be the last reference to it
     global_context.contexts.erase(id);
     // if this was the last entry then
@@ -167,6 +167,7 @@ void unregister_thread_impl(thread::id id)
     {
         global_context.cleanup_event.notify_all();
     }
+    return context;
 }
 
 void init(const init_data& data)
@@ -590,7 +591,9 @@ void register_this_thread(const std::string& name)
 
 void unregister_this_thread()
 {
-    unregister_thread_impl(get_id());
+    // unlink before the context gets destroyed, as destroying
+    // the left tasks may call back into the library
+    auto context = unregister_thread_impl(get_id());
     set_local_context(nullptr);
 }
 
-- 
2.43.0


From fbdd0c1fca0794be4b02ad33fa867df5a3b0e2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:50 +0000
Subject: [PATCH 02/38] fix: future<void>::get must not succeed without a
 result

When the waiting thread is notified for exit before the result is set, get()
of a non-void future throws broken_promise while the void one returned
normally, as if the work had been done.
---
 threadpp/detail/future_state.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/threadpp/detail/future_state.hpp b/threadpp/detail/future_state.hpp
index 7332f04..3280938 100644
--- a/threadpp/detail/future_state.hpp
+++ b/threadpp/detail/future_state.hpp
@@ -187,7 +187,14 @@ struct future_state<void> : public basic_state<void>
 
     void get_value_assuming_ready()
     {
+        std::unique_lock<std::mutex> lock(guard);
+
         rethrow_any_exception();
+
+        if(!ready())
+        {
+            throw std::future_error(std::future_errc::broken_promise);
+        }
     }
 };
 template<typename T>
-- 
2.43.0


From 6ebfac4c7ec90e6232089ddd46ee4d5d2a10764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:03 +0000
Subject: [PATCH 03/38] fix: guard the init callbacks against concurrent init
 and shutdown

Threads that are not registered (any longer) log through callbacks that
shutdown replaces. Both happened without a common lock.
---
 threadpp/thread.cpp | 47 ++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 3f66065..e6742f9 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -37,6 +37,7 @@ struct program_context
     std::unordered_map<thread::id, std::shared_ptr<thread_context>> contexts;
     thread::id main_thread_id{invalid_id()};
     std::atomic<size_t> init_count{0};
+    std::mutex config_mutex;
     init_data config;
 };
 
@@ -65,39 +66,55 @@ auto get_local_context() -> thread_context&
     return *local_data;
 }
 
+// the callbacks can be used by any thread at any time,
+// even while init or shutdown is changing them.
+auto get_config_callback(std::function<void(const std::string&)> init_data::*callback)
+{
+    auto& global_context = get_global_context();
+    std::lock_guard<std::mutex> lock(global_context.config_mutex);
+    return global_context.config.*callback;
+}
+
+void set_config(const init_data& data)
+{
+    auto& global_context = get_global_context();
+    std::lock_guard<std::mutex> lock(global_context.config_mutex);
+    global_context.config = data;
+}
+
 void name_thread(const std::string& name)
 {
-    const auto& global_context = get_global_context();
-    if(global_context.config.set_thread_name && !name.empty())
+    auto callback = get_config_callback(&init_data::set_thread_name);
+    if(callback && !name.empty())
     {
-        global_context.config.set_thread_name(name);
+        callback(name);
     }
 }
 
 void on_thread_start(const std::string& name)
 {
-    const auto& global_context = get_global_context();
-    if(global_context.config.on_thread_start && !name.empty())
+    auto callback = get_config_callback(&init_data::on_thread_start);
+    if(callback && !name.empty())
     {
-        global_context.config.on_thread_start(name);
+        callback(name);
     }
 }
 
 void log_info(const std::string& name)
 {
-    const auto& global_context = get_global_context();
-    if(global_context.config.log_info)
+    auto callback = get_config_callback(&init_data::log_info);
+    if(callback)
     {
-        global_context.config.log_info(name);
+        callback(name);
     }
 }
 
 void log_error(const std::string& name)
 {
-    const auto& global_context = get_global_context();
-    if(global_context.config.log_error)
+    auto callback = get_config_callback(&init_data::log_error);
+    if(callback)
     {
-        global_context.config.log_error(name);
+        callback(name);
     }
 }
 
@@ -181,7 +198,7 @@ void init(const init_data& data)
     this_thread::register_this_thread("Main Thread");
     std::unique_lock<std::mutex> lock(global_context.mutex);
     global_context.main_thread_id = this_thread::get_id();
-    global_context.config = data;
+    set_config(data);
     log_info_func("Successful.");
 }
 
@@ -219,13 +236,13 @@ auto shutdown(const std::chrono::seconds& timeout) -> int
     if(result)
     {
         log_info_func("Successful.");
-        global_context.config = {};
+        set_config({});
         return 0;
     }
     else
     {
         log_info_func("Timed out. Not all registered threads exited.");
-        global_context.config = {};
+        set_config({});
         return static_cast<int>(global_context.contexts.size());
     }
 }
-- 
2.43.0


From 726fa62ed8310642cbac233119f4fa4503a883e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:43 +0000
Subject: [PATCH 04/38] fix: a thread object registers its thread before it
 runs and unregisters it at its end

A thread that finished before its creator registered it, or that never
unregistered itself, stayed registered for ever. Shutdown then waited for
it in vain and a later thread with the same native id inherited its state.
---
 threadpp/thread.cpp | 17 +++++++++++++++++
 threadpp/thread.h   | 36 ++++++++++++++++++++++++++++++++----
 2 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index e6742f9..30004a2 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -716,6 +716,23 @@ void thread::register_this(const std::string& name)
     id_ = context->id;
 }
 
+void thread::unregister_ended()
+{
+    auto& global_context = get_global_context();
+    auto id = invalid_id();
+    {
+        std::lock_guard<std::mutex> lock(global_context.mutex);
+        auto it = global_context.id_map.find(std::this_thread::get_id());
+        if(it == global_context.id_map.end())
+        {
+            return;
+        }
+        id = it->second;
+    }
+    auto context = unregister_thread_impl(id);
+    set_local_context(nullptr);
+}
+
 thread::thread() noexcept = default;
 
 void thread::swap(thread& th) noexcept
diff --git a/threadpp/thread.h b/threadpp/thread.h
index 2eceac5..78b5466 100644
--- a/threadpp/thread.h
+++ b/threadpp/thread.h
@@ -1,11 +1,14 @@
 #pragma once
 #include "detail/utility/apply.hpp"
 #include "detail/utility/capture.hpp"
+#include "detail/utility/invoke.hpp"
 
 #include <chrono>
 #include <condition_variable>
 #include <cstdint>
 #include <functional>
+#include <memory>
+#include <mutex>
 #include <string>
 #include <thread>
 #include <vector>
@@ -27,16 +30,15 @@ public:
     auto operator=(thread&& th) noexcept -> thread&;
 
     template<typename F, typename... Args>
-    explicit thread(F&& f, Args&&... args) : std::thread(std::forward<F>(f), std::forward<Args>(args)...)
+    explicit thread(F&& f, Args&&... args)
     {
-        register_this({});
+        start({}, std::forward<F>(f), std::forward<Args>(args)...);
     }
 
     template<typename F, typename... Args>
     explicit thread(const std::string& name, F&& f, Args&&... args)
-        : std::thread(std::forward<F>(f), std::forward<Args>(args)...)
     {
-        register_this(name);
+        start(name, std::forward<F>(f), std::forward<Args>(args)...);
     }
 
     thread(const thread&) = delete;
@@ -58,8 +60,34 @@ public:
     void join();
 
 private:
+    //-----------------------------------------------------------------------------
+    /// Starts the thread. Its function is not called before the thread
+    /// is registered and it does not stay registered after its function ended.
+    //-----------------------------------------------------------------------------
+    template<typename F, typename... Args>
+    void start(const std::string& name, F&& f, Args&&... args)
+    {
+        auto registering = std::make_shared<std::mutex>();
+        std::lock_guard<std::mutex> lock(*registering);
+        std::thread started(
+            [registering](auto&& func, auto&&... params)
+            {
+                {
+                    std::lock_guard<std::mutex> registered(*registering);
+                }
+                utility::invoke(std::forward<decltype(func)>(func), std::forward<decltype(params)>(params)...);
+                unregister_ended();
+            },
+            std::forward<F>(f),
+            std::forward<Args>(args)...);
+        std::thread::swap(started);
+        register_this(name);
+    }
+
     void register_this(const std::string& name);
 
+    static void unregister_ended();
+
     /// associated thread id
     id id_ = 0;
 };
-- 
2.43.0


From f9501148f29be2c8a6006949d65265508ff84725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:08 +0000
Subject: [PATCH 05/38] fix: overwriting an unfulfilled promise breaks its
 future

Move assignment dropped the old shared state without abandoning it, so
its future stayed pending for ever.
---
 threadpp/future.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 15581a3..00e440b 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -182,7 +182,13 @@ class basic_promise
 public:
     basic_promise() = default;
     basic_promise(basic_promise&& rhs) noexcept = default;
-    auto operator=(basic_promise&& rhs) noexcept -> basic_promise& = default;
+    auto operator=(basic_promise&& rhs) noexcept -> basic_promise&
+    {
+        // the overwritten promise is gone after this, same as in the destructor
+        basic_promise tmp(std::move(rhs));
+        std::swap(state_, tmp.state_);
+        return *this;
+    }
 
     basic_promise(const basic_promise&) = delete;
     auto operator=(const basic_promise&) -> basic_promise& = delete;
-- 
2.43.0


From 6b1e40f13d1411765c790c583fc1825b96516453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:01 +0000
Subject: [PATCH 06/38] fix: a notified timed wait must not report a timeout

The status of the last inner wait was returned even if the waiter had been
notified or asked to exit meanwhile.
---
 threadpp/detail/semaphore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threadpp/detail/semaphore.cpp b/threadpp/detail/semaphore.cpp
index 53a1259..5809957 100644
--- a/threadpp/detail/semaphore.cpp
+++ b/threadpp/detail/semaphore.cpp
@@ -137,7 +137,7 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
             before_wait();
         }
 
-        status = this_thread::wait_for(time_left);
+        this_thread::wait_for(time_left);
 
         if(after_wait)
         {
-- 
2.43.0


From adcba66c240414de8b676672fbd84fce58c07a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:32 +0000
Subject: [PATCH 07/38] fix: nested waits of one thread must not cancel each
 other

The inner wait removed the entry of the outer one as well, so a later
notification no longer reached the thread.
---
 threadpp/detail/semaphore.cpp | 30 ++++++++++++++++++++----------
 threadpp/detail/semaphore.h   |  5 ++++-
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/threadpp/detail/semaphore.cpp b/threadpp/detail/semaphore.cpp
index 5809957..4946027 100644
--- a/threadpp/detail/semaphore.cpp
+++ b/threadpp/detail/semaphore.cpp
@@ -22,6 +22,11 @@ auto interrupt_token::is_interrupted() const noexcept -> bool
     return flag_->load();
 }
 
+auto interrupt_token::operator==(const interrupt_token& rhs) const noexcept -> bool
+{
+    return flag_ == rhs.flag_;
+}
+
 void semaphore::notify_one() noexcept
 {
     auto waiter = [&]()
@@ -99,7 +104,7 @@ void semaphore::wait(const callback& before_wait, const callback& after_wait) co
         }
     }
 
-    remove_waiter(id);
+    remove_waiter(token);
 }
 
 auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
@@ -148,7 +153,7 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
     }
 
     // remove waiter in case of timeout
-    remove_waiter(id);
+    remove_waiter(token);
 
     return status;
 }
@@ -165,6 +170,7 @@ auto semaphore::add_waiter(thread::id id) const -> interrupt_token
                            });
     if(it != std::end(waiters_))
     {
+        ++it->waits;
         return it->token;
     }
 
@@ -175,17 +181,21 @@ auto semaphore::add_waiter(thread::id id) const -> interrupt_token
     return waiters_.back().token;
 }
 
-void semaphore::remove_waiter(thread::id id) const
+void semaphore::remove_waiter(const interrupt_token& token) const
 {
     std::unique_lock<std::mutex> waiting_lock(mutex_);
 
-    waiters_.erase(std::remove_if(std::begin(waiters_),
-                                  std::end(waiters_),
-                                  [&id](const waiter_info& waiter)
-                                  {
-                                      return waiter.id == id;
-                                  }),
-                   std::end(waiters_));
+    auto it = std::find_if(std::begin(waiters_),
+                           std::end(waiters_),
+                           [&token](const waiter_info& waiter)
+                           {
+                               return waiter.token == token;
+                           });
+    // a nested wait must not remove the entry of the outer one
+    if(it != std::end(waiters_) && --it->waits == 0)
+    {
+        waiters_.erase(it);
+    }
 }
 
 } // namespace detail
diff --git a/threadpp/detail/semaphore.h b/threadpp/detail/semaphore.h
index c5e2bac..f9fb67b 100644
--- a/threadpp/detail/semaphore.h
+++ b/threadpp/detail/semaphore.h
@@ -22,6 +22,7 @@ public:
 
     auto interrupt() noexcept -> bool;
     auto is_interrupted() const noexcept -> bool;
+    auto operator==(const interrupt_token& rhs) const noexcept -> bool;
 
 private:
     std::shared_ptr<std::atomic<bool>> flag_;
@@ -92,6 +93,8 @@ protected:
     {
         interrupt_token token;
         thread::id id;
+        // nested waits of the same thread share one entry
+        std::size_t waits{1};
     };
 
     auto wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
@@ -100,7 +103,7 @@ protected:
 
     auto add_waiter(thread::id id) const -> interrupt_token;
 
-    void remove_waiter(thread::id id) const;
+    void remove_waiter(const interrupt_token& token) const;
 
     mutable std::mutex mutex_;
     mutable std::vector<waiter_info> waiters_;
-- 
2.43.0


From 533840ff20c778dbf65848774b4b6667f2ea353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:21 +0000
Subject: [PATCH 08/38] fix: a continuation of a void future can return a value

The result of the continuation was dropped, so only continuations without
a result compiled.
---
 threadpp/future.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 00e440b..184e41a 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -853,7 +853,7 @@ auto future<void>::then(thread::id id, std::launch policy, F&& f) -> future<then
         [f = std::forward<F>(f), state]() mutable
         {
             future<void> self(state);
-            utility::invoke(f, std::move(self));
+            return utility::invoke(f, std::move(self));
         });
     auto& future = package.callable_future;
     auto& task = package.callable;
@@ -908,7 +908,7 @@ auto shared_future<void>::then(thread::id id, std::launch policy, F&& f) const
         [f = std::forward<F>(f), state]() mutable
         {
             shared_future<void> self(state);
-            utility::invoke(f, std::move(self));
+            return utility::invoke(f, std::move(self));
         });
     auto& future = package.callable_future;
     auto& task = package.callable;
-- 
2.43.0


From e0f09433ca3c20bffd4a1b6ea8f7185b79cf4e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:13 +0000
Subject: [PATCH 09/38] fix: when_any fulfils its promise without holding its
 lock

A continuation that ran in place and waited for the other inputs locked
the same mutex again from the same thread.
---
 threadpp/when_all_any.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/threadpp/when_all_any.hpp b/threadpp/when_all_any.hpp
index 9812d79..7d28196 100644
--- a/threadpp/when_all_any.hpp
+++ b/threadpp/when_all_any.hpp
@@ -67,7 +67,7 @@ void when_any_inner_helper(Context context)
         .then(id,
               [context](ith_future_type f)
               {
-                  std::lock_guard<std::mutex> lock(context->mutex);
+                  std::unique_lock<std::mutex> lock(context->mutex);
                   if(!context->ready)
                   {
                       context->ready = true;
@@ -76,8 +76,10 @@ void when_any_inner_helper(Context context)
                       if(context->processed == context->total && !context->result_moved)
                       {
                           context->recover_input_futures();
-                          context->p.set_value(std::move(context->result));
                           context->result_moved = true;
+                          // continuations run from here may wait for the other inputs
+                          lock.unlock();
+                          context->p.set_value(std::move(context->result));
                       }
                   }
               });
@@ -335,7 +337,7 @@ auto when_any(InputIt first, InputIt last)
             id,
             [shared_context, index](auto f)
             {
-                std::lock_guard<std::mutex> lock(shared_context->mutex);
+                std::unique_lock<std::mutex> lock(shared_context->mutex);
                 if(!shared_context->ready)
                 {
                     shared_context->result.index = index;
@@ -344,8 +346,10 @@ auto when_any(InputIt first, InputIt last)
                     if(shared_context->processed == shared_context->total && !shared_context->promise_set)
                     {
                         shared_context->recover_input_futures();
-                        shared_context->p.set_value(std::move(shared_context->result));
                         shared_context->promise_set = true;
+                        // continuations run from here may wait for the other inputs
+                        lock.unlock();
+                        shared_context->p.set_value(std::move(shared_context->result));
                     }
                 }
             });
-- 
2.43.0


From d2910d311654ccdcbf6729585bdb4c43b224f1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:44 +0000
Subject: [PATCH 10/38] fix: a timed wait that consumed a notification must not
 report a timeout

---
 threadpp/detail/semaphore.cpp | 18 ++++++++++++++----
 threadpp/detail/semaphore.h   |  3 ++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/threadpp/detail/semaphore.cpp b/threadpp/detail/semaphore.cpp
index 4946027..1fc775f 100644
--- a/threadpp/detail/semaphore.cpp
+++ b/threadpp/detail/semaphore.cpp
@@ -152,8 +152,12 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
         now = clock::now();
     }
 
-    // remove waiter in case of timeout
-    remove_waiter(token);
+    // remove waiter in case of timeout. If a notification was faster
+    // then it is meant for us and would be lost if we report a timeout.
+    if(!remove_waiter(token))
+    {
+        status = std::cv_status::no_timeout;
+    }
 
     return status;
 }
@@ -181,7 +185,7 @@ auto semaphore::add_waiter(thread::id id) const -> interrupt_token
     return waiters_.back().token;
 }
 
-void semaphore::remove_waiter(const interrupt_token& token) const
+auto semaphore::remove_waiter(const interrupt_token& token) const -> bool
 {
     std::unique_lock<std::mutex> waiting_lock(mutex_);
 
@@ -191,11 +195,17 @@ void semaphore::remove_waiter(const interrupt_token& token) const
                            {
                                return waiter.token == token;
                            });
+    if(it == std::end(waiters_))
+    {
+        return false;
+    }
+
     // a nested wait must not remove the entry of the outer one
-    if(it != std::end(waiters_) && --it->waits == 0)
+    if(--it->waits == 0)
     {
         waiters_.erase(it);
     }
+    return true;
 }
 
 } // namespace detail
diff --git a/threadpp/detail/semaphore.h b/threadpp/detail/semaphore.h
index f9fb67b..e3867e2 100644
--- a/threadpp/detail/semaphore.h
+++ b/threadpp/detail/semaphore.h
@@ -103,7 +103,8 @@ protected:
 
     auto add_waiter(thread::id id) const -> interrupt_token;
 
-    void remove_waiter(const interrupt_token& token) const;
+    // returns false if the waiter was already taken by a notification
+    auto remove_waiter(const interrupt_token& token) const -> bool;
 
     mutable std::mutex mutex_;
     mutable std::vector<waiter_info> waiters_;
-- 
2.43.0


From 4a925af93f497ca3337e6f231c46d0615db89e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:26 +0000
Subject: [PATCH 11/38] fix: a thread blocking on a mutex must not miss its
 release

---
 threadpp/mutex.hpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/threadpp/mutex.hpp b/threadpp/mutex.hpp
index d796b7a..37d2cb0 100644
--- a/threadpp/mutex.hpp
+++ b/threadpp/mutex.hpp
@@ -24,6 +24,10 @@ public:
     void lock()
     {
         auto id = this_thread::get_id();
+
+        // held until we are known as a waiter, otherwise an unlock
+        // in between would not notify us
+        std::unique_lock<std::mutex> guard(guard_);
         while(flag_.test_and_set())
         {
             // are we already owning it?
@@ -31,7 +35,25 @@ public:
             {
                 throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur));
             }
-            sync_.wait();
+
+            // waiting returns immediately in this case
+            if(this_thread::notified_for_exit())
+            {
+                guard.unlock();
+                std::this_thread::yield();
+                guard.lock();
+                continue;
+            }
+
+            sync_.wait(
+                [&guard]()
+                {
+                    guard.unlock();
+                },
+                [&guard]()
+                {
+                    guard.lock();
+                });
         }
 
         owner_ = id;
@@ -67,12 +89,16 @@ public:
             throw std::system_error(std::make_error_code(std::errc::no_lock_available));
         }
 
+        std::lock_guard<std::mutex> guard(guard_);
         owner_ = invalid_id();
         flag_.clear();
         sync_.notify_all();
     }
 
 private:
+    /// Protects the transition from checking to waiting.
+    std::mutex guard_;
+
     /// Underlying semaphore that handles notifying.
     detail::semaphore sync_;
 
-- 
2.43.0


From d3a10b2f70130c845dbe4f3ea42c3678506364ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:02 +0000
Subject: [PATCH 12/38] fix: scheduling from a pool worker must not run a job
 in place

---
 threadpp/thread_pool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index ad5dc8d..4026f0b 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -202,7 +202,8 @@ private:
                 auto& workers = workers_[priority];
                 for(auto& w : workers)
                 {
-                    dispatch(w.get_id(),
+                    // always queue it, as we may be called by the worker itself
+                    invoke(w.get_id(),
                            [this, priority]()
                            {
                                check_jobs(priority);
-- 
2.43.0


From d41bf5abf89425ea17bc080f7f25841761227695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:45 +0000
Subject: [PATCH 13/38] fix: a job whose priority was lowered must not keep its
 old place

---
 threadpp/thread_pool.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index 4026f0b..90d7ea6 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -261,8 +261,9 @@ private:
             }
             auto& job = it->second;
 
-            // if priority level is lower still matches
-            if(level <= job.handle.group.level)
+            // if priority level is lower still matches, but a handle
+            // from before a change of the priority does not count
+            if(level <= job.handle.group.level && handle.group == job.handle.group)
             {
                 id = job.handle.id;
                 user_job = std::move(job.callable);
-- 
2.43.0


From fcf8f1538dfdcee787e964a6bb9df030cfd444c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:40 +0000
Subject: [PATCH 14/38] fix: a thread pool can be moved by code that only sees
 its header

---
 threadpp/thread_pool.cpp | 3 +++
 threadpp/thread_pool.h   | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index 90d7ea6..ce49096 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -298,6 +298,9 @@ thread_pool::thread_pool(const std::map<priority::category, size_t>& workers_per
     impl_ = std::make_unique<impl>(workers_per_priority_level, config);
 }
 
+thread_pool::thread_pool(thread_pool&&) noexcept = default;
+auto thread_pool::operator=(thread_pool&&) noexcept -> thread_pool& = default;
+
 thread_pool::~thread_pool() = default;
 
 job_id thread_pool::add_job(task& job, priority::group group)
diff --git a/threadpp/thread_pool.h b/threadpp/thread_pool.h
index 7e55f0a..a34a3d5 100644
--- a/threadpp/thread_pool.h
+++ b/threadpp/thread_pool.h
@@ -145,8 +145,8 @@ public:
     thread_pool(const std::map<priority::category, size_t>& workers_per_priority_level,
                 tasks_capacity_config config = {});
     thread_pool();
-    thread_pool(thread_pool&&) = default;
-    auto operator=(thread_pool&&) -> thread_pool& = default;
+    thread_pool(thread_pool&&) noexcept;
+    auto operator=(thread_pool&&) noexcept -> thread_pool&;
     ~thread_pool();
 
     thread_pool(const thread_pool&) = delete;
-- 
2.43.0


From e1cd9d81e1c226530d870be0cda29f1f02e5feb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:19 +0000
Subject: [PATCH 15/38] fix: job futures must reach their pool after it was
 moved

---
 threadpp/thread_pool.cpp | 41 ++++++++++++++++++++++++----------------
 threadpp/thread_pool.h   |  9 ++++-----
 2 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index ce49096..ac561a3 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -298,8 +298,27 @@ thread_pool::thread_pool(const std::map<priority::category, size_t>& workers_per
     impl_ = std::make_unique<impl>(workers_per_priority_level, config);
 }
 
-thread_pool::thread_pool(thread_pool&&) noexcept = default;
-auto thread_pool::operator=(thread_pool&&) noexcept -> thread_pool& = default;
+thread_pool::thread_pool(thread_pool&& rhs) noexcept
+    : impl_(std::move(rhs.impl_))
+    , sentinel_(std::move(rhs.sentinel_))
+{
+    if(sentinel_)
+    {
+        *sentinel_ = this;
+    }
+}
+
+auto thread_pool::operator=(thread_pool&& rhs) noexcept -> thread_pool&
+{
+    // the futures of the replaced jobs have to lose us first
+    sentinel_ = std::move(rhs.sentinel_);
+    if(sentinel_)
+    {
+        *sentinel_ = this;
+    }
+    impl_ = std::move(rhs.impl_);
+    return *this;
+}
 
 thread_pool::~thread_pool() = default;
 
@@ -340,27 +359,17 @@ size_t thread_pool::get_jobs_count() const
 
 void job_future_storage::change_priority(priority::group group)
 {
-    if(sentinel_.expired())
-    {
-        return;
-    }
-
-    if(owner_)
+    if(auto owner = owner_.lock())
     {
-        owner_->change_priority(id, group);
+        (*owner)->change_priority(id, group);
     }
 }
 
 void job_future_storage::stop()
 {
-    if(sentinel_.expired())
-    {
-        return;
-    }
-
-    if(owner_)
+    if(auto owner = owner_.lock())
     {
-        owner_->stop(id);
+        (*owner)->stop(id);
     }
 }
 
diff --git a/threadpp/thread_pool.h b/threadpp/thread_pool.h
index a34a3d5..e46aa72 100644
--- a/threadpp/thread_pool.h
+++ b/threadpp/thread_pool.h
@@ -69,8 +69,7 @@ struct job_future_storage
     void stop();
 
 private:
-    std::weak_ptr<int> sentinel_{};
-    thread_pool* owner_{};
+    std::weak_ptr<thread_pool*> owner_{};
 };
 
 template<typename T>
@@ -209,7 +208,8 @@ private:
     /// pimpl idiom
     std::unique_ptr<impl> impl_;
 
-    std::shared_ptr<int> sentinel_ = std::make_shared<int>();
+    /// leads the job futures to the pool, wherever it gets moved to
+    std::shared_ptr<thread_pool*> sentinel_ = std::make_shared<thread_pool*>(this);
 };
 
 template<typename F, typename... Args>
@@ -218,8 +218,7 @@ auto thread_pool::schedule(priority::group group, F&& f, Args&&... args) -> job_
     auto packaged_task = detail::package_future_task(std::forward<F>(f), std::forward<Args>(args)...);
     job_future<async_ret_type<F, Args...>> fut(std::move(packaged_task.callable_future));
     fut.id = add_job(packaged_task.callable, group);
-    fut.sentinel_ = sentinel_;
-    fut.owner_ = this;
+    fut.owner_ = sentinel_;
     return fut;
 }
 
-- 
2.43.0


From 5056959cd8f398a3bd28b416959ffa63f9d61a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:54 +0000
Subject: [PATCH 16/38] fix: stopping all jobs of a pool must leave the running
 ones waitable

---
 threadpp/thread_pool.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index ac561a3..d59598d 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -138,7 +138,18 @@ public:
     void clear_all()
     {
         std::lock_guard<std::mutex> lock(guard_);
-        jobs_.clear();
+        for(auto it = jobs_.begin(); it != jobs_.end();)
+        {
+            // the running ones remain waitable
+            if(it->second.callable)
+            {
+                it = jobs_.erase(it);
+            }
+            else
+            {
+                ++it;
+            }
+        }
         job_priority_queues_.clear();
     }
 
-- 
2.43.0


From 54c9057891a2d8d47677a941a6fe9f3056303088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:33 +0000
Subject: [PATCH 17/38] fix: the pool destroys stopped jobs without holding its
 lock

---
 threadpp/thread_pool.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index d59598d..8112556 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -117,6 +117,8 @@ public:
 
     void clear(job_id id, bool check_callable)
     {
+        // destroyed after the unlock, as that may call back into the pool
+        job_info cleared;
         std::lock_guard<std::mutex> lock(guard_);
         auto it = jobs_.find(id);
         if(it != jobs_.end())
@@ -125,11 +127,13 @@ public:
             {
                 if(it->second.callable)
                 {
+                    cleared = std::move(it->second);
                     jobs_.erase(id);
                 }
             }
             else
             {
+                cleared = std::move(it->second);
                 jobs_.erase(id);
             }
         }
@@ -137,12 +141,15 @@ public:
 
     void clear_all()
     {
+        // destroyed after the unlock, as that may call back into the pool
+        std::vector<job_info> cleared;
         std::lock_guard<std::mutex> lock(guard_);
         for(auto it = jobs_.begin(); it != jobs_.end();)
         {
             // the running ones remain waitable
             if(it->second.callable)
             {
+                cleared.emplace_back(std::move(it->second));
                 it = jobs_.erase(it);
             }
             else
-- 
2.43.0


From c638d498d9d62318d04a176e01b6ebcef4fb8d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:05 +0000
Subject: [PATCH 18/38] fix: a timed wait must not end before its time

---
 threadpp/thread.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/threadpp/thread.h b/threadpp/thread.h
index 78b5466..e10e4f5 100644
--- a/threadpp/thread.h
+++ b/threadpp/thread.h
@@ -370,6 +370,11 @@ inline auto wait_for(const std::chrono::duration<Rep, Period>& rtime) -> std::cv
     }
 
     auto duration = std::chrono::duration_cast<std::chrono::microseconds>(rtime);
+    if(duration < rtime)
+    {
+        // never wait shorter than requested
+        ++duration;
+    }
 
     return detail::wait_for(duration);
 }
-- 
2.43.0


From 52804fd1afc1f3f74a9f3a91a2e654896cf94f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:35 +0000
Subject: [PATCH 19/38] fix: a wait whose time is over must report a timeout

---
 threadpp/thread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threadpp/thread.h b/threadpp/thread.h
index e10e4f5..be80198 100644
--- a/threadpp/thread.h
+++ b/threadpp/thread.h
@@ -366,7 +366,7 @@ inline auto wait_for(const std::chrono::duration<Rep, Period>& rtime) -> std::cv
 {
     if(rtime <= rtime.zero())
     {
-        return std::cv_status::no_timeout;
+        return std::cv_status::timeout;
     }
 
     auto duration = std::chrono::duration_cast<std::chrono::microseconds>(rtime);
-- 
2.43.0


From e7f034a771edb0a5d1ada941dc7c61dd6b77a5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:18 +0000
Subject: [PATCH 20/38] fix: a task that throws must not stay counted as
 executing

---
 threadpp/thread.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 30004a2..0131cec 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -436,7 +436,17 @@ auto process_one(std::unique_lock<std::mutex>& lock) -> bool
 
         if(task)
         {
-            task();
+            try
+            {
+                task();
+            }
+            catch(...)
+            {
+                task = {};
+                lock.lock();
+                local_context.processing_stack_depth--;
+                throw;
+            }
 
             // invoke the tasks's destructor to allow
             // invoking from it on an unlocked mutex
-- 
2.43.0


From 52079671b362a7baaf77091c7faca9f25551d227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:24 +0000
Subject: [PATCH 21/38] fix: a wait ended by a throwing task relocks and passes
 its notification on

---
 threadpp/detail/semaphore.cpp | 37 ++++++++++++++++++++++++++++++++---
 threadpp/detail/semaphore.h   |  5 ++++-
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/threadpp/detail/semaphore.cpp b/threadpp/detail/semaphore.cpp
index 1fc775f..54faff1 100644
--- a/threadpp/detail/semaphore.cpp
+++ b/threadpp/detail/semaphore.cpp
@@ -27,7 +27,7 @@ auto interrupt_token::operator==(const interrupt_token& rhs) const noexcept -> b
     return flag_ == rhs.flag_;
 }
 
-void semaphore::notify_one() noexcept
+void semaphore::notify_one() const noexcept
 {
     auto waiter = [&]()
     {
@@ -96,7 +96,15 @@ void semaphore::wait(const callback& before_wait, const callback& after_wait) co
             before_wait();
         }
 
-        this_thread::wait();
+        try
+        {
+            this_thread::wait();
+        }
+        catch(...)
+        {
+            abandon_wait(token, after_wait);
+            throw;
+        }
 
         if(after_wait)
         {
@@ -142,7 +150,15 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
             before_wait();
         }
 
-        this_thread::wait_for(time_left);
+        try
+        {
+            this_thread::wait_for(time_left);
+        }
+        catch(...)
+        {
+            abandon_wait(token, after_wait);
+            throw;
+        }
 
         if(after_wait)
         {
@@ -208,5 +224,20 @@ auto semaphore::remove_waiter(const interrupt_token& token) const -> bool
     return true;
 }
 
+void semaphore::abandon_wait(const interrupt_token& token, const callback& after_wait) const
+{
+    // If a notification was faster then nobody
+    // will react to it, so let it wake another one.
+    if(!remove_waiter(token))
+    {
+        notify_one();
+    }
+
+    if(after_wait)
+    {
+        after_wait();
+    }
+}
+
 } // namespace detail
 } // namespace tpp
diff --git a/threadpp/detail/semaphore.h b/threadpp/detail/semaphore.h
index e3867e2..8cb9276 100644
--- a/threadpp/detail/semaphore.h
+++ b/threadpp/detail/semaphore.h
@@ -46,7 +46,7 @@ public:
     /// If any threads are waiting on *this,
     /// calling notify_one unblocks one of the waiting threads.
     //-----------------------------------------------------------------------------
-    void notify_one() noexcept;
+    void notify_one() const noexcept;
 
     //-----------------------------------------------------------------------------
     /// Unblocks all threads currently waiting for *this.
@@ -106,6 +106,9 @@ protected:
     // returns false if the waiter was already taken by a notification
     auto remove_waiter(const interrupt_token& token) const -> bool;
 
+    // leaves a wait whose thread executed a task that threw
+    void abandon_wait(const interrupt_token& token, const callback& after_wait) const;
+
     mutable std::mutex mutex_;
     mutable std::vector<waiter_info> waiters_;
 };
-- 
2.43.0


From 10bd1c4042fa72ac5bdb0a909306b32122b8e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:52 +0000
Subject: [PATCH 22/38] fix: a moved-from thread object must not keep its id

---
 threadpp/thread.cpp | 5 +++++
 threadpp/thread.h   | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 0131cec..86efe73 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -745,6 +745,11 @@ void thread::unregister_ended()
 
 thread::thread() noexcept = default;
 
+thread::thread(thread&& th) noexcept
+{
+    swap(th);
+}
+
 void thread::swap(thread& th) noexcept
 {
     std::swap(static_cast<std::thread&>(*this), static_cast<std::thread&>(th));
diff --git a/threadpp/thread.h b/threadpp/thread.h
index be80198..d547a6c 100644
--- a/threadpp/thread.h
+++ b/threadpp/thread.h
@@ -26,7 +26,7 @@ public:
     void swap(thread& th) noexcept;
 
     thread() noexcept;
-    thread(thread&&) noexcept = default;
+    thread(thread&& th) noexcept;
     auto operator=(thread&& th) noexcept -> thread&;
 
     template<typename F, typename... Args>
-- 
2.43.0


From 80a49e0dfd26934a031c19b45a6e11b1c88383ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:16 +0000
Subject: [PATCH 23/38] fix: running out of memory while copying a task's
 arguments must not terminate

---
 threadpp/detail/utility/capture.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/threadpp/detail/utility/capture.hpp b/threadpp/detail/utility/capture.hpp
index ee4f84d..efb4e06 100644
--- a/threadpp/detail/utility/capture.hpp
+++ b/threadpp/detail/utility/capture.hpp
@@ -31,7 +31,7 @@ public:
     using T = std::tuple<special_decay_t<Args>...>;
 
     template<typename... U, typename = std::enable_if_t<std::is_same<T, std::tuple<special_decay_t<U>...>>::value>>
-    move_on_copy_t(U&&... args) noexcept : value_(std::make_tuple(std::forward<U>(args)...))
+    move_on_copy_t(U&&... args) : value_(std::make_tuple(std::forward<U>(args)...))
     {
     }
 
@@ -53,7 +53,7 @@ private:
 };
 
 template<typename... Args>
-auto capture(Args&&... args) noexcept -> move_on_copy_t<Args...>
+auto capture(Args&&... args) -> move_on_copy_t<Args...>
 {
     return {std::forward<Args>(args)...};
 }
-- 
2.43.0


From 84872e18f46dc0b40498ad991fee988fe7ae0289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:48 +0000
Subject: [PATCH 24/38] fix: async without a thread must not leave one behind
 when it fails

---
 threadpp/future.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 184e41a..69ede5a 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -714,7 +714,16 @@ auto async(std::launch policy, F&& f, Args&&... args) -> future<async_ret_type<F
             this_thread::unregister_this_thread();
         });
     detached_thread.detach();
-    return async(detached_thread.get_id(), policy, std::forward<F>(f), std::forward<Args>(args)...);
+    try
+    {
+        return async(detached_thread.get_id(), policy, std::forward<F>(f), std::forward<Args>(args)...);
+    }
+    catch(...)
+    {
+        // nothing was sent to it so it would wait forever
+        notify_for_exit(detached_thread.get_id());
+        throw;
+    }
 }
 
 template<typename F, typename... Args>
-- 
2.43.0


From e68ea4067f0c4cde2cc5e086a4245edb5caa8db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:32 +0000
Subject: [PATCH 25/38] fix: a promise destroyed while out of memory must not
 terminate

---
 threadpp/future.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 69ede5a..b712b50 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -197,7 +197,14 @@ public:
     {
         if(state_ && !state_->ready())
         {
-            abandon();
+            try
+            {
+                abandon();
+            }
+            catch(const std::bad_alloc&)
+            {
+                set_exception(std::current_exception());
+            }
         }
     }
 
-- 
2.43.0


From 62817dea7a61d48ab0f486ec3f966a5c6c50c1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:09 +0000
Subject: [PATCH 26/38] fix: a thread that cannot be registered must not
 terminate its creator

---
 threadpp/thread.h | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/threadpp/thread.h b/threadpp/thread.h
index d547a6c..04ee763 100644
--- a/threadpp/thread.h
+++ b/threadpp/thread.h
@@ -67,13 +67,22 @@ private:
     template<typename F, typename... Args>
     void start(const std::string& name, F&& f, Args&&... args)
     {
-        auto registering = std::make_shared<std::mutex>();
-        std::lock_guard<std::mutex> lock(*registering);
+        struct registration
+        {
+            std::mutex mutex;
+            bool done{false};
+        };
+        auto registering = std::make_shared<registration>();
+        std::unique_lock<std::mutex> lock(registering->mutex);
         std::thread started(
             [registering](auto&& func, auto&&... params)
             {
                 {
-                    std::lock_guard<std::mutex> registered(*registering);
+                    std::lock_guard<std::mutex> registered(registering->mutex);
+                    if(!registering->done)
+                    {
+                        return;
+                    }
                 }
                 utility::invoke(std::forward<decltype(func)>(func), std::forward<decltype(params)>(params)...);
                 unregister_ended();
@@ -81,7 +90,17 @@ private:
             std::forward<F>(f),
             std::forward<Args>(args)...);
         std::thread::swap(started);
-        register_this(name);
+        try
+        {
+            register_this(name);
+            registering->done = true;
+        }
+        catch(...)
+        {
+            lock.unlock();
+            std::thread::join();
+            throw;
+        }
     }
 
     void register_this(const std::string& name);
-- 
2.43.0


From f52a86defdf578366006fcf2afee702b420ce857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:25 +0000
Subject: [PATCH 27/38] fix: a future stays valid when attaching a continuation
 fails

---
 threadpp/future.hpp | 46 +++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index b712b50..ff22050 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -747,8 +747,7 @@ auto future<T>::then(thread::id id, std::launch policy, F&& f) -> future<then_re
 {
     detail::check_state(this->state_);
 
-    // invalidate the state
-    auto state = std::move(this->state_);
+    auto state = this->state_;
     auto package = detail::package_future_task(
         [f = std::forward<F>(f), state]() mutable
         {
@@ -758,11 +757,21 @@ auto future<T>::then(thread::id id, std::launch policy, F&& f) -> future<then_re
     auto& future = package.callable_future;
     auto& task = package.callable;
 
-    state->set_continuation(
-        [id, policy, task = std::move(task)]() mutable
-        {
-            detail::launch(id, policy, task);
-        });
+    // invalidate the state
+    this->state_.reset();
+    try
+    {
+        state->set_continuation(
+            [id, policy, task = std::move(task)]() mutable
+            {
+                detail::launch(id, policy, task);
+            });
+    }
+    catch(...)
+    {
+        this->state_ = state;
+        throw;
+    }
 
     return std::move(future);
 }
@@ -863,8 +872,7 @@ auto future<void>::then(thread::id id, std::launch policy, F&& f) -> future<then
 {
     detail::check_state(this->state_);
 
-    // invalidate the state
-    auto state = std::move(this->state_);
+    auto state = this->state_;
     auto package = detail::package_future_task(
         [f = std::forward<F>(f), state]() mutable
         {
@@ -874,11 +882,21 @@ auto future<void>::then(thread::id id, std::launch policy, F&& f) -> future<then
     auto& future = package.callable_future;
     auto& task = package.callable;
 
-    state->set_continuation(
-        [id, policy, task = std::move(task)]() mutable
-        {
-            detail::launch(id, policy, task);
-        });
+    // invalidate the state
+    this->state_.reset();
+    try
+    {
+        state->set_continuation(
+            [id, policy, task = std::move(task)]() mutable
+            {
+                detail::launch(id, policy, task);
+            });
+    }
+    catch(...)
+    {
+        this->state_ = state;
+        throw;
+    }
 
     return std::move(future);
 }
-- 
2.43.0


From b23317ccadec259e97c3aa6ec92786337afc9b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:09 +0000
Subject: [PATCH 28/38] fix: a continuation that cannot be attached must not
 leave a thread behind

---
 threadpp/future.hpp | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index ff22050..6b40fa0 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -795,7 +795,16 @@ auto future<T>::then(std::launch policy, F&& f) -> future<then_ret_type<F, futur
             this_thread::unregister_this_thread();
         });
     detached_thread.detach();
-    return then(detached_thread.get_id(), policy, std::forward<F>(f));
+    try
+    {
+        return then(detached_thread.get_id(), policy, std::forward<F>(f));
+    }
+    catch(...)
+    {
+        // nothing will be sent to it so it would wait forever
+        notify_for_exit(detached_thread.get_id());
+        throw;
+    }
 }
 
 template<typename T>
@@ -854,7 +863,16 @@ auto shared_future<T>::then(std::launch policy, F&& f) const -> future<then_ret_
             this_thread::unregister_this_thread();
         });
     detached_thread.detach();
-    return then(detached_thread.get_id(), policy, std::forward<F>(f));
+    try
+    {
+        return then(detached_thread.get_id(), policy, std::forward<F>(f));
+    }
+    catch(...)
+    {
+        // nothing will be sent to it so it would wait forever
+        notify_for_exit(detached_thread.get_id());
+        throw;
+    }
 }
 
 template<typename T>
@@ -918,7 +936,16 @@ auto future<void>::then(std::launch policy, F&& f) -> future<then_ret_type<F, fu
             this_thread::unregister_this_thread();
         });
     detached_thread.detach();
-    return then(detached_thread.get_id(), policy, std::forward<F>(f));
+    try
+    {
+        return then(detached_thread.get_id(), policy, std::forward<F>(f));
+    }
+    catch(...)
+    {
+        // nothing will be sent to it so it would wait forever
+        notify_for_exit(detached_thread.get_id());
+        throw;
+    }
 }
 
 template<typename F>
@@ -973,7 +1000,16 @@ auto shared_future<void>::then(std::launch policy, F&& f) const -> future<then_r
             this_thread::unregister_this_thread();
         });
     detached_thread.detach();
-    return then(detached_thread.get_id(), policy, std::forward<F>(f));
+    try
+    {
+        return then(detached_thread.get_id(), policy, std::forward<F>(f));
+    }
+    catch(...)
+    {
+        // nothing will be sent to it so it would wait forever
+        notify_for_exit(detached_thread.get_id());
+        throw;
+    }
 }
 
 template<typename F>
-- 
2.43.0


From b42bf2096c7e9c4e121a32a06d35672473e74c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:52 +0000
Subject: [PATCH 29/38] fix: configuring an invalid thread must fail instead of
 crash

---
 threadpp/thread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 86efe73..d45cbfa 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -776,6 +776,11 @@ thread::~thread()
 
 auto set_thread_config(thread::id id, tasks_capacity_config config) -> bool
 {
+    if(id == invalid_id())
+    {
+        log_error_func("Configuring an invalid thread.");
+        return false;
+    }
     return tpp::dispatch(id,
                          [config]()
                          {
-- 
2.43.0


From 9af2680028e167c882f2f8761f9662b48fec8193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:09 +0000
Subject: [PATCH 30/38] fix: surplus concurrent shutdowns must not corrupt the
 init count

---
 threadpp/thread.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index d45cbfa..34d38f0 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -205,13 +205,18 @@ void init(const init_data& data)
 auto shutdown(const std::chrono::seconds& timeout) -> int
 {
     auto& global_context = get_global_context();
-    if(global_context.init_count == 0)
+    size_t count = global_context.init_count;
+    do
     {
-        log_error_func("Shutting down when not initted.");
-        return -1;
-    }
+        if(count == 0)
+        {
+            log_error_func("Shutting down when not initted.");
+            return -1;
+        }
+        // another thread may be shutting down as well
+    } while(!global_context.init_count.compare_exchange_weak(count, count - 1));
 
-    if(--global_context.init_count != 0)
+    if(count != 1)
     {
         return -1;
     }
-- 
2.43.0


From b26ecaff7de3be32797ba1f622f1396cccd15287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:09 +0000
Subject: [PATCH 31/38] fix: report init and shutdown, and drop the callbacks,
 without holding a lock

---
 threadpp/thread.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 34d38f0..32e17b8 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -75,11 +75,13 @@ auto get_config_callback(std::function<void(const std::string&)> init_data::*cal
     return global_context.config.*callback;
 }
 
-void set_config(const init_data& data)
+void set_config(init_data data)
 {
     auto& global_context = get_global_context();
-    std::lock_guard<std::mutex> lock(global_context.config_mutex);
-    global_context.config = data;
+    // the replaced callbacks are destroyed after the unlock
+    std::lock_guard<std::mutex> lock(global_context.mutex);
+    std::lock_guard<std::mutex> config_lock(global_context.config_mutex);
+    std::swap(global_context.config, data);
 }
 
 void name_thread(const std::string& name)
@@ -196,7 +198,6 @@ void init(const init_data& data)
     }
 
     this_thread::register_this_thread("Main Thread");
-    std::unique_lock<std::mutex> lock(global_context.mutex);
     global_context.main_thread_id = this_thread::get_id();
     set_config(data);
     log_info_func("Successful.");
@@ -237,6 +238,9 @@ auto shutdown(const std::chrono::seconds& timeout) -> int
     };
 
     auto result = global_context.cleanup_event.wait_for(lock, timeout, predicate);
+    auto left = static_cast<int>(global_context.contexts.size());
+    // the callbacks may call back into the library
+    lock.unlock();
 
     if(result)
     {
@@ -248,7 +252,7 @@ auto shutdown(const std::chrono::seconds& timeout) -> int
     {
         log_info_func("Timed out. Not all registered threads exited.");
         set_config({});
-        return static_cast<int>(global_context.contexts.size());
+        return left;
     }
 }
 
-- 
2.43.0


From b513c23ff58482e134e71580cf98a42dfed17122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:09 +0000
Subject: [PATCH 32/38] fix: the main thread id can be read while init sets it

---
 threadpp/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 32e17b8..653f46b 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -35,7 +35,7 @@ struct program_context
     std::mutex mutex;
     std::unordered_map<std::thread::id, thread::id> id_map;
     std::unordered_map<thread::id, std::shared_ptr<thread_context>> contexts;
-    thread::id main_thread_id{invalid_id()};
+    std::atomic<thread::id> main_thread_id{invalid_id()};
     std::atomic<size_t> init_count{0};
     std::mutex config_mutex;
     init_data config;
-- 
2.43.0


From cc70189f038eb1f363bd5d0f3da8af99caf632c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:54 +0000
Subject: [PATCH 33/38] fix: schedule that runs out of memory leaves no job
 behind

A job whose handle could not be queued stayed in the table of the pool.
It never ran, so wait_all hung and the number of jobs was wrong.
If only the notification of the workers failed, it ran although schedule threw.
---
 threadpp/thread_pool.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index 8112556..cb5d8df 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -81,6 +81,8 @@ public:
     auto add_job(task& user_job, priority::group group) -> job_id
     {
         auto packaged_task = detail::package_future_task(std::move(user_job));
+        // destroyed after the unlock, as that may call back into the pool
+        job_info refused;
         std::lock_guard<std::mutex> lock(guard_);
         auto id = free_id_++;
         auto& job = jobs_[id];
@@ -89,7 +91,17 @@ public:
         job.callable = std::move(packaged_task.callable);
         job.callable_future = packaged_task.callable_future.share();
 
-        add_job_handle(job.handle);
+        try
+        {
+            add_job_handle(job.handle);
+        }
+        catch(...)
+        {
+            // nobody would ever run it
+            refused = std::move(job);
+            jobs_.erase(id);
+            throw;
+        }
         return id;
     }
 
@@ -205,8 +217,10 @@ public:
 private:
     void add_job_handle(job_handle handle)
     {
-        job_priority_queues_[handle.group.level].emplace(handle);
+        // they have to wait for our lock, and if this fails
+        // then there must be no handle without its check
         notify_workers(handle.group.level);
+        job_priority_queues_[handle.group.level].emplace(handle);
     }
 
     void notify_workers(priority::category max_priority)
-- 
2.43.0


From 4c6f05c615b634b6dca597b9a5031b27f3126f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:06 +0000
Subject: [PATCH 34/38] fix: change_priority that runs out of memory keeps the
 job's place

The new priority was recorded before its handle was queued.
If that failed then the old handle did not count any more and the job never ran.
---
 threadpp/thread_pool.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index cb5d8df..35ccd28 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -122,9 +122,10 @@ public:
             return;
         }
 
-        job.handle.group = group;
+        // the job keeps its place if this fails
+        add_job_handle({job.handle.id, group});
 
-        add_job_handle(job.handle);
+        job.handle.group = group;
     }
 
     void clear(job_id id, bool check_callable)
-- 
2.43.0


From 04ba9ba0fbbfc914ddbd0cd6f5db23d08323cc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:24:00 +0000
Subject: [PATCH 35/38] fix: a thread notified for exit sleeps while it waits
 for a mutex

Such a thread is not put to sleep by the usual wait. Locking a mutex that
another thread held kept it asking for the mutex over and over, at full
speed, for as long as the other thread held it.
---
 threadpp/mutex.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/threadpp/mutex.hpp b/threadpp/mutex.hpp
index 37d2cb0..9b26f63 100644
--- a/threadpp/mutex.hpp
+++ b/threadpp/mutex.hpp
@@ -36,12 +36,10 @@ public:
                 throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur));
             }
 
-            // waiting returns immediately in this case
+            // waiting there would return immediately in this case
             if(this_thread::notified_for_exit())
             {
-                guard.unlock();
-                std::this_thread::yield();
-                guard.lock();
+                unlocked_.wait(guard);
                 continue;
             }
 
@@ -92,6 +90,7 @@ public:
         std::lock_guard<std::mutex> guard(guard_);
         owner_ = invalid_id();
         flag_.clear();
+        unlocked_.notify_all();
         sync_.notify_all();
     }
 
@@ -99,6 +98,9 @@ private:
     /// Protects the transition from checking to waiting.
     std::mutex guard_;
 
+    /// Wakes those notified for exit.
+    std::condition_variable unlocked_;
+
     /// Underlying semaphore that handles notifying.
     detail::semaphore sync_;
 
-- 
2.43.0


From 6fe88fc793d72c5f14d39a3e6ffd11b1277f687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:01:43 +0000
Subject: [PATCH 36/38] fix: captured callables and arguments may throw when
 they are moved

---
 threadpp/detail/utility/capture.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/threadpp/detail/utility/capture.hpp b/threadpp/detail/utility/capture.hpp
index efb4e06..1c8fa05 100644
--- a/threadpp/detail/utility/capture.hpp
+++ b/threadpp/detail/utility/capture.hpp
@@ -35,7 +35,8 @@ public:
     {
     }
 
-    move_on_copy_t(const move_on_copy_t& other) noexcept : value_(std::move(other.value_))
+    move_on_copy_t(const move_on_copy_t& other) noexcept(std::is_nothrow_move_constructible<T>::value)
+        : value_(std::move(other.value_))
     {
     }
 
-- 
2.43.0


From e1e2c2e7b5b1495dd048bf0a01d6609e6f3eb172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:01:56 +0000
Subject: [PATCH 37/38] fix: copy the value of a promise outside of the lock of
 its state

---
 threadpp/detail/future_state.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/threadpp/detail/future_state.hpp b/threadpp/detail/future_state.hpp
index 3280938..362bd98 100644
--- a/threadpp/detail/future_state.hpp
+++ b/threadpp/detail/future_state.hpp
@@ -139,6 +139,14 @@ struct future_state : public basic_state<T>
     template<typename V>
     void set_value(V&& val)
     {
+        if(this->ready())
+        {
+            throw std::future_error(std::future_errc::promise_already_satisfied);
+        }
+
+        // not under the lock, as the constructor may take its time
+        auto new_value = std::make_shared<std::decay_t<V>>(std::forward<V>(val));
+
         std::unique_lock<std::mutex> lock(this->guard);
 
         if(this->ready())
@@ -146,7 +154,7 @@ struct future_state : public basic_state<T>
             throw std::future_error(std::future_errc::promise_already_satisfied);
         }
 
-        this->value = std::make_shared<std::decay_t<V>>(std::forward<V>(val));
+        this->value = std::move(new_value);
         this->set_ready(lock, value_status::ready);
     }
 
-- 
2.43.0


From b2d2662dfe0f4d76bde4a628573a558e5d5f72a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:48:38 +0000
Subject: [PATCH 38/38] fix: a detached thread waits for its function, whatever
 else is sent to it

---
 threadpp/future.hpp | 77 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 67 insertions(+), 10 deletions(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 6b40fa0..9ea69ec 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -662,6 +662,22 @@ auto package_future_task(F&& f, Args&&... args) -> packaged_task<async_ret_type<
     // clang-format on
 }
 
+/// The function a detached thread was started for. The thread
+/// lives until it is called, whatever else is sent to it before.
+template<typename F>
+struct detached_function
+{
+    std::shared_ptr<bool> called;
+    std::decay_t<F> func;
+
+    template<typename... Args>
+    auto operator()(Args&&... args) -> decltype(auto)
+    {
+        *called = true;
+        return utility::invoke(static_cast<F&&>(func), std::forward<Args>(args)...);
+    }
+};
+
 inline void launch(thread::id id, std::launch policy, task& func)
 {
     if(id == caller_id())
@@ -713,17 +729,26 @@ auto async(thread::id id, F&& f, Args&&... args) -> future<async_ret_type<F, Arg
 template<typename F, typename... Args>
 auto async(std::launch policy, F&& f, Args&&... args) -> future<async_ret_type<F, Args...>>
 {
+    auto called = std::make_shared<bool>(false);
     thread detached_thread(
-        []()
+        [called]()
         {
             this_thread::register_this_thread();
             this_thread::wait();
+            // others may have sent something before
+            while(!*called && !this_thread::notified_for_exit())
+            {
+                this_thread::wait();
+            }
             this_thread::unregister_this_thread();
         });
     detached_thread.detach();
     try
     {
-        return async(detached_thread.get_id(), policy, std::forward<F>(f), std::forward<Args>(args)...);
+        return async(detached_thread.get_id(),
+                     policy,
+                     detail::detached_function<F>{called, std::forward<F>(f)},
+                     std::forward<Args>(args)...);
     }
     catch(...)
     {
@@ -787,17 +812,25 @@ template<typename T>
 template<typename F>
 auto future<T>::then(std::launch policy, F&& f) -> future<then_ret_type<F, future<T>>>
 {
+    auto called = std::make_shared<bool>(false);
     thread detached_thread(
-        []()
+        [called]()
         {
             this_thread::register_this_thread();
             this_thread::wait();
+            // others may have sent something before
+            while(!*called && !this_thread::notified_for_exit())
+            {
+                this_thread::wait();
+            }
             this_thread::unregister_this_thread();
         });
     detached_thread.detach();
     try
     {
-        return then(detached_thread.get_id(), policy, std::forward<F>(f));
+        return then(detached_thread.get_id(),
+                    policy,
+                    detail::detached_function<std::decay_t<F>&>{called, std::forward<F>(f)});
     }
     catch(...)
     {
@@ -855,17 +888,25 @@ template<typename T>
 template<typename F>
 auto shared_future<T>::then(std::launch policy, F&& f) const -> future<then_ret_type<F, shared_future<T>>>
 {
+    auto called = std::make_shared<bool>(false);
     thread detached_thread(
-        []()
+        [called]()
         {
             this_thread::register_this_thread();
             this_thread::wait();
+            // others may have sent something before
+            while(!*called && !this_thread::notified_for_exit())
+            {
+                this_thread::wait();
+            }
             this_thread::unregister_this_thread();
         });
     detached_thread.detach();
     try
     {
-        return then(detached_thread.get_id(), policy, std::forward<F>(f));
+        return then(detached_thread.get_id(),
+                    policy,
+                    detail::detached_function<std::decay_t<F>&>{called, std::forward<F>(f)});
     }
     catch(...)
     {
@@ -928,17 +969,25 @@ auto future<void>::then(thread::id id, F&& f) -> future<then_ret_type<F, future<
 template<typename F>
 auto future<void>::then(std::launch policy, F&& f) -> future<then_ret_type<F, future<void>>>
 {
+    auto called = std::make_shared<bool>(false);
     thread detached_thread(
-        []()
+        [called]()
         {
             this_thread::register_this_thread();
             this_thread::wait();
+            // others may have sent something before
+            while(!*called && !this_thread::notified_for_exit())
+            {
+                this_thread::wait();
+            }
             this_thread::unregister_this_thread();
         });
     detached_thread.detach();
     try
     {
-        return then(detached_thread.get_id(), policy, std::forward<F>(f));
+        return then(detached_thread.get_id(),
+                    policy,
+                    detail::detached_function<std::decay_t<F>&>{called, std::forward<F>(f)});
     }
     catch(...)
     {
@@ -992,17 +1041,25 @@ auto shared_future<void>::then(thread::id id, F&& f) const -> future<then_ret_ty
 template<typename F>
 auto shared_future<void>::then(std::launch policy, F&& f) const -> future<then_ret_type<F, shared_future<void>>>
 {
+    auto called = std::make_shared<bool>(false);
     thread detached_thread(
-        []()
+        [called]()
         {
             this_thread::register_this_thread();
             this_thread::wait();
+            // others may have sent something before
+            while(!*called && !this_thread::notified_for_exit())
+            {
+                this_thread::wait();
+            }
             this_thread::unregister_this_thread();
         });
     detached_thread.detach();
     try
     {
-        return then(detached_thread.get_id(), policy, std::forward<F>(f));
+        return then(detached_thread.get_id(),
+                    policy,
+                    detail::detached_function<std::decay_t<F>&>{called, std::forward<F>(f)});
     }
     catch(...)
     {
-- 
2.43.0

