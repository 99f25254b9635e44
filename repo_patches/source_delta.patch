From 1fba1fd26fac621fb1112e46fb5a4212505a520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 01/57] fix: give random_access_device.hpp its own include
 guard

It shared stream.hpp's guard, so <boost/cobalt/io.hpp> (and any program
including a stream header before random_access_file.hpp) failed to compile.
Also make noop.hpp include <coroutine>, which it uses.
---
 include/boost/cobalt/io/random_access_device.hpp | 6 +++---
 include/boost/cobalt/noop.hpp                    | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/io/random_access_device.hpp b/include/boost/cobalt/io/random_access_device.hpp
index ec605b5..46fbf62 100644
--- a/include/boost/cobalt/io/random_access_device.hpp
+++ b/include/boost/cobalt/io/random_access_device.hpp
@@ -5,8 +5,8 @@
 // file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 //
 
-#ifndef BOOST_COBALT_IO_STREAM_HPP
-#define BOOST_COBALT_IO_STREAM_HPP
+#ifndef BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
+#define BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
 
 #include <boost/cobalt/io/buffer.hpp>
 #include <boost/cobalt/io/ops.hpp>
@@ -34,4 +34,4 @@ struct random_access_device : random_access_read_device, random_access_write_dev
 
 }
 
-#endif //BOOST_COBALT_IO_STREAM_HPP
+#endif //BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
diff --git a/include/boost/cobalt/noop.hpp b/include/boost/cobalt/noop.hpp
index 9c18e7d..5041dce 100644
--- a/include/boost/cobalt/noop.hpp
+++ b/include/boost/cobalt/noop.hpp
@@ -8,6 +8,7 @@
 #ifndef BOOST_COBALT_NOOP_HPP
 #define BOOST_COBALT_NOOP_HPP
 
+#include <coroutine>
 #include <type_traits>
 #include <utility>
 
-- 
2.43.0


From 1efddbc20dba3afa37049d02bda6206caa6834a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 02/57] fix: keep promise move assignment off a destroyed
 coroutine frame

Assigning over a finished promise read through the pointer into the frame
that had been destroyed when the coroutine finished. The moved-from promise
was also not marked as done, so awaiting it waited forever instead of
reporting moved_from like the move constructor does.
---
 include/boost/cobalt/detail/promise.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/promise.hpp b/include/boost/cobalt/detail/promise.hpp
index b8655a8..2c8babb 100644
--- a/include/boost/cobalt/detail/promise.hpp
+++ b/include/boost/cobalt/detail/promise.hpp
@@ -133,7 +133,7 @@ struct promise_receiver : promise_value_holder<T>
 
   promise_receiver& operator=(promise_receiver && lhs) noexcept
   {
-    if (reference && *reference == this)
+    if (!done && reference && *reference == this)
     {
       *reference = nullptr;
     }
@@ -151,6 +151,8 @@ struct promise_receiver : promise_value_holder<T>
       lhs.exception = moved_from_exception();
     }
 
+    lhs.done = true;
+
     return *this;
   }
 
-- 
2.43.0


From e7d8a70002bdc425f334f88ec7233ff3bd21c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 03/57] fix: keep generator move assignment off a destroyed
 coroutine frame

Assigning over a finished generator read through the pointer into the frame
that had been destroyed when the coroutine finished.
---
 include/boost/cobalt/detail/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index 7f3368e..4f8dc99 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -129,7 +129,7 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
 
   generator_receiver& operator=(generator_receiver && lhs) noexcept
   {
-    if (reference && *reference == this)
+    if (!done && reference && *reference == this)
     {
       *reference = nullptr;
     }
-- 
2.43.0


From 6ade3c972d7f65c80a7cdcd1c983f4013a6eda9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 04/57] fix: clear the cancellation handler of gather, join and
 race when they complete

---
 include/boost/cobalt/detail/fork.hpp    |  6 ++++++
 include/boost/cobalt/detail/gather.hpp  |  4 ++--
 include/boost/cobalt/detail/handler.hpp | 11 +++++++----
 include/boost/cobalt/detail/join.hpp    |  4 ++--
 include/boost/cobalt/detail/race.hpp    |  4 ++--
 5 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index 58fef62..0f25c84 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -46,6 +46,8 @@ struct fork
 #endif
     // the coro awaiting the fork statement, e.g. awaiting race
     unique_handle<void> coro{};
+    // the slot of `coro` the cancellation handler is installed in, cleared before it gets resumed
+    asio::cancellation_slot coro_slot{};
     std::size_t use_count = 0u;
 
     friend void intrusive_ptr_add_ref(shared_state * st) {st->use_count++;}
@@ -157,7 +159,11 @@ struct fork
         pp->use_count--;
         BOOST_ASSERT(pp->use_count == 0u);
         if (pp->coro)
+        {
+          if (pp->coro_slot.is_connected())
+            pp->coro_slot.clear();
           return pp->coro.release();
+        }
         else
           return std::noop_coroutine();
       }
diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index 92f665f..c2c8bcf 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -173,7 +173,7 @@ struct gather_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->coro_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -372,7 +372,7 @@ struct gather_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->coro_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index 8376c6b..1e08a06 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -172,15 +172,18 @@ struct completion_handler_base
 };
 
 
+// returns the slot the handler got assigned to, so it can be cleared once the operation is complete.
 template<typename Handler>
-void assign_cancellation(std::coroutine_handle<void>, Handler &&) {}
+asio::cancellation_slot assign_cancellation(std::coroutine_handle<void>, Handler &&) {return {};}
 
 template<typename Promise, typename Handler>
-void assign_cancellation(std::coroutine_handle<Promise> h, Handler && func)
+asio::cancellation_slot assign_cancellation(std::coroutine_handle<Promise> h, Handler && func)
 {
+  asio::cancellation_slot slot;
   if constexpr (requires {h.promise().get_cancellation_slot();})
-    if (h.promise().get_cancellation_slot().is_connected())
-      h.promise().get_cancellation_slot().assign(std::forward<Handler>(func));
+    if ((slot = h.promise().get_cancellation_slot()).is_connected())
+      slot.assign(std::forward<Handler>(func));
+  return slot;
 }
 
 }
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index f412551..ff26eba 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -205,7 +205,7 @@ struct join_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->coro_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -464,7 +464,7 @@ struct join_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->coro_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 006608f..26baa64 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -326,7 +326,7 @@ struct race_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->coro_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -637,7 +637,7 @@ struct race_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->coro_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
-- 
2.43.0


From c178187afbfc3a11be3170f276c5be610d67b4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 05/57] fix: make as_result and as_tuple of join work for every
 member type

---
 include/boost/cobalt/detail/join.hpp | 41 +++++++++++++++++-----------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index ff26eba..70c5a05 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -241,7 +241,7 @@ struct join_variadic_impl
         if (error)
           return std::make_tuple(error, t{});
         else
-          return std::make_tuple(std::current_exception(),
+          return std::make_tuple(std::exception_ptr(),
                                  mp11::tuple_transform(
               []<typename T>(std::optional<T> & var)
                   -> T
@@ -262,13 +262,13 @@ struct join_variadic_impl
         return rt(system::in_place_error, error);
 
       if constexpr(!all_void)
-        return mp11::tuple_transform(
+        return rt(system::in_place_value, mp11::tuple_transform(
             []<typename T>(std::optional<T> & var)
-                -> rt
+                -> T
             {
               BOOST_ASSERT(var.has_value());
               return std::move(*var);
-            }, result);
+            }, result));
       else
         return rt{system::in_place_value};
     }
@@ -480,40 +480,49 @@ struct join_ranged_impl
 
     auto await_resume(const as_tuple_tag & )
     {
+      if constexpr (!std::is_void_v<result_type>)
+      {
 #if defined(BOOST_COBALT_NO_PMR)
-      std::vector<result_type> rr;
+        std::vector<result_type> rr;
 #else
-      pmr::vector<result_type> rr{this_thread::get_allocator()};
+        pmr::vector<result_type> rr{this_thread::get_allocator()};
 #endif
 
-      if (error)
-        return std::make_tuple(error, rr);
-      if constexpr (!std::is_void_v<result_type>)
-      {
+        if (error)
+          return std::make_tuple(error, rr);
         rr.reserve(result.size());
         for (auto & t : result)
           rr.push_back(*std::move(t));
         return std::make_tuple(std::exception_ptr(), std::move(rr));
       }
+      else
+        return std::make_tuple(error);
     }
 
     auto await_resume(const as_result_tag & )
     {
+      if constexpr (!std::is_void_v<result_type>)
+      {
 #if defined(BOOST_COBALT_NO_PMR)
-      std::vector<result_type> rr;
+        std::vector<result_type> rr;
 #else
-      pmr::vector<result_type> rr{this_thread::get_allocator()};
+        pmr::vector<result_type> rr{this_thread::get_allocator()};
 #endif
 
-      if (error)
-        return system::result<decltype(rr), std::exception_ptr>(error);
-      if constexpr (!std::is_void_v<result_type>)
-      {
+        if (error)
+          return system::result<decltype(rr), std::exception_ptr>(error);
         rr.reserve(result.size());
         for (auto & t : result)
           rr.push_back(*std::move(t));
         return system::result<decltype(rr), std::exception_ptr>(std::move(rr));
       }
+      else
+      {
+        using rt = system::result<void, std::exception_ptr>;
+        if (error)
+          return rt(system::in_place_error, error);
+        return rt{system::in_place_value};
+      }
     }
 
     BOOST_COBALT_MSVC_NOINLINE
-- 
2.43.0


From f4764c80116665770a5b5cb728be3c82b4ea3e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 06/57] fix: look at each member's own signal when interrupting
 a ranged join

---
 include/boost/cobalt/detail/join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 70c5a05..9a4879f 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -387,7 +387,7 @@ struct join_ranged_impl
       {
         std::size_t idx = 0u;
         for (auto & aw : aws)
-          if (cancel[idx])
+          if (cancel[idx++])
             static_cast<t>(aw).interrupt_await();
       }
     }
-- 
2.43.0


From 91bb948f24e18d344009e5894dfc24b00d03e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 07/57] fix: make allocation_failed() hold the
 allocation_failed error

---
 src/detail/exception.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detail/exception.cpp b/src/detail/exception.cpp
index f51a9c0..bc0a3e6 100644
--- a/src/detail/exception.cpp
+++ b/src/detail/exception.cpp
@@ -59,7 +59,7 @@ std::exception_ptr already_awaited()
 std::exception_ptr allocation_failed()
 {
   static auto ep = std::make_exception_ptr(system::system_error(
-      error::already_awaited
+      error::allocation_failed
   ));
   return ep;
 }
-- 
2.43.0


From 7992dd27da5385c0fe3073491f2319f1ac546efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 08/57] fix: do not read the missing result of a failed race in
 its as_tuple form

---
 include/boost/cobalt/detail/race.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 26baa64..3387ec0 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -355,7 +355,13 @@ struct race_variadic_impl
       if constexpr (all_void)
         return std::make_tuple(error, index);
       else
-        return std::make_tuple(error, std::move(*result));
+      {
+        using t = typename decltype(result)::value_type;
+        if (error)
+          return std::make_tuple(error, t{});
+        else
+          return std::make_tuple(std::exception_ptr(), std::move(*result));
+      }
     }
 
     auto await_resume(const as_result_tag & )
@@ -665,8 +671,10 @@ struct race_ranged_impl
     {
       if constexpr (std::is_void_v<result_type>)
         return std::make_tuple(error, index);
+      else if (error)
+        return std::make_tuple(error, std::make_pair(index, result_type{}));
       else
-        return std::make_tuple(error, std::make_pair(index, std::move(*result)));
+        return std::make_tuple(std::exception_ptr(), std::make_pair(index, std::move(*result)));
     }
 
     auto await_resume(const as_result_tag & )
-- 
2.43.0


From d13d41738cb5f98f4f3553e15e942e72396133c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 09/57] fix: record the outcome of exactly the winning member
 of a race

---
 include/boost/cobalt/detail/race.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 3387ec0..7ca4ee3 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -217,14 +217,14 @@ struct race_variadic_impl
         {
           auto res = co_await aw;
           if (!this_.has_result())
-          {
             this_.index = Idx;
+          if (this_.index == Idx)
+          {
             if (res.has_error())
               this_.assign_error(res);
-          }
-          if constexpr(!all_void)
-            if (this_.index == Idx && !res.has_error())
+            else if constexpr(!all_void)
               this_.result.emplace(variant2::in_place_index<Idx>);
+          }
         }
         else
         {
@@ -547,11 +547,9 @@ struct race_ranged_impl
         {
           auto res = co_await aw;
           if (!this_.has_result())
-          {
-            if (res.has_error())
-              this_.assign_error(res);
             this_.index = idx;
-          }
+          if (this_.index == idx && res.has_error())
+            this_.assign_error(res);
         }
         else
         {
@@ -576,7 +574,7 @@ struct race_ranged_impl
         if constexpr (std::is_void_v<decltype(aw_.await_resume())>)
         {
           auto val = aw.await_resume();
-          if (val.has_error())
+          if (this_.index == idx && val.has_error())
             this_.assign_error(val);
         }
         else
-- 
2.43.0


From 129fe1bce9d6874d29d738495ebd77585ac7a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 10/57] fix: hand the value or free slot of a channel to the
 waiting operation that gets woken

---
 include/boost/cobalt/channel.hpp      |  1 +
 include/boost/cobalt/impl/channel.hpp | 45 ++++++++++++++++-----------
 src/channel.cpp                       | 12 +++++--
 3 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/include/boost/cobalt/channel.hpp b/include/boost/cobalt/channel.hpp
index 26c7f2c..c32690c 100644
--- a/include/boost/cobalt/channel.hpp
+++ b/include/boost/cobalt/channel.hpp
@@ -139,6 +139,7 @@ struct channel
     }
 
     struct cancel_impl;
+    void push_value();
 
     bool await_ready() { return !chn->buffer_.full() || chn->is_closed_; }
     template<typename Promise>
diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index dead930..3f05120 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -178,13 +178,9 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
 
-  T value = chn->buffer_.empty() ? std::move(*direct) : std::move(chn->buffer_.front());
-  if (!chn->buffer_.empty())
-  {
+  T value = direct ? std::move(*direct) : std::move(chn->buffer_.front());
+  if (!direct)
     chn->buffer_.pop_front();
-    if (direct)
-      chn->buffer_.push_back(std::move(*direct));
-  }
 
   if (!chn->write_queue_.empty())
   {
@@ -192,7 +188,11 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
     BOOST_ASSERT(chn->read_queue_.empty());
     if (op.await_ready())
     {
-      op.unlink();
+      // move the value into the buffer right away, so the free slot can't be taken before `op` gets resumed.
+      op.push_value();
+      op.direct = true;
+      op.cancel_slot.clear();
+      op.transactional_unlink();
       BOOST_ASSERT(op.awaited_from);
       asio::post(chn->executor_, std::move(op.awaited_from));
     }
@@ -263,6 +263,20 @@ std::coroutine_handle<void> channel<T>::write_op::await_suspend(std::coroutine_h
   }
 }
 
+template<typename T>
+void channel<T>::write_op::push_value()
+{
+  if constexpr (std::is_copy_constructible_v<T>)
+  {
+    if (ref.index() == 0)
+      chn->buffer_.push_back(std::move(*variant2::get<0>(ref)));
+    else
+      chn->buffer_.push_back(*variant2::get<1>(ref));
+  }
+  else
+    chn->buffer_.push_back(std::move(*ref));
+}
+
 template<typename T>
 std::tuple<system::error_code> channel<T>::write_op::await_resume(const struct as_tuple_tag &)
 {
@@ -296,15 +310,7 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
   if (!direct)
   {
     BOOST_ASSERT(!chn->buffer_.full());
-    if constexpr (std::is_copy_constructible_v<T>)
-    {
-      if (ref.index() == 0)
-        chn->buffer_.push_back(std::move(*variant2::get<0>(ref)));
-      else
-        chn->buffer_.push_back(*variant2::get<1>(ref));
-    }
-    else
-      chn->buffer_.push_back(std::move(*ref));
+    push_value();
   }
 
   if (!chn->read_queue_.empty())
@@ -313,8 +319,11 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
     BOOST_ASSERT(chn->write_queue_.empty());
     if (op.await_ready())
     {
-      // unlink?
-      op.unlink();
+      // hand the value over right away, so it can't be read by someone else before `op` gets resumed.
+      op.direct.emplace(std::move(chn->buffer_.front()));
+      chn->buffer_.pop_front();
+      op.cancel_slot.clear();
+      op.transactional_unlink();
       BOOST_ASSERT(op.awaited_from);
       asio::post(chn->executor_, std::move(op.awaited_from));
     }
diff --git a/src/channel.cpp b/src/channel.cpp
index eb7333d..4fad4e0 100644
--- a/src/channel.cpp
+++ b/src/channel.cpp
@@ -70,7 +70,11 @@ system::result<void>  channel<void>::read_op::await_resume(const struct as_resul
     BOOST_ASSERT(chn->read_queue_.empty());
     if (op.await_ready())
     {
-      op.unlink();
+      // take the free slot right away, so no one else can before `op` gets resumed.
+      chn->n_++;
+      op.direct = true;
+      op.cancel_slot.clear();
+      op.transactional_unlink();
       BOOST_ASSERT(op.awaited_from);
       asio::post(chn->executor_, std::move(op.awaited_from));
     }
@@ -114,7 +118,11 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
     BOOST_ASSERT(chn->write_queue_.empty());
     if (op.await_ready())
     {
-      op.unlink();
+      // hand the item over right away, so it can't be read by someone else before `op` gets resumed.
+      chn->n_--;
+      op.direct = true;
+      op.cancel_slot.clear();
+      op.transactional_unlink();
       BOOST_ASSERT(op.awaited_from);
       asio::post(chn->executor_, std::move(op.awaited_from));
     }
-- 
2.43.0


From c4b5e67dee60fd94a7f80dfbde88fd02a9b28c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:34 +0000
Subject: [PATCH 11/57] fix: remove an interrupted channel operation from the
 queue of the channel

---
 include/boost/cobalt/channel.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/cobalt/channel.hpp b/include/boost/cobalt/channel.hpp
index c32690c..f852543 100644
--- a/include/boost/cobalt/channel.hpp
+++ b/include/boost/cobalt/channel.hpp
@@ -90,6 +90,7 @@ struct channel
       if (!direct)
       {
         this->cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -133,6 +134,7 @@ struct channel
       if (!direct)
       {
         this->cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -252,6 +254,7 @@ struct channel<void>
       if (!direct)
       {
         this->cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -293,6 +296,7 @@ struct channel<void>
       if (!direct)
       {
         cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
-- 
2.43.0


From e6138799320ce36246a1cd5c5090f81c55d0b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 12/57] fix: begin the transaction of a race before a channel
 operation takes or passes on a value

---
 include/boost/cobalt/detail/race.hpp  |  4 +--
 include/boost/cobalt/impl/channel.hpp | 40 +++++++++++++++++++++++----
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 7ca4ee3..a4962c8 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -313,7 +313,7 @@ struct race_variadic_impl
         return false;
 
       for (std::size_t idx = 1u;
-           idx < tuple_size; idx++) // we'
+           idx < tuple_size && !has_result(); idx++) // we'
       {
         auto l = impls[idx](*this);
         const auto d = l.done();
@@ -628,7 +628,7 @@ struct race_ranged_impl
         return false;
 
       for (auto itr = std::next(reorder.begin());
-           itr < reorder.end(); std::advance(itr, 1)) // we'
+           itr < reorder.end() && !has_result(); std::advance(itr, 1)) // we'
       {
         auto l = await_impl(*this, *itr);
         auto d = l.done();
diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index 3f05120..816ee34 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -13,6 +13,8 @@
 
 #include <boost/asio/post.hpp>
 
+#include <utility>
+
 namespace boost::cobalt
 {
 
@@ -106,11 +108,17 @@ std::coroutine_handle<void> channel<T>::read_op::await_suspend(std::coroutine_ha
 
   if (awaited_from)
     boost::throw_exception(std::runtime_error("already-awaited"), loc);
-  awaited_from.reset(h.address());
-  // currently nothing to read
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
+  // we'll complete right away, so interrupt the other members of a race before taking anything from the channel.
+  if (!chn->write_queue_.empty() && begin_transaction)
+  {
+    std::exchange(begin_transaction, nullptr)(h.address());
+    cancelled = false; // the transaction interrupts this op, too
+  }
+  awaited_from.reset(h.address());
+
   if (chn->write_queue_.empty())
   {
     chn->read_queue_.push_back(*this);
@@ -228,10 +236,17 @@ std::coroutine_handle<void> channel<T>::write_op::await_suspend(std::coroutine_h
     if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
       cancel_slot.emplace<cancel_impl>(this);
 
-  awaited_from.reset(h.address());
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
+  // we'll complete right away, so interrupt the other members of a race before taking anything from the channel.
+  if (!chn->read_queue_.empty() && begin_transaction)
+  {
+    std::exchange(begin_transaction, nullptr)(h.address());
+    cancelled = false; // the transaction interrupts this op, too
+  }
+  awaited_from.reset(h.address());
+
   BOOST_ASSERT(this->chn->buffer_.full());
   if (chn->read_queue_.empty())
   {
@@ -371,11 +386,18 @@ std::coroutine_handle<void> channel<void>::read_op::await_suspend(std::coroutine
 
   if (awaited_from)
     boost::throw_exception(std::runtime_error("already-awaited"), loc);
-  awaited_from.reset(h.address());
 
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
+  // we'll complete right away, so interrupt the other members of a race before taking anything from the channel.
+  if (!chn->write_queue_.empty() && begin_transaction)
+  {
+    std::exchange(begin_transaction, nullptr)(h.address());
+    cancelled = false; // the transaction interrupts this op, too
+  }
+  awaited_from.reset(h.address());
+
   // nothing to read currently, enqueue
   if (chn->write_queue_.empty())
   {
@@ -408,11 +430,17 @@ std::coroutine_handle<void> channel<void>::write_op::await_suspend(std::coroutin
     if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
       cancel_slot.emplace<cancel_impl>(this);
 
-  awaited_from.reset(h.address());
-  // currently nothing to read
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
+  // we'll complete right away, so interrupt the other members of a race before taking anything from the channel.
+  if (!chn->read_queue_.empty() && begin_transaction)
+  {
+    std::exchange(begin_transaction, nullptr)(h.address());
+    cancelled = false; // the transaction interrupts this op, too
+  }
+  awaited_from.reset(h.address());
+
   if (chn->read_queue_.empty())
   {
     chn->write_queue_.push_back(*this);
-- 
2.43.0


From ccd455c75fb8edc39e064ff0ff886fc9f0e1ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 13/57] fix: report broken_pipe for exactly the channel
 operations that can't complete after close

---
 include/boost/cobalt/impl/channel.hpp | 2 +-
 src/channel.cpp                       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index 816ee34..8bd14b0 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -310,7 +310,7 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (closed)
+  if (closed || (chn->is_closed_ && !direct))
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
diff --git a/src/channel.cpp b/src/channel.cpp
index 4fad4e0..4faa6e1 100644
--- a/src/channel.cpp
+++ b/src/channel.cpp
@@ -50,7 +50,7 @@ system::result<void>  channel<void>::read_op::await_resume(const struct as_resul
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (chn->is_closed_)
+  if (chn->is_closed_ && chn->n_ == 0u && !direct)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
@@ -98,7 +98,7 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (closed)
+  if (closed || (chn->is_closed_ && !direct))
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
-- 
2.43.0


From 9db4b9e8afe2b156c766864be4b946d583874081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 14/57] fix: cancel the other members of a race when one of
 them throws

---
 include/boost/cobalt/detail/race.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index a4962c8..c29a36c 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -278,9 +278,13 @@ struct race_variadic_impl
     {
       if (!this_.has_result())
         this_.index = Idx;
+      this_.cancel[Idx] = nullptr;
+      this_.working[Idx] = nullptr;
       if (this_.index == Idx)
+      {
         this_.error = std::current_exception();
-      this_.working[Idx] = nullptr;
+        this_.cancel_all();
+      }
     }
     BOOST_CATCH_END
 
@@ -600,10 +604,14 @@ struct race_ranged_impl
     {
       if (!this_.has_result())
         this_.index = idx;
-      if (this_.index == idx)
-        this_.error = std::current_exception();
+      this_.cancel[idx] = nullptr;
       if constexpr (traits::interruptible)
         this_.working[idx] = nullptr;
+      if (this_.index == idx)
+      {
+        this_.error = std::current_exception();
+        this_.cancel_all();
+      }
     }
     BOOST_CATCH_END
 
-- 
2.43.0


From 47ec80be6a48f4f9cb83afdae6ae9123091188e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 15/57] fix: cancel the other members of a race before a ready
 member completes

---
 include/boost/cobalt/detail/race.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index c29a36c..50dfd06 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -245,6 +245,9 @@ struct race_variadic_impl
       {
         if (!this_.has_result())
           this_.index = Idx;
+        // the others must not pick up what `await_resume` makes available
+        this_.working[Idx] = nullptr;
+        this_.cancel_all();
         if constexpr (std::is_void_v<decltype(aw_.await_resume())>)
         {
           auto res = aw.await_resume();
@@ -575,6 +578,10 @@ struct race_ranged_impl
 
         if (!this_.has_result())
           this_.index = idx;
+        // the others must not pick up what `await_resume` makes available
+        if constexpr (traits::interruptible)
+          this_.working[idx] = nullptr;
+        this_.cancel_all();
         if constexpr (std::is_void_v<decltype(aw_.await_resume())>)
         {
           auto val = aw.await_resume();
-- 
2.43.0


From 265e79fc6b31a4a93ab2ab58b6519ad713fceaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 16/57] fix: keep the value or slot of a woken channel
 operation reserved until it is resumed

---
 include/boost/cobalt/channel.hpp      |  53 ++++++---
 include/boost/cobalt/impl/channel.hpp | 162 ++++++++++++--------------
 src/channel.cpp                       |  48 ++++----
 3 files changed, 140 insertions(+), 123 deletions(-)

diff --git a/include/boost/cobalt/channel.hpp b/include/boost/cobalt/channel.hpp
index f852543..8e79a68 100644
--- a/include/boost/cobalt/channel.hpp
+++ b/include/boost/cobalt/channel.hpp
@@ -72,7 +72,7 @@ struct channel
   {
     channel * chn;
     boost::source_location loc;
-    bool cancelled = false;
+    bool cancelled = false, woken = false;
     std::optional<T> direct{};
     asio::cancellation_slot cancel_slot{};
     unique_handle<void> awaited_from{nullptr};
@@ -87,7 +87,7 @@ struct channel
 
     void interrupt_await()
     {
-      if (!direct)
+      if (!direct && !woken)
       {
         this->cancelled = true;
         this->unlink();
@@ -96,8 +96,10 @@ struct channel
       }
     }
 
+    void wake();
+
     struct cancel_impl;
-    bool await_ready() { return !chn->buffer_.empty() || chn->is_closed_; }
+    bool await_ready() { return chn->can_read() || chn->is_closed_; }
     template<typename Promise>
     BOOST_COBALT_MSVC_NOINLINE
     std::coroutine_handle<void> await_suspend(std::coroutine_handle<Promise> h);
@@ -116,7 +118,7 @@ struct channel
         T*>;
     ref_t ref;
     boost::source_location loc;
-    bool cancelled = false, direct = false, closed = !chn->is_open();
+    bool cancelled = false, woken = false, direct = false, closed = !chn->is_open();
     asio::cancellation_slot cancel_slot{};
 
     unique_handle<void> awaited_from{nullptr};
@@ -131,7 +133,7 @@ struct channel
 
     void interrupt_await()
     {
-      if (!direct)
+      if (!direct && !woken)
       {
         this->cancelled = true;
         this->unlink();
@@ -140,10 +142,11 @@ struct channel
       }
     }
 
+    void wake();
+
     struct cancel_impl;
-    void push_value();
 
-    bool await_ready() { return !chn->buffer_.full() || chn->is_closed_; }
+    bool await_ready() { return chn->can_write() || chn->is_closed_; }
     template<typename Promise>
     BOOST_COBALT_MSVC_NOINLINE
     std::coroutine_handle<void> await_suspend(std::coroutine_handle<Promise> h);
@@ -155,6 +158,16 @@ struct channel
 
   boost::intrusive::list<read_op,  intrusive::constant_time_size<false> > read_queue_;
   boost::intrusive::list<write_op, intrusive::constant_time_size<false> > write_queue_;
+  // the operations taken out of the queues, that aren't resumed yet.
+  // every one of them owns a value in or a free slot of the buffer.
+  boost::intrusive::list<read_op,  intrusive::constant_time_size<false> > read_woken_;
+  boost::intrusive::list<write_op, intrusive::constant_time_size<false> > write_woken_;
+
+  bool can_read()  const {return buffer_.size() > read_woken_.size();}
+  bool can_write() const {return buffer_.size() + write_woken_.size() < buffer_.capacity();}
+  // a value can go straight from a writer to a reader, if it doesn't overtake another one.
+  bool can_take() const {return !write_queue_.empty() && read_queue_.empty() && write_woken_.empty();}
+  bool can_pass() const {return !read_queue_.empty() && write_queue_.empty() && write_woken_.empty();}
  public:
   read_op   read(const boost::source_location & loc = BOOST_CURRENT_LOCATION)  {return  read_op{{}, this, loc}; }
 
@@ -237,7 +250,7 @@ struct channel<void>
   {
     channel * chn;
     boost::source_location loc;
-    bool cancelled = false, direct = false;
+    bool cancelled = false, woken = false, direct = false;
     asio::cancellation_slot cancel_slot{};
     unique_handle<void> awaited_from{nullptr};
     void (*begin_transaction)(void*) = nullptr;
@@ -251,7 +264,7 @@ struct channel<void>
 
     void interrupt_await()
     {
-      if (!direct)
+      if (!direct && !woken)
       {
         this->cancelled = true;
         this->unlink();
@@ -260,10 +273,12 @@ struct channel<void>
       }
     }
 
+    BOOST_COBALT_DECL void wake();
+
     struct cancel_impl;
     bool await_ready()
     {
-      return (chn->n_ > 0) || chn->is_closed_;
+      return chn->can_read() || chn->is_closed_;
     }
 
     template<typename Promise>
@@ -279,7 +294,7 @@ struct channel<void>
   {
     channel * chn;
     boost::source_location loc;
-    bool cancelled = false, direct = false, closed = !chn->is_open();
+    bool cancelled = false, woken = false, direct = false, closed = !chn->is_open();
     asio::cancellation_slot cancel_slot{};
     unique_handle<void> awaited_from{nullptr};
     void (*begin_transaction)(void*) = nullptr;
@@ -293,7 +308,7 @@ struct channel<void>
 
     void interrupt_await()
     {
-      if (!direct)
+      if (!direct && !woken)
       {
         cancelled = true;
         this->unlink();
@@ -302,10 +317,12 @@ struct channel<void>
       }
     }
 
+    BOOST_COBALT_DECL void wake();
+
     struct cancel_impl;
     bool await_ready()
     {
-      return chn->n_ < chn->limit_ || chn->is_closed_;
+      return chn->can_write() || chn->is_closed_;
     }
 
     template<typename Promise>
@@ -320,6 +337,16 @@ struct channel<void>
 
   boost::intrusive::list<read_op,  intrusive::constant_time_size<false> > read_queue_;
   boost::intrusive::list<write_op, intrusive::constant_time_size<false> > write_queue_;
+  // the operations taken out of the queues, that aren't resumed yet.
+  // every one of them owns a value in or a free slot of the buffer.
+  boost::intrusive::list<read_op,  intrusive::constant_time_size<false> > read_woken_;
+  boost::intrusive::list<write_op, intrusive::constant_time_size<false> > write_woken_;
+
+  bool can_read()  const {return n_ > read_woken_.size();}
+  bool can_write() const {return n_ + write_woken_.size() < limit_;}
+  // a value can go straight from a writer to a reader, if it doesn't overtake another one.
+  bool can_take() const {return !write_queue_.empty() && read_queue_.empty() && write_woken_.empty();}
+  bool can_pass() const {return !read_queue_.empty() && write_queue_.empty() && write_woken_.empty();}
  public:
   read_op   read(const boost::source_location & loc = BOOST_CURRENT_LOCATION)  {return  read_op{{}, this, loc}; }
   write_op write(const boost::source_location & loc = BOOST_CURRENT_LOCATION)  {return write_op{{}, this, loc}; }
diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index 8bd14b0..f68c8fb 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -78,6 +78,18 @@ void channel<T>::close()
 }
 
 
+template<typename T>
+void channel<T>::read_op::wake()
+{
+  // it'll complete from here on, so it can't be cancelled or interrupted anymore.
+  woken = true;
+  cancel_slot.clear();
+  transactional_unlink();
+  chn->read_woken_.push_back(*this);
+  BOOST_ASSERT(awaited_from);
+  asio::post(chn->executor_, std::move(awaited_from));
+}
+
 template<typename T>
 struct channel<T>::read_op::cancel_impl
 {
@@ -111,16 +123,9 @@ std::coroutine_handle<void> channel<T>::read_op::await_suspend(std::coroutine_ha
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
-  // we'll complete right away, so interrupt the other members of a race before taking anything from the channel.
-  if (!chn->write_queue_.empty() && begin_transaction)
-  {
-    std::exchange(begin_transaction, nullptr)(h.address());
-    cancelled = false; // the transaction interrupts this op, too
-  }
-  awaited_from.reset(h.address());
-
-  if (chn->write_queue_.empty())
+  if (!chn->can_take())
   {
+    awaited_from.reset(h.address());
     chn->read_queue_.push_back(*this);
     return std::noop_coroutine();
   }
@@ -128,8 +133,13 @@ std::coroutine_handle<void> channel<T>::read_op::await_suspend(std::coroutine_ha
   {
     cancel_slot.clear();
     auto & op = chn->write_queue_.front();
-    // transactional_unlink can interrupt or cancel `op` through `race`, so we need to check.
     op.direct = true;
+    op.transactional_unlink();
+    // if both are members of the same race, `op` just interrupted us & is the one to win it.
+    if (!cancelled && begin_transaction)
+      begin_transaction(h.address());
+    cancelled = false;
+
     if constexpr (std::is_copy_constructible_v<T>)
     {
       if (op.ref.index() == 0)
@@ -140,11 +150,8 @@ std::coroutine_handle<void> channel<T>::read_op::await_suspend(std::coroutine_ha
     else
       direct = std::move(*op.ref);
 
-    op.transactional_unlink();
     BOOST_ASSERT(op.awaited_from);
-    BOOST_ASSERT(awaited_from);
-
-    asio::post(chn->executor_, std::move(awaited_from));
+    asio::post(chn->executor_, unique_handle<void>(h.address()));
     return op.awaited_from.release();
   }
 }
@@ -174,7 +181,8 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (chn->is_closed_ && chn->buffer_.empty() && !direct)
+  this->unlink(); // from the woken ones
+  if (chn->is_closed_ && !chn->can_read() && !direct)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
@@ -193,21 +201,24 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
   if (!chn->write_queue_.empty())
   {
     auto &op = chn->write_queue_.front();
-    BOOST_ASSERT(chn->read_queue_.empty());
     if (op.await_ready())
-    {
-      // move the value into the buffer right away, so the free slot can't be taken before `op` gets resumed.
-      op.push_value();
-      op.direct = true;
-      op.cancel_slot.clear();
-      op.transactional_unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
+      op.wake();
   }
   return {system::in_place_value, std::move(value)};
 }
 
+template<typename T>
+void channel<T>::write_op::wake()
+{
+  // it'll complete from here on, so it can't be cancelled or interrupted anymore.
+  woken = true;
+  cancel_slot.clear();
+  transactional_unlink();
+  chn->write_woken_.push_back(*this);
+  BOOST_ASSERT(awaited_from);
+  asio::post(chn->executor_, std::move(awaited_from));
+}
+
 template<typename T>
 struct channel<T>::write_op::cancel_impl
 {
@@ -239,17 +250,10 @@ std::coroutine_handle<void> channel<T>::write_op::await_suspend(std::coroutine_h
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
-  // we'll complete right away, so interrupt the other members of a race before taking anything from the channel.
-  if (!chn->read_queue_.empty() && begin_transaction)
-  {
-    std::exchange(begin_transaction, nullptr)(h.address());
-    cancelled = false; // the transaction interrupts this op, too
-  }
-  awaited_from.reset(h.address());
-
-  BOOST_ASSERT(this->chn->buffer_.full());
-  if (chn->read_queue_.empty())
+  BOOST_ASSERT(!chn->can_write());
+  if (!chn->can_pass())
   {
+    awaited_from.reset(h.address());
     chn->write_queue_.push_back(*this);
     return std::noop_coroutine();
   }
@@ -267,31 +271,20 @@ std::coroutine_handle<void> channel<T>::write_op::await_suspend(std::coroutine_h
     else
       op.direct.emplace(std::move(*ref));
 
-    direct = true;
     op.transactional_unlink();
+    // if both are members of the same race, `op` just interrupted us & is the one to win it.
+    if (!cancelled && begin_transaction)
+      begin_transaction(h.address());
+    cancelled = false;
+    direct = true;
 
     BOOST_ASSERT(op.awaited_from);
-    BOOST_ASSERT(awaited_from);
-    asio::post(chn->executor_, std::move(awaited_from));
+    asio::post(chn->executor_, unique_handle<void>(h.address()));
 
     return op.awaited_from.release();
   }
 }
 
-template<typename T>
-void channel<T>::write_op::push_value()
-{
-  if constexpr (std::is_copy_constructible_v<T>)
-  {
-    if (ref.index() == 0)
-      chn->buffer_.push_back(std::move(*variant2::get<0>(ref)));
-    else
-      chn->buffer_.push_back(*variant2::get<1>(ref));
-  }
-  else
-    chn->buffer_.push_back(std::move(*ref));
-}
-
 template<typename T>
 std::tuple<system::error_code> channel<T>::write_op::await_resume(const struct as_tuple_tag &)
 {
@@ -310,6 +303,7 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
+  this->unlink(); // from the woken ones
   if (closed || (chn->is_closed_ && !direct))
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
@@ -325,23 +319,22 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
   if (!direct)
   {
     BOOST_ASSERT(!chn->buffer_.full());
-    push_value();
+    if constexpr (std::is_copy_constructible_v<T>)
+    {
+      if (ref.index() == 0)
+        chn->buffer_.push_back(std::move(*variant2::get<0>(ref)));
+      else
+        chn->buffer_.push_back(*variant2::get<1>(ref));
+    }
+    else
+      chn->buffer_.push_back(std::move(*ref));
   }
 
   if (!chn->read_queue_.empty())
   {
     auto & op = chn->read_queue_.front();
-    BOOST_ASSERT(chn->write_queue_.empty());
     if (op.await_ready())
-    {
-      // hand the value over right away, so it can't be read by someone else before `op` gets resumed.
-      op.direct.emplace(std::move(chn->buffer_.front()));
-      chn->buffer_.pop_front();
-      op.cancel_slot.clear();
-      op.transactional_unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
+      op.wake();
   }
   return system::in_place_value;
 }
@@ -390,17 +383,10 @@ std::coroutine_handle<void> channel<void>::read_op::await_suspend(std::coroutine
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
-  // we'll complete right away, so interrupt the other members of a race before taking anything from the channel.
-  if (!chn->write_queue_.empty() && begin_transaction)
-  {
-    std::exchange(begin_transaction, nullptr)(h.address());
-    cancelled = false; // the transaction interrupts this op, too
-  }
-  awaited_from.reset(h.address());
-
   // nothing to read currently, enqueue
-  if (chn->write_queue_.empty())
+  if (!chn->can_take())
   {
+    awaited_from.reset(h.address());
     chn->read_queue_.push_back(*this);
     return std::noop_coroutine();
   }
@@ -408,13 +394,16 @@ std::coroutine_handle<void> channel<void>::read_op::await_suspend(std::coroutine
   {
     cancel_slot.clear();
     auto & op = chn->write_queue_.front();
-    op.direct = true;
-    direct = true;
+    op.direct = true; // let interrupt_await know that we'll be resuming it!
     op.transactional_unlink();
+    // if both are members of the same race, `op` just interrupted us & is the one to win it.
+    if (!cancelled && begin_transaction)
+      begin_transaction(h.address());
+    cancelled = false;
+    direct = true;
 
     BOOST_ASSERT(op.awaited_from);
-    BOOST_ASSERT(awaited_from);
-    asio::post(chn->executor_, std::move(awaited_from));
+    asio::post(chn->executor_, unique_handle<void>(h.address()));
     return op.awaited_from.release();
   }
 }
@@ -433,16 +422,9 @@ std::coroutine_handle<void> channel<void>::write_op::await_suspend(std::coroutin
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
-  // we'll complete right away, so interrupt the other members of a race before taking anything from the channel.
-  if (!chn->read_queue_.empty() && begin_transaction)
-  {
-    std::exchange(begin_transaction, nullptr)(h.address());
-    cancelled = false; // the transaction interrupts this op, too
-  }
-  awaited_from.reset(h.address());
-
-  if (chn->read_queue_.empty())
+  if (!chn->can_pass())
   {
+    awaited_from.reset(h.address());
     chn->write_queue_.push_back(*this);
     return std::noop_coroutine();
   }
@@ -451,13 +433,15 @@ std::coroutine_handle<void> channel<void>::write_op::await_suspend(std::coroutin
     cancel_slot.clear();
     auto & op = chn->read_queue_.front();
     op.direct = true; // let interrupt_await know that we'll be resuming it!
-    direct = true;
     op.transactional_unlink();
+    // if both are members of the same race, `op` just interrupted us & is the one to win it.
+    if (!cancelled && begin_transaction)
+      begin_transaction(h.address());
+    cancelled = false;
+    direct = true;
 
     BOOST_ASSERT(op.awaited_from);
-    BOOST_ASSERT(awaited_from);
-
-    asio::post(chn->executor_, std::move(awaited_from));
+    asio::post(chn->executor_, unique_handle<void>(h.address()));
     return op.awaited_from.release();
   }
 }
diff --git a/src/channel.cpp b/src/channel.cpp
index 4faa6e1..bca9882 100644
--- a/src/channel.cpp
+++ b/src/channel.cpp
@@ -45,12 +45,24 @@ void channel<void>::close()
   }
 }
 
+void channel<void>::read_op::wake()
+{
+  // it'll complete from here on, so it can't be cancelled or interrupted anymore.
+  woken = true;
+  cancel_slot.clear();
+  transactional_unlink();
+  chn->read_woken_.push_back(*this);
+  BOOST_ASSERT(awaited_from);
+  asio::post(chn->executor_, std::move(awaited_from));
+}
+
 system::result<void>  channel<void>::read_op::await_resume(const struct as_result_tag &)
 {
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (chn->is_closed_ && chn->n_ == 0u && !direct)
+  this->unlink(); // from the woken ones
+  if (chn->is_closed_ && !chn->can_read() && !direct)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
@@ -67,17 +79,8 @@ system::result<void>  channel<void>::read_op::await_resume(const struct as_resul
   if (!chn->write_queue_.empty())
   {
     auto &op = chn->write_queue_.front();
-    BOOST_ASSERT(chn->read_queue_.empty());
     if (op.await_ready())
-    {
-      // take the free slot right away, so no one else can before `op` gets resumed.
-      chn->n_++;
-      op.direct = true;
-      op.cancel_slot.clear();
-      op.transactional_unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
+      op.wake();
   }
   return {system::in_place_value};
 }
@@ -93,11 +96,23 @@ std::tuple<system::error_code> channel<void>::read_op::await_resume(const struct
 }
 
 
+void channel<void>::write_op::wake()
+{
+  // it'll complete from here on, so it can't be cancelled or interrupted anymore.
+  woken = true;
+  cancel_slot.clear();
+  transactional_unlink();
+  chn->write_woken_.push_back(*this);
+  BOOST_ASSERT(awaited_from);
+  asio::post(chn->executor_, std::move(awaited_from));
+}
+
 system::result<void> channel<void>::write_op::await_resume(const struct as_result_tag &)
 {
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
+  this->unlink(); // from the woken ones
   if (closed || (chn->is_closed_ && !direct))
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
@@ -115,17 +130,8 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
   if (!chn->read_queue_.empty())
   {
     auto & op = chn->read_queue_.front();
-    BOOST_ASSERT(chn->write_queue_.empty());
     if (op.await_ready())
-    {
-      // hand the item over right away, so it can't be read by someone else before `op` gets resumed.
-      chn->n_--;
-      op.direct = true;
-      op.cancel_slot.clear();
-      op.transactional_unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
+      op.wake();
   }
   return {system::in_place_value};
 }
-- 
2.43.0


From 6e3bcdac9e54e44c4c9a428fa94c09c5c389b7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:56 +0000
Subject: [PATCH 17/57] fix: refuse a second await of a channel operation
 before touching its state

---
 include/boost/cobalt/impl/channel.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index f68c8fb..8f07b2e 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -114,12 +114,13 @@ std::coroutine_handle<void> channel<T>::read_op::await_suspend(std::coroutine_ha
   if (cancelled)
     return h; // already interrupted.
 
+  if (awaited_from)
+    boost::throw_exception(std::runtime_error("already-awaited"), loc);
+
   if constexpr (requires {h.promise().get_cancellation_slot();})
     if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
       cancel_slot.emplace<cancel_impl>(this);
 
-  if (awaited_from)
-    boost::throw_exception(std::runtime_error("already-awaited"), loc);
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
@@ -242,6 +243,8 @@ std::coroutine_handle<void> channel<T>::write_op::await_suspend(std::coroutine_h
   if (cancelled)
     return h; // already interrupted.
 
+  if (awaited_from)
+    boost::throw_exception(std::runtime_error("already-awaited"), loc);
 
   if constexpr (requires {h.promise().get_cancellation_slot();})
     if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
@@ -373,12 +376,13 @@ std::coroutine_handle<void> channel<void>::read_op::await_suspend(std::coroutine
   if (cancelled)
     return h; // already interrupted.
 
+  if (awaited_from)
+    boost::throw_exception(std::runtime_error("already-awaited"), loc);
+
   if constexpr (requires {h.promise().get_cancellation_slot();})
     if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
       cancel_slot.emplace<cancel_impl>(this);
 
-  if (awaited_from)
-    boost::throw_exception(std::runtime_error("already-awaited"), loc);
 
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
@@ -415,6 +419,9 @@ std::coroutine_handle<void> channel<void>::write_op::await_suspend(std::coroutin
   if (cancelled)
     return h; // already interrupted.
 
+  if (awaited_from)
+    boost::throw_exception(std::runtime_error("already-awaited"), loc);
+
   if constexpr (requires {h.promise().get_cancellation_slot();})
     if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
       cancel_slot.emplace<cancel_impl>(this);
-- 
2.43.0


From 9ce9e9f5b2bdea2d95bc9e5866866d2a4ca794b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 18/57] fix: push the value into an eager generator that is
 suspended in co_yield

When the value of an eager generator is taken by get(), the next co_await
resumes it without a pushed value.
---
 include/boost/cobalt/detail/generator.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index 4f8dc99..8a0bbae 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -223,10 +223,12 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
       self->awaited_from.reset(h.address());
 
       std::coroutine_handle<void> res = std::noop_coroutine();
-      if (self->yield_from != nullptr)
+      // an eager generator can be suspended in a yield if its value was taken by get(); it needs the pushed value to resume.
+      const bool suspended = self->yield_from != nullptr;
+      if (suspended)
         res = self->yield_from.release();
 
-      if ((to_push.index() > 0) && !self->pushed_value && self->lazy)
+      if ((to_push.index() > 0) && !self->pushed_value && (self->lazy || suspended))
       {
         if constexpr (std::is_void_v<Push>)
           self->pushed_value = true;
@@ -299,7 +301,7 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
       }
 
       // now we also want to resume the coroutine, so it starts work
-      if (self->yield_from != nullptr && !self->lazy)
+      if (self->yield_from != nullptr && !self->lazy && self->pushed_value)
       {
         auto exec = self->yield_from->get_executor();
         auto alloc = asio::get_associated_allocator(self->yield_from);
-- 
2.43.0


From bc941ca94e7a504454c1b0965dde3ffa7dd6a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 19/57] fix: ask the members of a ranged gather or join for
 readiness only once

---
 include/boost/cobalt/detail/gather.hpp | 10 ----------
 include/boost/cobalt/detail/join.hpp   |  9 ---------
 2 files changed, 19 deletions(-)

diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index c2c8bcf..a4c576b 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -241,7 +241,6 @@ struct gather_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
                        pmr::vector<co_awaitable_type<type>>> aws;
 
-    pmr::vector<bool> ready{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal> cancel{std::size(aws), alloc};
     pmr::vector<result_storage_type> result{cancel.size(), alloc};
 
@@ -250,7 +249,6 @@ struct gather_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
         std::vector<co_awaitable_type<type>>> aws;
 
-    std::vector<bool> ready{std::size(aws), alloc};
     std::vector<asio::cancellation_signal> cancel{std::size(aws), alloc};
     std::vector<result_storage_type> result{cancel.size(), alloc};
 #endif
@@ -260,7 +258,6 @@ struct gather_ranged_impl
     awaitable(Range & aws_, std::false_type /* needs operator co_await */)
       : fork::shared_state((512 + sizeof(co_awaitable_type<type>)) * std::size(aws_))
       , aws{alloc}
-      , ready{std::size(aws_), alloc}
       , cancel{std::size(aws_), alloc}
     {
       aws.reserve(std::size(aws_));
@@ -271,18 +268,11 @@ struct gather_ranged_impl
             std::is_lvalue_reference_v<Range>, a_0 &, a_0 &&>;
         aws.emplace_back(awaitable_type_getter<a_t>(static_cast<a_t>(a)));
       }
-
-
-      std::transform(std::begin(this->aws),
-                     std::end(this->aws),
-                     std::begin(ready),
-                     [](auto & aw) {return aw.await_ready();});
     }
     awaitable(Range & aws, std::true_type /* needs operator co_await */)
         : fork::shared_state((512 + sizeof(co_awaitable_type<type>)) * std::size(aws))
         , aws(aws)
     {
-      std::transform(std::begin(aws), std::end(aws), std::begin(ready), [](auto & aw) {return aw.await_ready();});
     }
 
     awaitable(Range & aws)
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 9a4879f..a08a88b 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -304,7 +304,6 @@ struct join_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
                        pmr::vector<co_awaitable_type<type>>> aws;
 
-    pmr::vector<bool> ready{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal> cancel_{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal*> cancel{std::size(aws), alloc};
 
@@ -321,7 +320,6 @@ struct join_ranged_impl
     std::allocator<void> alloc;
     std::conditional_t<awaitable_type<type>, Range &,  std::vector<co_awaitable_type<type>>> aws;
 
-    std::vector<bool> ready{std::size(aws), alloc};
     std::vector<asio::cancellation_signal> cancel_{std::size(aws), alloc};
     std::vector<asio::cancellation_signal*> cancel{std::size(aws), alloc};
 
@@ -338,7 +336,6 @@ struct join_ranged_impl
     awaitable(Range & aws_, std::false_type /* needs  operator co_await */)
       :  fork::shared_state((512 + sizeof(co_awaitable_type<type>) + result_size) * std::size(aws_))
       , aws{alloc}
-      , ready{std::size(aws_), alloc}
       , cancel_{std::size(aws_), alloc}
       , cancel{std::size(aws_), alloc}
     {
@@ -350,17 +347,11 @@ struct join_ranged_impl
             std::is_lvalue_reference_v<Range>, a_0 &, a_0 &&>;
         aws.emplace_back(awaitable_type_getter<a_t>(static_cast<a_t>(a)));
       }
-
-      std::transform(std::begin(this->aws),
-                     std::end(this->aws),
-                     std::begin(ready),
-                     [](auto & aw) {return aw.await_ready();});
     }
     awaitable(Range & aws, std::true_type /* needs operator co_await */)
         : fork::shared_state((512 + sizeof(co_awaitable_type<type>) + result_size) * std::size(aws))
         , aws(aws)
     {
-      std::transform(std::begin(aws), std::end(aws), std::begin(ready), [](auto & aw) {return aw.await_ready();});
     }
 
     awaitable(Range & aws)
-- 
2.43.0


From bcff2542a34c5633b85a1bce61b6b6ab92393b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 20/57] fix: interrupt the members a variadic gather takes by
 reference

---
 include/boost/cobalt/detail/gather.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index a4c576b..bc04095 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -75,7 +75,7 @@ struct gather_variadic_impl
     {
       using type= std::tuple_element_t<Idx, std::tuple<Args...>>;
       using t = std::conditional_t<
-          std::is_reference_v<std::tuple_element_t<Idx, decltype(aws)>>,
+          std::is_reference_v<type>,
           co_awaitable_type<type> &,
           co_awaitable_type<type> &&>;
 
-- 
2.43.0


From f110b8f6101ab1f35464f239cabe9e1bdb908642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:53 +0000
Subject: [PATCH 21/57] fix: wait for every promise in a wait group exactly
 once, even if it failed or was pushed during a wait

---
 include/boost/cobalt/detail/wait_group.hpp | 27 ++++++++++++++--------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/boost/cobalt/detail/wait_group.hpp b/include/boost/cobalt/detail/wait_group.hpp
index 56ca462..1f0d23d 100644
--- a/include/boost/cobalt/detail/wait_group.hpp
+++ b/include/boost/cobalt/detail/wait_group.hpp
@@ -32,7 +32,7 @@ struct race_wrapper
 
     bool await_ready()
     {
-      if (waitables_.empty())
+      if (!impl_)
         return true;
       else
         return impl_->await_ready();
@@ -46,11 +46,20 @@ struct race_wrapper
 
     void await_resume()
     {
-      if (waitables_.empty())
+      if (!impl_)
         return;
-      auto idx = impl_->await_resume();
-      if (idx != std::numeric_limits<std::size_t>::max())
-        waitables_.erase(std::next(waitables_.begin(), idx));
+      // the promise is done with, even if it completed with an error
+      struct eraser
+      {
+        std::list<promise<void>> &waitables;
+        std::size_t idx;
+        ~eraser()
+        {
+          if (idx < waitables.size())
+            waitables.erase(std::next(waitables.begin(), idx));
+        }
+      } eraser_{waitables_, impl_->index};
+      impl_->await_resume();
     }
 
     awaitable_type(std::list<promise<void>> &waitables) : waitables_(waitables)
@@ -84,7 +93,7 @@ struct gather_wrapper
   {
     bool await_ready()
     {
-      if (waitables_.empty())
+      if (!impl_)
         return true;
       else
         return impl_->await_ready();
@@ -98,11 +107,11 @@ struct gather_wrapper
 
     void await_resume()
     {
-      if (waitables_.empty())
+      if (!impl_)
         return;
-      BOOST_ASSERT(impl_);
       impl_->await_resume();
-      waitables_.clear();
+      // keep what was pushed in the meantime, it has not been waited for.
+      waitables_.erase(waitables_.begin(), std::next(waitables_.begin(), (std::min)(impl_->aws.size(), waitables_.size())));
     }
 
     awaitable_type(std::list<promise<void>> &waitables) : waitables_(waitables)
-- 
2.43.0


From 84bf8e5d22b1b7d280e764fa822a350c78393b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 22/57] fix: destroy the coroutine awaiting with when its body
 is destroyed

---
 include/boost/cobalt/detail/with.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/with.hpp b/include/boost/cobalt/detail/with.hpp
index 433f34f..d51b864 100644
--- a/include/boost/cobalt/detail/with.hpp
+++ b/include/boost/cobalt/detail/with.hpp
@@ -7,6 +7,7 @@
 
 #include <boost/cobalt/concepts.hpp>
 #include <boost/cobalt/this_coro.hpp>
+#include <boost/cobalt/unique_handle.hpp>
 
 #include <boost/asio/cancellation_signal.hpp>
 
@@ -93,7 +94,7 @@ struct with_impl<T>::promise_type
     BOOST_COBALT_MSVC_NOINLINE
     auto await_suspend(std::coroutine_handle<promise_type> h) noexcept -> std::coroutine_handle<void>
     {
-      return std::coroutine_handle<void>::from_address(h.promise().awaited_from.address());
+      return h.promise().awaited_from.release();
     }
 
     void await_resume() noexcept
@@ -109,7 +110,7 @@ struct with_impl<T>::promise_type
   cancellation_slot_type get_cancellation_slot() const {return slot_;}
   asio::cancellation_slot slot_;
 
-  std::coroutine_handle<void> awaited_from{nullptr};
+  unique_handle<void> awaited_from{nullptr};
 
 };
 
@@ -146,7 +147,7 @@ auto with_impl<T>::await_suspend(std::coroutine_handle<Promise> h) -> std::corou
     if constexpr (requires {h.promise().get_cancellation_slot();})
         promise.slot_ = h.promise().get_cancellation_slot();
 
-    promise.awaited_from = h;
+    promise.awaited_from.reset(h.address());
     return std::coroutine_handle<promise_type>::from_promise(promise);
 }
 
-- 
2.43.0


From fe4f396675b0f055e366f0d55a93532b5044f02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 23/57] fix: hand the resource over to the teardown in the
 synchronous forms of with

---
 include/boost/cobalt/with.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/cobalt/with.hpp b/include/boost/cobalt/with.hpp
index bdfb21f..e3848c1 100644
--- a/include/boost/cobalt/with.hpp
+++ b/include/boost/cobalt/with.hpp
@@ -43,7 +43,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<void>
     std::exception_ptr e;
 #if defined(BOOST_NO_EXCEPTIONS)
     co_await std::move(func)(arg);
-    co_await std::move(teardown)(arg, e);
+    co_await std::move(teardown)(std::move(arg), e);
 #else
     try
     {
@@ -84,7 +84,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<void>
     std::exception_ptr e;
 #if defined(BOOST_NO_EXCEPTIONS)
     std::move(func)(arg);
-    co_await std::move(teardown)(arg, e);
+    co_await std::move(teardown)(std::move(arg), e);
 #else
     try
     {
@@ -97,7 +97,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<void>
 
     try
     {
-        co_await std::move(teardown)(arg, e);
+        co_await std::move(teardown)(std::move(arg), e);
     }
     catch (...)
     {
@@ -169,7 +169,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<decltype(s
 
 #if defined(BOOST_NO_EXCEPTIONS)
     res = std::move(func)(arg);
-    co_await std::move(teardown)(arg, e);
+    co_await std::move(teardown)(std::move(arg), e);
 #else
     try
     {
@@ -182,7 +182,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<decltype(s
 
     try
     {
-        co_await std::move(teardown)(arg, e);
+        co_await std::move(teardown)(std::move(arg), e);
     }
     catch (...)
     {
-- 
2.43.0


From f4ae96789efbb7ac260028883a33382ff2a91a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:06 +0000
Subject: [PATCH 24/57] fix: op does not touch its awaitable after the
 initiation dropped the handler

---
 include/boost/cobalt/op.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/boost/cobalt/op.hpp b/include/boost/cobalt/op.hpp
index b59f668..5a7e650 100644
--- a/include/boost/cobalt/op.hpp
+++ b/include/boost/cobalt/op.hpp
@@ -56,6 +56,14 @@ struct BOOST_SYMBOL_VISIBLE op
 
     resource_type *resource;
 
+    // lets await_suspend know if the initiation dropped the handler, which destroys the coroutine & thus the awaitable.
+    struct drop_detector
+    {
+      bool * dropped = nullptr;
+      ~drop_detector() { if (dropped) *dropped = true; }
+    };
+    drop_detector drop_detector_;
+
     template<typename Promise>
     bool await_suspend(std::coroutine_handle<Promise> h
 #if defined(BOOST_ASIO_ENABLE_HANDLER_TRACKING)
@@ -63,8 +71,10 @@ struct BOOST_SYMBOL_VISIBLE op
 #endif
     ) noexcept
     {
+      bool dropped = false;
       BOOST_TRY
       {
+        drop_detector_.dropped = &dropped;
         completed_immediately = detail::completed_immediately_t::initiating;
 
 #if defined(BOOST_ASIO_ENABLE_HANDLER_TRACKING)
@@ -72,12 +82,18 @@ struct BOOST_SYMBOL_VISIBLE op
 #else
         op_.initiate(completion_handler<Args...>{h, result, resource, &completed_immediately});
 #endif
+        if (dropped)
+          return true;
+        drop_detector_.dropped = nullptr;
         if (completed_immediately == detail::completed_immediately_t::initiating)
           completed_immediately = detail::completed_immediately_t::no;
         return completed_immediately != detail::completed_immediately_t::yes;
       }
       BOOST_CATCH(...)
       {
+        if (dropped)
+          return true;
+        drop_detector_.dropped = nullptr;
         init_ep = std::current_exception();
         return false;
       }
-- 
2.43.0


From a906a943c4aa4629cb38eb182987f8969de8e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 25/57] fix: an exception from an immediate continuation
 reaches the awaiter

---
 include/boost/cobalt/detail/handler.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index 1e08a06..1e9568e 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -274,7 +274,8 @@ struct completion_handler : detail::completion_handler_base
     ~completion_handler()
     {
       if (self && completed_immediately
-        && *completed_immediately == detail::completed_immediately_t::initiating
+        && (*completed_immediately == detail::completed_immediately_t::initiating
+         || *completed_immediately == detail::completed_immediately_t::maybe)
         && std::uncaught_exceptions() > 0)
         self.release();
     }
-- 
2.43.0


From e469b370b39227e1297accf26e189aaca2f11616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 26/57] fix: a handler invoked from within the initiation does
 not resume the coroutine in there

---
 include/boost/cobalt/detail/handler.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index 1e9568e..8c5e819 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -260,8 +260,10 @@ struct completion_handler : detail::completion_handler_base
         result.emplace(std::move(args)...);
         BOOST_ASSERT(this->self != nullptr);
         auto p = this->self.release();
+        // still inside of the initiation, so the coroutine isn't to be resumed from here.
         if (completed_immediately != nullptr
-        && *completed_immediately == detail::completed_immediately_t::maybe)
+        && (*completed_immediately == detail::completed_immediately_t::maybe
+         || *completed_immediately == detail::completed_immediately_t::initiating))
         {
           *completed_immediately = detail::completed_immediately_t::yes;
           return;
-- 
2.43.0


From aa0af6046140f08aaf033cf88d6f505c392d6678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 27/57] fix: a composed operation does not use its handler
 after destroying its coroutine

---
 include/boost/cobalt/composition.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/composition.hpp b/include/boost/cobalt/composition.hpp
index 50dd688..baba69c 100644
--- a/include/boost/cobalt/composition.hpp
+++ b/include/boost/cobalt/composition.hpp
@@ -152,13 +152,15 @@ struct composition_promise
     {
       auto exec = handler.get_executor();
       auto ho = handler.self.release();
+      // self_destroy destroys this awaitable, including the handler
+      const auto completed_immediately = handler.completed_immediately;
       detail::self_destroy(h, exec);
 
-      if (handler.completed_immediately != nullptr
-       && *handler.completed_immediately == completed_immediately_t::initiating)
+      if (completed_immediately != nullptr
+       && *completed_immediately == completed_immediately_t::initiating)
         //not maybe here, because we don't go through the immediate executor
       {
-        *handler.completed_immediately = completed_immediately_t::yes;
+        *completed_immediately = completed_immediately_t::yes;
         return std::noop_coroutine();
       }
 
-- 
2.43.0


From c76291923c85271f27e6235857081b114e23b8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 28/57] fix: a composed operation that completes on the
 immediate executor does not resume its awaiter in there

---
 include/boost/cobalt/composition.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/composition.hpp b/include/boost/cobalt/composition.hpp
index baba69c..7d43f21 100644
--- a/include/boost/cobalt/composition.hpp
+++ b/include/boost/cobalt/composition.hpp
@@ -157,8 +157,9 @@ struct composition_promise
       detail::self_destroy(h, exec);
 
       if (completed_immediately != nullptr
-       && *completed_immediately == completed_immediately_t::initiating)
-        //not maybe here, because we don't go through the immediate executor
+       && (*completed_immediately == completed_immediately_t::initiating
+        // maybe if the composition got started by a function running on the immediate executor
+        || *completed_immediately == completed_immediately_t::maybe))
       {
         *completed_immediately = completed_immediately_t::yes;
         return std::noop_coroutine();
-- 
2.43.0


From 3b15faa1a734979d78eb169de59ce5178771d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 29/57] fix: the small buffer of an operation does not hand out
 over-aligned memory it does not have

---
 include/boost/cobalt/detail/sbo_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/sbo_resource.hpp b/include/boost/cobalt/detail/sbo_resource.hpp
index ae37315..1e5baf0 100644
--- a/include/boost/cobalt/detail/sbo_resource.hpp
+++ b/include/boost/cobalt/detail/sbo_resource.hpp
@@ -90,7 +90,7 @@ struct sbo_resource
 #endif
   {
     const auto sz = align_as_max_(size);
-    if (sz <= buffer_.avail && !buffer_.fragmented) [[likely]]
+    if (sz <= buffer_.avail && !buffer_.fragmented && align <= alignof(std::max_align_t)) [[likely]]
     {
       auto p = static_cast<char*>(buffer_.p) + buffer_.size - buffer_.avail;
       buffer_.avail -= sz;
-- 
2.43.0


From a1e17ea6f36c472894c5ac2824a9b467d2fc81fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:39 +0000
Subject: [PATCH 30/57] fix: spawn of a finished task asked a moved-from
 handler for its immediate executor

---
 include/boost/cobalt/detail/spawn.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/detail/spawn.hpp b/include/boost/cobalt/detail/spawn.hpp
index ba2364b..83464c9 100644
--- a/include/boost/cobalt/detail/spawn.hpp
+++ b/include/boost/cobalt/detail/spawn.hpp
@@ -36,9 +36,12 @@ struct async_initiate_spawn
   {
     auto & rec = a.receiver_;
     if (rec.done)
+    {
+      auto immediate_exec = asio::get_associated_immediate_executor(h, exec);
       return asio::dispatch(
-          asio::get_associated_immediate_executor(h, exec),
+          immediate_exec,
           asio::append(std::forward<Handler>(h), rec.exception, rec.exception ? T() : *rec.get_result()));
+    }
 
 #if !defined(BOOST_COBALT_NO_PMR)
     auto dalloc = pmr::polymorphic_allocator<void>{boost::cobalt::this_thread::get_default_resource()};
@@ -101,9 +104,12 @@ struct async_initiate_spawn
   void operator()(Handler && h, task<void> a)
   {
     if (a.receiver_.done)
+    {
+      auto immediate_exec = asio::get_associated_immediate_executor(h, exec);
       return asio::dispatch(
-          asio::get_associated_immediate_executor(h, exec),
+          immediate_exec,
           asio::append(std::forward<Handler>(h), a.receiver_.exception));
+    }
 
 
 #if !defined(BOOST_COBALT_NO_PMR)
@@ -114,8 +120,10 @@ struct async_initiate_spawn
     auto recs = std::allocate_shared<detail::task_receiver<void>>(alloc, std::move(a.receiver_));
 
     if (recs->done)
-      return asio::dispatch(asio::get_associated_immediate_executor(h, exec),
-                            asio::append(std::forward<Handler>(h), recs->exception));
+    {
+      auto immediate_exec = asio::get_associated_immediate_executor(h, exec);
+      return asio::dispatch(immediate_exec, asio::append(std::forward<Handler>(h), recs->exception));
+    }
 
     auto sl = asio::get_associated_cancellation_slot(h);
     if (sl.is_connected())
-- 
2.43.0


From 16d5122dddbd3d52e2a5b86a6156d0154adaedcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 31/57] fix: awaiting a finished thread as_tuple read a result
 that was never set

---
 include/boost/cobalt/detail/thread.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 66e9f36..a72ae4a 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -195,6 +195,8 @@ struct thread_awaitable
       cl.clear();
     if (thread_)
       thread_->join();
+    if (!res) // await_ready
+      return {std::exception_ptr{}};
 
     return std::get<0>(*res);
   }
-- 
2.43.0


From 57ab15ea9a66fd0acd2bf4b326ea2c75d8cb7d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 32/57] fix: a thread unlocked the mutex of its coroutine after
 the coroutine was gone

---
 src/thread.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index 594ecd5..833ad7b 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -46,7 +46,10 @@ void run_thread(
         st->ctx.get_executor(),
         [st, h = std::move(h)]() mutable
         {
-          std::lock_guard<std::mutex> lock{h->mtx};
+          // wait for the initial suspension; the coroutine might be gone once it was resumed, its mutex with it
+          {
+            std::lock_guard<std::mutex> lock{h->mtx};
+          }
           std::move(h).resume();
         });
 
-- 
2.43.0


From ac0efbbeba3a7aed11f5440da84b2505b13b0ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 33/57] fix: handlers left in the context of a thread owned the
 context, so neither was ever destroyed

---
 include/boost/cobalt/detail/thread.hpp | 3 ++-
 include/boost/cobalt/thread.hpp        | 5 +++--
 src/thread.cpp                         | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index a72ae4a..246fa41 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -149,8 +149,9 @@ struct thread_awaitable
             [st = state_](asio::cancellation_type type)
             {
               std::lock_guard<std::mutex> lock{st->mtx};
+              // the handler lives in the context of the state, so it must not own it
               asio::post(st->ctx,
-                         [st, type]
+                         [st = st.get(), type]
                          {
                             BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
                             st->signal.emit(type);
diff --git a/include/boost/cobalt/thread.hpp b/include/boost/cobalt/thread.hpp
index 5145758..cd9aab8 100644
--- a/include/boost/cobalt/thread.hpp
+++ b/include/boost/cobalt/thread.hpp
@@ -83,8 +83,9 @@ inline
 void thread::cancel(asio::cancellation_type type)
 {
   if (auto st = state_)
-    asio::post(state_->ctx,
-               [s= state_, type]
+    // the handler lives in the context of the state, so it must not own it
+    asio::post(st->ctx,
+               [s = st.get(), type]
                {
                  BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
                  s->signal.emit(type);
diff --git a/src/thread.cpp b/src/thread.cpp
index 833ad7b..cf08dae 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -44,7 +44,7 @@ void run_thread(
 
     asio::post(
         st->ctx.get_executor(),
-        [st, h = std::move(h)]() mutable
+        [h = std::move(h)]() mutable
         {
           // wait for the initial suspension; the coroutine might be gone once it was resumed, its mutex with it
           {
-- 
2.43.0


From d2f8f64d5beff81120448ecc1baa8eabc7cb7374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:40 +0000
Subject: [PATCH 34/57] fix: destroying the last member of a gather, join or
 race freed its own frame with the awaiting coroutine, and went on to use it

---
 include/boost/cobalt/detail/fork.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index 0f25c84..ee07427 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -18,6 +18,8 @@
 #include <boost/intrusive_ptr.hpp>
 
 #include <coroutine>
+#include <cstddef>
+#include <new>
 #include <optional>
 
 namespace boost::cobalt::detail
@@ -108,10 +110,24 @@ struct fork
     template<typename State, typename ... Rest>
     void * operator new(const std::size_t size, State & st, Rest &&...)
     {
-      return st.resource.allocate(size);
+      // | shared_state * | <padding> | coroutine.
+      const auto p = st.resource.allocate(size + sizeof(std::max_align_t));
+      new (p) (shared_state *)(nullptr);
+      return static_cast<std::max_align_t *>(p) + 1;
     }
 
-    void operator delete(void *) noexcept {}
+    // The last member destroys the awaiting coroutine, which might own the memory of this frame.
+    // That's why the state gets released only after everything in the frame is gone.
+    void operator delete(void * raw) noexcept
+    {
+      if (auto st = *frame_state(raw))
+        intrusive_ptr_release(st);
+    }
+
+    static shared_state ** frame_state(void * raw)
+    {
+      return reinterpret_cast<shared_state **>(static_cast<std::max_align_t *>(raw) - 1);
+    }
 
     template<typename ... Rest>
     promise_type(shared_state & st, Rest & ...)
@@ -119,6 +135,11 @@ struct fork
     {
     }
 
+    ~promise_type()
+    {
+      *frame_state(std::coroutine_handle<promise_type>::from_promise(*this).address()) = state.detach();
+    }
+
     intrusive_ptr<shared_state> state;
     asio::cancellation_slot cancel;
 
-- 
2.43.0


From 2a4ff03bb16dd6e9d4a3da07054ffdd308d72478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 35/57] fix: the memory resource of a thread was gone before
 the operations left in its context

---
 include/boost/cobalt/detail/thread.hpp | 4 ++++
 src/thread.cpp                         | 5 ++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 246fa41..88bf12e 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -44,6 +44,10 @@ struct signal_helper_2
 
 struct thread_state
 {
+#if !defined(BOOST_COBALT_NO_PMR)
+  // outlives the context, as whatever is left in there got allocated from it.
+  pmr::unsynchronized_pool_resource resource;
+#endif
   asio::io_context ctx{1u};
   asio::cancellation_signal signal;
   std::mutex mtx;
diff --git a/src/thread.cpp b/src/thread.cpp
index cf08dae..4df6416 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -31,9 +31,8 @@ void run_thread(
 {
 
 #if !defined(BOOST_COBALT_NO_PMR)
-  pmr::unsynchronized_pool_resource resource;
-  boost::cobalt::this_thread::set_default_resource(&resource);
-  h->resource = &resource;
+  boost::cobalt::this_thread::set_default_resource(&st_->resource);
+  h->resource = &st_->resource;
 #endif
 
   {
-- 
2.43.0


From 350575cd23812444601b195162aaace85d912898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:19 +0000
Subject: [PATCH 36/57] fix: destroying a pending composed operation freed its
 own frame with the awaiting coroutine and went on to use it

---
 include/boost/cobalt/composition.hpp | 53 +++++++++++++++++-----------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/include/boost/cobalt/composition.hpp b/include/boost/cobalt/composition.hpp
index 7d43f21..15ea947 100644
--- a/include/boost/cobalt/composition.hpp
+++ b/include/boost/cobalt/composition.hpp
@@ -92,37 +92,40 @@ struct composition_promise
   using executor_type = typename handler_type::executor_type ;
   const executor & get_executor() const {return handler.get_executor();}
 
-  template<typename ... Ts>
-  static void * operator new(const std::size_t size, Ts & ... args)
+  // | memory_resource | size_t | awaiting coroutine | <padding> | coroutine.
+  struct frame_header
   {
-    using tt = std::pair<resource_type *, std::size_t>;
+    resource_type * resource;
+    std::size_t size;
+    // set if the composition gets destroyed before completion
+    void * awaited_from = nullptr;
+  };
 
-    // | memory_resource | size_t | <padding> | coroutine.
-    constexpr auto block_size =  sizeof(tt) / sizeof(std::max_align_t)
-                                 + (sizeof(tt) % sizeof(std::max_align_t) ? 1 : 0);
+  constexpr static std::size_t header_blocks = sizeof(frame_header) / sizeof(std::max_align_t)
+                                            + (sizeof(frame_header) % sizeof(std::max_align_t) ? 1 : 0);
 
+  static frame_header * get_header(void * raw)
+  {
+    return reinterpret_cast<frame_header *>(static_cast<std::max_align_t*>(raw) - header_blocks);
+  }
 
+  template<typename ... Ts>
+  static void * operator new(const std::size_t size, Ts & ... args)
+  {
     auto res = std::get<sizeof... (Ts) - 1>(std::tie(args...)).get_allocator().resource();
-    const auto p = res->allocate(size + (block_size * sizeof(std::max_align_t)));
-    new (p) tt(res, size);
-    return static_cast<std::max_align_t*>(p) + block_size;
+    const auto p = res->allocate(size + (header_blocks * sizeof(std::max_align_t)));
+    new (p) frame_header{res, size};
+    return static_cast<std::max_align_t*>(p) + header_blocks;
   }
 
   static void operator delete(void * raw) noexcept
   {
-    using tt = std::pair<resource_type *, std::size_t>;
-
-    // | memory_resource | size_t | <padding> | coroutine.
-    constexpr auto block_size =  sizeof(tt) / sizeof(std::max_align_t)
-                                 + (sizeof(tt) % sizeof(std::max_align_t) ? 1 : 0);
-
-    const auto p = static_cast<std::max_align_t*>(raw) - block_size;
-
-    const auto tp = *reinterpret_cast<tt*>(p);
-    const auto res = tp.first;
-    const auto size = tp.second;
+    const auto p = get_header(raw);
+    const auto h = *p;
 
-    res->deallocate(p, size +  (block_size * sizeof(std::max_align_t)));
+    h.resource->deallocate(p, h.size +  (header_blocks * sizeof(std::max_align_t)));
+    // the awaiting coroutine might own the resource
+    unique_handle<void>{h.awaited_from};
   }
 
   completion_handler<Args...> handler;
@@ -133,6 +136,14 @@ struct composition_promise
 
   }
 
+  // Destroying the awaiting coroutine might release the memory of this frame, so that needs to come last.
+  ~composition_promise()
+  {
+    if (handler.self)
+      get_header(std::coroutine_handle<composition_promise>::from_promise(*this).address())->awaited_from
+        = handler.self.release().address();
+  }
+
   void unhandled_exception() { throw ; }
   constexpr static std::suspend_never initial_suspend() {return {};}
 
-- 
2.43.0


From 67a796557886bc3380df93131d33f623e497fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:29 +0000
Subject: [PATCH 37/57] fix: destroying a coroutine awaiting a thread it owns
 terminated the program

---
 include/boost/cobalt/detail/thread.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 88bf12e..e1e862d 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -212,6 +212,19 @@ struct thread_awaitable
   explicit thread_awaitable(std::thread thread,
                             std::shared_ptr<detail::thread_state> state)
       : thread_(std::move(thread)), state_(std::move(state)) {}
+
+  thread_awaitable(thread_awaitable &&) noexcept = default;
+
+  // Same as ~thread, in case the awaiting coroutine gets destroyed.
+  ~thread_awaitable()
+  {
+    if (thread_ && thread_->joinable())
+    {
+      if (state_)
+        state_->ctx.stop();
+      thread_->join();
+    }
+  }
  private:
   std::optional<std::thread> thread_;
   std::shared_ptr<detail::thread_state> state_;
-- 
2.43.0


From 208a10017d3889fc32bec2c5601cbe3c4c4fa2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 38/57] fix: a signal delivered right before co_main ended was
 emitted on the destroyed coroutine

---
 src/main.cpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index aaa958f..d2595d8 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -15,11 +15,28 @@
 namespace boost::cobalt::detail
 {
 
+namespace
+{
+
+struct main_signal_set : asio::basic_signal_set<executor>
+{
+  main_signal_set(asio::io_context & ctx, asio::cancellation_signal & signal)
+      : asio::basic_signal_set<executor>(ctx, SIGINT, SIGTERM), signal(&signal) {}
+  // null once the main coroutine is done.
+  asio::cancellation_signal * signal;
+};
+
+}
+
 auto main_promise::final_suspend() noexcept -> std::suspend_never
 {
   system::error_code ec;
   if (signal_set)
+  {
     signal_set->cancel(ec);
+    // a signal might have been delivered already, but the coroutine is gone by the time it gets handled.
+    static_cast<main_signal_set*>(signal_set)->signal = nullptr;
+  }
   return std::suspend_never(); // enable_yielding_tasks::final_suspend();
 }
 
@@ -32,25 +49,26 @@ int main_promise::run_main(::boost::cobalt::main mn)
   mn.promise->exec.emplace(ctx.get_executor());
   mn.promise->exec_ = mn.promise->exec->get_executor();
   auto p = std::coroutine_handle<detail::main_promise>::from_promise(*mn.promise);
-  asio::basic_signal_set<executor_type> ss{ctx, SIGINT, SIGTERM};
+  main_signal_set ss{ctx, mn.promise->signal};
   mn.promise->signal_set = &ss;
   struct work
   {
-    asio::basic_signal_set<executor_type> & ss;
-    asio::cancellation_signal & signal;
+    main_signal_set & ss;
     void operator()(system::error_code ec, int sig) const
     {
       BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
+      if (ss.signal == nullptr)
+        return;
       if (sig == SIGINT)
-        signal.emit(asio::cancellation_type::total);
-      if (sig == SIGTERM)
-        signal.emit(asio::cancellation_type::terminal);
-      if (!ec)
+        ss.signal->emit(asio::cancellation_type::total);
+      else if (sig == SIGTERM)
+        ss.signal->emit(asio::cancellation_type::terminal);
+      if (!ec && ss.signal != nullptr)
         ss.async_wait(*this);
     }
   };
 
-  ss.async_wait(work{ss, mn.promise->signal});
+  ss.async_wait(work{ss});
   asio::post(ctx.get_executor(),
              [p]
              {
-- 
2.43.0


From 7bfdcb53641633f14ddb5d670d57ffd18be6f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 39/57] fix: random access files did not read and write at the
 given offset

---
 src/io/random_access_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/random_access_file.cpp b/src/io/random_access_file.cpp
index 1f8c132..8959c2e 100644
--- a/src/io/random_access_file.cpp
+++ b/src/io/random_access_file.cpp
@@ -82,7 +82,7 @@ void initiate_async_read_some_at_helper(boost::asio::posix::basic_stream_descrip
                                         completion_handler<system::error_code, std::size_t> handler)
 {
 
-  if (lseek(str.native_handle(), SEEK_SET, offset) < 0)
+  if (lseek(str.native_handle(), offset, SEEK_SET) < 0)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return handler(system::error_code{errno, ::boost::system::system_category(), &loc}, 0u);
@@ -95,7 +95,7 @@ void initiate_async_write_some_at_helper(boost::asio::posix::basic_stream_descri
                                         std::uint64_t offset, const_buffer_sequence seq,
                                         completion_handler<system::error_code, std::size_t> handler)
 {
-  if (lseek(str.native_handle(), SEEK_SET, offset) < 0)
+  if (lseek(str.native_handle(), offset, SEEK_SET) < 0)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return handler(system::error_code{errno, ::boost::system::system_category(), &loc}, 0u);
-- 
2.43.0


From 72604af7beb26bb256301c41d23fd52d8f0d0714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 40/57] fix: stream_file::seek did not return the new position

---
 src/io/stream_file.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/stream_file.cpp b/src/io/stream_file.cpp
index 5fbd111..2701963 100644
--- a/src/io/stream_file.cpp
+++ b/src/io/stream_file.cpp
@@ -104,10 +104,11 @@ stream_file::stream_file(stream_file && sf) noexcept = default;
 
 system::result<std::uint64_t> stream_file::seek(std::int64_t offset, seek_basis whence)
 {
-  if (::lseek(native_handle(), offset, whence) < 0)
+  const auto n = ::lseek(native_handle(), offset, whence);
+  if (n < 0)
     COBALT_RETURN_ERROR();
 
-  return {};
+  return static_cast<std::uint64_t>(n);
 }
 
 void stream_file::initiate_read_some_(void * this_, mutable_buffer_sequence buffer, boost::cobalt::completion_handler<system::error_code, std::size_t> handler)
-- 
2.43.0


From 39d4c756317b2a28ef464ea95156365f66c1f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 41/57] fix: pipe() threw instead of returning the error

---
 src/io/pipe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/pipe.cpp b/src/io/pipe.cpp
index dbd43f9..f0b43bf 100644
--- a/src/io/pipe.cpp
+++ b/src/io/pipe.cpp
@@ -130,7 +130,7 @@ system::result<std::pair<readable_pipe, writable_pipe>> pipe(const cobalt::execu
   readable_pipe r{executor};
   writable_pipe w{executor};
   system::error_code ec;
-  asio::connect_pipe(r.implementation_, w.implementation_);
+  asio::connect_pipe(r.implementation_, w.implementation_, ec);
   if (ec)
     return ec;
   else
-- 
2.43.0


From f2b19a2bd503664174cf4292b2d1afe4bb5e312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 42/57] fix: local endpoints were cut off after six characters
 of the path

---
 src/io/endpoint.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/endpoint.cpp b/src/io/endpoint.cpp
index 96c4f11..43e7fa6 100644
--- a/src/io/endpoint.cpp
+++ b/src/io/endpoint.cpp
@@ -8,6 +8,8 @@
 #include <boost/cobalt/io/endpoint.hpp>
 #include <boost/asio/ip/address.hpp>
 
+#include <cstddef>
+
 namespace boost::cobalt::detail
 {
 
@@ -41,7 +43,7 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNIX>,
   if (sv.size() >= sizeof(un->sun_path))
     BOOST_THROW_EXCEPTION(std::length_error("unix path too long"));
   *std::copy(sv.begin(), sv.end(), un->sun_path) = '\0';
-  return sizeof(un->sun_family + sv.size() + 1u);
+  return offsetof(asio::detail::sockaddr_un_type, sun_path) + sv.size() + 1u;
 }
 
 const local_endpoint* tag_invoke(get_endpoint_tag<AF_UNIX>,
-- 
2.43.0


From 6f6d126db5d6ccd24b39fc4542a42b3c231bcf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 43/57] fix: ipv6 endpoints of unspecified family were cut off

---
 src/io/endpoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/endpoint.cpp b/src/io/endpoint.cpp
index 43e7fa6..1bd6eae 100644
--- a/src/io/endpoint.cpp
+++ b/src/io/endpoint.cpp
@@ -211,7 +211,7 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNSPEC>,
     };
     auto a = ad.to_v6().to_bytes();
     std::copy(a.begin(), a.end(), in6->sin6_addr.s6_addr);
-    return sizeof(asio::detail::sockaddr_in4_type);
+    return sizeof(asio::detail::sockaddr_in6_type);
   }
 }
 
-- 
2.43.0


From 5596f02560f51643618dca58a0764fc7ad343d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 44/57] fix: udp_v6 was icmp

---
 include/boost/cobalt/io/endpoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/endpoint.hpp b/include/boost/cobalt/io/endpoint.hpp
index 1dda880..c8e96de 100644
--- a/include/boost/cobalt/io/endpoint.hpp
+++ b/include/boost/cobalt/io/endpoint.hpp
@@ -115,7 +115,7 @@ constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET),   BOOST_ASIO_OS_DEF(SOCK_S
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_STREAM), BOOST_ASIO_OS_DEF(IPPROTO_TCP)>  tcp_v6{};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_UNSPEC), BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp   {};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET),   BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp_v4{};
-constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_ICMP)> udp_v6{};
+constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp_v6{};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_UNSPEC), BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_ICMP)> icmp  {};
 constexpr static_protocol<AF_UNIX,                      BOOST_ASIO_OS_DEF(SOCK_STREAM)>    local_stream   {};
 constexpr static_protocol<AF_UNIX,                      BOOST_ASIO_OS_DEF(SOCK_DGRAM)>     local_datagram {};
-- 
2.43.0


From f143ea5d5a45de0b3142eb147ca19ab33374e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 45/57] fix: file::cancel did not cancel

---
 src/io/file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/file.cpp b/src/io/file.cpp
index 6d7bf11..5950916 100644
--- a/src/io/file.cpp
+++ b/src/io/file.cpp
@@ -107,7 +107,9 @@ result<void> file::assign(const native_handle_type & native_file)
 }
 result<void> file::cancel()
 {
-  return result<void>{};
+  boost::system::error_code ec;
+  file_.cancel(ec);
+  return ec ? ec : result<void>{};
 }
 
 executor file::get_executor() { return file_.get_executor();}
-- 
2.43.0


From f24a56f96b1a491d5c49f507feda99b37c6dd36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 46/57] fix: file::open leaked the descriptor if it could not
 be assigned

---
 src/io/file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/file.cpp b/src/io/file.cpp
index 5950916..d9e1ced 100644
--- a/src/io/file.cpp
+++ b/src/io/file.cpp
@@ -133,6 +133,8 @@ result<void> file::open(const char * path, flags open_flags)
     COBALT_RETURN_ERROR();
   boost::system::error_code ec;
   file_.assign(r, ec);
+  if (ec)
+    ::close(r);
   return ec ? ec : result<void>{};
 }
 
-- 
2.43.0


From 3f891035a8aef14d4fb7a2b0b8ce69f6de074b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:10 +0000
Subject: [PATCH 47/57] fix: an ssl stream was never secure, even after the
 handshake

---
 include/boost/cobalt/io/ssl.hpp |  8 ++++----
 src/io/ssl.cpp                  | 21 +++++++++++++++++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/boost/cobalt/io/ssl.hpp b/include/boost/cobalt/io/ssl.hpp
index 2ad9506..76e02df 100644
--- a/include/boost/cobalt/io/ssl.hpp
+++ b/include/boost/cobalt/io/ssl.hpp
@@ -83,12 +83,12 @@ struct BOOST_SYMBOL_VISIBLE stream final : private detail::stream_impl, socket,
   {
     void ready(handler<system::error_code> h) final;
     void initiate(completion_handler<system::error_code> h) final;
-    handshake_op_(handshake_type type, bool upgraded, asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>>  & stream_socket)
+    handshake_op_(handshake_type type, bool & upgraded, asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>>  & stream_socket)
         : type_(type), upgraded_(upgraded), stream_socket_(stream_socket) {}
     ~handshake_op_() = default;
    private:
     handshake_type type_;
-    bool upgraded_;
+    bool & upgraded_;
     asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>> &stream_socket_;
   };
 
@@ -97,13 +97,13 @@ struct BOOST_SYMBOL_VISIBLE stream final : private detail::stream_impl, socket,
   {
     void ready(handler<system::error_code, std::size_t> h) final;
     void initiate(completion_handler<system::error_code, std::size_t> h) final;
-    handshake_buffer_op_(handshake_type type, bool upgraded, const_buffer_sequence buffer_,
+    handshake_buffer_op_(handshake_type type, bool & upgraded, const_buffer_sequence buffer_,
                          asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>>  & stream_socket)
         : type_(type), upgraded_(upgraded), buffer_(buffer_), stream_socket_(stream_socket) {}
     ~handshake_buffer_op_() = default;
    private:
     handshake_type type_;
-    bool upgraded_;
+    bool & upgraded_;
     const_buffer_sequence buffer_;
     asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>> &stream_socket_;
   };
diff --git a/src/io/ssl.cpp b/src/io/ssl.cpp
index 6c19e30..eae503b 100644
--- a/src/io/ssl.cpp
+++ b/src/io/ssl.cpp
@@ -7,6 +7,7 @@
 
 #include <boost/cobalt/io/ssl.hpp>
 #include <boost/cobalt/io/stream_socket.hpp>
+#include <boost/asio/deferred.hpp>
 
 namespace boost::cobalt::io::ssl
 {
@@ -89,7 +90,15 @@ void stream::handshake_op_::ready(handler<system::error_code> handler)
 
 void stream::handshake_op_::initiate(completion_handler<system::error_code> handler)
 {
-  stream_socket_.async_handshake(type_, std::move(handler));
+  stream_socket_.async_handshake(
+      type_,
+      asio::deferred(
+          [&upgraded = upgraded_](system::error_code ec)
+          {
+            if (!ec)
+              upgraded = true;
+            return asio::deferred.values(ec);
+          }))(std::move(handler));
 }
 
 void stream::handshake_buffer_op_::ready(handler<system::error_code, std::size_t> handler)
@@ -103,7 +112,15 @@ void stream::handshake_buffer_op_::ready(handler<system::error_code, std::size_t
 
 void stream::handshake_buffer_op_::initiate(completion_handler<system::error_code, std::size_t> handler)
 {
-  stream_socket_.async_handshake(type_, buffer_, std::move(handler));
+  stream_socket_.async_handshake(
+      type_, buffer_,
+      asio::deferred(
+          [&upgraded = upgraded_](system::error_code ec, std::size_t n)
+          {
+            if (!ec)
+              upgraded = true;
+            return asio::deferred.values(ec, n);
+          }))(std::move(handler));
 }
 
 void stream::shutdown_op_::ready(handler<system::error_code> handler)
-- 
2.43.0


From 47f500fec05549c4b89c58c057df44ca969b646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:10 +0000
Subject: [PATCH 48/57] fix: set_verify_callback accepted no callback that
 ssl::stream takes

---
 include/boost/cobalt/io/ssl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/ssl.hpp b/include/boost/cobalt/io/ssl.hpp
index 76e02df..313e713 100644
--- a/include/boost/cobalt/io/ssl.hpp
+++ b/include/boost/cobalt/io/ssl.hpp
@@ -62,7 +62,7 @@ struct BOOST_SYMBOL_VISIBLE stream final : private detail::stream_impl, socket,
   [[nodiscard]] bool secure() const {return upgraded_;}
 
   template<typename VerifyCallback>
-    requires requires (const VerifyCallback & cb, context & ctx) {{cb(true, ctx)} -> std::same_as<bool>;}
+    requires requires (VerifyCallback & cb, asio::ssl::verify_context & ctx) {{cb(true, ctx)} -> std::same_as<bool>;}
   system::result<void> set_verify_callback(VerifyCallback vc)
   {
     system::error_code ec;
-- 
2.43.0


From c2440564237e255e34c25996f09f78db89177259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 49/57] fix: a moved ssl stream used the socket of the stream
 it was moved from

---
 include/boost/cobalt/io/ssl.hpp | 1 +
 src/io/ssl.cpp                  | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/include/boost/cobalt/io/ssl.hpp b/include/boost/cobalt/io/ssl.hpp
index 313e713..24b5644 100644
--- a/include/boost/cobalt/io/ssl.hpp
+++ b/include/boost/cobalt/io/ssl.hpp
@@ -44,6 +44,7 @@ struct stream_impl
 struct BOOST_SYMBOL_VISIBLE stream final : private detail::stream_impl, socket, cobalt::io::stream, asio::ssl::stream_base
 {
   BOOST_COBALT_SSL_DECL stream(context & ctx, const cobalt::executor & executor = this_thread::get_executor());
+  BOOST_COBALT_SSL_DECL stream(stream && lhs);
   BOOST_COBALT_SSL_DECL stream(context & ctx, stream_socket && sock);
   BOOST_COBALT_SSL_DECL stream(context & ctx, native_handle_type h, protocol_type protocol = protocol_type(),
                                      const cobalt::executor & executor = this_thread::get_executor());
diff --git a/src/io/ssl.cpp b/src/io/ssl.cpp
index eae503b..8dd2721 100644
--- a/src/io/ssl.cpp
+++ b/src/io/ssl.cpp
@@ -17,6 +17,12 @@ stream::stream(context & ctx, const cobalt::executor & exec)
 {
 }
 
+stream::stream(stream && lhs)
+    : stream_impl{.stream_socket_=std::move(lhs.stream_socket_)}, socket(stream_socket_.lowest_layer()),
+      upgraded_(lhs.upgraded_)
+{
+}
+
 stream::stream(context & ctx, native_handle_type h,
                        protocol_type protocol, const cobalt::executor & exec)
     : stream_impl{.stream_socket_ = {asio::basic_stream_socket<protocol_type, executor>(exec, protocol, h), ctx}},
-- 
2.43.0


From a8cb73e3c97fdffa9f59f70f36dec3eac71af587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:14 +0000
Subject: [PATCH 50/57] fix: io::write_at accepted no device

---
 include/boost/cobalt/io/write.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/write.hpp b/include/boost/cobalt/io/write.hpp
index cccd0b6..bfc2543 100644
--- a/include/boost/cobalt/io/write.hpp
+++ b/include/boost/cobalt/io/write.hpp
@@ -48,7 +48,7 @@ struct BOOST_COBALT_IO_DECL write_all_at  final : op<system::error_code, std::si
 template<typename Stream>
 requires requires (Stream & str, std::uint64_t offset, const_buffer_sequence buffer)
 {
-  {str.write_some_at(offset, buffer)} -> std::same_as<write_op>;
+  {str.write_some_at(offset, buffer)} -> std::same_as<write_at_op>;
 }
 [[nodiscard]] BOOST_COBALT_MSVC_NOINLINE
 write_all_at write_at(Stream & str, std::uint64_t offset, const_buffer_sequence buffer)
-- 
2.43.0


From d91579d7312ad0524d252f876b4bbe9816cd3264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:36 +0000
Subject: [PATCH 51/57] fix: the scope of an IPv6 address text was dropped

---
 src/io/endpoint.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/endpoint.cpp b/src/io/endpoint.cpp
index 1bd6eae..ebaa1fd 100644
--- a/src/io/endpoint.cpp
+++ b/src/io/endpoint.cpp
@@ -135,12 +135,14 @@ std::size_t tag_invoke(make_endpoint_tag<AF_INET6>,
 
   boost::static_string<46> addr{address.begin(), address.end()};
 
-  auto a = asio::ip::make_address_v6(addr.c_str()).to_bytes();
+  auto ad = asio::ip::make_address_v6(addr.c_str());
+  auto a = ad.to_bytes();
   auto in6 = new (base) asio::detail::sockaddr_in6_type{
       .sin6_family=AF_INET6,
       .sin6_port=boost::endian::native_to_big(port)
   };
   std::copy(a.begin(), a.end(), in6->sin6_addr.s6_addr);
+  in6->sin6_scope_id = static_cast<std::uint32_t>(ad.scope_id());
   return sizeof(asio::detail::sockaddr_in6_type);
 }
 
@@ -211,6 +213,7 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNSPEC>,
     };
     auto a = ad.to_v6().to_bytes();
     std::copy(a.begin(), a.end(), in6->sin6_addr.s6_addr);
+    in6->sin6_scope_id = static_cast<std::uint32_t>(ad.to_v6().scope_id());
     return sizeof(asio::detail::sockaddr_in6_type);
   }
 }
-- 
2.43.0


From c1a802b9e0a8b9852dcf7230c4bfbeda90274392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:36 +0000
Subject: [PATCH 52/57] fix: an endpoint could not be made of a const endpoint
 of asio

---
 include/boost/cobalt/io/endpoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/endpoint.hpp b/include/boost/cobalt/io/endpoint.hpp
index c8e96de..7ce6055 100644
--- a/include/boost/cobalt/io/endpoint.hpp
+++ b/include/boost/cobalt/io/endpoint.hpp
@@ -182,7 +182,7 @@ struct endpoint
   requires requires (OtherEndpoint oe)
       {
         {oe.protocol()} -> std::convertible_to<protocol_type>;
-        {oe.data()} -> std::convertible_to<void*>;
+        {oe.data()} -> std::convertible_to<const void*>;
         {oe.size()} -> std::convertible_to<std::size_t>;
       }
   endpoint(OtherEndpoint && oe) :
-- 
2.43.0


From e0cf2a776cd2cb22c6d9560896ad6a4e1b6a7796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:08 +0000
Subject: [PATCH 53/57] fix: error::moved_from did not test as an error

---
 doc/reference/error.adoc       | 2 +-
 include/boost/cobalt/error.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/doc/reference/error.adoc b/doc/reference/error.adoc
index 5aa817e..e76cb21 100644
--- a/doc/reference/error.adoc
+++ b/doc/reference/error.adoc
@@ -8,7 +8,7 @@ In order to make errors easier to manage, cobalt provides an `error_category` to
 ----
 enum class error
 {
-  moved_from,
+  moved_from = 1,
   detached,
   completed_unexpected,
   wait_not_ready,
diff --git a/include/boost/cobalt/error.hpp b/include/boost/cobalt/error.hpp
index 7399168..2dcad49 100644
--- a/include/boost/cobalt/error.hpp
+++ b/include/boost/cobalt/error.hpp
@@ -13,7 +13,7 @@ namespace boost::cobalt
 
 enum class error
 {
-  moved_from,
+  moved_from = 1,
   detached,
   completed_unexpected,
   wait_not_ready,
-- 
2.43.0


From 0f40efb834a235764391968f01ac35cb49d8e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:53 +0000
Subject: [PATCH 54/57] fix: coroutine_handle of a yield_context did not
 compile when resumed

---
 include/boost/cobalt/experimental/yield_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/experimental/yield_context.hpp b/include/boost/cobalt/experimental/yield_context.hpp
index 800f6a6..3644db2 100644
--- a/include/boost/cobalt/experimental/yield_context.hpp
+++ b/include/boost/cobalt/experimental/yield_context.hpp
@@ -24,7 +24,7 @@ struct std::coroutine_handle<boost::asio::basic_yield_context<Executor>>
   constexpr bool done() const noexcept { return false; }
   void operator()() const noexcept {}
 
-  void resume() const noexcept {frame_->promiseresume();}
+  void resume() const noexcept {frame_->resume();}
   void destroy() const noexcept {frame_->destroy();}
 
   boost::asio::basic_yield_context<Executor> & promise() const noexcept { return frame_->promise; }
-- 
2.43.0


From 19a8dea5c36bf2f0e312615dba3e683012aa98fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:53 +0000
Subject: [PATCH 55/57] fix: a stackful context used its frame after the fiber
 freed it and leaked its promise

---
 include/boost/cobalt/experimental/context.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/experimental/context.hpp b/include/boost/cobalt/experimental/context.hpp
index 5ae6aa4..666dce2 100644
--- a/include/boost/cobalt/experimental/context.hpp
+++ b/include/boost/cobalt/experimental/context.hpp
@@ -13,6 +13,7 @@
 #include <boost/cobalt/experimental/frame.hpp>
 #include <boost/cobalt/config.hpp>
 #include <coroutine>
+#include <memory>
 #include <new>
 
 namespace boost::cobalt::experimental
@@ -42,14 +43,17 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
 
   void resume()
   {
-    callee = std::move(callee).resume();
+    auto c = std::move(callee).resume();
+    if (!c) // the fiber finished and took its stack with it, which is where this frame was
+      return;
+    callee = std::move(c);
     if (auto af = std::exchange(after_resume, nullptr))
       af(this, after_resume_p);
   }
   void destroy()
   {
+    // unwinds the fiber, which owns this frame, so nothing must be touched afterwards
     auto c = std::exchange(callee, {});
-    this->~context_frame();
   }
 
   template<typename Awaitable>
@@ -306,9 +310,15 @@ auto make_context(Func && func, std::allocator_arg_t, StackAlloc  && salloc, Arg
         requires (promise_type & pro) {{pro.initial_suspend()} -> std::same_as<std::suspend_always>;}
       && noexcept(f->promise.initial_suspend());
 
+  struct frame_deleter
+  {
+    // the memory is part of the stack
+    void operator()(detail::context_frame<promise_type> * frame) const { frame->~context_frame(); }
+  };
+
   struct invoker
   {
-    detail::context_frame<promise_type> * frame;
+    std::unique_ptr<detail::context_frame<promise_type>, frame_deleter> frame;
     mutable Func func;
     mutable std::tuple<Args...> args;
 
-- 
2.43.0


From 14d54f38d70875299f125e0c6329cb8974da7ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:53 +0000
Subject: [PATCH 56/57] fix: context::yield dropped the value pushed into a
 generator

---
 include/boost/cobalt/experimental/context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/experimental/context.hpp b/include/boost/cobalt/experimental/context.hpp
index 666dce2..88a0853 100644
--- a/include/boost/cobalt/experimental/context.hpp
+++ b/include/boost/cobalt/experimental/context.hpp
@@ -271,7 +271,7 @@ struct context
     requires requires (promise_type & pro, Yield && value) {{pro.yield_value(std::forward<Yield>(value))} -> awaitable_type<promise_type>;}
   auto yield(Yield && value)
   {
-    frame_->do_await(frame_->promise.yield_value(std::forward<Yield>(value)));
+    return frame_->do_await(frame_->promise.yield_value(std::forward<Yield>(value)));
   }
 
  private:
-- 
2.43.0


From 5629c877278820435ac3b0f6b52a11fbb230fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:28 +0000
Subject: [PATCH 57/57] fix: a sleep given in a finer resolution than the clock
 was rounded to an earlier time

---
 include/boost/cobalt/io/sleep.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/io/sleep.hpp b/include/boost/cobalt/io/sleep.hpp
index 81988e4..cabec55 100644
--- a/include/boost/cobalt/io/sleep.hpp
+++ b/include/boost/cobalt/io/sleep.hpp
@@ -64,19 +64,19 @@ namespace boost::cobalt::io
 template<typename Duration>
 [[nodiscard]] inline auto sleep(const std::chrono::time_point<std::chrono::steady_clock, Duration> & tp)
 {
-  return sleep(std::chrono::time_point_cast<std::chrono::steady_clock::duration >(tp));
+  return sleep(std::chrono::ceil<std::chrono::steady_clock::duration >(tp));
 }
 
 template<typename Duration>
 [[nodiscard]] inline auto sleep(const std::chrono::time_point<std::chrono::system_clock, Duration> & tp)
 {
-  return sleep(std::chrono::time_point_cast<std::chrono::system_clock::duration >(tp));
+  return sleep(std::chrono::ceil<std::chrono::system_clock::duration >(tp));
 }
 
 template<typename Rep, typename Period>
 [[nodiscard]] inline auto sleep(const std::chrono::duration<Rep, Period> & dur)
 {
-  return sleep(std::chrono::duration_cast<std::chrono::steady_clock::duration >(dur));
+  return sleep(std::chrono::ceil<std::chrono::steady_clock::duration >(dur));
 }
 
 }
-- 
2.43.0

