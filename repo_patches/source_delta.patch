From 2bf7e5c83028ccdce8ec7a4e31a5852ff0215df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 01/48] fix: order bwos_lifo_queue steal() with grant(), so
 that a stolen block's fields are of its current generation

---
 include/exec/detail/bwos_lifo_queue.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/exec/detail/bwos_lifo_queue.hpp b/include/exec/detail/bwos_lifo_queue.hpp
index a45863c..67182ce 100644
--- a/include/exec/detail/bwos_lifo_queue.hpp
+++ b/include/exec/detail/bwos_lifo_queue.hpp
@@ -530,7 +530,9 @@ namespace experimental::execution::bwos
   auto lifo_queue<Tp, Allocator>::block_type::steal(std::uint32_t thief_round) noexcept
     -> fetch_result<Tp>
   {
-    std::uint64_t    spos  = steal_tail_.load(STDEXEC::__std::memory_order_relaxed);
+    // Acquire ordering pairs with the release in grant(): without it, tail_ could still be seen
+    // with the value of a previous generation of this block
+    std::uint64_t    spos  = steal_tail_.load(STDEXEC::__std::memory_order_acquire);
     std::uint64_t    sidx  = spos & 0xFFFF'FFFFu;
     std::uint64_t    round = spos >> 32;
     fetch_result<Tp> result{};
@@ -553,7 +555,10 @@ namespace experimental::execution::bwos
       return result;
     }
     // Try to claim the item at spos by atomically incrementing steal_tail_
-    if (!steal_tail_.compare_exchange_strong(spos, spos + 1, STDEXEC::__std::memory_order_relaxed))
+    if (!steal_tail_.compare_exchange_strong(spos,
+                                             spos + 1,
+                                             STDEXEC::__std::memory_order_acquire,
+                                             STDEXEC::__std::memory_order_relaxed))
     {
       // Another thief claimed this item, retry
       result.status = lifo_queue_error_code::conflict;
-- 
2.43.0


From c3a4cedd973b89bc7071d57501a8f45a62a22a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 02/48] fix: keep the run_loop alive while start() of a
 scheduled operation notifies it

---
 include/stdexec/__detail/__run_loop.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__run_loop.hpp b/include/stdexec/__detail/__run_loop.hpp
index d51e8bd..d65e63c 100644
--- a/include/stdexec/__detail/__run_loop.hpp
+++ b/include/stdexec/__detail/__run_loop.hpp
@@ -171,8 +171,14 @@ namespace STDEXEC
         STDEXEC_ATTRIBUTE(host, device)
         constexpr void start() noexcept
         {
-          __task_count_->fetch_add(1, __std::memory_order_release);
-          __queue_->push(this);
+          // As soon as the task is in the queue it may be executed, which can destroy this
+          // operation and, by way of finish(), let run() return and the run loop be destroyed. So
+          // keep a second count while push() is still notifying the run loop.
+          auto* const __task_count = __task_count_;
+          auto* const __queue      = __queue_;
+          __task_count->fetch_add(2, __std::memory_order_release);
+          __queue->push(this);
+          __task_count->fetch_sub(1, __std::memory_order_release);
         }
       };
 
-- 
2.43.0


From ce752fe5d5c295d699f000b4b9f0e8c672a1f0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 03/48] fix: synchronize with request_stop() when stop is found
 already requested

---
 include/stdexec/stop_token.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/stop_token.hpp b/include/stdexec/stop_token.hpp
index a53bd91..6c7bd03 100644
--- a/include/stdexec/stop_token.hpp
+++ b/include/stdexec/stop_token.hpp
@@ -325,7 +325,9 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
     const noexcept -> bool
   {
     STDEXEC::__stok::__spin_wait __spin;
-    auto                         __old_state = __state_.load(STDEXEC::__std::memory_order_relaxed);
+    // Acquire ordering also when the lock is not taken: whoever learns here that stop was requested
+    // (e.g. a callback that is then invoked by its constructor) sees what preceded the request.
+    auto                         __old_state = __state_.load(STDEXEC::__std::memory_order_acquire);
     do
     {
       while (true)
@@ -342,7 +344,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
         else
         {
           __spin.__wait();
-          __old_state = __state_.load(STDEXEC::__std::memory_order_relaxed);
+          __old_state = __state_.load(STDEXEC::__std::memory_order_acquire);
         }
       }
     }
@@ -351,7 +353,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
                                              ? (__locked_flag_ | __stop_requested_flag_)
                                              : __locked_flag_,
                                            STDEXEC::__std::memory_order_acq_rel,
-                                           STDEXEC::__std::memory_order_relaxed));
+                                           STDEXEC::__std::memory_order_acquire));
 
     // Lock acquired successfully
     return true;
-- 
2.43.0


From 0b6ddccf3fed75262b8f99635541a5a065197646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 04/48] fix: when_all completed twice when stop was requested
 while its last child arrived

---
 include/stdexec/__detail/__when_all.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__when_all.hpp b/include/stdexec/__detail/__when_all.hpp
index 305bf4f..8a589d9 100644
--- a/include/stdexec/__detail/__when_all.hpp
+++ b/include/stdexec/__detail/__when_all.hpp
@@ -565,8 +565,20 @@ namespace STDEXEC
       constexpr void operator()() const noexcept
       {
         // Temporarily increment the count to avoid concurrent/recursive arrivals to
-        // pull the rug under our feet. Relaxed memory order is fine here.
-        __state_->__count_.fetch_add(1, __std::memory_order_relaxed);
+        // pull the rug under our feet. Relaxed memory order is fine here. If the count
+        // is zero already, the last child has arrived and the operation is completing;
+        // arriving again would complete it a second time.
+        std::size_t __count = __state_->__count_.load(__std::memory_order_relaxed);
+        do
+        {
+          if (__count == 0)
+          {
+            return;
+          }
+        }
+        while (!__state_->__count_.compare_exchange_weak(__count,
+                                                         __count + 1,
+                                                         __std::memory_order_relaxed));
 
         __state_t __expected = __started;
         // Transition to the "stopped" state if and only if we're in the
-- 
2.43.0


From 487fccb9fc5e6c87d9e79b557ccbfd37214c2ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:52 +0000
Subject: [PATCH 05/48] fix: when_any completed twice when stop was requested
 while its last child arrived

---
 include/exec/when_any.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/exec/when_any.hpp b/include/exec/when_any.hpp
index 1e1a58b..8558bfc 100644
--- a/include/exec/when_any.hpp
+++ b/include/exec/when_any.hpp
@@ -88,8 +88,20 @@ namespace experimental::execution
         constexpr void operator()() const noexcept
         {
           // Temporarily increment the count to avoid concurrent/recursive arrivals to
-          // pull the rug under our feet. Relaxed memory order is fine here.
-          __op_->__count_.fetch_add(1, __std::memory_order_relaxed);
+          // pull the rug under our feet. Relaxed memory order is fine here. If the count
+          // is zero already, the last child has arrived and the operation is completing;
+          // arriving again would complete it a second time.
+          std::size_t __count = __op_->__count_.load(__std::memory_order_relaxed);
+          do
+          {
+            if (__count == 0)
+            {
+              return;
+            }
+          }
+          while (!__op_->__count_.compare_exchange_weak(__count,
+                                                        __count + 1,
+                                                        __std::memory_order_relaxed));
 
           __op_->__stop_source_.request_stop();
 
-- 
2.43.0


From 9c80dd04d4e68d4e5e79c5d44c2173b202b92017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 06/48] fix: split/ensure_started request stop when the last
 consumers are abandoned concurrently

Two consumers detaching at the same time each saw the other's reference in
use_count(), so neither requested stop and the abandoned operation kept running.
Count the consumers explicitly.
---
 include/exec/detail/shared.hpp | 101 +++++++++++++++++++++++----------
 1 file changed, 70 insertions(+), 31 deletions(-)

diff --git a/include/exec/detail/shared.hpp b/include/exec/detail/shared.hpp
index 58407d9..f06c3dc 100644
--- a/include/exec/detail/shared.hpp
+++ b/include/exec/detail/shared.hpp
@@ -119,18 +119,66 @@ namespace experimental::execution::__shared
     __mapply<__mbind_front_q<__results_storage, set_stopped_t(), set_error_t(std::exception_ptr)>,
              __completion_signatures_of_t<_CvSender, _Env>>;
 
+  ////////////////////////////////////////////////////////////////////////////////////////
+  // A reference to the shared state that is held by a consumer, i.e. by a sender or by an
+  // operation state, as opposed to the one the running operation holds on itself. The shared
+  // state counts them to know for sure when the last consumer goes away.
+  template <class _ShState>
+  class __consumer_ptr
+  {
+   public:
+    __consumer_ptr() = default;
+
+    explicit __consumer_ptr(std::shared_ptr<_ShState> __ptr) noexcept
+      : __ptr_(std::move(__ptr))
+    {
+      if (__ptr_)
+      {
+        __ptr_->__attach();
+      }
+    }
+
+    __consumer_ptr(__consumer_ptr&&) noexcept = default;
+
+    __consumer_ptr(__consumer_ptr const & __other) noexcept
+      : __consumer_ptr(__other.__ptr_)
+    {}
+
+    auto operator=(__consumer_ptr __other) noexcept -> __consumer_ptr&
+    {
+      __ptr_.swap(__other.__ptr_);
+      return *this;
+    }
+
+    ~__consumer_ptr()
+    {
+      if (__ptr_)
+      {
+        __ptr_->__detach();
+      }
+    }
+
+    auto operator->() const noexcept -> _ShState*
+    {
+      return __ptr_.get();
+    }
+
+   private:
+    std::shared_ptr<_ShState> __ptr_;
+  };
+
   ////////////////////////////////////////////////////////////////////////////////////////
   template <class _CvChild, class _Env>
   [[nodiscard]]
   constexpr auto
-  __mk_sh_state(_CvChild&& __child, _Env __env) -> std::shared_ptr<__shared_state<_CvChild, _Env>>
+  __mk_sh_state(_CvChild&& __child, _Env __env) -> __consumer_ptr<__shared_state<_CvChild, _Env>>
   {
     using __sh_state_t = __shared_state<_CvChild, _Env>;
     auto __tmp         = __with_default(get_allocator, std::allocator<void>{})(__env);
     auto __alloc       = STDEXEC::__rebind_allocator<__sh_state_t>(__tmp);
-    return std::allocate_shared<__sh_state_t>(__alloc,
-                                              static_cast<_CvChild&&>(__child),
-                                              static_cast<_Env&&>(__env));
+    return __consumer_ptr{std::allocate_shared<__sh_state_t>(__alloc,
+                                                             static_cast<_CvChild&&>(__child),
+                                                             static_cast<_Env&&>(__env))};
   }
 
   ////////////////////////////////////////////////////////////////////////////////////////
@@ -154,7 +202,7 @@ namespace experimental::execution::__shared
   {
     using __stok_t         = stop_token_of_t<env_of_t<_Receiver>>;
     using __sh_state_t     = __shared_state<_CvChild, _Env>;
-    using __sh_state_ptr_t = std::shared_ptr<__sh_state_t>;
+    using __sh_state_ptr_t = __consumer_ptr<__sh_state_t>;
 
     static_assert(__one_of<_Tag, split_t, ensure_started_t>);
 
@@ -166,14 +214,6 @@ namespace experimental::execution::__shared
 
     STDEXEC_IMMOVABLE(__local_state);
 
-    constexpr ~__local_state()
-    {
-      if (__sh_state_)
-      {
-        __sh_state_->__detach();
-      }
-    }
-
     constexpr void start() noexcept
     {
       // Scenario: there are no more split senders, this is the only operation state, the
@@ -204,7 +244,7 @@ namespace experimental::execution::__shared
       // Otherwise, failed to add the waiter because of a stop-request.
       // Complete synchronously with set_stopped().
       __on_stop_.reset();
-      std::exchange(__sh_state_, {})->__detach();
+      __sh_state_ = __sh_state_ptr_t{};
       STDEXEC::set_stopped(static_cast<_Receiver&&>(__rcvr_));
     }
 
@@ -231,7 +271,7 @@ namespace experimental::execution::__shared
       // __notify function is called from the shared state's __notify_waiters function, which
       // first sets __waiters_ to the completed state. As a result, the attempt to remove `this`
       // from the waiters list above will fail and this stop request is ignored.
-      std::exchange(__sh_state_, {})->__detach();
+      __sh_state_ = __sh_state_ptr_t{};
       STDEXEC::set_stopped(static_cast<_Receiver&&>(__rcvr_));
     }
 
@@ -413,16 +453,21 @@ namespace experimental::execution::__shared
       }
     }
 
+    constexpr void __attach() noexcept
+    {
+      __consumers_.fetch_add(1, __std::memory_order_relaxed);
+    }
+
     constexpr void __detach() noexcept
     {
-      // increments the use count:
-      auto __started_ptr = __started_ref_.load();
-      // If the use count is 3 (one for *this, one for __started_ref_, and one for
-      // __started_ptr), then we are the final "consumer". Ask the operation to stop
-      // early.
-      if (3 == __started_ptr.use_count())
+      if (1 == __consumers_.fetch_sub(1, __std::memory_order_acq_rel))
       {
-        this->__stop_source_.request_stop();
+        // We are the final "consumer". Ask the operation to stop early if it is running. The
+        // reference keeps the shared state alive in case it completes while doing so.
+        if (auto __started_ptr = __started_ref_.load())
+        {
+          this->__stop_source_.request_stop();
+        }
       }
     }
 
@@ -432,6 +477,8 @@ namespace experimental::execution::__shared
     }
 
     __std::atomic_flag __started_{};
+    // the number of senders and operation states that refer to this shared state:
+    __std::atomic<std::size_t> __consumers_{0};
     // this shared_ptr is non-null when the operation is running:
     __std::__atomic_shared_ptr<__shared_state> __started_ref_;
     connect_result_t<_CvSender, __receiver_t>  __shared_op_;
@@ -498,14 +545,6 @@ namespace experimental::execution::__shared
     __sndr(__sndr const &)            = default;
     __sndr& operator=(__sndr const &) = default;
 
-    constexpr ~__sndr()
-    {
-      if (__sh_state_)
-      {
-        __sh_state_->__detach();
-      }
-    }
-
     template <class>
     static consteval auto get_completion_signatures()
     {
@@ -531,7 +570,7 @@ namespace experimental::execution::__shared
 
    private:
     friend struct exec::ensure_started_t;
-    std::shared_ptr<__shared_state<_CvChild, _Env>> __sh_state_;
+    __consumer_ptr<__shared_state<_CvChild, _Env>> __sh_state_;
   };
 
   template <class _Tag, class _CvChild, class _Env>
-- 
2.43.0


From d213f9b66f74c9ae7078c907be5e5303a46ad020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 07/48] fix: schedule_all may be destroyed by its completion
 while start() still runs

The last item could complete the sequence, and the receiver destroy it, while
start() still held its mutex. Make start() take part in the countdown, which
also has to order what the items did before the completion.
---
 include/exec/static_thread_pool.hpp | 34 +++++++++++++++++------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index f84d038..3073cfb 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1574,7 +1574,7 @@ namespace experimental::execution
         bool                                 has_started_{false};
         __intrusive_queue<&task_base::next_> tasks_{};
         std::size_t                          tasks_size_{};
-        __std::atomic<std::size_t>           countdown_{std::ranges::size(range_)};
+        __std::atomic<std::size_t>           countdown_{std::ranges::size(range_) + 1};
       };
 
       template <class Range, class ItemReceiver>
@@ -1658,6 +1658,15 @@ namespace experimental::execution
           , rcvr_(static_cast<Receiver&&>(rcvr))
         {}
 
+        // Called once per item and once by start()
+        void arrive() noexcept
+        {
+          if (this->countdown_.fetch_sub(1, __std::memory_order_acq_rel) == 1)
+          {
+            STDEXEC::set_value(static_cast<Receiver&&>(rcvr_));
+          }
+        }
+
         Receiver rcvr_;
       };
 
@@ -1668,20 +1677,12 @@ namespace experimental::execution
 
         void set_value() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_relaxed);
-          if (countdown == 1)
-          {
-            STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
-          }
+          op_->arrive();
         }
 
         void set_stopped() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_relaxed);
-          if (countdown == 1)
-          {
-            STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
-          }
+          op_->arrive();
         }
 
         auto get_env() const noexcept -> env_of_t<Receiver>
@@ -1765,9 +1766,14 @@ namespace experimental::execution
             STDEXEC::start(items_[i].__get());
           }
 
-          std::unique_lock lock{this->start_mutex_};
-          this->has_started_ = true;
-          this->pool_.bulk_enqueue(remote_queue, std::move(this->tasks_), this->tasks_size_);
+          {
+            std::unique_lock lock{this->start_mutex_};
+            this->has_started_ = true;
+            this->pool_.bulk_enqueue(remote_queue, std::move(this->tasks_), this->tasks_size_);
+          }
+
+          // The items may all be done already; only now may *this be destroyed.
+          this->arrive();
         }
 
        private:
-- 
2.43.0


From 0671548f0a3fcfaaf0e79604853ad3570fbbdf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 08/48] fix: merge_each completes the outer item when a nested
 sequence's sender fails or is stopped

Otherwise the outer sequence waits for that item forever.
---
 include/exec/sequence/merge_each.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 397e312..01f988f 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -1029,7 +1029,7 @@ namespace experimental::execution
           if constexpr (!__is_nothrow)
           {
             __op_->store_error(std::current_exception());
-            __op_->nested_sequence_break();
+            __next_seq_op_->nested_sequence_break();
           }
         }
       }
@@ -1038,12 +1038,14 @@ namespace experimental::execution
       void set_error(_Error&& __error) noexcept
       {
         __op_->store_error(static_cast<_Error&&>(__error));
-        __op_->nested_sequence_break();
+        __next_seq_op_->nested_sequence_break();
       }
 
       void set_stopped() noexcept
       {
-        __op_->nested_sequence_complete();
+        auto* __op = __op_;
+        STDEXEC::set_stopped(static_cast<_NextReceiver&&>(__next_seq_op_->__rcvr_));
+        __op->nested_sequence_complete();
       }
 
       using __env_t = typename _OperationBase::__nested_stop_env_t;
-- 
2.43.0


From 6a134d9c0556ec4991acd94fa39483b2b014fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 09/48] fix: spawn_future state survives work that completes
 inline from the future's stop request

A stop request on the awaiting side runs __do_try_cancel, which calls
request_stop() on the state's stop source. Work that completes inline from
there completed the registered receiver and destroyed the state, including
the stop source whose request_stop() was still running. Leave the
destruction to __do_try_cancel in that case.
---
 include/stdexec/__detail/__spawn_future.hpp | 24 +++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/stdexec/__detail/__spawn_future.hpp b/include/stdexec/__detail/__spawn_future.hpp
index fd74006..d4d4b5e 100644
--- a/include/stdexec/__detail/__spawn_future.hpp
+++ b/include/stdexec/__detail/__spawn_future.hpp
@@ -374,9 +374,20 @@ namespace STDEXEC
       // be completed with set_stopped because the future received and processed a stop request
       // before the producer could finish.
       void (*__callback_)(__spawn_future_state*, void*) noexcept;
+      // Non-null while __do_try_cancel is inside request_stop(). If the producer completes inline
+      // from there and it's responsible for clean-up then it leaves that to __do_try_cancel, which
+      // still needs this object. Nobody else can get to __destroy in the meantime: the other owners
+      // first destroy the stop callback that is running __do_try_cancel and so wait for its return.
+      bool* __destroy_deferred_{nullptr};
 
       void __destroy() noexcept
       {
+        if (__destroy_deferred_ != nullptr)
+        {
+          *__destroy_deferred_ = true;
+          return;
+        }
+
         [[maybe_unused]]
         auto __assoc = std::move(__assoc_);
 
@@ -512,7 +523,20 @@ namespace STDEXEC
         //
         // This operation constitutes a write that must be published to whichever thread invokes
         // __destroy.
+        //
+        // The producer may complete inline from a stop callback and, if the consumer has already
+        // registered its receiver, it'd be up to the producer to destroy the object we're in.
+        bool __destroy_now = false;
+        __self->__destroy_deferred_ = &__destroy_now;
         __self->__stop_source_.request_stop();
+        __self->__destroy_deferred_ = nullptr;
+
+        if (__destroy_now)
+        {
+          // The receiver has been completed and so the future's operation may be gone, too.
+          __self->__destroy();
+          return;
+        }
 
         // If neither __complete nor __consume has been invoked then mark us as having stop requested.
         // This only succeeds if stop is requested very early in the process so it's quite unlikely.
-- 
2.43.0


From 3b75a9673bec20948f146674d605e080e79b5141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 10/48] fix: timed_thread_context completes operations that
 were still queued when it is destroyed

---
 include/exec/timed_thread_scheduler.hpp | 45 +++++++++++++++----------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index b19e5a2..4961ed2 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -149,29 +149,34 @@ namespace experimental::execution
     using stop_type    = _time_thrd_sched::timed_thread_stop_operation;
     using time_point   = std::chrono::steady_clock::time_point;
 
-    void run()
+    void process_commands()
     {
-      while (true)
+      while (command_type* op = command_queue_.pop_front())
       {
-        while (command_type* op = command_queue_.pop_front())
+        if (op->command_ == command_type::command_type::schedule)
         {
-          if (op->command_ == command_type::command_type::schedule)
+          auto* task  = static_cast<task_type*>(op);
+          task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
+          heap_.insert(task);
+        }
+        else
+        {
+          STDEXEC_ASSERT(op->command_ == command_type::command_type::stop);
+          auto* stop_op = static_cast<stop_type*>(op);
+          if (heap_.erase(stop_op->target_))
           {
-            auto* task  = static_cast<task_type*>(op);
-            task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
-            heap_.insert(task);
-          }
-          else
-          {
-            STDEXEC_ASSERT(op->command_ == command_type::command_type::stop);
-            auto* stop_op = static_cast<stop_type*>(op);
-            if (heap_.erase(stop_op->target_))
-            {
-              stop_op->target_->set_stopped_(stop_op->target_);
-            }
-            stop_op->set_value_(stop_op);
+            stop_op->target_->set_stopped_(stop_op->target_);
           }
+          stop_op->set_value_(stop_op);
         }
+      }
+    }
+
+    void run()
+    {
+      while (true)
+      {
+        process_commands();
         time_point now = std::chrono::steady_clock::now();
         task_type* op  = heap_.front();
         while (op && op->time_point_ <= now)
@@ -192,11 +197,15 @@ namespace experimental::execution
           while (
             !n_submissions_in_flight_.compare_exchange_weak(expected,
                                                             context_closed,
+                                                            STDEXEC::__std::memory_order_acquire,
                                                             STDEXEC::__std::memory_order_relaxed))
           {
             STDEXEC::__spin_loop_pause();
             expected = 0;
           }
+          // No submission is in flight any more, so the queue now holds everything that was submitted
+          // before the context was closed.
+          process_commands();
           op = heap_.front();
           while (op)
           {
@@ -235,7 +244,7 @@ namespace experimental::execution
         ready_ = true;
         cv_.notify_one();
       }
-      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
+      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_release);
     }
 
     void request_stop()
-- 
2.43.0


From e41232817a57af55ccbf804a00bff92515927015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 11/48] fix: timed_thread_context wakes up for commands behind
 a push that was still in progress

---
 include/exec/timed_thread_scheduler.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index 4961ed2..eb91c79 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -238,7 +238,9 @@ namespace experimental::execution
                                                          STDEXEC::__std::memory_order_relaxed);
         return;
       }
-      if (command_queue_.push_back(op))
+      // Always wake up the run thread: pop_front() returns nullptr while any push is still in
+      // progress, also for one that was not the first and for which push_back() returns false.
+      command_queue_.push_back(op);
       {
         std::scoped_lock lock{ready_mutex_};
         ready_ = true;
-- 
2.43.0


From af82ccd07b5c54cc652013ca421a67438573edfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 12/48] fix: timed_thread_scheduler honours a stop request that
 overtakes the schedule command

---
 include/exec/timed_thread_scheduler.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index eb91c79..3915c67 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -104,6 +104,8 @@ namespace experimental::execution
       timed_thread_schedule_operation_base* prev_  = nullptr;
       timed_thread_schedule_operation_base* left_  = nullptr;
       timed_thread_schedule_operation_base* right_ = nullptr;
+      // Only accessed by the run thread
+      bool stop_requested_ = false;
       void (*set_stopped_)(timed_thread_operation_base*) noexcept;
     };
 
@@ -155,7 +157,12 @@ namespace experimental::execution
       {
         if (op->command_ == command_type::command_type::schedule)
         {
-          auto* task  = static_cast<task_type*>(op);
+          auto* task = static_cast<task_type*>(op);
+          if (task->stop_requested_)
+          {
+            task->set_stopped_(task);
+            continue;
+          }
           task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
           heap_.insert(task);
         }
@@ -167,6 +174,11 @@ namespace experimental::execution
           {
             stop_op->target_->set_stopped_(stop_op->target_);
           }
+          else
+          {
+            // The target has completed already, or its schedule command comes after this one.
+            stop_op->target_->stop_requested_ = true;
+          }
           stop_op->set_value_(stop_op);
         }
       }
-- 
2.43.0


From 7d589f0f2288308c6a12cb7272db5a9724469cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 13/48] fix: inplace_stop_source may be destroyed by a callback
 of its own request_stop()

The callback may complete the operation that owns the stop source, for instance
the type-erased operation of exec::any_sender with a foreign stop token.
---
 include/stdexec/stop_token.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/stdexec/stop_token.hpp b/include/stdexec/stop_token.hpp
index 6c7bd03..e747877 100644
--- a/include/stdexec/stop_token.hpp
+++ b/include/stdexec/stop_token.hpp
@@ -158,6 +158,8 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
     mutable STDEXEC::__std::atomic<uint8_t>                __state_{0};
     mutable STDEXEC::__stok::__inplace_stop_callback_base* __callbacks_ = nullptr;
     std::thread::id                                        __notifying_thread_;
+    // Set while request_stop() executes a callback; only accessed by the notifying thread.
+    bool* __destroyed_during_callback_ = nullptr;
   };
 
   // [stoptoken.inplace], class inplace_stop_token
@@ -258,6 +260,10 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
   {
     STDEXEC_ASSERT((__state_.load(STDEXEC::__std::memory_order_relaxed) & __locked_flag_) == 0);
     STDEXEC_ASSERT(__callbacks_ == nullptr);
+    if (__destroyed_during_callback_ != nullptr)
+    {
+      *__destroyed_during_callback_ = true;
+    }
   }
 
   inline auto inplace_stop_source::request_stop() noexcept -> bool
@@ -281,6 +287,10 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
       bool __removed_during_callback       = false;
       __callbk->__removed_during_callback_ = &__removed_during_callback;
 
+      // The callback may complete the operation that owns this stop source, and so destroy it.
+      bool __destroyed_during_callback = false;
+      __destroyed_during_callback_     = &__destroyed_during_callback;
+
       __callbk->__execute();
 
       if (!__removed_during_callback)
@@ -289,6 +299,12 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
         __callbk->__callback_completed_.store(true, STDEXEC::__std::memory_order_release);
       }
 
+      if (__destroyed_during_callback)
+      {
+        return true;
+      }
+      __destroyed_during_callback_ = nullptr;
+
       __lock_();
     }
 
-- 
2.43.0


From e0011d12f2f4a5b3b9bb15f4eae3e12bb802f963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 14/48] fix: parallel_scheduler: release the backend when a
 schedule operation is not started or is stopped

---
 include/stdexec/__detail/__parallel_scheduler.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 5d0c290..069bfd9 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -209,6 +209,15 @@ namespace STDEXEC
 
       STDEXEC_IMMOVABLE(__system_op);
 
+      ~__system_op()
+      {
+        // The operation was never started, or it was stopped before the backend got involved.
+        if (__holds_sched_impl_)
+        {
+          std::destroy_at(&__preallocated_.__as<__backend_ptr_t>());
+        }
+      }
+
       /// Starts the work stored in `this`.
       void start() & noexcept
       {
@@ -221,6 +230,7 @@ namespace STDEXEC
         auto& __sched_impl = __preallocated_.__as<__backend_ptr_t>();
         auto  __impl       = std::move(__sched_impl);
         std::destroy_at(&__sched_impl);
+        __holds_sched_impl_ = false;
         __impl->schedule(__rcvr_, __preallocated_.__as_storage());
       }
 
@@ -233,6 +243,9 @@ namespace STDEXEC
       __aligned_storage<STDEXEC_PARALLEL_SCHEDULER_SCHEDULE_OP_SIZE,
                         STDEXEC_PARALLEL_SCHEDULER_SCHEDULE_OP_ALIGN>
         __preallocated_;
+
+      /// True as long as `__preallocated_` holds the backend interface.
+      bool __holds_sched_impl_ = true;
     };
   }  // namespace __detail
 
-- 
2.43.0


From 50df0e56a52bff75b603d77bbc46e85a194e394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 15/48] fix: parallel_scheduler: destroy the predecessor's
 operation when a bulk does not reach the backend

---
 include/stdexec/__detail/__parallel_scheduler.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 069bfd9..0986e35 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -610,12 +610,16 @@ namespace STDEXEC
       /// Preallocated space for storing the inner operation state, and then storage space for the backend call.
       __aligned_storage<_PreallocatedSize, _PreallocatedAlign> __preallocated_;
 
+      /// True as long as `__preallocated_` holds the inner operation state.
+      bool __holds_inner_op_ = false;
+
       /// Destroys the inner operation state object, and returns the preallocated storage for it to be used by the backend.
       static auto
       __prepare_storage_for_backend_impl(__bulk_state_base_t* __base) -> std::span<std::byte>
       {
         auto* __self = static_cast<__system_bulk_op*>(__base);
         // We don't need anymore the storage for the previous operation state.
+        __self->__holds_inner_op_ = false;
         __self->__preallocated_.template __as<__inner_op_state>().~__inner_op_state();
         // Reuse the preallocated storage for the backend.
         return __self->__preallocated_.__as_storage();
@@ -637,6 +641,16 @@ namespace STDEXEC
 
         // Start using the preallocated buffer to store the inner operation state.
         new (__preallocated_.__as_ptr()) __inner_op_state(static_cast<_InitF&&>(__initFunc)(*this));
+        __holds_inner_op_ = true;
+      }
+
+      ~__system_bulk_op()
+      {
+        // The operation was never started, or it completed without handing over to the backend.
+        if (__holds_inner_op_)
+        {
+          std::destroy_at(&__preallocated_.template __as<__inner_op_state>());
+        }
       }
 
       __system_bulk_op(__system_bulk_op const &)                    = delete;
-- 
2.43.0


From e9824ad3a39b3c52a8fe8672de47a9c9542ee81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:46 +0000
Subject: [PATCH 16/48] fix: parallel_scheduler: concurrent first uses share
 one backend

---
 .../__detail/__parallel_scheduler_default_impl.hpp     | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp b/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
index 86ce869..bdd9f00 100644
--- a/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
@@ -350,11 +350,15 @@ namespace STDEXEC::__parallel_scheduler_default_impl
       // Note: we are lazy-loading the instance to avoid creating it if it is not needed.
       auto __new_instance = __factory_.load(__std::memory_order_relaxed)();
 
-      // Store the newly created instance.
+      // Store the newly created instance, unless another thread stored one in the meantime.
       __acquire_instance_lock();
-      __instance_ = __new_instance;
+      if (!__instance_)
+      {
+        __instance_ = __new_instance;
+      }
+      __rcvr = __instance_;
       __release_instance_lock();
-      return __new_instance;
+      return __rcvr;
     }
 
     /// Set `__new_factory` as the new factory for `_Interface` and return the old one.
-- 
2.43.0


From 8aa8f203d705ddd390939c7d24f3d76a70beece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 17/48] fix: task_scheduler: forward stop requests of foreign
 stop tokens to the scheduler

---
 include/stdexec/__detail/__task_scheduler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 476a259..0b90c2e 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -312,6 +312,8 @@ namespace STDEXEC
 
       constexpr void start() noexcept
       {
+        // If the receiver's stop token is not one the backend understands, have it forwarded.
+        (void) __rcvr_proxy_.__register_stop_callback();
         __backend_.schedule(__rcvr_proxy_, std::span{__storage_});
       }
 
-- 
2.43.0


From 7339261de161bd7159095b99da56b4efc195b827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:15 +0000
Subject: [PATCH 18/48] fix: task_scheduler: report an exception of a bulk
 function once, when the bulk operation completes

---
 include/stdexec/__detail/__task_scheduler.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 0b90c2e..298c493 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -27,6 +27,7 @@ import stdexec;
 
 // include these after __execution_fwd.hpp
 #  include "__any.hpp"
+#  include "__atomic.hpp"
 #  include "__bulk.hpp"
 #  include "__concepts.hpp"
 #  include "__diagnostics.hpp"
@@ -513,6 +514,12 @@ namespace STDEXEC
 
       constexpr void set_value() noexcept final
       {
+        // If a call to execute() failed, the bulk operation completes with that error.
+        if (__failed_.load(__std::memory_order_acquire))
+        {
+          STDEXEC::set_error(std::move(this->__rcvr_), std::move(__error_));
+          return;
+        }
         // Send the stored values to the downstream receiver.
         __visit([](auto& __rcvr, auto& __tupl)
                 { __apply(STDEXEC::set_value, std::move(__tupl), std::move(__rcvr)); },
@@ -538,7 +545,12 @@ namespace STDEXEC
         }
         STDEXEC_CATCH_ALL
         {
-          STDEXEC::set_error(std::move(this->__rcvr_), std::current_exception());
+          // Other calls to execute() may still be running or yet to come, and the backend calls
+          // set_value() after the last of them, so only remember the first error here.
+          if (!__failed_.exchange(true, __std::memory_order_acq_rel))
+          {
+            __error_ = std::current_exception();
+          }
         }
       }
 
@@ -550,6 +562,8 @@ namespace STDEXEC
       size_t                       __shape_;
       _Values                      __values_{__no_init};
       __any_task_scheduler_backend __backend_;
+      __std::atomic<bool>          __failed_{false};
+      std::exception_ptr           __error_{};
       alignas(STDEXEC_TASK_BULK_SCHEDULE_OPSTATE_ALIGN) std::byte
         __storage_[STDEXEC_TASK_BULK_SCHEDULE_OPSTATE_SIZE];
     };
-- 
2.43.0


From 97607568ebd6ffc8df8fe64562ab8437088d5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:14 +0000
Subject: [PATCH 19/48] fix: task_scheduler: run a sequential bulk once, not
 once per iteration

---
 include/stdexec/__detail/__task_scheduler.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 298c493..339b9d8 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -383,16 +383,22 @@ namespace STDEXEC
           using __values_t = __decayed_tuple<_As...>;
           __state_->__values_.template emplace<__values_t>(static_cast<_As&&>(__as)...);
 
-          // Start the bulk operation.
+          // Start the bulk operation. If we are not parallelizing, execute() runs the entire
+          // range, so it must be called only once.
+          using __policy_t = std::remove_cvref_t<decltype(__declval<_Policy>().__get())>;
+          constexpr bool __parallelize =
+            __same_as<__policy_t, STDEXEC::parallel_policy>
+            || __same_as<__policy_t, STDEXEC::parallel_unsequenced_policy>;
+          size_t const __shape = __parallelize ? __state_->__shape_ : 1;
           if constexpr (__same_as<_BulkTag, bulk_chunked_t>)
           {
-            __state_->__backend_.schedule_bulk_chunked(__state_->__shape_,
+            __state_->__backend_.schedule_bulk_chunked(__shape,
                                                        *__state_,
                                                        std::span{__state_->__storage_});
           }
           else
           {
-            __state_->__backend_.schedule_bulk_unchunked(__state_->__shape_,
+            __state_->__backend_.schedule_bulk_unchunked(__shape,
                                                          *__state_,
                                                          std::span{__state_->__storage_});
           }
-- 
2.43.0


From 0fad78c3f0c170812826198b8e85f3e0a6c471f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 20/48] fix: task_scheduler: report a backend's error in a bulk
 operation instead of running into unreachable code

---
 .../__detail/__parallel_scheduler_backend.hpp        |  9 +++++++--
 include/stdexec/__detail/__task_scheduler.hpp        | 12 ++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler_backend.hpp b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
index c18c4cc..001dc83 100644
--- a/include/stdexec/__detail/__parallel_scheduler_backend.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
@@ -204,7 +204,12 @@ namespace STDEXEC
 
     // Partially implements the _RcvrProxy interface (either receiver_proxy or
     // bulk_item_receiver_proxy) in terms of a concrete receiver type _Rcvr.
-    template <class _Rcvr, class _RcvrProxy, bool _Infallible = false>
+    // If _Infallible is true, set_error is never called on it. If _NeverStops is true, set_stopped
+    // is never called on it unless _Rcvr's stop token is stoppable.
+    template <class _Rcvr,
+              class _RcvrProxy,
+              bool _Infallible = false,
+              bool _NeverStops = _Infallible>
     struct STDEXEC_ATTRIBUTE(empty_bases) __receiver_proxy_base
       : _RcvrProxy
       , __stop_callback_for<stop_token_of_t<env_of_t<_Rcvr>>>
@@ -249,7 +254,7 @@ namespace STDEXEC
 
       constexpr void set_stopped() noexcept final
       {
-        if constexpr (_Infallible && unstoppable_token<__stop_token_t>)
+        if constexpr (_NeverStops && unstoppable_token<__stop_token_t>)
         {
           STDEXEC_ASSERT(!+"set_stopped called on an unstoppable receiver proxy");
           __std::unreachable();
diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 339b9d8..407d49d 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -506,7 +506,7 @@ namespace STDEXEC
     //! downstream receiver.
     template <class _BulkTag, class _Policy, class _Fn, class _Rcvr, class _Values>
     struct __bulk_state final
-      : __detail::__receiver_proxy_base<_Rcvr, bulk_item_receiver_proxy, true>
+      : __detail::__receiver_proxy_base<_Rcvr, bulk_item_receiver_proxy, false, true>
     {
       constexpr explicit __bulk_state(_Rcvr                        __rcvr,
                                       size_t                       __shape,
@@ -860,11 +860,11 @@ namespace STDEXEC
   {
     // Implementation of the get_start_scheduler_t query for __receiver_proxy_base and
     // __proxy_env from __parallel_scheduler_backend.hpp.
-    template <class _Rcvr, class _Proxy, bool _Infallible>
-    constexpr void
-    __receiver_proxy_base<_Rcvr, _Proxy, _Infallible>::__query(get_start_scheduler_t,
-                                                               __type_index __value_type,
-                                                               void*        __dest) const noexcept
+    template <class _Rcvr, class _Proxy, bool _Infallible, bool _NeverStops>
+    constexpr void __receiver_proxy_base<_Rcvr, _Proxy, _Infallible, _NeverStops>::__query(
+      get_start_scheduler_t,
+      __type_index __value_type,
+      void*        __dest) const noexcept
     {
       if (__value_type == __mtypeid<task_scheduler>)
       {
-- 
2.43.0


From ba4584fd99046b75f11c56a360826aa5fc558bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 21/48] fix: reschedule_coroutine_on reports a failing
 scheduler instead of terminating

---
 include/exec/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 1b0cbda..3360bbb 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -468,7 +468,7 @@ namespace experimental::execution
         }
       }
 
-      void await_resume() noexcept
+      void await_resume()
       {
         if (__eptr_)
         {
-- 
2.43.0


From e6937a12768dd7674ae0086894a4d9c610c48eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:48 +0000
Subject: [PATCH 22/48] fix: io_uring timers started on a stopped context
 complete with stopped

__n_ops_ was only raised to one when the operation was submitted to the ring, so an operation that
was stopped before that (because the context had stopped already) decremented it to -1 and never
completed.
---
 include/exec/linux/io_uring_context.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 011cf1f..4f74f4d 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -1030,9 +1030,7 @@ namespace experimental::execution
 
       void submit(::io_uring_sqe& __sqe) noexcept
       {
-        [[maybe_unused]]
-        int prev = __n_ops_.fetch_add(1, STDEXEC::__std::memory_order_relaxed);
-        STDEXEC_ASSERT(prev == 0);
+        STDEXEC_ASSERT(__n_ops_.load(STDEXEC::__std::memory_order_relaxed) == 1);
         __context&    __context_ = this->__base_.context();
         __receiver_t& __receiver = this->__base_.receiver();
         __on_context_stop_.emplace(__context_.get_stop_token(), __stop_callback{this});
@@ -1062,7 +1060,8 @@ namespace experimental::execution
       }
 
       __stop_operation<__stoppable_task_facade> __stop_operation_;
-      STDEXEC::__std::atomic<int>               __n_ops_{0};
+      // The operation itself, which may complete without ever being submitted, and its stop operation.
+      STDEXEC::__std::atomic<int>               __n_ops_{1};
       __on_context_stop_t                       __on_context_stop_{};
       __on_receiver_stop_t                      __on_receiver_stop_{};
     };
-- 
2.43.0


From be12c97c602c739e13d282ab3dc4a157a104277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 23/48] fix: io_uring stop operations left over when the
 context stops are completed

A stop operation that was pushed after its target had left the ring, while run_until_stopped() shuts the
request queue, was submitted to a ring nobody enters any more; its target never completed.
---
 include/exec/linux/io_uring_context.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 4f74f4d..7894593 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -614,13 +614,11 @@ namespace experimental::execution
           // There could have been requests in flight. Complete all of them
           // and then stop it, finally.
           __pending_.append(__requests_.pop_all_reversed());
-          __submission_result __result = __submission_queue_.submit(static_cast<__task_queue&&>(
-                                                                      __pending_),
-                                                                    __params_.cq_entries,
-                                                                    true);
-          STDEXEC_ASSERT(__result.__n_submitted == 0);
-          STDEXEC_ASSERT(__result.__pending.empty());
-          __completion_queue_.complete(static_cast<__task_queue&&>(__result.__ready));
+          while (!__pending_.empty())
+          {
+            // This includes stop operations whose target has already left the ring.
+            __stop(__pending_.pop_front());
+          }
         }
       }
 
-- 
2.43.0


From 8a92ff707881d2353ba3c562d34de6defef92464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:57 +0000
Subject: [PATCH 24/48] fix: the io_uring wakeup operation is not started twice

Every pass of run_until_stopped() that follows one ended by finish() or by run_until_empty() queued
the wakeup operation again while it was still in flight. With two reads of the eventfd pending, the
number of submitted operations never dropped to one and a single write could not end both: the second
run_until_empty() and a later request_stop() hung.
---
 include/exec/linux/io_uring_context.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 7894593..d22a20c 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -340,8 +340,9 @@ namespace experimental::execution
 
     struct __wakeup_operation : __task
     {
-      __context* __context_ = nullptr;
-      int        __eventfd_ = -1;
+      __context* __context_  = nullptr;
+      int        __eventfd_  = -1;
+      bool       __is_armed_ = false;  // waiting for submission or in flight
 #    ifdef STDEXEC_HAS_IORING_OP_READ
       std::uint64_t __buffer_ = 0;
 #    else
@@ -372,6 +373,7 @@ namespace experimental::execution
       static void __complete_(__task* __pointer, ::io_uring_cqe const &) noexcept
       {
         __wakeup_operation& __self = *static_cast<__wakeup_operation*>(__pointer);
+        __self.__is_armed_         = false;
         __self.start();
       }
 
@@ -558,7 +560,7 @@ namespace experimental::execution
           }
           else
           {
-            // This can only happen for the very first pass of run_until_stopped()
+            // A previous pass that was not stopped may have left the wakeup operation in flight.
             __wakeup_operation_.start();
           }
         }
@@ -741,8 +743,9 @@ namespace experimental::execution
 
     inline void __wakeup_operation::start() & noexcept
     {
-      if (!__context_->__stop_source_->stop_requested())
+      if (!__is_armed_ && !__context_->__stop_source_->stop_requested())
       {
+        __is_armed_ = true;
         __context_->__pending_.push_front(this);
       }
     }
-- 
2.43.0


From 8196fdb4ccf127202dc4cdd91feb0ec01e463baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:56 +0000
Subject: [PATCH 25/48] fix: io_uring_context does not wait while tasks are
 left to submit

When more tasks were queued than the submission queue has entries, run_until_stopped() entered the ring,
which makes room for the rest, and then waited for an unrelated completion before it submitted them.
---
 include/exec/linux/io_uring_context.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index d22a20c..388455a 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -577,7 +577,9 @@ namespace experimental::execution
             __break_loop_.store(false, STDEXEC::__std::memory_order_relaxed);
             break;
           }
-          constexpr int __min_complete = 1;
+          // Do not wait while there are tasks left that fit into the ring once it has been entered.
+          bool const __has_room = std::cmp_less(__n_total_submitted_, __params_.cq_entries);
+          unsigned const __min_complete = !__pending_.empty() && __has_room ? 0 : 1;
           STDEXEC_ASSERT(0 <= __n_total_submitted_
                          && std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
           int rc = __io_uring_enter(__ring_fd_,
-- 
2.43.0


From 9706496db6be40f9220d9e3e3254d9579fbf4833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:14 +0000
Subject: [PATCH 26/48] fix: an io_uring stop operation is enqueued only once

When an operation had left the ring while its stop operation was still queued, a second stop request
(by the context after the receiver, or vice versa) mistook __n_ops_ == 1 for an operation in flight and
pushed the stop operation again, which corrupted the request queue and lost completions.
---
 include/exec/linux/io_uring_context.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 388455a..e18577d 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -893,7 +893,8 @@ namespace experimental::execution
 
       static constexpr __task_vtable __vtable{&__ready_, &__submit_, &__complete_};
 
-      _Base* __op_;
+      _Base*                       __op_;
+      STDEXEC::__std::atomic<bool> __is_started_{false};
      public:
       explicit __stop_operation(_Base* __op) noexcept
         : __task(__vtable)
@@ -930,6 +931,12 @@ namespace experimental::execution
 
       void start() & noexcept
       {
+        // Both the context and the receiver may request stop, but this can be enqueued only once. Note
+        // that __n_ops_ is also one when the operation has left the ring and this has not.
+        if (__is_started_.exchange(true, STDEXEC::__std::memory_order_relaxed))
+        {
+          return;
+        }
         int expected = 1;
         if (__op_->__n_ops_.compare_exchange_strong(expected,
                                                     2,
-- 
2.43.0


From 1fc6fc756e0dd649cf11cde5d5f2c0343b5bc924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 27/48] fix: io_uring_context keeps listening for requests
 while it is being stopped

The wakeup operation was not started again once stop was requested. If an earlier wakeup was consumed
between the stop request and the arrival of the stop operations, nobody noticed the latter, and
run_until_stopped() blocked until the timers expired by themselves. Likewise, a task that followed a
cancellation in the same batch was submitted although the context was stopped.
---
 include/exec/linux/io_uring_context.hpp | 55 ++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index e18577d..731a9cd 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -230,11 +230,14 @@ namespace experimental::execution
       // Each task that is ready to be completed is moved to the __ready queue.
       // If the submission queue gets full before all tasks are submitted, the
       // remaining tasks are moved to the __pending queue.
-      // If is_stopped is true, no new tasks are submitted to the io_uring unless it is a cancellation.
+      // If is_stopped is true, no new tasks are submitted to the io_uring unless it is a cancellation
+      // or the given wakeup operation.
       // If is_stopped is true and a task is not ready to be completed, the task is completed with
       // an io_uring_cqe object with the result field set to -ECANCELED.
-      auto submit(__task_queue __tasks, __u32 __max_submissions, bool __is_stopped) noexcept
-        -> __submission_result
+      auto submit(__task_queue   __tasks,
+                  __u32          __max_submissions,
+                  bool           __is_stopped,
+                  __task const * __wakeup = nullptr) noexcept -> __submission_result
       {
         __u32 __tail          = __tail_.load(STDEXEC::__std::memory_order_relaxed);
         __u32 __head          = __head_.load(STDEXEC::__std::memory_order_acquire);
@@ -258,9 +261,11 @@ namespace experimental::execution
           {
             __op->__vtable_->__submit_(__op, __sqe);
 #    ifdef STDEXEC_HAS_IO_URING_ASYNC_CANCELLATION
-            __is_stopped = __is_stopped && __sqe.opcode != IORING_OP_ASYNC_CANCEL;
+            bool const __is_cancel = __sqe.opcode == IORING_OP_ASYNC_CANCEL;
+#    else
+            bool const __is_cancel = false;
 #    endif
-            if (__is_stopped)
+            if (__is_stopped && !__is_cancel && __op != __wakeup)
             {
               __stop(__op);
             }
@@ -386,6 +391,8 @@ namespace experimental::execution
       {}
 
       void start() & noexcept;
+
+      void __arm() noexcept;
     };
 
     class __scheduler;
@@ -510,11 +517,12 @@ namespace experimental::execution
         STDEXEC_ASSERT(0 <= __n_total_submitted_
                        && std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
         __u32 __max_submissions = __params_.cq_entries - static_cast<__u32>(__n_total_submitted_);
-        __pending_.append(__requests_.pop_all_reversed());
+        __pop_requests();
         __submission_result __result = __submission_queue_.submit(static_cast<__task_queue&&>(
                                                                     __pending_),
                                                                   __max_submissions,
-                                                                  __stop_source_->stop_requested());
+                                                                  __stop_source_->stop_requested(),
+                                                                  &__wakeup_operation_);
         __n_total_submitted_ += __result.__n_submitted;
         __n_newly_submitted_ += __result.__n_submitted;
         STDEXEC_ASSERT(std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
@@ -524,11 +532,12 @@ namespace experimental::execution
           __n_total_submitted_ -= __completion_queue_.complete(
             static_cast<__task_queue&&>(__result.__ready));
           STDEXEC_ASSERT(0 <= __n_total_submitted_);
-          __pending_.append(__requests_.pop_all_reversed());
+          __pop_requests();
           __max_submissions = __params_.cq_entries - static_cast<__u32>(__n_total_submitted_);
           __result          = __submission_queue_.submit(static_cast<__task_queue&&>(__pending_),
                                                 __max_submissions,
-                                                __stop_source_->stop_requested());
+                                                __stop_source_->stop_requested(),
+                                                &__wakeup_operation_);
           __n_total_submitted_ += __result.__n_submitted;
           __n_newly_submitted_ += __result.__n_submitted;
           STDEXEC_ASSERT(std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
@@ -582,6 +591,12 @@ namespace experimental::execution
           unsigned const __min_complete = !__pending_.empty() && __has_room ? 0 : 1;
           STDEXEC_ASSERT(0 <= __n_total_submitted_
                          && std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
+          if (__n_total_submitted_ == 1 && __wakeup_operation_.__is_armed_ && __pending_.empty()
+              && __stop_source_->stop_requested())
+          {
+            // Only the wakeup operation is left. Let it complete, too.
+            wakeup();
+          }
           int rc = __io_uring_enter(__ring_fd_,
                                     static_cast<unsigned>(__n_newly_submitted_),
                                     __min_complete,
@@ -726,6 +741,18 @@ namespace experimental::execution
      private:
       friend struct __wakeup_operation;
 
+      // Moves the requests of other threads to the queue of pending tasks. As long as there is anything
+      // else to wait for, the wakeup operation has to be, too: while the context is being stopped, stop
+      // operations still arrive as requests.
+      void __pop_requests() noexcept
+      {
+        __pending_.append(__requests_.pop_all_reversed());
+        if (__n_total_submitted_ > 0 || !__pending_.empty())
+        {
+          __wakeup_operation_.__arm();
+        }
+      }
+
       // This constant is used for __n_submissions_in_flight to indicate that no new submissions
       // to this context will be completed by this context.
       static constexpr int __no_new_submissions = -1;
@@ -745,7 +772,15 @@ namespace experimental::execution
 
     inline void __wakeup_operation::start() & noexcept
     {
-      if (!__is_armed_ && !__context_->__stop_source_->stop_requested())
+      if (!__context_->__stop_source_->stop_requested())
+      {
+        __arm();
+      }
+    }
+
+    inline void __wakeup_operation::__arm() noexcept
+    {
+      if (!__is_armed_)
       {
         __is_armed_ = true;
         __context_->__pending_.push_front(this);
-- 
2.43.0


From ca9a20308fb5efd7da8184bd2580752b0cd22d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:53 +0000
Subject: [PATCH 28/48] fix: the two halves of an io_uring operation
 synchronize

An operation may be completed by its stop operation on the thread that requested stop; the relaxed
counter did not make the registrations of its stop callbacks visible there.
---
 include/exec/linux/io_uring_context.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 731a9cd..7f56e18 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -956,7 +956,7 @@ namespace experimental::execution
 
       void complete(::io_uring_cqe const &) noexcept
       {
-        if (__op_->__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) == 1)
+        if (__op_->__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_acq_rel) == 1)
         {
           __op_->__on_context_stop_.reset();
           __op_->__on_receiver_stop_.reset();
@@ -1086,7 +1086,7 @@ namespace experimental::execution
 
       void complete(::io_uring_cqe const & __cqe) noexcept
       {
-        if (__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) == 1)
+        if (__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_acq_rel) == 1)
         {
           __on_context_stop_.reset();
           __on_receiver_stop_.reset();
-- 
2.43.0


From 7ac8b687abd55c3f6536189552fdb592e1781add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:03 +0000
Subject: [PATCH 29/48] fix: io_uring_context::run() completes once when it
 fails

It went on to complete with set_value or set_stopped after set_error.
---
 include/exec/linux/io_uring_context.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 7f56e18..fd230d8 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -686,6 +686,7 @@ namespace experimental::execution
           {
             __callback.reset();
             STDEXEC::set_error(static_cast<_Rcvr&&>(__rcvr_), std::current_exception());
+            return;
           }
           __callback.reset();
           if (__context_.stop_requested())
-- 
2.43.0


From ba8cb4fc2b0bbdc0f13e8ab05d8e22351cf5e515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:18 +0000
Subject: [PATCH 30/48] fix: a failing io_uring_setup is reported with its
 error code

syscall() returns -1 and sets errno; the error was always reported as EPERM.
---
 include/exec/linux/io_uring_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index fd230d8..00511aa 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -72,7 +72,7 @@ namespace experimental::execution
     __io_uring_setup(unsigned __entries, ::io_uring_params& __params) -> safe_file_descriptor
     {
       int rc = static_cast<int>(::syscall(__NR_io_uring_setup, __entries, &__params));
-      __throw_error_code_if(rc < 0, -rc);
+      __throw_error_code_if(rc < 0, errno);
       return safe_file_descriptor{rc};
     }
 
-- 
2.43.0


From 2c9f73dd6ec86eb56bedc77429f7cb67b7804c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:00 +0000
Subject: [PATCH 31/48] fix: io_uring_context leaves the loop early only when
 it is idle

A run that was to end when empty could end while it was being stopped with a timer instead of the wakeup
operation in the ring; that timer never completed. And a run that ended because of a stop left the
request to break out of the loop behind, so that the next run_until_stopped() returned at once.
---
 include/exec/linux/io_uring_context.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 00511aa..2f8bef0 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -579,11 +579,12 @@ namespace experimental::execution
         while (__n_total_submitted_ > 0 || !__pending_.empty())
         {
           run_some();
+          // The wakeup operation may stay in the ring, unless the context is being stopped.
           if (__n_total_submitted_ == 0
-              || (__n_total_submitted_ == 1
-                  && __break_loop_.load(STDEXEC::__std::memory_order_acquire)))
+              || (__n_total_submitted_ == 1 && __wakeup_operation_.__is_armed_
+                  && __break_loop_.load(STDEXEC::__std::memory_order_acquire)
+                  && !__stop_source_->stop_requested()))
           {
-            __break_loop_.store(false, STDEXEC::__std::memory_order_relaxed);
             break;
           }
           // Do not wait while there are tasks left that fit into the ring once it has been entered.
@@ -611,10 +612,10 @@ namespace experimental::execution
           STDEXEC_ASSERT(0 <= __n_total_submitted_);
           __pending_.append(__requests_.pop_all_reversed());
         }
+        __break_loop_.store(false, STDEXEC::__std::memory_order_relaxed);
         STDEXEC_ASSERT(__n_total_submitted_ <= 1);
-        if (__stop_source_->stop_requested() && __pending_.empty())
+        if (__n_total_submitted_ == 0 && __stop_source_->stop_requested() && __pending_.empty())
         {
-          STDEXEC_ASSERT(__n_total_submitted_ == 0);
           // try to shutdown the request queue
           int __n_in_flight_expected = 0;
           while (
-- 
2.43.0


From 335865ddda6d5c18bdb15264db2bd1758477d9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 32/48] fix: a rejected io_uring run_until_empty() leaves the
 running loop alone

It set the request to break out of the loop before it found that the context was already running, which
ended the other thread's run_until_stopped().
---
 include/exec/linux/io_uring_context.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 2f8bef0..377e53d 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -546,6 +546,12 @@ namespace experimental::execution
       }
 
       void run_until_stopped()
+      {
+        __run(until::stopped);
+      }
+
+     private:
+      void __run(until __mode)
       {
         bool expected_running = false;
         // Only one thread of execution is allowed to drive the io context.
@@ -558,6 +564,10 @@ namespace experimental::execution
         }
         else
         {
+          if (__mode == until::empty)
+          {
+            __break_loop_.store(true, STDEXEC::__std::memory_order_relaxed);
+          }
           // Check whether we restart the context after a context-wide stop.
           // We have to reset the stop source in this case.
           int __in_flight = __n_submissions_in_flight_.load(STDEXEC::__std::memory_order_relaxed);
@@ -642,6 +652,7 @@ namespace experimental::execution
         }
       }
 
+     public:
       struct __on_stop
       {
         __context& __context_;
@@ -734,8 +745,7 @@ namespace experimental::execution
 
       void run_until_empty()
       {
-        __break_loop_.store(true, STDEXEC::__std::memory_order_relaxed);
-        run_until_stopped();
+        __run(until::empty);
       }
 
       auto get_scheduler() noexcept -> __scheduler;
-- 
2.43.0


From 9ed2b055b0b8cb3084eeef1851199765ec87a42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 33/48] fix: finally runs its final sender when the initial
 outcome cannot be stored

Storing the initial sender's results may throw; the operation then completed
with the exception without ever starting the final sender.  Store the
exception as the outcome instead.  Connecting either sender may throw as well,
so connect is no longer unconditionally noexcept, and errors, which are stored
decayed, are advertised that way.
---
 include/stdexec/__detail/__finally.hpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/stdexec/__detail/__finally.hpp b/include/stdexec/__detail/__finally.hpp
index 82565d3..4c0f4ba 100644
--- a/include/stdexec/__detail/__finally.hpp
+++ b/include/stdexec/__detail/__finally.hpp
@@ -167,7 +167,8 @@ namespace STDEXEC
       constexpr explicit __final_opstate(__cleanup_callback_t* __cleanup_callback,
                                          _CvFinalSender&&      __final,
                                          _Receiver&&           __rcvr,
-                                         _Env2                 __env2) noexcept
+                                         _Env2                 __env2)
+        noexcept(__nothrow_connectable<_CvFinalSender, __final_receiver_t>)
         : __opstate_base<_Storage, _Receiver, _Env2>{static_cast<_Receiver&&>(__rcvr),
                                                      static_cast<_Env2&&>(__env2)}
         , __cleanup_callback_{__cleanup_callback}
@@ -191,17 +192,18 @@ namespace STDEXEC
           {
             using __tuple_t = __decayed_tuple<_Args...>;
             this->__result_.template emplace<__tuple_t>(static_cast<_Args&&>(__args)...);
-            (*__cleanup_callback_)(this);
-            STDEXEC::start(this->__final_opstate_);
           }
           STDEXEC_CATCH_ALL
           {
+            // The final sender has to run even if the initial sender's results cannot be stored.
             if constexpr (!__nothrow_decay_copyable<_Args...>)
             {
-              (*__cleanup_callback_)(this);
-              STDEXEC::set_error(static_cast<_Receiver&&>(this->__rcvr_), std::current_exception());
+              using __tuple_t = __tuple<set_error_t, std::exception_ptr>;
+              this->__result_.template emplace<__tuple_t>(set_error, std::current_exception());
             }
           }
+          (*__cleanup_callback_)(this);
+          STDEXEC::start(this->__final_opstate_);
         }
       }
 
@@ -230,6 +232,8 @@ namespace STDEXEC
       constexpr explicit __opstate(_CvInitialSender&& __initial,
                                    _CvFinalSender&&   __final,
                                    _Receiver          __rcvr)
+        noexcept(__nothrow_connectable<_CvInitialSender, __initial_receiver_t>
+                 && __nothrow_connectable<_CvFinalSender, typename __base_t::__final_receiver_t>)
         : __base_t(&__cleanup_initial_opstate,
                    static_cast<_CvFinalSender&&>(__final),
                    static_cast<_Receiver&&>(__rcvr),
@@ -335,10 +339,11 @@ namespace STDEXEC
           {
             // The finally sender's completion signatures are ...
             return STDEXEC::__concat_completion_signatures(
-              // ... the initial sender's completions with value types decayed ...
+              // ... the initial sender's completions with argument types decayed ...
               STDEXEC::__transform_completion_signatures(
                 __initial_completions,
-                __decay_arguments<set_value_t, __finally_t>()),
+                __decay_arguments<set_value_t, __finally_t>(),
+                __decay_arguments<set_error_t, __finally_t>()),
               // ... and the final sender's error and stopped completions ...
               STDEXEC::__transform_completion_signatures(__final_completions,
                                                          __ignore_completion()));
@@ -359,8 +364,11 @@ namespace STDEXEC
 
       template <__decays_to<__sender> _Self, class _Receiver>
       STDEXEC_EXPLICIT_THIS_BEGIN(auto connect)(this _Self&& __self,
-                                                _Receiver&&  __receiver) noexcept
-        -> __opstate_t<_Self, _Receiver>
+                                                _Receiver&&  __receiver)
+        noexcept(__nothrow_constructible_from<__opstate_t<_Self, _Receiver>,
+                                              __copy_cvref_t<_Self, _InitialSender>,
+                                              __copy_cvref_t<_Self, _FinalSender>,
+                                              _Receiver>) -> __opstate_t<_Self, _Receiver>
       {
         return __opstate_t<_Self, _Receiver>{static_cast<_Self&&>(__self).__initial_sndr_,
                                              static_cast<_Self&&>(__self).__final_sndr_,
-- 
2.43.0


From acf4b938db0b6dc45b41bd210255f2dead3ba92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 34/48] fix: fork_join's connect is not noexcept

Connecting its child, or applying its closures, may throw; that terminated the
program.
---
 include/exec/fork_join.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/fork_join.hpp b/include/exec/fork_join.hpp
index f2b1f71..8279e56 100644
--- a/include/exec/fork_join.hpp
+++ b/include/exec/fork_join.hpp
@@ -130,7 +130,7 @@ namespace experimental::execution
       using _cache_sndr_t = _fork_join::_cache_sndr_t<_variant_t<_child_completions_t>, _domain_t>;
 
       STDEXEC_ATTRIBUTE(host, device)
-      constexpr explicit _opstate_t(Sndr&& sndr, Closures&& closures, Rcvr rcvr) noexcept
+      constexpr explicit _opstate_t(Sndr&& sndr, Closures&& closures, Rcvr rcvr)
         : _rcvr_(static_cast<Rcvr&&>(rcvr))
         , _fork_opstate_(STDEXEC::connect(STDEXEC::__apply(_mk_when_all_fn{},
                                                            static_cast<Closures&&>(closures),
@@ -266,7 +266,7 @@ namespace experimental::execution
       }
 
       static constexpr auto __connect =
-        []<class _Receiver, class _Sender>(_Sender&& __sndr, _Receiver __rcvr) noexcept
+        []<class _Receiver, class _Sender>(_Sender&& __sndr, _Receiver __rcvr)
         -> _fork_join::_opstate_t<STDEXEC::__child_of<_Sender>,
                                   STDEXEC::__data_of<_Sender>,
                                   _Receiver>
-- 
2.43.0


From d06eec2672d453428f082a2835c42189002054bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 35/48] fix: let's operation state is noexcept only if moving
 the function is

---
 include/stdexec/__detail/__let.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__let.hpp b/include/stdexec/__detail/__let.hpp
index 9777fcc..5304f2e 100644
--- a/include/stdexec/__detail/__let.hpp
+++ b/include/stdexec/__detail/__let.hpp
@@ -174,7 +174,8 @@ namespace STDEXEC
                                         _CvFn           __cv,
                                         _Sender const & __sndr,
                                         _Fun            __fn,
-                                        _Receiver&&     __rcvr) noexcept
+                                        _Receiver&&     __rcvr)
+        noexcept(__nothrow_move_constructible<_Fun>)
         : __rcvr_(static_cast<_Receiver&&>(__rcvr))
         , __fn_(STDEXEC::__allocator_aware_forward(static_cast<_Fun&&>(__fn), __rcvr_))
         // TODO(ericniebler): this needs a fallback:
-- 
2.43.0


From 174d20e8eba59ef2d7f59670c744e3cf9a52dc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 36/48] fix: static_thread_pool's completion scheduler keeps
 the thread and the node mask

---
 include/exec/static_thread_pool.hpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index 3073cfb..17e7ff6 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -353,7 +353,7 @@ namespace experimental::execution
             auto query(get_completion_scheduler_t<CPO>, __ignore = {}) const noexcept
               -> _static_thread_pool::scheduler
             {
-              return _static_thread_pool::scheduler{pool_, *queue_};
+              return _static_thread_pool::scheduler{pool_, *queue_, threadIndex_, nodemask_};
             }
 
             template <class CPO>
@@ -364,6 +364,8 @@ namespace experimental::execution
 
             _static_thread_pool& pool_;
             remote_queue*        queue_;
+            std::size_t          threadIndex_;
+            nodemask const *     nodemask_;
           };
 
          public:
@@ -385,7 +387,10 @@ namespace experimental::execution
           [[nodiscard]]
           auto get_env() const noexcept -> attrs
           {
-            return attrs{.pool_ = pool_, .queue_ = queue_};
+            return attrs{.pool_        = pool_,
+                         .queue_       = queue_,
+                         .threadIndex_ = threadIndex_,
+                         .nodemask_    = nodemask_};
           }
 
           template <receiver Receiver>
@@ -400,16 +405,18 @@ namespace experimental::execution
           explicit _sender(_static_thread_pool& pool,
                            remote_queue*        queue,
                            std::size_t          threadIndex,
-                           nodemask const &     constraints) noexcept
+                           nodemask const *     constraints) noexcept
             : pool_(pool)
             , queue_(queue)
             , threadIndex_(threadIndex)
-            , constraints_(constraints)
+            , nodemask_(constraints)
+            , constraints_(*constraints)
           {}
 
           _static_thread_pool& pool_;
           remote_queue*        queue_;
           std::size_t          threadIndex_{(std::numeric_limits<std::size_t>::max)()};
+          nodemask const *     nodemask_;
           nodemask             constraints_{};
         };
 
@@ -438,6 +445,16 @@ namespace experimental::execution
           , thread_idx_{threadIndex}
         {}
 
+        explicit scheduler(_static_thread_pool& pool,
+                           remote_queue&        queue,
+                           std::size_t          threadIndex,
+                           nodemask const *     mask) noexcept
+          : pool_(&pool)
+          , queue_{&queue}
+          , nodemask_{mask}
+          , thread_idx_{threadIndex}
+        {}
+
         _static_thread_pool* pool_;
         remote_queue*        queue_;
         nodemask const *     nodemask_ = &nodemask::any();
@@ -449,7 +466,7 @@ namespace experimental::execution
         [[nodiscard]]
         auto schedule() const noexcept -> _sender
         {
-          return _sender{*pool_, queue_, thread_idx_, *nodemask_};
+          return _sender{*pool_, queue_, thread_idx_, nodemask_};
         }
 
         [[nodiscard]]
-- 
2.43.0


From 0895b09368e95ba14ab8b721b258939faddc1e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:55 +0000
Subject: [PATCH 37/48] fix: affine's attributes answer with the child's
 attributes

---
 include/stdexec/__detail/__affine.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__affine.hpp b/include/stdexec/__detail/__affine.hpp
index 2306561..f7ee1d5 100644
--- a/include/stdexec/__detail/__affine.hpp
+++ b/include/stdexec/__detail/__affine.hpp
@@ -163,10 +163,11 @@ namespace STDEXEC
       template <__forwarding_query _Tag, class... _Args>
         requires(!__completion_query<_Tag>)
              && __queryable_with<env_of_t<_Sender>, _Tag, _Args const &...>
-      constexpr auto query(_Tag, _Args const &...) const noexcept
-        -> __query_result_t<env_of_t<_Sender>, _Tag, _Args const &...>
+      constexpr auto query(_Tag, _Args const &...__args) const
+        noexcept(__nothrow_queryable_with<env_of_t<_Sender>, _Tag, _Args const &...>)
+          -> __query_result_t<env_of_t<_Sender>, _Tag, _Args const &...>
       {
-        return __query_result_t<env_of_t<_Sender>, _Tag, _Args const &...>{};
+        return __query<_Tag>()(STDEXEC::get_env(__sndr_), __args...);
       }
 
       _Sender const &__sndr_;
-- 
2.43.0


From 3cd345fe96c197832b5f8258c43777b3e5dbaed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:55 +0000
Subject: [PATCH 38/48] fix: repeat_until advertises exception_ptr when
 connecting its child may throw

Every iteration connects a copy of the child, so the completion signatures have
to depend on whether connecting an lvalue of it can throw.
---
 include/exec/repeat_until.hpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/exec/repeat_until.hpp b/include/exec/repeat_until.hpp
index 0cfb494..afaffc2 100644
--- a/include/exec/repeat_until.hpp
+++ b/include/exec/repeat_until.hpp
@@ -147,6 +147,16 @@ namespace experimental::execution
       __opstate_base<_Receiver> *__state_;
     };
 
+    template <class _Child>
+    using __bouncy_sndr_t =
+      __result_of<exec::sequence, schedule_result_t<trampoline_scheduler>, _Child &>;
+
+    template <class _Child, class _Receiver>
+    constexpr bool __nothrow_connect =
+      __nothrow_invocable<STDEXEC::schedule_t, trampoline_scheduler>
+      && __nothrow_invocable<sequence_t, schedule_result_t<trampoline_scheduler>, _Child &>
+      && __nothrow_connectable<__bouncy_sndr_t<_Child>, _Receiver>;
+
     STDEXEC_PRAGMA_PUSH()
     STDEXEC_PRAGMA_IGNORE_GNU("-Wtsan")
 
@@ -154,17 +164,10 @@ namespace experimental::execution
     struct __opstate final : __opstate_base<_Receiver>
     {
       using __receiver_t = __receiver<_Receiver>;
-      using __bouncy_sndr_t =
-        __result_of<exec::sequence, schedule_result_t<trampoline_scheduler>, _Child &>;
-      using __child_op_t = STDEXEC::connect_result_t<__bouncy_sndr_t, __receiver_t>;
-
-      static constexpr bool __nothrow_connect =
-        __nothrow_invocable<STDEXEC::schedule_t, trampoline_scheduler>
-        && __nothrow_invocable<sequence_t, schedule_result_t<trampoline_scheduler>, _Child &>
-        && __nothrow_connectable<__bouncy_sndr_t, __receiver_t>;
+      using __child_op_t = STDEXEC::connect_result_t<__bouncy_sndr_t<_Child>, __receiver_t>;
 
       constexpr explicit __opstate(_Child __child, _Receiver __rcvr)
-        noexcept(__nothrow_move_constructible<_Child> && __nothrow_connect)
+        noexcept(__nothrow_move_constructible<_Child> && __nothrow_connect<_Child, __receiver_t>)
         : __opstate_base<_Receiver>(std::move(__rcvr))
         , __child_(std::move(__child))
       {
@@ -176,7 +179,7 @@ namespace experimental::execution
         STDEXEC::start(*__child_op_);
       }
 
-      constexpr auto __connect() noexcept(__nothrow_connect) -> __child_op_t &
+      constexpr auto __connect() noexcept(__nothrow_connect<_Child, __receiver_t>) -> __child_op_t &
       {
         return __child_op_.__emplace_from(STDEXEC::connect,
                                           exec::sequence(STDEXEC::schedule(trampoline_scheduler{}),
@@ -197,7 +200,7 @@ namespace experimental::execution
         }
         STDEXEC_CATCH_ALL
         {
-          if constexpr (!__nothrow_connect)
+          if constexpr (!__nothrow_connect<_Child, __receiver_t>)
           {
             STDEXEC::set_error(static_cast<_Receiver &&>(this->__rcvr_), std::current_exception());
           }
@@ -301,7 +304,7 @@ namespace experimental::execution
           else
           {
             using __has_nothrow_connect_t =
-              __mbool<(__nothrow_connectable<__child_t, __receiver_archetype<_Env>> || ...)>;
+              __mbool<(__nothrow_connect<__decay_t<__child_t>, __receiver_archetype<_Env>> || ...)>;
             constexpr auto __eptr_sigs    = __eptr_completion_unless_t<__has_nothrow_connect_t>();
             constexpr auto __bouncer_sigs = exec::transform_completion_signatures(
               get_completion_signatures<__bouncer_t, _Env...>(),
-- 
2.43.0


From 21438be5e0c4dcd537a60e446aacfaa0c06c05a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:55 +0000
Subject: [PATCH 39/48] fix: start_now is noexcept only if connecting its
 senders is

---
 include/exec/start_now.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/exec/start_now.hpp b/include/exec/start_now.hpp
index b445231..72685e0 100644
--- a/include/exec/start_now.hpp
+++ b/include/exec/start_now.hpp
@@ -213,6 +213,11 @@ namespace experimental::execution
       }
     };
 
+    template <class _AsyncScope, class _Sender, class _Env>
+    concept __nothrow_nest =
+      STDEXEC::__nothrow_move_constructible<_Sender>
+      && STDEXEC::__nothrow_connectable<nest_result_t<_AsyncScope, _Sender>, __receiver<_Env>>;
+
     struct start_now_t
     {
       template <STDEXEC::__queryable         _Env,
@@ -220,7 +225,10 @@ namespace experimental::execution
                 STDEXEC::sender... _Sender>
       constexpr auto operator()(_Env __env, _AsyncScope& __scope, _Sender&&... __sndr) const
         noexcept(STDEXEC::__nothrow_move_constructible<std::unwrap_reference_t<_Env>>
-                 && (STDEXEC::__nothrow_move_constructible<_Sender> && ...))
+                 && (__nothrow_nest<_AsyncScope,
+                                    _Sender,
+                                    STDEXEC::__as_root_env_t<std::unwrap_reference_t<_Env>>>
+                     && ...))
       {
         using __local_env_t = STDEXEC::__as_root_env_t<std::unwrap_reference_t<_Env>>;
         static_assert(!STDEXEC::sender<_Env>,
@@ -243,7 +251,7 @@ namespace experimental::execution
 
       template <exec::__scope::__async_scope _AsyncScope, STDEXEC::sender... _Sender>
       constexpr auto operator()(_AsyncScope& __scope, _Sender&&... __sndr) const
-        noexcept((STDEXEC::__nothrow_move_constructible<_Sender> && ...))
+        noexcept((__nothrow_nest<_AsyncScope, _Sender, STDEXEC::__root_env> && ...))
       {
         static_assert(!STDEXEC::sender<_AsyncScope>,
                       "The first argument to start_now() must be either an environment or an "
-- 
2.43.0


From e94711d463917323136947c5ead546edf4812625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:56 +0000
Subject: [PATCH 40/48] fix: start_now's request_stop reaches the senders it
 started

---
 include/exec/start_now.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/exec/start_now.hpp b/include/exec/start_now.hpp
index 72685e0..55b8cd2 100644
--- a/include/exec/start_now.hpp
+++ b/include/exec/start_now.hpp
@@ -22,6 +22,7 @@
 #include "../stdexec/__detail/__meta.hpp"
 #include "../stdexec/__detail/__receivers.hpp"
 #include "../stdexec/__detail/__senders.hpp"
+#include "../stdexec/__detail/__stop_when.hpp"
 
 #include "async_scope.hpp"
 #include "env.hpp"
@@ -173,6 +174,13 @@ namespace experimental::execution
       __storage_base<_Env> const * __stg_;
     };
 
+    // The scope's nest() replaces the stop token of the receiver it is connected to, so the
+    // storage's own token has to be fused in below it.
+    template <class _AsyncScope, class _Sender>
+    using __nested_t =
+      nest_result_t<_AsyncScope,
+                    STDEXEC::__result_of<STDEXEC::__stop_when, _Sender, STDEXEC::inplace_stop_token>>;
+
     template <class _Env, class _AsyncScope, class... _Senders>
     struct __storage : private __storage_base<_Env>
     {
@@ -180,7 +188,7 @@ namespace experimental::execution
       using __receiver_t = __receiver<_Env>;
       using __sender_t   = __sender<_Env>;
       template <class _Sender>
-      using __nested_t = nest_result_t<_AsyncScope, _Sender>;
+      using __nested_t = __start_now::__nested_t<_AsyncScope, _Sender>;
 
       STDEXEC::__tuple<STDEXEC::connect_result_t<__nested_t<_Senders>, __receiver_t>...>
         __opstates_;
@@ -189,7 +197,9 @@ namespace experimental::execution
       constexpr __storage(_Env&& __env, _AsyncScope& __scope, _Senders&&... __sndr)
         : __storage_base<_Env>(static_cast<_Env&&>(__env), sizeof...(__sndr))
         , __opstates_{
-            STDEXEC::connect(__scope.nest(static_cast<_Senders&&>(__sndr)), __receiver_t{this})...}
+            STDEXEC::connect(__scope.nest(STDEXEC::__stop_when(static_cast<_Senders&&>(__sndr),
+                                                               this->__source_.get_token())),
+                             __receiver_t{this})...}
       {
         // Start all of the child operations
         STDEXEC::__apply(STDEXEC::__for_each{STDEXEC::start}, __opstates_);
@@ -216,7 +226,7 @@ namespace experimental::execution
     template <class _AsyncScope, class _Sender, class _Env>
     concept __nothrow_nest =
       STDEXEC::__nothrow_move_constructible<_Sender>
-      && STDEXEC::__nothrow_connectable<nest_result_t<_AsyncScope, _Sender>, __receiver<_Env>>;
+      && STDEXEC::__nothrow_connectable<__nested_t<_AsyncScope, _Sender>, __receiver<_Env>>;
 
     struct start_now_t
     {
-- 
2.43.0


From 27b323e0932ead1a44a1bc4a843c463ada68833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:56 +0000
Subject: [PATCH 41/48] fix: __variant's copy visitor is noexcept only if
 copying is

---
 include/stdexec/__detail/__variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__variant.hpp b/include/stdexec/__detail/__variant.hpp
index 721ea18..850db2e 100644
--- a/include/stdexec/__detail/__variant.hpp
+++ b/include/stdexec/__detail/__variant.hpp
@@ -154,7 +154,7 @@ namespace STDEXEC
       {
         template <class _Self, class _Ty>
         constexpr void operator()(_Self &__self, _Ty const &__val) const  //
-          noexcept(__nothrow_decay_copyable<_Ty>)
+          noexcept(__nothrow_decay_copyable<_Ty const &>)
         {
           __self.template emplace<__decay_t<_Ty>>(__val);
         }
-- 
2.43.0


From 2fa4fd5e7315f2e6efdbb434b1965bbadfe4abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:56 +0000
Subject: [PATCH 42/48] fix: just sends non-const copies of its values when
 connected from a const sender

It advertised T but sent T const&&.
---
 include/stdexec/__detail/__just.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__just.hpp b/include/stdexec/__detail/__just.hpp
index 56df532..fb5994b 100644
--- a/include/stdexec/__detail/__just.hpp
+++ b/include/stdexec/__detail/__just.hpp
@@ -86,9 +86,11 @@ namespace STDEXEC
           __nothrow_decay_copyable<_Sender>)
       {
         auto& [__tag, __data] = __sndr;
-        return __opstate<__set_tag_t, decltype(__data), _Receiver>{static_cast<_Receiver&&>(__rcvr),
-                                                                   STDEXEC::__forward_like<_Sender>(
-                                                                     __data)};
+        // The sender may be const; what it sends is not.
+        using __data_t        = __decay_t<decltype(__data)>;
+        return __opstate<__set_tag_t, __data_t, _Receiver>{static_cast<_Receiver&&>(__rcvr),
+                                                           STDEXEC::__forward_like<_Sender>(
+                                                             __data)};
       };
     };
   }  // namespace __just
-- 
2.43.0


From dbcb959b8629b9012b3778d95500ae9ac9b4c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:58 +0000
Subject: [PATCH 43/48] fix: merge_each delivers an exception_ptr as it is, not
 wrapped in another

---
 include/exec/sequence/merge_each.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 01f988f..41cb08e 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -362,7 +362,11 @@ namespace experimental::execution
         case __completion_t::__stopped:
           // We are the first child to complete with an error, so we must save the error. (Any
           // subsequent errors are ignored.)
-          if constexpr (__nothrow_decay_copyable<_Error>)
+          if constexpr (__decays_to<_Error, std::exception_ptr>)
+          {
+            __ex_ = static_cast<_Error&&>(__error);
+          }
+          else if constexpr (__nothrow_decay_copyable<_Error>)
           {
             __ex_ = std::make_exception_ptr(static_cast<_Error&&>(__error));
           }
-- 
2.43.0


From c41eb3b8a823ab50f0dd948112772807a8dd483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:58 +0000
Subject: [PATCH 44/48] fix: merge_each stores an item's error before the item
 that owns it is gone

---
 include/exec/sequence/merge_each.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 41cb08e..d6d70bf 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -577,8 +577,9 @@ namespace experimental::execution
       void set_error(_Error&& __error) noexcept
       {
         auto __op = __op_;
-        STDEXEC::set_stopped(static_cast<_NestedValueReceiver&&>(__nested_value_op_->__rcvr_));
+        // Store the error first: it may belong to the operation that set_stopped destroys.
         __op->store_error(static_cast<_Error&&>(__error));
+        STDEXEC::set_stopped(static_cast<_NestedValueReceiver&&>(__nested_value_op_->__rcvr_));
         __op->nested_value_break();
       }
 
-- 
2.43.0


From 1e19a78ebdddaa8712364941aae71cc076b6ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:58 +0000
Subject: [PATCH 45/48] fix: merge_each stops its sequences after an error
 whatever the receiver's token

---
 include/exec/sequence/merge_each.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index d6d70bf..91aba60 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -116,20 +116,12 @@ namespace experimental::execution
 
       bool stop_requested() const noexcept
       {
-        if constexpr (!unstoppable_token<__stop_token_t>)
-        {
-          return __stop_source_.stop_requested();
-        }
-        return false;
+        return __stop_source_.stop_requested();
       }
 
       bool request_stop() noexcept
       {
-        if constexpr (!unstoppable_token<__stop_token_t>)
-        {
-          return __stop_source_.request_stop();
-        }
-        return false;
+        return __stop_source_.request_stop();
       }
 
       inplace_stop_token get_token() const & noexcept
-- 
2.43.0


From ce189a96190688aca5b61e5f97f8c30a39195794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:58 +0000
Subject: [PATCH 46/48] fix: merge_each does not complete while its stop
 callback is requesting stop

---
 include/exec/sequence/merge_each.hpp | 40 +++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 91aba60..f77a3df 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -72,16 +72,21 @@ namespace experimental::execution
       decltype(__env_with_inplace_stop_token(STDEXEC::__declval<STDEXEC::inplace_stop_source&>(),
                                              STDEXEC::__declval<_Env>()));
 
+    struct __stop_request_interface
+    {
+      virtual void stop_from_receiver() noexcept = 0;
+    };
+
     template <class _Receiver>
     struct __nested_stop
     {
       struct __on_stop_request
       {
-        inplace_stop_source& __stop_source_;
+        __stop_request_interface* __op_;
 
         void operator()() noexcept
         {
-          __stop_source_.request_stop();
+          __op_->stop_from_receiver();
         }
       };
       using __env_t           = env_of_t<_Receiver>;
@@ -96,13 +101,13 @@ namespace experimental::execution
       inplace_stop_source __stop_source_{};
       __callback_t        __on_stop_{};
 
-      void register_token(_Receiver& __receiver) noexcept
+      void register_token(_Receiver& __receiver, __stop_request_interface* __op) noexcept
       {
         if constexpr (!unstoppable_token<__stop_token_t>)
         {
           // register stop callback:
           __on_stop_.emplace(get_stop_token(STDEXEC::get_env(__receiver)),
-                             __on_stop_request{__stop_source_});
+                             __on_stop_request{__op});
         }
       }
 
@@ -164,7 +169,7 @@ namespace experimental::execution
     //
 
     template <class _ErrorStorage>
-    struct __operation_base_interface
+    struct __operation_base_interface : __stop_request_interface
     {
       virtual void nested_value_started() noexcept  = 0;
       virtual void nested_value_complete() noexcept = 0;
@@ -388,6 +393,26 @@ namespace experimental::execution
         }
       }
 
+      void stop_from_receiver() noexcept override
+      {
+        // Count the stop request as active so that the operations it completes cannot complete (and
+        // so destroy) this operation before request_stop has returned. If nothing is active any
+        // more then the operation is completing already.
+        std::int32_t __active = __active_.load(std::memory_order_relaxed);
+        do
+        {
+          if (__active == 0)
+          {
+            return;
+          }
+        }
+        while (!__active_.compare_exchange_weak(__active,
+                                                __active + 1,
+                                                std::memory_order_relaxed));
+        __nested_stop_.request_stop();
+        complete_if_none_active();
+      }
+
       void sequence_started() noexcept
       {
         __active_ = 1;
@@ -1185,16 +1210,17 @@ namespace experimental::execution
 
       void start() & noexcept
       {
-        this->__nested_stop_.register_token(this->__rcvr_);
+        this->sequence_started();
+        this->__nested_stop_.register_token(this->__rcvr_, this);
         if (this->__nested_stop_.stop_requested())
         {
           // Stop has already been requested. Don't bother starting
           // the child operations.
+          this->__nested_stop_.unregister_token();
           STDEXEC::set_stopped(static_cast<_Receiver&&>(this->__rcvr_));
         }
         else
         {
-          this->sequence_started();
           STDEXEC::start(__op_);
         }
       }
-- 
2.43.0


From 28b5d6cf3726d43e1829ce0d6ea91af4687c10a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:00 +0000
Subject: [PATCH 47/48] fix: inplace_stop_source's destructor waits for a
 request_stop on another thread

---
 include/stdexec/stop_token.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/stdexec/stop_token.hpp b/include/stdexec/stop_token.hpp
index e747877..a8a1009 100644
--- a/include/stdexec/stop_token.hpp
+++ b/include/stdexec/stop_token.hpp
@@ -154,6 +154,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
 
     static constexpr uint8_t __stop_requested_flag_ = 1;
     static constexpr uint8_t __locked_flag_         = 2;
+    static constexpr uint8_t __notifying_flag_      = 4;
 
     mutable STDEXEC::__std::atomic<uint8_t>                __state_{0};
     mutable STDEXEC::__stok::__inplace_stop_callback_base* __callbacks_ = nullptr;
@@ -258,12 +259,23 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
 
   inline inplace_stop_source::~inplace_stop_source()
   {
-    STDEXEC_ASSERT((__state_.load(STDEXEC::__std::memory_order_relaxed) & __locked_flag_) == 0);
-    STDEXEC_ASSERT(__callbacks_ == nullptr);
-    if (__destroyed_during_callback_ != nullptr)
+    // A callback may have completed the operation that owns this stop source before request_stop()
+    // has returned.
+    STDEXEC::__stok::__spin_wait __spin;
+    uint8_t                      __state = 0;
+    while (((__state = __state_.load(STDEXEC::__std::memory_order_acquire))
+            & (__notifying_flag_ | __locked_flag_))
+           != 0)
     {
-      *__destroyed_during_callback_ = true;
+      if ((__state & __locked_flag_) == 0 && std::this_thread::get_id() == __notifying_thread_)
+      {
+        *__destroyed_during_callback_ = true;
+        break;
+      }
+      // Executing on another thread. Wait until it is done with this object.
+      __spin.__wait();
     }
+    STDEXEC_ASSERT(__callbacks_ == nullptr);
   }
 
   inline auto inplace_stop_source::request_stop() noexcept -> bool
@@ -282,7 +294,8 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
       if (__callbacks_ != nullptr)
         __callbacks_->__prev_ptr_ = &__callbacks_;
 
-      __state_.store(__stop_requested_flag_, STDEXEC::__std::memory_order_release);
+      __state_.store(__stop_requested_flag_ | __notifying_flag_,
+                     STDEXEC::__std::memory_order_release);
 
       bool __removed_during_callback       = false;
       __callbk->__removed_during_callback_ = &__removed_during_callback;
@@ -366,7 +379,8 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
     }
     while (!__state_.compare_exchange_weak(__old_state,
                                            __set_stop_requested
-                                             ? (__locked_flag_ | __stop_requested_flag_)
+                                             ? (__locked_flag_ | __stop_requested_flag_
+                                                | __notifying_flag_)
                                              : __locked_flag_,
                                            STDEXEC::__std::memory_order_acq_rel,
                                            STDEXEC::__std::memory_order_acquire));
-- 
2.43.0


From 63d1a5c9fa84448198483eb963af0b9714b84ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:01 +0000
Subject: [PATCH 48/48] fix: thread_pool_base's bulk counts its agents whatever
 the shape's type

---
 include/exec/thread_pool_base.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/exec/thread_pool_base.hpp b/include/exec/thread_pool_base.hpp
index ed4f44c..6944cbd 100644
--- a/include/exec/thread_pool_base.hpp
+++ b/include/exec/thread_pool_base.hpp
@@ -208,7 +208,8 @@ namespace experimental::execution
           // With work stealing, is std::min necessary, or can we feel free to ask for more agents (tasks)
           // than we can actually deal with at one time?
           return static_cast<std::uint32_t>(
-            (std::min) (shape_, static_cast<Shape>(pool_.available_parallelism())));
+            (std::min) (static_cast<std::size_t>(shape_),
+                        static_cast<std::size_t>(pool_.available_parallelism())));
         }
 
         template <class F>
-- 
2.43.0

