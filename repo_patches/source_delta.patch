From 18da9b0edb99c2d130dea495b08d9e3877539f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 01/19] fix: wait_all satisfied at once no longer frees its
 state while still holding the state's lock

---
 include/librf/src/event_v2.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/event_v2.inl b/include/librf/src/event_v2.inl
index 5c7631f..0eacbd6 100644
--- a/include/librf/src/event_v2.inl
+++ b/include/librf/src/event_v2.inl
@@ -489,7 +489,7 @@ namespace librf
 
 			if (_state->_counter == 0)
 			{
-				_state = nullptr;
+				//_state->_lock is still held by lock_, so that _state must outlive lock_
 				_value = true;
 
 				return false;
-- 
2.43.0


From 93f621fbeb275c5b9624a243a4ce5c6014c19c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 02/19] fix: time-out of wait_all_for no longer deadlocks
 against a concurrent signal

---
 source/event_v2.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index 28b9d00..9f35c71 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -110,24 +110,23 @@ namespace librf
 
 		LIBRF_API bool state_event_all_t::on_timeout()
 		{
-			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
+			std::vector<sub_state_t> values;
+			{
+				scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 
-			if (_counter <= 0) return false;
+				if (_counter <= 0) return false;
 
-			_counter = 0;
-			*_result = false;
-			_thandler.reset();
+				_counter = 0;
+				*_result = false;
+				_thandler.reset();
+				values.swap(_values);
+			}
 
-			for (sub_state_t& sub : _values)
+			//signal()在持有event的锁时请求_lock，故这里不能在持有_lock时请求event的锁
+			for (sub_state_t& sub : values)
 			{
-				if (sub.first != nullptr)
-				{
-					event_v2_impl* evt = sub.second;
-					sub.second = nullptr;
-
-					if (evt != nullptr)
-						evt->remove_wait_list(sub.first);
-				}
+				if (sub.first != nullptr && sub.second != nullptr)
+					sub.second->remove_wait_list(sub.first.get());
 			}
 
 			assert(this->_scheduler != nullptr);
-- 
2.43.0


From bfb64db9cbb07ecbfc41f857d612698edf7b2d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 03/19] fix: a signal delivered to wait_all keeps the waiting
 state alive while it uses it

---
 include/librf/src/event_v2.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/event_v2.inl b/include/librf/src/event_v2.inl
index 0eacbd6..c0d8930 100644
--- a/include/librf/src/event_v2.inl
+++ b/include/librf/src/event_v2.inl
@@ -164,7 +164,7 @@ namespace librf
 			bool on_notify(event_v2_impl* eptr) override { return _state->on_notify(eptr, _index); }
 			bool on_timeout() override { assert(false); return false; }
 		private:
-			_StateT* _state;
+			counted_ptr<_StateT> _state;
 			intptr_t _index;
 		};
 	}
-- 
2.43.0


From 631ee0e9bb4e2319320f50032f5c5e06ceb22f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 04/19] fix: event reset() racing with a wait no longer leaves
 a phantom signal

---
 source/event_v2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index 9f35c71..0cf8583 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -202,6 +202,8 @@ namespace librf
 
 		LIBRF_API void event_v2_impl::reset() noexcept
 		{
+			scoped_lock<lock_type> lock_(_lock);
+
 			_counter.store(0, std::memory_order_release);
 		}
 
-- 
2.43.0


From 881b84a58afa9192bb3ef8492b9e7ec1b3206d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:01 +0000
Subject: [PATCH 05/19] fix: mutex_t::try_lock_until(tp, address) compiles

---
 include/librf/src/mutex_v2.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index fdadfbe..e4ab69d 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -429,7 +429,7 @@ namespace librf
 	inline bool mutex_t::try_lock_until(const std::chrono::time_point<_Rep, _Period>& tp, void* unique_address)
 	{
 		assert(unique_address != nullptr);
-		return _mutex->try_lock_until(std::chrono::time_point_cast<clock_type::time_point>(tp), unique_address);
+		return _mutex->try_lock_until(std::chrono::time_point_cast<clock_type::duration>(tp), unique_address);
 	}
 
 	inline void mutex_t::unlock(void* unique_address) const
-- 
2.43.0


From 962280fcc45378a1c60fe947bacf438535b828c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 06/19] fix: mutex unlock does not look into the root of a
 waiter that has timed out

---
 source/mutex_v2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/mutex_v2.cpp b/source/mutex_v2.cpp
index 942ed3c..beccc94 100644
--- a/source/mutex_v2.cpp
+++ b/source/mutex_v2.cpp
@@ -157,7 +157,7 @@ namespace librf
 						_wait_awakes.pop_front();
 
 						//先将锁定状态转移到新的state上
-						_owner.store(state->get_root(), std::memory_order_release);
+						_owner.store(state->get_parent(), std::memory_order_release);
 						_counter.fetch_add(1, std::memory_order_acq_rel);
 						
 						if (state->on_notify(this))
-- 
2.43.0


From 247d6cd70937f3a43c1fa6a85160b1900b9d9e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 07/19] fix: assigning to a batch_unlock_t that holds locks
 releases them

---
 include/librf/src/mutex_v2.inl | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index e4ab69d..593a6d0 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -177,7 +177,16 @@ namespace librf
 		batch_unlock_t(const batch_unlock_t&) = delete;
 		batch_unlock_t& operator = (const batch_unlock_t&) = delete;
 		batch_unlock_t(batch_unlock_t&& _Right) = default;
-		batch_unlock_t& operator = (batch_unlock_t&& _Right) = default;
+		batch_unlock_t& operator = (batch_unlock_t&& _Right)
+		{
+			if (this != &_Right)
+			{
+				unlock();
+				_mutex = std::move(_Right._mutex);
+				_owner = _Right._owner;
+			}
+			return *this;
+		}
 	private:
 		mutex_impl_ptr _mutex;
 		void* _owner;
@@ -522,7 +531,15 @@ namespace librf
 		batch_unlock_t(const batch_unlock_t&) = delete;
 		batch_unlock_t& operator = (const batch_unlock_t&) = delete;
 		batch_unlock_t(batch_unlock_t&& _Right) = default;
-		batch_unlock_t& operator = (batch_unlock_t&& _Right) = default;
+		batch_unlock_t& operator = (batch_unlock_t&& _Right)
+		{
+			if (this != &_Right)
+			{
+				unlock();
+				_MAA = std::move(_Right._MAA);
+			}
+			return *this;
+		}
 	};
 
 	template<class... _Mtxs>
-- 
2.43.0


From 1a6693cfc4bdb3bbc5755b13b4563c65c04436db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 08/19] fix: the last stop_token to go frees the state, and no
 earlier one does

---
 include/librf/src/stop_token.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/stop_token.h b/include/librf/src/stop_token.h
index 9cef883..196fc49 100644
--- a/include/librf/src/stop_token.h
+++ b/include/librf/src/stop_token.h
@@ -123,7 +123,7 @@ struct stop_state
 
     void unlock_and_decrement_token_ref_count() noexcept
     {
-        if (state_.fetch_sub(klockAndTokenRefIncrement, std::memory_order_acq_rel) < kLockedAndZeroRef)
+        if (state_.fetch_sub(klockAndTokenRefIncrement, std::memory_order_acq_rel) < klockAndTokenRefIncrement + kTokenRefIncrement)
         {
             delete this;
         }
@@ -138,7 +138,7 @@ public:
     void remove_token_reference() noexcept
     {
         auto old_state = state_.fetch_sub(kTokenRefIncrement, std::memory_order_acq_rel);
-        if (old_state < kZeroRef)
+        if (old_state < kTokenRefIncrement + kTokenRefIncrement)
         {
             delete this;
         }
-- 
2.43.0


From 0918e43aafaa595575bdf65119b567a49258eac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 09/19] fix: a task is retired after the locals of its root
 coroutine are gone, not before

set_value()/set_exception() removed the task of a finishing root coroutine, and with it the function object the
coroutine was started from, while the coroutine's locals were still to be destroyed. The final suspend point
removes the task anyway.
---
 include/librf/src/state.inl | 8 ++++----
 source/state.cpp            | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/librf/src/state.inl b/include/librf/src/state.inl
index 23a7376..25d6cf5 100644
--- a/include/librf/src/state.inl
+++ b/include/librf/src/state.inl
@@ -167,7 +167,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)
 				sch->del_final(this);
 		}
 	}
@@ -183,7 +183,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)
 				sch->del_final(this);
 		}
 	}
@@ -274,7 +274,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)
 				sch->del_final(this);
 		}
 	}
@@ -290,7 +290,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)
 				sch->del_final(this);
 		}
 	}
diff --git a/source/state.cpp b/source/state.cpp
index a6f551c..47357b2 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -210,7 +210,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)
 				sch->del_final(this);
 		}
 	}
@@ -225,7 +225,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)
 				sch->del_final(this);
 		}
 	}
-- 
2.43.0


From ee9aca9972e0cb9a3d8538dbe4e653d8f24cbb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 10/19] fix: awaiting a future<void> that already holds an
 exception does not suspend for ever

---
 source/state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/state.cpp b/source/state.cpp
index 47357b2..3d1b7c3 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -196,7 +196,7 @@ namespace librf
 
 		if (this->_exception)
 			std::rethrow_exception(std::move(this->_exception));
-		if (this->_has_value.load(std::memory_order_acquire) == result_type::None)
+		if (this->_has_value.load(std::memory_order_acquire) != result_type::Value)
 			std::rethrow_exception(std::make_exception_ptr(future_exception{error_code::not_ready}));
 	}
 
@@ -219,6 +219,7 @@ namespace librf
 	{
 		scoped_lock<lock_type> __guard(this->_mtx);
 		this->_exception = std::move(e);
+		this->_has_value.store(result_type::Exception, std::memory_order_release);
 
 		scheduler_t* sch = this->get_scheduler();
 		if (sch != nullptr)
-- 
2.43.0


From 393799b4fcc64ab10d5ae25f5ebafb79611904f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 11/19] fix: starting a future that already has its result does
 not leave a task behind for ever

The task of a future that was completed before (or while) it was started was never removed: run_until_notask() did
not return and empty() stayed false.
---
 include/librf/src/state.h |  2 ++
 source/scheduler.cpp      |  8 +++++++-
 source/state.cpp          | 11 +++++++++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/librf/src/state.h b/include/librf/src/state.h
index e4ed56e..5990d34 100644
--- a/include/librf/src/state.h
+++ b/include/librf/src/state.h
@@ -36,6 +36,7 @@ namespace librf
 	public:
 		LIBRF_API virtual void resume();
 		LIBRF_API virtual bool has_handler() const  noexcept;
+		LIBRF_API virtual bool has_result() const noexcept;
 		LIBRF_API virtual state_base_t* get_parent() const noexcept;
 
 		void set_scheduler(scheduler_t* sch) noexcept
@@ -136,6 +137,7 @@ namespace librf
 		LIBRF_API virtual void destroy_deallocate() override;
 		LIBRF_API virtual void resume() override;
 		LIBRF_API virtual bool has_handler() const  noexcept override;
+		LIBRF_API virtual bool has_result() const noexcept override;
 		LIBRF_API virtual state_base_t* get_parent() const noexcept override;
 
 		inline bool is_ready() const noexcept
diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index c6232f1..65ec803 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -94,7 +94,8 @@ namespace librf
 
 	LIBRF_API task_t* scheduler_t::new_task(task_t * task)
 	{
-		state_base_t* sptr = task->_state.get();
+		state_sptr guard = task->_state;
+		state_base_t* sptr = guard.get();
 		sptr->set_scheduler(this);
 
 		{
@@ -109,6 +110,11 @@ namespace librf
 		{
 			add_generator(sptr);
 		}
+		else if (sptr->has_result())
+		{
+			//结果已经设置好了，不会再有人来删除这个task
+			del_final(sptr);
+		}
 
 		return task;
 	}
diff --git a/source/state.cpp b/source/state.cpp
index 3d1b7c3..9266832 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -27,6 +27,11 @@ namespace librf
 		return (bool)_coro;
 	}
 
+	LIBRF_API bool state_base_t::has_result() const noexcept
+	{
+		return false;
+	}
+
 	LIBRF_API state_base_t* state_base_t::get_parent() const noexcept
 	{
 		return nullptr;
@@ -164,6 +169,12 @@ namespace librf
 		return has_handler_skip_lock();
 	}
 
+	LIBRF_API bool state_future_t::has_result() const noexcept
+	{
+		scoped_lock<lock_type> __guard(this->_mtx);
+		return this->_has_value.load(std::memory_order_acquire) != result_type::None;
+	}
+
 	LIBRF_API bool state_future_t::switch_scheduler_await_suspend(scheduler_t* sch)
 	{
 		assert(sch != nullptr);
-- 
2.43.0


From 3ed04a5e7cd59e579852ae5237f5d1d91cc67dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:35 +0000
Subject: [PATCH 12/19] fix: request_stop_all_if_possible() runs stop callbacks
 and timer callbacks outside its lock

A stop callback, or the cancellation of a sleep, that used the scheduler (started a coroutine, completed a future
that had been started as a task) blocked for ever on the scheduler's own lock.
---
 source/scheduler.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index 65ec803..2045340 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -139,11 +139,22 @@ namespace librf
 
 	LIBRF_API void scheduler_t::request_stop_all_if_possible()
 	{
-		scoped_lock<spinlock> __guard(_lock_ready);
+		//stop callback和定时器回调，都可能再次使用此调度器，故不能在锁里调用
+		std::vector<stop_source> sources;
+		{
+#if !RESUMEF_DISABLE_MULT_THREAD
+			scoped_lock<spinlock> __guard(_lock_ready);
+#endif
+			for (auto& kv : this->_ready_task)
+			{
+				if (kv.second->_stop.stop_possible())
+					sources.push_back(kv.second->_stop);
+			}
+			//this->_ready_task.clear();
+		}
 
-		for (auto& kv : this->_ready_task)
-			kv.second->request_stop_if_possible();
-		//this->_ready_task.clear();
+		for (auto& source : sources)
+			source.request_stop();
 		this->_timer->clear();
 	}
 
-- 
2.43.0


From 32da56fa3ffbad77f11bf41a70ef76e50d921393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 13/19] fix: timer callbacks may clear, add and stop timers;
 timer_manager is safe against concurrent stop, clear and empty

---
 include/librf/src/timer.h |  8 +++-
 source/timer.cpp          | 86 +++++++++++++++++++++------------------
 2 files changed, 53 insertions(+), 41 deletions(-)

diff --git a/include/librf/src/timer.h b/include/librf/src/timer.h
index fae73a5..4c8ed1a 100644
--- a/include/librf/src/timer.h
+++ b/include/librf/src/timer.h
@@ -1,5 +1,6 @@
 ﻿#pragma once
 #include <memory>
+#include <atomic>
 
 namespace librf
 {
@@ -27,7 +28,7 @@ namespace librf
 			};
 			timer_clock_type::time_point	tp;
 			timer_callback_type				cb;
-			State							st = State::Invalid;
+			std::atomic<State>				st{ State::Invalid };
 #if _DEBUG
 		private:
 			timer_manager *					_manager = nullptr;
@@ -123,6 +124,9 @@ namespace librf
 
 		inline bool empty() const
 		{
+#if !RESUMEF_DISABLE_MULT_THREAD
+			scoped_lock<spinlock> __lock(_timers_mtx);
+#endif
 			return _runing_timers.empty() && _added_timers.empty();
 		}
 		LIBRF_API void clear();
@@ -141,7 +145,7 @@ namespace librf
 		}
 	private:
 #if !RESUMEF_DISABLE_MULT_THREAD
-		spinlock _added_mtx;
+		mutable spinlock _timers_mtx;
 #endif
 		timer_vector_type	_added_timers;
 		timer_map_type		_runing_timers;
diff --git a/source/timer.cpp b/source/timer.cpp
index db8492b..9a0d60b 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -15,7 +15,8 @@ namespace librf
 	LIBRF_API void timer_manager::call_target_(const timer_target_ptr & sptr, bool canceld)
 	{
 		auto cb = std::move(sptr->cb);
-		sptr->st = timer_target::State::Invalid;
+		if (sptr->st.exchange(timer_target::State::Invalid) == timer_target::State::Invalid)
+			canceld = true;
 #if _DEBUG
 		sptr->_manager = nullptr;
 #endif
@@ -25,18 +26,19 @@ namespace librf
 
 	LIBRF_API void timer_manager::clear()
 	{
+		timer_vector_type _atimer;
+		timer_map_type _rtimer;
+		{
 #if !RESUMEF_DISABLE_MULT_THREAD
-		std::unique_lock<spinlock> __lock(_added_mtx);
-#endif
-		auto _atimer = std::move(_added_timers);
-#if !RESUMEF_DISABLE_MULT_THREAD
-		__lock.unlock();
+			scoped_lock<spinlock> __lock(_timers_mtx);
 #endif
+			_atimer.swap(_added_timers);
+			_rtimer.swap(_runing_timers);
+		}
 
 		for (auto& sptr : _atimer)
 			call_target_(sptr, true);
 
-		auto _rtimer = std::move(_runing_timers);
 		for (auto & kv : _rtimer)
 			call_target_(kv.second, true);
 	}
@@ -47,7 +49,7 @@ namespace librf
 		assert(sptr->st == timer_target::State::Invalid);
 
 #if !RESUMEF_DISABLE_MULT_THREAD
-		scoped_lock<spinlock> __lock(_added_mtx);
+		scoped_lock<spinlock> __lock(_timers_mtx);
 #endif
 #if _DEBUG
 		assert(sptr->_manager == nullptr);
@@ -62,62 +64,68 @@ namespace librf
 
 	LIBRF_API bool timer_manager::stop(const timer_target_ptr & sptr)
 	{
-		if (!sptr || sptr->st == timer_target::State::Invalid) 
+		if (!sptr) 
+			return false;
+		if (sptr->st.exchange(timer_target::State::Invalid) == timer_target::State::Invalid)
 			return false;
 #if _DEBUG
 		assert(sptr->_manager == this);
 #endif
-		sptr->st = timer_target::State::Invalid;
 
 		return true;
 	}
 
 	LIBRF_API void timer_manager::update()
 	{
-		{
 #if !RESUMEF_DISABLE_MULT_THREAD
-			std::unique_lock<spinlock> __lock(_added_mtx);
+		std::unique_lock<spinlock> __lock(_timers_mtx);
 #endif
 
-			if (unlikely(_added_timers.size() > 0))
+		timer_vector_type _stopped;
+		if (unlikely(_added_timers.size() > 0))
+		{
+			for (auto& sptr : _added_timers)
 			{
-				auto _atimer = std::move(_added_timers);
-				_added_timers.reserve(128);
+				auto st_ = timer_target::State::Added;
+				if (sptr->st.compare_exchange_strong(st_, timer_target::State::Runing))
+					_runing_timers.insert({ sptr->tp, sptr });
+				else
+					_stopped.push_back(sptr);
+			}
+			_added_timers.clear();
+		}
+
+		if (unlikely(_stopped.size() > 0))
+		{
 #if !RESUMEF_DISABLE_MULT_THREAD
-				__lock.unlock();
+			__lock.unlock();
+#endif
+			for (auto& sptr : _stopped)
+				call_target_(sptr, true);
+#if !RESUMEF_DISABLE_MULT_THREAD
+			__lock.lock();
 #endif
-
-				for (auto& sptr : _atimer)
-				{
-					if (sptr->st == timer_target::State::Added)
-					{
-						sptr->st = timer_target::State::Runing;
-						_runing_timers.insert({ sptr->tp, sptr });
-					}
-					else
-					{
-						assert(sptr->st == timer_target::State::Invalid);
-						call_target_(sptr, true);
-					}
-				}
-			}
 		}
 
 		if (unlikely(_runing_timers.size() > 0))
 		{
 			auto now_ = clock_type::now();
 
-			auto iter = _runing_timers.begin();
-			for (; iter != _runing_timers.end(); ++iter)
+			//the callback may add, stop or clear timers: take each one out before calling it, without the lock
+			for (auto iter = _runing_timers.begin(); iter != _runing_timers.end() && iter->first <= now_; iter = _runing_timers.begin())
 			{
-				auto & kv = *iter;
-				if (kv.first > now_)
-					break;
+				auto sptr = std::move(iter->second);
+				_runing_timers.erase(iter);
 
-				call_target_(kv.second, kv.second->st == timer_target::State::Invalid);
+#if !RESUMEF_DISABLE_MULT_THREAD
+				__lock.unlock();
+#endif
+				call_target_(sptr, false);
+				sptr.reset();
+#if !RESUMEF_DISABLE_MULT_THREAD
+				__lock.lock();
+#endif
 			}
-
-			_runing_timers.erase(_runing_timers.begin(), iter);
 		}
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 72e82c7423aaa3bbb8740453d1e9451ae7b47965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:06 +0000
Subject: [PATCH 14/19] fix: when_all/when_any completing on another thread
 while the awaiter suspends used freed state or aborted

---
 include/librf/src/when_v2.h | 14 ++++++++++----
 source/when_v2.cpp          |  4 +++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index f0752df..7a61fbd 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -70,13 +70,19 @@ namespace librf
 
 			bool await_ready() noexcept
 			{
-				return _state->_counter.load(std::memory_order_relaxed) == 0;
+				return _state->_counter.load(std::memory_order_acquire) == 0;
 			}
 
 			template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
-			void await_suspend(coroutine_handle<_PromiseT> handler)
+			bool await_suspend(coroutine_handle<_PromiseT> handler)
 			{
+				//other threads may be completing the last task right now
+				scoped_lock<lock_type> lock_(_state->_lock);
+
+				if (_state->_counter.load(std::memory_order_acquire) == 0)
+					return false;
 				_state->on_await_suspend(handler);
+				return true;
 			}
 
 			value_type await_resume() noexcept(std::is_nothrow_move_constructible_v<value_type>)
@@ -138,7 +144,7 @@ namespace librf
 		}
 
 		template<_WhenTaskT _Awaitable, class _Ty>
-		future_t<> when_all_connector_1(state_when_t* state, _Awaitable task, _Ty& value)
+		future_t<> when_all_connector_1(counted_ptr<state_when_t> state, _Awaitable task, _Ty& value)
 		{
 			decltype(auto) awaitor = when_real_awaitor(task);
 
@@ -153,7 +159,7 @@ namespace librf
 		using _FuckBoolVectorReference = typename std::vector<_FuckBoolean>::reference;
 
 		template<_WhenTaskT _Awaitable, class _Ty>
-		future_t<> when_all_connector_2(state_when_t* state,_Awaitable task, _FuckBoolVectorReference<_Ty> value)
+		future_t<> when_all_connector_2(counted_ptr<state_when_t> state,_Awaitable task, _FuckBoolVectorReference<_Ty> value)
 		{
 			auto&& awaitor = when_real_awaitor(task);
 
diff --git a/source/when_v2.cpp b/source/when_v2.cpp
index 00370a2..3b77ba6 100644
--- a/source/when_v2.cpp
+++ b/source/when_v2.cpp
@@ -39,9 +39,11 @@ namespace librf
 
 			if (_counter.fetch_sub(1, std::memory_order_acq_rel) == 1)
 			{
-				assert(this->_scheduler != nullptr);
 				if (this->_coro)
+				{
+					assert(this->_scheduler != nullptr);
 					this->_scheduler->add_generator(this);
+				}
 
 				return true;
 			}
-- 
2.43.0


From 25e31e5cada842f2922f40330a869f31ed112f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 15/19] fix: move-assignment to a generator that holds a
 coroutine leaked it

---
 include/librf/src/generator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/librf/src/generator.h b/include/librf/src/generator.h
index 74f1a86..20269e8 100644
--- a/include/librf/src/generator.h
+++ b/include/librf/src/generator.h
@@ -256,6 +256,8 @@ namespace librf
 		generator_t& operator=(generator_t&& right_) noexcept
 		{
 			if (this != std::addressof(right_)) {
+				if (_Coro)
+					_Coro.destroy();
 				_Coro = right_._Coro;
 				right_._Coro = nullptr;
 			}
-- 
2.43.0


From 91c71de7277f299d98e1d5f6df765c93ccc1f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 16/19] fix: the value a generator co_returns was destroyed
 before the iterator could look at it

---
 include/librf/src/generator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/generator.h b/include/librf/src/generator.h
index 20269e8..d31a298 100644
--- a/include/librf/src/generator.h
+++ b/include/librf/src/generator.h
@@ -145,9 +145,11 @@ namespace librf
 			}
 
 			//template<class = std::enable_if_t<!std::is_same_v<_Ty, void>, _Ty>>
-			void return_value(_Ty const& _Value) noexcept
+			//the operand of co_return is gone when the iterator looks at it, so it is kept here
+			template<class _Uty = _Ty>
+			void return_value(_Uty&& _Value) noexcept(std::is_nothrow_constructible_v<_Ty, _Uty>)
 			{
-				_CurrentValue = std::addressof(_Value);
+				_CurrentValue = std::addressof(_ReturnValue.emplace(std::forward<_Uty>(_Value)));
 			}
 			//template<class = std::enable_if_t<std::is_same_v<_Ty, void>, _Ty>>
 			void return_value() noexcept
@@ -215,6 +217,7 @@ namespace librf
 				return _Al.deallocate(reinterpret_cast<char *>(_Ptr), _Size);
 			}
 		private:
+			std::optional<_Ty> _ReturnValue;
 			counted_ptr<state_type> _state = state_generator_t::_Alloc_state();
 		};
 #endif	//DOXYGEN_SKIP_PROPERTY
-- 
2.43.0


From aeee5a81e0ecf7e1b382ae1c4e8206ec79e32e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 17/19] fix: begin() of a generator that has run to its end
 resumed the finished coroutine

---
 include/librf/src/generator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/librf/src/generator.h b/include/librf/src/generator.h
index d31a298..3d264fa 100644
--- a/include/librf/src/generator.h
+++ b/include/librf/src/generator.h
@@ -228,7 +228,8 @@ namespace librf
 		{
 			if (_Coro)
 			{
-				_Coro.resume();
+				if (!_Coro.done())
+					_Coro.resume();
 				if (_Coro.done())
 					return{ nullptr };
 			}
-- 
2.43.0


From bd6d2d05be4d31514d11fddab0ee574914e16680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:00 +0000
Subject: [PATCH 18/19] fix: the function object of a finished task is
 destroyed outside the scheduler's lock

Its destructor (or that of what it captured) may use the scheduler again: starting a coroutine or asking
whether the scheduler is empty waited for ever for the lock held by the same thread.
---
 include/librf/src/scheduler.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/librf/src/scheduler.h b/include/librf/src/scheduler.h
index 5b6e68a..833a762 100644
--- a/include/librf/src/scheduler.h
+++ b/include/librf/src/scheduler.h
@@ -163,10 +163,8 @@ namespace librf
 
 	inline void scheduler_t::del_final(state_base_t* sptr)
 	{
-#if !RESUMEF_DISABLE_MULT_THREAD
-		scoped_lock<spinlock> __guard(_lock_ready);
-#endif
-		this->_ready_task.erase(sptr);
+		//task持有的函数对象，其析构函数可能再次使用此调度器，故不能在锁里销毁
+		std::unique_ptr<task_t> task_ptr = this->del_switch(sptr);
 	}
 
 	inline void scheduler_t::add_switch(std::unique_ptr<task_t> task)
-- 
2.43.0


From 728678c4f27f6003435ea89be0b0f2044f11d534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:32 +0000
Subject: [PATCH 19/19] fix: when_all: a bool result stored into vector<bool>
 could erase a neighbour's

The values of a std::vector<bool> share words, so the stores of items that
complete on different threads were unsynchronised read-modify-writes.
---
 include/librf/src/when_v2.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 7a61fbd..eb45d28 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -165,6 +165,14 @@ namespace librf
 
 			if constexpr(std::is_same_v<_Ty, ignore_type>)
 				co_await awaitor;
+			else if constexpr (std::is_same_v<_Ty, bool>)
+			{
+				bool result = co_await awaitor;
+
+				//std::vector<bool> packs its values: other threads may be storing to the same word
+				scoped_lock<typename state_when_t::lock_type> lock_(state->_lock);
+				value = result;
+			}
 			else
 				value = co_await awaitor;
 			state->on_notify_one();
-- 
2.43.0

