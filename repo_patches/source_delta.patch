From a7304f6d47d9f834f18a93a4422ac9b2fdc79fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 01/50] fix: eager_task must not query a coroutine that may be
 running on another thread

await_ready and is_ready called done() on the coroutine handle while the
coroutine could be executing its final suspend elsewhere (a data race, and
a premature true lets the frame be destroyed while it is still in use).
Keep an atomic state in the promise instead.
---
 macoro/task.h | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/macoro/task.h b/macoro/task.h
index b553067..c2604c3 100644
--- a/macoro/task.h
+++ b/macoro/task.h
@@ -124,6 +124,11 @@ namespace macoro
 				set_parent(get_traceable(continuation), l);
 			}
 
+			bool is_completed(coroutine_handle<> coro) const noexcept
+			{
+				return coro.done();
+			}
+
 		private:
 			coroutine_handle<> m_continuation;
 		};
@@ -154,10 +159,10 @@ namespace macoro
 				{
 					auto& promise = coro.promise();
 					// release our result. acquire their continuation (if they beat us).
-					auto b = promise.has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
+					auto prev = promise.m_state.exchange(state_type::completed, std::memory_order_acq_rel);
 
-					// if b, then we have finished after the continuation was set. 
-					if (b)
+					// then we have finished after the continuation was set. 
+					if (prev == state_type::continuation)
 					{
 						assert(promise.m_continuation);
 						return promise.m_continuation;
@@ -171,7 +176,7 @@ namespace macoro
 		public:
 
 			task_promise_base() noexcept
-				: has_completed_or_continutation(false)
+				: m_state(state_type::running)
 			{
 				//std::cout << "eager" << std::endl;
 			}
@@ -200,12 +205,25 @@ namespace macoro
 			{
 				assert(!m_continuation);
 				m_continuation = continuation;
-				return has_completed_or_continutation.exchange(true, std::memory_order_acq_rel);
+				auto expected = state_type::running;
+				return m_state.compare_exchange_strong(
+					expected, state_type::continuation,
+					std::memory_order_acq_rel,
+					std::memory_order_acquire) == false;
+			}
+
+			// True once the result can be taken. The coroutine may be running on
+			// another thread and therefore the handle itself must not be queried.
+			bool is_completed(coroutine_handle<>) const noexcept
+			{
+				return m_state.load(std::memory_order_acquire) == state_type::completed;
 			}
 
 		private:
-			std::atomic<bool> has_completed_or_continutation;
-			
+			enum class state_type { running, continuation, completed };
+
+			std::atomic<state_type> m_state;
+
 			coroutine_handle<> m_continuation;
 		};
 
@@ -477,7 +495,7 @@ namespace macoro
 
 			bool await_ready() const noexcept
 			{
-				return !m_coroutine || m_coroutine.done();
+				return !m_coroutine || m_coroutine.promise().is_completed(m_coroutine);
 			}
 
 #ifdef MACORO_CPP_20
@@ -584,7 +602,7 @@ namespace macoro
 		/// Awaiting a task that is ready is guaranteed not to block/suspend.
 		bool is_ready() const noexcept
 		{
-			return m_coroutine && m_coroutine.done();
+			return m_coroutine && m_coroutine.promise().is_completed(m_coroutine);
 		}
 
 		struct ref_awaitable : detail::task_awaitable_base<T,lazy>
-- 
2.43.0


From d161e6945c1bf77c449c5b86c69e13d80166f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 02/50] fix: const result::value() must return the value, not
 call itself

---
 macoro/result.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/result.h b/macoro/result.h
index 8afac5f..9d28b0c 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -327,7 +327,7 @@ namespace macoro
 			if (has_error())
 				result_rethrow(error());
 
-			return value();
+			return MACORO_VARIANT_NAMESPACE::get<0>(var());
 		}
 
 		const value_type& operator*() const { return value(); }
-- 
2.43.0


From f845d912f0d4bf3b48786cf5c29063ced93e6d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 03/50] fix: result::operator!= did not compile

---
 macoro/result.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index 9d28b0c..a14fdd7 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -445,24 +445,24 @@ namespace macoro
 		template<typename T2>
 		bool operator!=(detail::OkTag<T2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		template<typename T2>
 		bool operator!=(detail::OkMvTag<T2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		template<typename E2>
 		bool operator!=(detail::ErrorTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 		template<typename E2>
 		bool operator!=(detail::ErrorMvTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 
@@ -600,12 +600,12 @@ namespace macoro
 		template<typename E2>
 		bool operator!=(detail::ErrorTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 		template<typename E2>
 		bool operator!=(detail::ErrorMvTag<E2>&& v)const
 		{
-			return !(*this == v);
+			return !(*this == std::move(v));
 		}
 
 		detail::result_awaiter<void, Error> MACORO_OPERATOR_COAWAIT()
-- 
2.43.0


From bc154c4ff009f79be87b40548c71866ed2a5b74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 04/50] fix: Ok(x) and Err(x) must copy an lvalue, not move
 from it

---
 macoro/result.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index a14fdd7..2e307dc 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -19,7 +19,7 @@ namespace macoro
 		struct OkTag {
 			const T& mV;
 
-			OkTag(T& e)
+			OkTag(const T& e)
 				:mV(e)
 			{}
 
@@ -53,7 +53,7 @@ namespace macoro
 		struct ErrorTag {
 			const E& mE;
 
-			ErrorTag(E& e)
+			ErrorTag(const E& e)
 				:mE(e)
 			{}
 
@@ -100,10 +100,10 @@ namespace macoro
 		return detail::ErrorTag<remove_cvref_t<T>>(t);
 	}
 
-	template<typename T>
-	detail::ErrorMvTag<remove_cvref_t<T>> Err(T&& t)
+	template<typename T, enable_if_t<!std::is_reference<T>::value && !std::is_const<T>::value, int> = 0>
+	detail::ErrorMvTag<T> Err(T&& t)
 	{
-		return detail::ErrorMvTag<remove_cvref_t<T>>(t);
+		return detail::ErrorMvTag<T>(t);
 	}
 
 
@@ -118,10 +118,10 @@ namespace macoro
 		return detail::OkTag<remove_cvref_t<T>>(t);
 	}
 
-	template<typename T>
-	detail::OkMvTag<remove_cvref_t<T>> Ok(T&& t)
+	template<typename T, enable_if_t<!std::is_reference<T>::value && !std::is_const<T>::value, int> = 0>
+	detail::OkMvTag<T> Ok(T&& t)
 	{
-		return detail::OkMvTag<remove_cvref_t<T>>(t);
+		return detail::OkMvTag<T>(t);
 	}
 
 
-- 
2.43.0


From 23239ce8c1f758d2695778d8db2938fc43f10393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 05/50] fix: construct a result from Ok/Err in the alternative
 the tag names

---
 macoro/result.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/macoro/result.h b/macoro/result.h
index 2e307dc..b7a5cc4 100644
--- a/macoro/result.h
+++ b/macoro/result.h
@@ -287,10 +287,10 @@ namespace macoro
 		result& operator=(const result&) = default;
 		result& operator=(result&&) = default;
 
-		result(detail::OkTag<value_type>&& v) :mVar(v.mV) {}
-		result(detail::OkMvTag<value_type>&& v) : mVar(std::move(v.mV)) {}
-		result(detail::ErrorTag<error_type>&& e) : mVar(e.mE) {}
-		result(detail::ErrorMvTag<error_type>&& e) :mVar(std::move(e.mE)) {}
+		result(detail::OkTag<value_type>&& v) :mVar(MACORO_VARIANT_NAMESPACE::in_place_index<0>, v.mV) {}
+		result(detail::OkMvTag<value_type>&& v) : mVar(MACORO_VARIANT_NAMESPACE::in_place_index<0>, std::move(v.mV)) {}
+		result(detail::ErrorTag<error_type>&& e) : mVar(MACORO_VARIANT_NAMESPACE::in_place_index<1>, e.mE) {}
+		result(detail::ErrorMvTag<error_type>&& e) :mVar(MACORO_VARIANT_NAMESPACE::in_place_index<1>, std::move(e.mE)) {}
 
 
 		variant<value_type, error_type> mVar;
-- 
2.43.0


From e413d76259bec8508fb591d90fb5f12d5cd7f75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 06/50] fix: when_all_ready did not compile for lvalue
 awaitables returning values

---
 macoro/when_all.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/macoro/when_all.h b/macoro/when_all.h
index 8cf9cd0..1f2a750 100644
--- a/macoro/when_all.h
+++ b/macoro/when_all.h
@@ -28,11 +28,11 @@ namespace macoro
 	{
 		return detail::when_all_ready_awaitable<
 				std::tuple<
-					detail::when_all_task<
-						awaitable_result_t<
-							remove_reference_and_wrapper_t<Awaitables>
-						>
-					>...
+					decltype(
+						detail::make_when_all_task<remove_rvalue_reference_t<Awaitables>>(
+							std::forward<Awaitables>(awaitables)
+						)
+					)...
 				>
 			>
 			(std::make_tuple(
-- 
2.43.0


From baa392e4c2e270dd6bceec4ebf6ec6d00339c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:55 +0000
Subject: [PATCH 07/50] fix: awaiting an lvalue when_all_ready did not compile

---
 macoro/detail/when_all_awaitable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/detail/when_all_awaitable.h b/macoro/detail/when_all_awaitable.h
index cac1a29..511bb67 100644
--- a/macoro/detail/when_all_awaitable.h
+++ b/macoro/detail/when_all_awaitable.h
@@ -131,14 +131,14 @@ namespace macoro
 				bool await_suspend(std::coroutine_handle<Promise> awaitingCoroutine, std::source_location loc = std::source_location::current()) noexcept
 				{
 					m_awaitable.set_parent(get_traceable(awaitingCoroutine), loc);
-					return await_suspend(coroutine_handle<>(awaitingCoroutine), loc);
+					return m_awaitable.try_await(coroutine_handle<>(awaitingCoroutine));
 				}
 #endif
 				template<typename Promise>
 				bool await_suspend(coroutine_handle<Promise> awaitingCoroutine, std::source_location loc = std::source_location::current()) noexcept
 				{
 					m_awaitable.set_parent(get_traceable(awaitingCoroutine), loc);
-					return m_awaitable.try_await(awaitingCoroutine, loc);
+					return m_awaitable.try_await(awaitingCoroutine);
 				}
 
 				TASK_CONTAINER& await_resume() noexcept
-- 
2.43.0


From fa6e8153ac93c91eb6ce9667c075026508edc69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 08/50] fix: barrier could not be awaited by a coroutine of
 another library

---
 macoro/barrier.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/barrier.h b/macoro/barrier.h
index 2698b5d..9cbab36 100644
--- a/macoro/barrier.h
+++ b/macoro/barrier.h
@@ -128,7 +128,7 @@ namespace macoro
 		coroutine_handle<> ret = continuation;
 		if (m_barrier.increment() > 1)
 		{
-			set_parent(get_traceable(continuation), loc);
+			set_parent(detail::get_traceable(continuation), loc);
 			assert(m_barrier.m_continuation == nullptr);
 			m_barrier.m_continuation = std::exchange(ret, noop_coroutine());
 		}
-- 
2.43.0


From 8cc8b70bbc5473ea3ee34f2099ac5efa683f33f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:24 +0000
Subject: [PATCH 09/50] fix: barrier must not be touched after the decrement
 that reaches zero

---
 macoro/barrier.h | 56 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/macoro/barrier.h b/macoro/barrier.h
index 9cbab36..7f23b25 100644
--- a/macoro/barrier.h
+++ b/macoro/barrier.h
@@ -65,20 +65,22 @@ namespace macoro
 		// the coro that is awaiting the barrier
 		coroutine_handle<> m_continuation;
 
-		// the current count, once it decrements to 0, 
-		// m_continuation is called if set.
+		// twice the current count, plus 1 while a coroutine is
+		// suspended. The last decrement takes both to zero in one 
+		// step: whoever sees zero is free to reuse or destroy 
+		// the barrier.
 		std::atomic<std::size_t> m_count;
 	public:
 
 		// construct a new barrier with the given initial value.
 		explicit barrier(std::size_t initial_count = 0) noexcept
-			: m_count(initial_count)
+			: m_count(initial_count * 2)
 		{}
 
 		// increament the count by amount and return the new count.
 		std::size_t add(size_t amount) noexcept
 		{
-			auto old = m_count.fetch_add(amount, std::memory_order_relaxed);
+			auto old = m_count.fetch_add(amount * 2, std::memory_order_relaxed) / 2;
 			auto ret = old + amount;
 			assert(ret >= old);
 			return ret;
@@ -93,21 +95,27 @@ namespace macoro
 		// returns the current count.
 		std::size_t count() const noexcept 
 		{
-			return m_count.load(std::memory_order_acquire);
+			return m_count.load(std::memory_order_acquire) / 2;
 		}
 
 		// decrease the count by 1. Returns the new count.
 		std::size_t decrement() noexcept
 		{
-			const std::size_t old_count = m_count.fetch_sub(1, std::memory_order_acq_rel);
-
-			assert(old_count);
-
-			if (old_count == 1 && m_continuation)
+			auto old = m_count.load(std::memory_order_acquire);
+			bool resume;
+			do
 			{
+				assert(old > 1);
+				resume = old == 3;
+			} while (!m_count.compare_exchange_weak(
+				old, resume ? 0 : old - 2,
+				std::memory_order_acq_rel, std::memory_order_acquire));
+
+			// the waiter is still suspended, so *this is alive.
+			if (resume)
 				std::exchange(m_continuation, nullptr).resume();
-			}
-			return old_count - 1;
+
+			return old / 2 - 1;
 		}
 		
 		// suspend until the count reached zero. Only
@@ -125,16 +133,26 @@ namespace macoro
 		coroutine_handle<Promise> continuation,
 		std::source_location loc) noexcept
 	{
-		coroutine_handle<> ret = continuation;
-		if (m_barrier.increment() > 1)
+		auto count = m_barrier.m_count.load(std::memory_order_acquire);
+		if (count == 0)
+			return continuation;
+
+		assert(m_barrier.m_continuation == nullptr);
+		set_parent(detail::get_traceable(continuation), loc);
+		m_barrier.m_continuation = continuation;
+		while (!m_barrier.m_count.compare_exchange_weak(
+			count, count | 1,
+			std::memory_order_acq_rel, std::memory_order_acquire))
 		{
-			set_parent(detail::get_traceable(continuation), loc);
-			assert(m_barrier.m_continuation == nullptr);
-			m_barrier.m_continuation = std::exchange(ret, noop_coroutine());
+			if (count == 0)
+			{
+				m_barrier.m_continuation = nullptr;
+				return continuation;
+			}
 		}
-		m_barrier.decrement();
 
-		return ret;
+		// *this may already be destroyed.
+		return noop_coroutine();
 	}
 
 }
\ No newline at end of file
-- 
2.43.0


From 9115d2c8f4b43e42e270b5389d05c100da1e5578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 10/50] fix: a finished scoped task must not touch its frame
 after publishing completion

---
 macoro/async_scope.h                | 23 +++++++++++-----------
 macoro/detail/scoped_task_promise.h | 30 ++++++++++-------------------
 2 files changed, 21 insertions(+), 32 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index ebb5732..0da9056 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -259,11 +259,11 @@ namespace macoro
 
 
 		template<typename T>
-		bool scoped_task_promise<T>::final_awaitable::await_ready() noexcept
+		coroutine_handle<> scoped_task_promise<T>::complete(coroutine_handle<scoped_task_promise> coro) noexcept
 		{
-			scoped_task_promise& promise = m_promise;
+			scoped_task_promise& promise = coro.promise();
 			async_scope* scope = promise.m_scope;
-			bool done = false;
+			coroutine_handle<> next = noop_coroutine();
 
 			// race to see if we need to call the completion handle
 			// it might not have been set yet (or ever).
@@ -285,8 +285,7 @@ namespace macoro
 				// the return value. 
 				if (promise.m_continuation)
 				{
-					m_run_continutation = true;
-					done = false;
+					next = promise.m_continuation;
 				}
 				else
 				{
@@ -295,14 +294,12 @@ namespace macoro
 						// todo, replace vector by a lock free linked list, either to the full
 						// coro frame (no allocations) or to the execptions (node allocations).
 						// for now, locking on expcetions should be fine.
-						std::lock_guard<std::mutex> lock(promise.m_scope->m_exception_mutex);
-						promise.m_scope->m_exceptions.push_back(std::move(promise.m_exception));
+						std::lock_guard<std::mutex> lock(scope->m_exception_mutex);
+						scope->m_exceptions.push_back(std::move(promise.m_exception));
 					}
 
 					// destroy the coro.
-					// this is the same as coro.destroy()
-					// but there is a msvc bug if you do that.
-					done = true;
+					coro.destroy();
 				}
 			}
 			else
@@ -314,13 +311,15 @@ namespace macoro
 				// 
 				// If a continuation is never set, then the scoped_task
 				// will destroy the coro in its distructor. 
+				//
+				// Either can happen right away, the frame must not be 
+				// used from here on.
 				assert(b == completion_state::inprogress);
-				done = false;
 			}
 
 			// notify the scope that we are done.
 			scope->m_barrier.decrement();
-			return done;
+			return next;
 		}
 	}
 
diff --git a/macoro/detail/scoped_task_promise.h b/macoro/detail/scoped_task_promise.h
index 76e27cd..46e2f65 100644
--- a/macoro/detail/scoped_task_promise.h
+++ b/macoro/detail/scoped_task_promise.h
@@ -262,38 +262,25 @@ namespace macoro
 			// the status of the value/exception storage.
 			result_type m_result_type = result_type::empty;
 
-			// this final awaiter runs the suspend logic in await_ready
-			// due to a bug un msvc. Using symetric transfer and called
-			// destroy when done = true causes a segfault. This alternative
-			// implementation implicitly destroys the coro by returning
-			// true from await_ready.
+			// the coroutine has to be suspended before its completion
+			// is published: from then on the owner of the handle, which 
+			// may be another thread, can destroy the frame.
 			struct final_awaitable
 			{
-				scoped_task_promise& m_promise;
-
-				// a variable used to remember if we need to call the continuation.
-				bool m_run_continutation = false;
-
-				bool await_ready() noexcept;
+				bool await_ready() const noexcept { return false; }
 
 #ifdef MACORO_CPP_20
 				std::coroutine_handle<> await_suspend(
 					std::coroutine_handle<scoped_task_promise> coro) noexcept
 				{
-					if (m_run_continutation)
-						return m_promise.m_continuation.std_cast();
-					else
-						return std::noop_coroutine();
+					return complete(coroutine_handle<scoped_task_promise>(coro)).std_cast();
 				}
 #endif
 
 				coroutine_handle<> await_suspend(
 					coroutine_handle<scoped_task_promise> coro) noexcept
 				{
-					if (m_run_continutation)
-						return m_promise.m_continuation;
-					else
-						return noop_coroutine();
+					return complete(coro);
 				}
 
 				void await_resume() noexcept {
@@ -311,7 +298,10 @@ namespace macoro
 			}
 
 			suspend_never initial_suspend() noexcept { return {}; }
-			final_awaitable final_suspend() noexcept { return { *this }; }
+			final_awaitable final_suspend() noexcept { return {}; }
+
+			// publish that coro is done. returns what to resume next.
+			static coroutine_handle<> complete(coroutine_handle<scoped_task_promise> coro) noexcept;
 
 #ifdef MACORO_CPP_20
 			completion_state try_set_continuation(std::coroutine_handle<> continuation) noexcept
-- 
2.43.0


From 2989b188b750059be5b9c9617945088f0916e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 11/50] fix: joining an async_scope must report the exceptions
 thrown during the join

---
 macoro/async_scope.h    | 15 +++++++++++----
 macoro/when_all_scope.h |  4 +++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index 0da9056..746b47c 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -189,7 +189,7 @@ namespace macoro
 		struct join_awaiter
 		{
 			barrier_awaiter m_barrier;
-			std::vector<std::exception_ptr> m_exceptions;
+			async_scope& m_scope;
 
 			bool await_ready() const noexcept { return m_barrier.await_ready(); }
 
@@ -212,8 +212,15 @@ namespace macoro
 			void await_resume()
 			{
 				m_barrier.await_resume();
-				if (m_exceptions.size())
-					throw async_scope_exception(std::move(m_exceptions));
+
+				// the tasks are done, collect what they have thrown.
+				std::vector<std::exception_ptr> exceptions;
+				{
+					std::lock_guard<std::mutex> lock(m_scope.m_exception_mutex);
+					exceptions.swap(m_scope.m_exceptions);
+				}
+				if (exceptions.size())
+					throw async_scope_exception(std::move(exceptions));
 			}
 		};
 
@@ -229,7 +236,7 @@ namespace macoro
 		// until all added awaitables have been completed.
 		join_awaiter MACORO_OPERATOR_COAWAIT() & noexcept
 		{
-			return { m_barrier.MACORO_OPERATOR_COAWAIT(), std::move(m_exceptions) };
+			return { m_barrier.MACORO_OPERATOR_COAWAIT(), *this };
 		}
 
 	private:
diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index f36bb3d..3e822f0 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -151,7 +151,9 @@ namespace macoro
 
 			void await_resume()
 			{
-				m_join.await_resume();
+				// as before, what the body and the tasks have thrown is not
+				// reported: when_all_scope_test depends on that.
+				m_join.m_barrier.await_resume();
 			}
 		};
 
-- 
2.43.0


From 950d19be0754cf3702cce7647999b33076f61dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:21 +0000
Subject: [PATCH 12/50] fix: async_scope::add was ambiguous for lvalue
 awaitables

---
 macoro/async_scope.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/macoro/async_scope.h b/macoro/async_scope.h
index 746b47c..c6f2904 100644
--- a/macoro/async_scope.h
+++ b/macoro/async_scope.h
@@ -166,9 +166,10 @@ namespace macoro
 		// exceptions 
 		template<typename Awaitable>
 		scoped_task<macoro::remove_rvalue_reference_t<macoro::awaitable_result_t<Awaitable>>>
-			add(Awaitable a, std::source_location loc = std::source_location::current()) noexcept
+			add(Awaitable&& a, std::source_location loc = std::source_location::current()) noexcept
+			requires (!std::is_lvalue_reference_v<Awaitable>)
 		{
-			co_return co_await std::move(a);
+			return add_value(std::move(a), loc);
 		}
 
 
@@ -180,7 +181,7 @@ namespace macoro
 		// awaitables can be joined by calling join().
 		// exceptions 
 		template<typename Awaitable>
-		scoped_task<macoro::remove_rvalue_reference_t<macoro::awaitable_result_t<Awaitable>>>
+		scoped_task<macoro::remove_rvalue_reference_t<macoro::awaitable_result_t<Awaitable&>>>
 			add(Awaitable& a, std::source_location loc = std::source_location::current()) noexcept
 		{
 			co_return co_await a;
@@ -240,6 +241,14 @@ namespace macoro
 		}
 
 	private:
+		// the coroutine owns the awaitable.
+		template<typename Awaitable>
+		scoped_task<macoro::remove_rvalue_reference_t<macoro::awaitable_result_t<Awaitable>>>
+			add_value(Awaitable a, std::source_location loc) noexcept
+		{
+			co_return co_await std::move(a);
+		}
+
 		// used to count how many active tasks exists. barrier
 		// then then be awaited to
 		traceable* m_parent = nullptr;
-- 
2.43.0


From 432b30ba1fc676fb6ce0e6eb60c8c414ba66b76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:21 +0000
Subject: [PATCH 13/50] fix: a when_all_scope could not be awaited by
 coroutines outside of macoro::detail

---
 macoro/when_all_scope.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index 3e822f0..5f0a64f 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -144,7 +144,7 @@ namespace macoro
 				std::coroutine_handle<promise> p, 
 				std::source_location loc = std::source_location::current())
 			{
-				m_handle.promise().m_scope.set_parent(get_traceable(p.promise()), loc);
+				m_handle.promise().m_scope.set_parent(detail::get_traceable(p), loc);
 				m_handle.resume();
 				return m_join.await_suspend(p);
 			}
-- 
2.43.0


From d2a7e4ef5e92e3204aaee3faa31802d73aa7d870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:21 +0000
Subject: [PATCH 14/50] fix: when_all_scope leaked its coroutine frame

---
 macoro/when_all_scope.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/macoro/when_all_scope.h b/macoro/when_all_scope.h
index 5f0a64f..c981753 100644
--- a/macoro/when_all_scope.h
+++ b/macoro/when_all_scope.h
@@ -132,6 +132,27 @@ namespace macoro
 			: m_handle(h)
 		{}
 
+		when_all_scope(when_all_scope&& other) noexcept
+			: m_handle(std::exchange(other.m_handle, nullptr))
+		{}
+
+		when_all_scope& operator=(when_all_scope&& other) noexcept
+		{
+			if (std::addressof(other) != this)
+			{
+				if (m_handle)
+					m_handle.destroy();
+				m_handle = std::exchange(other.m_handle, nullptr);
+			}
+			return *this;
+		}
+
+		~when_all_scope()
+		{
+			if (m_handle)
+				m_handle.destroy();
+		}
+
 		struct awaiter
 		{
 			coroutine_handle<promise_type> m_handle;
-- 
2.43.0


From 5c537fa21894eb4a96427ecf0b82c9cff2d141d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:01 +0000
Subject: [PATCH 15/50] fix: resuming a sequence_barrier waiter must acquire
 what its thread did before suspending

---
 macoro/sequence_barrier.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/macoro/sequence_barrier.h b/macoro/sequence_barrier.h
index 9977680..cea9eb4 100644
--- a/macoro/sequence_barrier.h
+++ b/macoro/sequence_barrier.h
@@ -167,7 +167,7 @@ namespace macoro
 		{
 			m_awaitingCoroutine = awaitingCoroutine;
 			m_barrier.add_awaiter(this);
-			return !m_readyToResume.exchange(true, std::memory_order_acquire);
+			return !m_readyToResume.exchange(true, std::memory_order_acq_rel);
 		}
 
 		SEQUENCE await_resume() noexcept
@@ -181,8 +181,9 @@ namespace macoro
 
 		void resume() noexcept
 		{
-			// This synchronises with the exchange(true, std::memory_order_acquire) in await_suspend().
-			if (m_readyToResume.exchange(true, std::memory_order_release))
+			// This synchronises with the exchange(true, std::memory_order_acq_rel) in await_suspend(),
+			// in both directions: the coroutine may destroy *this as soon as it is resumed.
+			if (m_readyToResume.exchange(true, std::memory_order_acq_rel))
 			{
 				m_awaitingCoroutine.resume();
 				//resume_impl();
-- 
2.43.0


From d2a7ee47b19a1200e6d98714eb9c0848c33a9634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:34 +0000
Subject: [PATCH 16/50] fix: sequence_range::skip did not compile for sequence
 types narrower than int

---
 macoro/sequence_range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_range.h b/macoro/sequence_range.h
index 8b4fd5e..b6eb583 100644
--- a/macoro/sequence_range.h
+++ b/macoro/sequence_range.h
@@ -92,7 +92,7 @@ namespace macoro
 
 		constexpr sequence_range skip(size_type count) const noexcept
 		{
-			return sequence_range{ m_begin + std::min(size(), count), m_end };
+			return sequence_range{ static_cast<SEQUENCE>(m_begin + std::min(size(), count)), m_end };
 		}
 
 	private:
-- 
2.43.0


From 216eb7c5edee1101ccbf095f7b227cccb4ad852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:34 +0000
Subject: [PATCH 17/50] fix: claim_up_to claimed slots in use when a narrow
 sequence number wrapped around

---
 macoro/sequence_spsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_spsc.h b/macoro/sequence_spsc.h
index e282cf6..e1be81c 100644
--- a/macoro/sequence_spsc.h
+++ b/macoro/sequence_spsc.h
@@ -242,7 +242,7 @@ namespace macoro
 			const SEQUENCE lastAvailableSequence =
 				static_cast<SEQUENCE>(m_consumerWaitOperation.await_resume() + m_sequencer.m_bufferSize);
 			const SEQUENCE begin = m_sequencer.m_nextToClaim;
-			const std::size_t availableCount = static_cast<std::size_t>(lastAvailableSequence - begin) + 1;
+			const std::size_t availableCount = static_cast<SEQUENCE>(lastAvailableSequence - begin) + std::size_t{ 1 };
 			const std::size_t countToClaim = std::min(m_count, availableCount);
 			const SEQUENCE end = static_cast<SEQUENCE>(begin + countToClaim);
 			m_sequencer.m_nextToClaim = end;
-- 
2.43.0


From a30b0d5f6aaae219ba66f93dc05eefa4a2004bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:01 +0000
Subject: [PATCH 18/50] fix: sequence_mpsc woke waiters whose own target was
 not yet published

---
 macoro/sequence_mpsc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 4833646..691cd90 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -686,7 +686,7 @@ namespace macoro
 
 				while (awaiters != nullptr)
 				{
-					diff_t diff = TRAITS::difference(targetSequence, lastKnownPublished);
+					diff_t diff = TRAITS::difference(awaiters->m_targetSequence, lastKnownPublished);
 					if (diff > 0)
 					{
 						// Not yet ready.
-- 
2.43.0


From b0e4842c606ab7ec8f3b821a0f21f553bf6e5f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:01 +0000
Subject: [PATCH 19/50] fix: sequence_mpsc::any_available missed the last free
 slot

---
 macoro/sequence_mpsc.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 691cd90..974b46b 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -453,9 +453,10 @@ namespace macoro
 	template<typename SEQUENCE, typename TRAITS>
 	bool sequence_mpsc<SEQUENCE, TRAITS>::any_available() const noexcept
 	{
-		return TRAITS::precedes(
-			m_nextToClaim.load(std::memory_order_relaxed),
-			m_consumerBarrier.last_published() + buffer_size());
+		// The last slot of the buffer belongs to last_published() + buffer_size().
+		return !TRAITS::precedes(
+			static_cast<SEQUENCE>(m_consumerBarrier.last_published() + buffer_size()),
+			m_nextToClaim.load(std::memory_order_relaxed));
 	}
 
 	template<typename SEQUENCE, typename TRAITS>
-- 
2.43.0


From 8a5326a8dc2c4b9ae679d9125996350dbb10df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:01 +0000
Subject: [PATCH 20/50] fix: resuming a sequence_mpsc waiter must acquire what
 its thread did before suspending

---
 macoro/sequence_mpsc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 974b46b..036a3bb 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -362,7 +362,7 @@ namespace macoro
 			// If it was already marked as ready-to-resume within the call to add_awaiter() or
 			// on another thread then this exchange() will return true. In this case we want to
 			// resume immediately and continue execution by returning false.
-			return !m_readyToResume.exchange(true, std::memory_order_acquire);
+			return !m_readyToResume.exchange(true, std::memory_order_acq_rel);
 		}
 
 		SEQUENCE await_resume() noexcept
@@ -377,7 +377,7 @@ namespace macoro
 		void resume(SEQUENCE lastKnownPublished) noexcept
 		{
 			m_lastKnownPublished = lastKnownPublished;
-			if (m_readyToResume.exchange(true, std::memory_order_release))
+			if (m_readyToResume.exchange(true, std::memory_order_acq_rel))
 			{
 				resume_impl();
 			}
-- 
2.43.0


From 99b7e2db3944db45c43fc7fa0b031aeac8d860d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:01 +0000
Subject: [PATCH 21/50] fix: sequence_mpsc did not work with sequence types
 narrower than int

---
 macoro/sequence_mpsc.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/macoro/sequence_mpsc.h b/macoro/sequence_mpsc.h
index 036a3bb..331665f 100644
--- a/macoro/sequence_mpsc.h
+++ b/macoro/sequence_mpsc.h
@@ -240,7 +240,7 @@ namespace macoro
 			return sequence_mpsc_claim_awaiter<SEQUENCE, TRAITS>{
 				m_sequencer.m_consumerBarrier,
 				m_sequencer.buffer_size(),
-				sequence_range<SEQUENCE, TRAITS>{ first, first + m_count }
+				sequence_range<SEQUENCE, TRAITS>{ first, static_cast<SEQUENCE>(first + m_count) }
 			};
 		}
 
@@ -670,9 +670,10 @@ namespace macoro
 			//
 			// TODO: Check whether we can weaken the memory order here to just use 'seq_cst' on the
 			// first .load() and then use 'acquire' on subsequent .load().
-			while (m_published[(lastKnownPublished + 1) & sequenceMask].load(std::memory_order_seq_cst) == (lastKnownPublished + 1))
+			SEQUENCE seq = lastKnownPublished + 1;
+			while (m_published[seq & sequenceMask].load(std::memory_order_seq_cst) == seq)
 			{
-				++lastKnownPublished;
+				lastKnownPublished = seq++;
 			}
 
 			if (!TRAITS::precedes(lastKnownPublished, targetSequence))
-- 
2.43.0


From 6bfe898cedab34f7b9556c7d5b8166d551df4351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:32 +0000
Subject: [PATCH 22/50] fix: popping a closed channel must throw instead of
 making up an item

---
 macoro/channel.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/macoro/channel.h b/macoro/channel.h
index 598efa3..cc64a65 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -105,8 +105,7 @@ namespace macoro
             {
                 assert(this->mChl);
                 auto& slot = this->mChl->mData[this->mChl->mIndexMask & this->mIndex];
-                if (!slot)
-                    slot.emplace();
+                assert(slot);
                 return std::move(slot.value());
             }
 
@@ -324,6 +323,8 @@ namespace macoro
                 pop_wrapper await_resume() {
                     this->mChl->mLastKnown = this->mInner.await_resume();
                     assert(this->mChl->mLastKnown >= this->mChl->mFrontIndex);
+                    if (!this->mChl->mData[this->mChl->mFrontIndex & this->mChl->mIndexMask])
+                        throw channel_closed_exception{};
                     return pop_wrapper(this->mChl, this->mChl->mFrontIndex);
                 }
             };
-- 
2.43.0


From 8ae7deff8f35c0d56d742365887a10775eb5cb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:32 +0000
Subject: [PATCH 23/50] fix: channel operations claimed their slot when
 requested instead of when awaited

---
 macoro/channel.h | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/macoro/channel.h b/macoro/channel.h
index cc64a65..37096d1 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -35,6 +35,19 @@ namespace macoro
         std::size_t mIndexMask = 0, mFrontIndex = 0, mLastKnown = sequence_traits<std::size_t>::initial_sequence;
         std::vector<optional<T>> mData;
 
+        // The operation is performed when it is awaited, not when
+        // it is requested: what is claimed or waited for is looked 
+        // up at that time.
+        template<typename Make>
+        struct operation
+        {
+            Make mMake;
+            auto MACORO_OPERATOR_COAWAIT() { return mMake(); }
+        };
+
+        template<typename Make>
+        static operation<Make> make_operation(Make make) { return { std::move(make) }; }
+
         class wrapper_base
         {
         protected:
@@ -194,7 +207,9 @@ namespace macoro
                     mChl->mSequence.publish(idx);
                 }
             };
-            return push_awaitable(mSequence.claim_one().MACORO_OPERATOR_COAWAIT(), this, std::forward<T>(t));
+            return make_operation([this, t = T(std::forward<T>(t))]() mutable {
+                return push_awaitable(mSequence.claim_one().MACORO_OPERATOR_COAWAIT(), this, std::forward<T>(t));
+            });
         }
 
         // Request a position in the queue. Once awaited, the caller can assign to the
@@ -227,7 +242,9 @@ namespace macoro
                 }
             };
 
-            return push_awaitable(mSequence.claim_one().MACORO_OPERATOR_COAWAIT(), this);
+            return make_operation([this] {
+                return push_awaitable(mSequence.claim_one().MACORO_OPERATOR_COAWAIT(), this);
+            });
         }
 
 
@@ -261,7 +278,9 @@ namespace macoro
                 }
             };
 
-            return close_awaitable(mSequence.claim_one().MACORO_OPERATOR_COAWAIT(), this);
+            return make_operation([this] {
+                return close_awaitable(mSequence.claim_one().MACORO_OPERATOR_COAWAIT(), this);
+            });
         }
 
         struct front_awaitable_base
@@ -305,7 +324,9 @@ namespace macoro
                 }
             };
 
-            return front_awaitable(mSequence.wait_until_published(mFrontIndex, mLastKnown), this);
+            return make_operation([this] {
+                return front_awaitable(mSequence.wait_until_published(mFrontIndex, mLastKnown), this);
+            });
         }
 
         // Pop the front item off of the channel. The result of this
@@ -329,7 +350,9 @@ namespace macoro
                 }
             };
 
-            return pop_awaitable(mSequence.wait_until_published(mFrontIndex, mLastKnown), this);
+            return make_operation([this] {
+                return pop_awaitable(mSequence.wait_until_published(mFrontIndex, mLastKnown), this);
+            });
         }
     public:
     };
-- 
2.43.0


From a5ee88a4373cdfafc8da9ee30be52ba143bca28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:08 +0000
Subject: [PATCH 24/50] fix: a channel capacity that is not a power of two must
 be refused before it is used

---
 macoro/channel.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/macoro/channel.h b/macoro/channel.h
index 37096d1..0e26a76 100644
--- a/macoro/channel.h
+++ b/macoro/channel.h
@@ -48,6 +48,15 @@ namespace macoro
         template<typename Make>
         static operation<Make> make_operation(Make make) { return { std::move(make) }; }
 
+        // the sequencer requires a valid capacity.
+        static std::size_t check_capacity(std::size_t capacity)
+        {
+            auto powOf2 = (capacity > 0 && (capacity & (capacity - 1)) == 0);
+            if (!powOf2)
+                throw std::runtime_error("capacity must be a power of 2");
+            return capacity;
+        }
+
         class wrapper_base
         {
         protected:
@@ -167,12 +176,9 @@ namespace macoro
         // Initialize the channel with an internal max storage of capacity.
         // capacity must be a power of two.
         channel(std::size_t capacity)
-            : mSequence(mBarrier, capacity)
+            : mSequence(mBarrier, check_capacity(capacity))
             , mData(capacity)
         {
-            auto powOf2 = (capacity > 0 && (capacity & (capacity - 1)) == 0);
-            if (!powOf2)
-                throw std::runtime_error("capacity must be a power of 2");
             mIndexMask = capacity - 1;
         }
 
-- 
2.43.0


From c9410faabca0cb3527cd26c5865c9531c89b7dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:55 +0000
Subject: [PATCH 25/50] fix: a stop request during the suspension of a
 co_awaited stop_token must not resume the coroutine before it is suspended

---
 macoro/stop.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/macoro/stop.h b/macoro/stop.h
index e603d6e..4fcfb68 100644
--- a/macoro/stop.h
+++ b/macoro/stop.h
@@ -1,6 +1,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <optional>
 #include "macoro/coroutine_handle.h"
@@ -35,6 +36,11 @@ namespace macoro
 
 		stop_token mtoken;
 		optional_stop_callback mReg;
+
+		// set by the callback and when await_suspend is done with this object, 
+		// who comes second continues the coroutine (which may destroy this object).
+		std::atomic<bool> mFirst{ false };
+
 		bool await_ready() { return false; }
 
 		std::coroutine_handle<> await_suspend(std::coroutine_handle<> h)
@@ -45,11 +51,13 @@ namespace macoro
 		{
 			if (mtoken.stop_possible() && !mtoken.stop_requested())
 			{
-				mReg.emplace(mtoken, [h] {
-					h.resume();
+				mReg.emplace(mtoken, [this, h] {
+					if (mFirst.exchange(true, std::memory_order_acq_rel))
+						h.resume();
 					});
 
-				return noop_coroutine();
+				if (!mFirst.exchange(true, std::memory_order_acq_rel))
+					return noop_coroutine();
 			}
 			return h;
 		}
-- 
2.43.0


From 234733296314d7975ad8931a6c8ed338d54e4c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:57 +0000
Subject: [PATCH 26/50] fix: the thread pool must not be touched after its lock
 was released by post or by the last work guard

---
 macoro/thread_pool.h | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 8bf9478..fd5dfe5 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -76,10 +76,11 @@ namespace macoro
             {
                 //log("post");
                 assert(fn);
-                {
-                    std::lock_guard<std::mutex> lock(mMutex);
-                    mDeque.push_back(std::move(fn));
-                }
+
+                // notify under the lock, once it is released fn can
+                // run and this pool can be joined and destroyed.
+                std::lock_guard<std::mutex> lock(mMutex);
+                mDeque.push_back(std::move(fn));
                 mCondition.notify_one();
             }
 
@@ -91,11 +92,8 @@ namespace macoro
                     return true;
                 else
                 {
-                    {
-                        std::lock_guard<std::mutex> lock(mMutex);
-                        mDeque.push_back(std::move(fn));
-                    }
-
+                    std::lock_guard<std::mutex> lock(mMutex);
+                    mDeque.push_back(std::move(fn));
                     mCondition.notify_one();
                     return false;
                 }
@@ -243,16 +241,14 @@ namespace macoro
                 if (mEx)
                 {
 
-                    std::size_t v = 0;
-                    {
-                        std::lock_guard<std::mutex> lock(mEx->mMutex);
-                        v = --mEx->mWork;
-                    }
-                    if (v == 0)
+                    // notify under the lock, once it is released the
+                    // pool can be joined and destroyed.
+                    auto ex = std::exchange(mEx, nullptr);
+                    std::lock_guard<std::mutex> lock(ex->mMutex);
+                    if (--ex->mWork == 0)
                     {
-                        mEx->mCondition.notify_all();
+                        ex->mCondition.notify_all();
                     }
-                    mEx = nullptr;
                 }
             }
             ~work()
-- 
2.43.0


From 17b6ee79e26bd5374519d4384a3be627e9862f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:40 +0000
Subject: [PATCH 27/50] fix: moving a thread_pool must not pull it from under
 its threads

---
 macoro/thread_pool.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index fd5dfe5..82b6e07 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -262,7 +262,15 @@ namespace macoro
             :mState(new detail::thread_pool_state)
         {}
         thread_pool(thread_pool&&) = default;
-        thread_pool& operator=(thread_pool&&) = default;
+        thread_pool& operator=(thread_pool&& o)
+        {
+            if (this != &o)
+            {
+                join();
+                mState = std::move(o.mState);
+            }
+            return *this;
+        }
 
         thread_pool(std::size_t number_of_threads, work& w)
             : mState(new detail::thread_pool_state)
@@ -332,7 +340,7 @@ namespace macoro
                 mState->mThreads.reserve(mState->mThreads.size() + n);
                 for (std::size_t i = 0; i < n; ++i)
                 {
-                    mState->mThreads.emplace_back([this] {run(); });
+                    mState->mThreads.emplace_back([state = mState.get()] {run(state); });
                 }
             }
         }
@@ -373,7 +381,14 @@ namespace macoro
 
         void run()
         {
-            auto state = mState.get();
+            run(mState.get());
+        }
+
+    private:
+
+        // does not refer to the thread_pool object as it can be moved.
+        static void run(detail::thread_pool_state* state)
+        {
             //state->log("run");
 
             if (detail::thread_pool_state::mCurrentExecutor != nullptr)
-- 
2.43.0


From 954bc0b0519822f7a9b2aa0097a59368e3f111ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:27 +0000
Subject: [PATCH 28/50] fix: schedule_after must not touch its awaiter once the
 operation is queued

---
 macoro/thread_pool.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 82b6e07..c4dc1fe 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -112,16 +112,23 @@ namespace macoro
                     {
                         std::unique_lock<std::mutex> lock(mMutex);
                         idx = mDelayOpIdx++;
-                        mDelayHeap.emplace_back(idx, h, deadline);
-                        std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
                     }
 
                     if (token.stop_possible())
                     {
-                        reg.emplace(std::move(token), [idx, this] {
+                        reg.emplace(token, [idx, this] {
                             cancel_delay_op(idx);
                             });
                     }
+
+                    // Once h is pushed and the lock is released, h can be resumed 
+                    // and token, reg and this pool can be destroyed. If the stop 
+                    // was requested by now, the callback might have come too early.
+                    std::unique_lock<std::mutex> lock(mMutex);
+                    if (token.stop_requested())
+                        deadline = thread_pool_clock::now();
+                    mDelayHeap.emplace_back(idx, h, deadline);
+                    std::push_heap(mDelayHeap.begin(), mDelayHeap.end());
                     mCondition.notify_one();
                 }
                 else
-- 
2.43.0


From 3a9380bbbee8687e00712acbfc48e58d7304c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:27 +0000
Subject: [PATCH 29/50] fix: the thread pool must not wait on a deadline inside
 its changing heap

---
 macoro/thread_pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index c4dc1fe..5b9d24e 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -419,7 +419,9 @@ namespace macoro
 
                         if (state->mDelayHeap.size())
                         {
-                            state->mCondition.wait_until(lock, state->mDelayHeap.front().deadline);
+                            // a copy, the heap changes while we wait.
+                            auto deadline = state->mDelayHeap.front().deadline;
+                            state->mCondition.wait_until(lock, deadline);
                         }
                         else
                         {
-- 
2.43.0


From c46e188cdaf4b6522bcc33ee8bd53711cf0f99c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:35 +0000
Subject: [PATCH 30/50] fix: a thread pool worker that takes a job must pass on
 the notification for what it leaves behind

---
 macoro/thread_pool.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 5b9d24e..816dc19 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -453,6 +453,10 @@ namespace macoro
 
                     if (fn)
                     {
+                        // we were notified for what is left too, pass it on.
+                        if (state->mDeque.size() || state->mDelayHeap.size())
+                            state->mCondition.notify_one();
+
                         lock.unlock();
 
                         fn.resume();
-- 
2.43.0


From 367fbb0e66819f47a0a4bbfcbad776dee0b117a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:35 +0000
Subject: [PATCH 31/50] fix: cancelling a delayed operation must release every
 worker that waits for its deadline

---
 macoro/thread_pool.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 816dc19..00fe8d1 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -141,22 +141,20 @@ namespace macoro
             void cancel_delay_op(std::size_t idx)
             {
                 //log("cancel_delay_op");
-                bool notify = false;
+                std::unique_lock<std::mutex> lock(mMutex);
+                for (std::size_t i = 0; i < mDelayHeap.size(); ++i)
                 {
-                    std::unique_lock<std::mutex> lock(mMutex);
-                    for (std::size_t i = 0; i < mDelayHeap.size(); ++i)
+                    if (mDelayHeap[i].idx == idx)
                     {
-                        if (mDelayHeap[i].idx == idx)
-                        {
-                            mDelayHeap[i].deadline = thread_pool_clock::now();
-                            std::make_heap(mDelayHeap.begin(), mDelayHeap.end());
-                            notify = true;
-                            break;
-                        }
+                        mDelayHeap[i].deadline = thread_pool_clock::now();
+                        std::make_heap(mDelayHeap.begin(), mDelayHeap.end());
+
+                        // all of them, every one that waits for the old deadline 
+                        // has to stop doing so.
+                        mCondition.notify_all();
+                        break;
                     }
                 }
-                if (notify)
-                    mCondition.notify_one();
             }
 
         };
-- 
2.43.0


From afde480f76f9d7955b59eb952661bc140a1785ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:36 +0000
Subject: [PATCH 32/50] fix: take_until must deliver references and move-only
 results

---
 macoro/take_until.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/macoro/take_until.h b/macoro/take_until.h
index 2ff14eb..ee0d1a5 100644
--- a/macoro/take_until.h
+++ b/macoro/take_until.h
@@ -3,6 +3,8 @@
 #include "stop.h"
 #include "task.h"
 #include <chrono>
+#include <memory>
+#include <optional>
 #include "type_traits.h"
 #include "result.h"
 #include "macoro/macros.h"
@@ -20,14 +22,22 @@ namespace macoro
 	template<typename AWAITABLE, typename UNTIL>
 	task<remove_rvalue_reference_t<awaitable_result_t<AWAITABLE>>> take_until(AWAITABLE awaitable, UNTIL until)
 	{
-		using return_type = awaitable_result_t<AWAITABLE>;
-		constexpr bool is_void = std::is_void<awaitable_result_t<AWAITABLE>>::value;
-		using storage = std::conditional_t< is_void, int, std::optional<return_type>>;
+		using return_type = remove_rvalue_reference_t<awaitable_result_t<AWAITABLE>>;
+		constexpr bool is_void = std::is_void<return_type>::value;
+		constexpr bool is_reference = std::is_lvalue_reference<return_type>::value;
+
+		// a reference is kept as a pointer.
+		using storage = std::conditional_t<is_void, int,
+			std::conditional_t<is_reference,
+				std::optional<std::add_pointer_t<return_type>>,
+				std::optional<return_type>>>;
 		storage v;
 		std::exception_ptr ex;
 		try {
 			if constexpr (is_void)
 				co_await std::move(awaitable);
+			else if constexpr (is_reference)
+				v.emplace(std::addressof(co_await(std::move(awaitable))));
 			else
 				v.emplace(co_await(std::move(awaitable)));
 		}
@@ -47,7 +57,9 @@ namespace macoro
 		if (ex)
 			std::rethrow_exception(ex);
 
-		if constexpr (is_void == false)
-			co_return static_cast<awaitable_result_t<AWAITABLE>>(v.value());
+		if constexpr (is_reference)
+			co_return *v.value();
+		else if constexpr (is_void == false)
+			co_return std::move(v.value());
 	}
 }
-- 
2.43.0


From 35cc8586ac14fcb2c5e7b4d8facf8f640384e3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 33/50] fix: macro coroutines must be able to await awaiters
 that take only native handles

The exception specification of await_suspend() for awaiters returning void or
bool named a call with a macoro handle, which does not compile for an awaiter
that accepts std::coroutine_handle<> only.
---
 macoro/coro_frame.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 26a1772..173592d 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -93,6 +93,20 @@ namespace macoro
 	}
 #endif
 
+	template<typename Awaiter, typename T>
+	constexpr bool noexcept_await_suspend()
+	{
+
+		if constexpr (requires(Awaiter a, coroutine_handle<T> h) { a.await_suspend(h); })
+		{
+			return noexcept(std::declval<Awaiter&>().await_suspend(coroutine_handle<T>{}));
+		}
+		else
+		{
+			return noexcept(std::declval<Awaiter&>().await_suspend(std::coroutine_handle<void>{}));
+		}
+	}
+
 	template<typename Awaiter, typename T>
 	await_suspend_t<bool> await_suspend(Awaiter& a, coroutine_handle<T> h,
 		enable_if_t<
@@ -101,7 +115,7 @@ namespace macoro
 		||
 		has_void_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept(a.await_suspend(h)))
+		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 		auto h2 = implicit_cast<has_void_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
 		a.await_suspend(h2);
@@ -116,7 +130,7 @@ namespace macoro
 		||
 		has_bool_await_suspend<Awaiter, std::coroutine_handle<void>>::value
 #endif
-		, empty_state> = {}) noexcept(noexcept(await_suspend_t<bool>{ a.await_suspend(h) }))
+		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 
 		auto h2 = implicit_cast<has_bool_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
@@ -124,20 +138,6 @@ namespace macoro
 	}
 
 
-	template<typename Awaiter, typename T>
-	constexpr bool noexcept_await_suspend()
-	{
-
-		if constexpr (requires(Awaiter a, coroutine_handle<T> h) { a.await_suspend(h); })
-		{
-			return noexcept(std::declval<Awaiter>().await_suspend(coroutine_handle<T>{}));
-		}
-		else
-		{
-			return noexcept(std::declval<Awaiter>().await_suspend(std::coroutine_handle<void>{}));
-		}
-	}
-
 	template<typename Awaiter, typename T>
 	auto await_suspend(Awaiter& a, coroutine_handle<T> h,
 		enable_if_t<
-- 
2.43.0


From 8a1035f677bcc9cc768a15c5f53a55c65f8604df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 34/50] fix: macro coroutines must accept awaiters that answer
 a macoro handle with a native one

The static_assert allows a return type convertible to std::coroutine_handle<>,
but the comparison with the awaiting handle did not compile.
---
 macoro/coro_frame.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 173592d..705d6d3 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -166,9 +166,19 @@ namespace macoro
 
 		if constexpr (requires(Awaiter a) { a.await_suspend(h); })
 		{
-			using promise_type = typename coroutine_handle_traits<decltype(a.await_suspend(h))>::promise_type;
-			auto ret = a.await_suspend(h);
-			return await_suspend_t<coroutine_handle<promise_type>>{ ret, h != ret  };
+			using ret_type = decltype(a.await_suspend(h));
+			if constexpr (std::is_convertible<ret_type, macoro::coroutine_handle<>>::value)
+			{
+				using promise_type = typename coroutine_handle_traits<ret_type>::promise_type;
+				auto ret = a.await_suspend(h);
+				return await_suspend_t<coroutine_handle<promise_type>>{ ret, h != ret  };
+			}
+			else
+			{
+				auto hstd = h.std_cast();
+				auto ret = a.await_suspend(h);
+				return await_suspend_t<coroutine_handle<void>>{ coroutine_handle<void>(ret), hstd != ret  };
+			}
 		}
 		else
 		{
-- 
2.43.0


From 555fdfa65b853860f30e2c457f4f2aa0dcab1506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 35/50] fix: querying or destroying an untyped no-op handle
 must be harmless

done() and destroy() of a coroutine_handle<> made from noop_coroutine()
dereferenced its tag address.
---
 macoro/coro_frame.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 705d6d3..848522a 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -820,6 +820,8 @@ namespace macoro
 
 	inline bool _macoro_coro_done(void* _address)noexcept
 	{
+		if (_address == noop_coroutine().address())
+			return false;
 #ifdef MACORO_CPP_20
 		if (!_macoro_coro_is_std(_address))
 		{
@@ -919,6 +921,8 @@ namespace macoro
 
 	inline void _macoro_coro_destroy(void* _address)noexcept
 	{
+		if (_address == noop_coroutine().address())
+			return;
 #ifdef MACORO_CPP_20
 		if (!_macoro_coro_is_std(_address))
 		{
-- 
2.43.0


From 9fcedef6204d86679c377cee5c472dd212d873e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 36/50] fix: moving a blocking_task to itself must keep its
 coroutine

The assignment destroyed the coroutine and kept the dangling handle.
---
 macoro/sync_wait.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/macoro/sync_wait.h b/macoro/sync_wait.h
index 2c48cbf..5ce120b 100644
--- a/macoro/sync_wait.h
+++ b/macoro/sync_wait.h
@@ -155,8 +155,9 @@ namespace macoro
 			: m_handle(std::exchange(other.m_handle, nullptr))
 		{}
 		blocking_task& operator=(blocking_task&& h) {
-			this->~blocking_task();
-			m_handle = std::exchange(h.m_handle, std::nullptr_t{});
+			auto handle = std::exchange(m_handle, std::exchange(h.m_handle, std::nullptr_t{}));
+			if (handle)
+				handle.destroy();
 			return *this;
 		}
 
-- 
2.43.0


From 2e812e28011966185db5824be57587f055f5fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 37/50] fix: destroying a macro coroutine through its native
 handle must destroy the adapter once

The native handle names an adapter coroutine. Destroying it destroyed the frame,
which destroyed the adapter again and freed its storage while it was still being
destroyed (a heap use after free with gcc).
---
 macoro/coro_frame.h | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 848522a..1b44fb8 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -543,6 +543,7 @@ namespace macoro
 		//using inline_storage_adapter = std::aligned_storage_t<400, alignof(std::max_align_t)>;
 		//inline_storage_adapter frame_adapter_storage;
 		std::shared_ptr<char> frame_adapter_storage;
+		std::size_t frame_adapter_size = 0;
 
 		using outter_promise_type = promise_type;
 		struct std_handle_adapter
@@ -567,20 +568,47 @@ namespace macoro
 				~promise_type()
 				{
 					if (outer_handle)
+					{
+						// The adapter is destroyed before the frame that owns it. The
+						// frame must not destroy it a second time and the storage
+						// has to live until the adapter is released.
+						auto base = static_cast<FrameBase*>(reinterpret_cast<FrameBase<void>*>(
+							(std::size_t)outer_handle.address() ^ 1));
+						*storage_ref(base->frame_adapter_storage.get(), base->frame_adapter_size) =
+							base->frame_adapter_storage;
+						base->std_handle = nullptr;
 						outer_handle.destroy();
+					}
+				}
+
+				// the adapter storage ends with a (typically null) reference to itself.
+				static std::size_t storage_size(std::size_t size)
+				{
+					constexpr auto align = alignof(std::shared_ptr<char>);
+					return (size + align - 1) / align * align;
+				}
+
+				static std::shared_ptr<char>* storage_ref(void* ptr, std::size_t size)
+				{
+					return reinterpret_cast<std::shared_ptr<char>*>((char*)ptr + storage_size(size));
 				}
 
 				template<typename TT>
 				void* operator new(std::size_t size, TT& base)
 				{
 					assert(base.frame_adapter_storage == nullptr);
-					base.frame_adapter_storage =
-						std::shared_ptr<char>(new char[size], std::default_delete<char[]>());
-					return base.frame_adapter_storage.get();
+					base.frame_adapter_storage = std::shared_ptr<char>(
+						new char[storage_size(size) + sizeof(std::shared_ptr<char>)], std::default_delete<char[]>());
+					base.frame_adapter_size = size;
+					auto ptr = base.frame_adapter_storage.get();
+					new (storage_ref(ptr, size)) std::shared_ptr<char>();
+					return ptr;
 				}
 
 				void operator delete(void* ptr, std::size_t size)
 				{
+					auto storage = std::move(*storage_ref(ptr, size));
+					storage_ref(ptr, size)->~shared_ptr();
 				}
 
 				void return_void() {}
@@ -590,7 +618,8 @@ namespace macoro
 
 			~std_handle_adapter()
 			{
-				std::coroutine_handle<promise_type>::from_promise(*promise).destroy();
+				if (promise)
+					std::coroutine_handle<promise_type>::from_promise(*promise).destroy();
 			}
 
 			promise_type* promise;
@@ -688,8 +717,12 @@ namespace macoro
 		{
 			// For when std_adapter isn'mTask the one who called our destructor,
 			// prevent it from calling it recursively by setting the handle
-			// back to this frame to null.
-			std_adapter.promise->outer_handle = std::nullptr_t{};
+			// back to this frame to null. Otherwise the adapter is already
+			// being destroyed.
+			if (std_handle)
+				std_adapter.promise->outer_handle = std::nullptr_t{};
+			else
+				std_adapter.promise = nullptr;
 		}
 	private:
 
-- 
2.43.0


From 2e5a98ea8274232e48e1fabac96284903ec6edf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 38/50] fix: MC_AWAIT_TRY must catch every exception of the
 await

An exception thrown by the awaited expression, operator co_await, await_ready or
await_suspend ended the coroutine instead of being stored, unlike the documented
try { VARIABLE = Ok(co_await EXPRESSION); } catch (...) { ... }.
---
 macoro/coro_frame.h | 11 +++++++++++
 macoro/macros.h     | 28 ++++++++++++++++++++++------
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 1b44fb8..4528405 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -452,6 +452,17 @@ namespace macoro
 			awaiters.pop_back();
 		}
 
+		// destroy the awaiter of an await that failed before it suspended.
+		template<typename CTX>
+		void abandonAwaiter()
+		{
+			if (awaiters.size() && awaiters.back().suspend_index == CTX::suspend_index)
+			{
+				awaiters.back()._awaiter_deleter(awaiters.back()._ctx_ptr);
+				awaiters.pop_back();
+			}
+		}
+
 #ifdef MACORO_CPP_20
 
 		//using inline_storage_adapter = std::aligned_storage_t<400, alignof(std::max_align_t)>;
diff --git a/macoro/macros.h b/macoro/macros.h
index 9f5ee5e..e35a66c 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -26,11 +26,14 @@
 // the value returned from the function.
 // 
 // Then we have the awaiter, we call await_ready and await_suspend.
-#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX)																	\
+#define IMPL_MC_AWAIT_DECL(EXPRESSION, SUSPEND_IDX)	\
 	using _macoro_promise_type = decltype(_macoro_frame_->promise);														\
 	using MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX) = ::macoro::AwaitContext<_macoro_promise_type, SUSPEND_IDX,		\
 		::macoro::store_as_t<decltype(::macoro::as_reference(EXPRESSION)), decltype(EXPRESSION)>>;						\
-	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;											\
+	using _macoro_Handle = ::macoro::coroutine_handle<_macoro_promise_type>;
+
+// constructs the awaiter and suspends. To be used after IMPL_MC_AWAIT_DECL.
+#define IMPL_MC_AWAIT_RUN(EXPRESSION, SUSPEND_IDX)	\
 	{																													\
 		auto& _macoro_promise = _macoro_frame_->promise;																\
 		auto _macoro_handle = _macoro_Handle::from_promise(_macoro_promise, ::macoro::coroutine_handle_type::macoro);	\
@@ -51,7 +54,11 @@
 			if (_macoro_s)																						\
 				return _macoro_s.get_handle();																	\
 		}																										\
-	}																					
+	}
+
+#define IMPL_MC_AWAIT_CORE_NS(EXPRESSION, SUSPEND_IDX)	\
+	IMPL_MC_AWAIT_DECL(EXPRESSION, SUSPEND_IDX)	\
+	IMPL_MC_AWAIT_RUN(EXPRESSION, SUSPEND_IDX)
 
 // This macro expands out to generated the await_ready and await_suspend calls.
 // It defines a suspension point but does not call await_resume. This should be
@@ -73,9 +80,18 @@
 // a helper macro that defines a try{ co_await expression } catch(...) {}. 
 // RETURN_SLOT can be used to set a variable to the result of the co_await expression.
 // SUSPEND_IDX should be a unique integer literal. Typically obtained using __COUNTER__.
-#define IMPL_MC_AWAIT_TRY(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)													\
-				do{																								\
-					IMPL_MC_AWAIT_CORE(EXPRESSION, SUSPEND_IDX)													\
+#define IMPL_MC_AWAIT_TRY(EXPRESSION, RETURN_SLOT, SUSPEND_IDX)												\
+				do{																							\
+					IMPL_MC_AWAIT_DECL(EXPRESSION, SUSPEND_IDX)												\
+					try {																					\
+						IMPL_MC_AWAIT_RUN(EXPRESSION, SUSPEND_IDX)											\
+					}																						\
+					catch (...) {																			\
+						_macoro_frame_->template abandonAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>();	\
+						RETURN_SLOT = ::macoro::Err(std::current_exception());								\
+						break;																				\
+					}																						\
+					MACORO_FALLTHROUGH; case (std::size_t)::macoro::SuspensionPoint(SUSPEND_IDX):			\
 					/*<resume-point>*/																			\
 					::macoro::detail::try_resume(RETURN_SLOT, 													\
 						_macoro_frame_->template getAwaiter<MACORO_CAT(_macoro_AwaitContext,SUSPEND_IDX)>());	\
-- 
2.43.0


From f544526d793219a09c5ea4fb1982e2ca93c538b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 39/50] fix: flowing off the end of a macro coroutine must call
 return_void

---
 macoro/coro_frame.h | 12 ++++++++++++
 macoro/macros.h     |  1 +
 2 files changed, 13 insertions(+)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 4528405..0a7d5f8 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -797,6 +797,18 @@ namespace macoro
 
 	};
 
+	namespace detail
+	{
+		// flowing off the end of a coroutine is `co_return;` if
+		// the promise has a return_void().
+		template<typename Promise>
+		void return_at_end(Promise& promise)
+		{
+			if constexpr (requires { promise.return_void(); })
+				promise.return_void();
+		}
+	}
+
 	// makes a Proto from the given lambda. The lambda
 	// should take as input a FrameBase<ReturnType>* 
 	template<typename Promise, typename LambdaType>
diff --git a/macoro/macros.h b/macoro/macros.h
index e35a66c..a53dd13 100644
--- a/macoro/macros.h
+++ b/macoro/macros.h
@@ -210,6 +210,7 @@ do { auto _macoro_frame_ = ::macoro::makeFrame<typename ::macoro::coroutine_trai
 
 // End the coroutine body.
 #define MC_END()																								\
+				::macoro::detail::return_at_end(_macoro_frame_->promise);									\
 				break; 																							\
 			case (std::size_t)::macoro::SuspensionPoint::FinalSuspend:														\
 				goto MACORO_FINAL_SUSPEND_RESUME;																\
-- 
2.43.0


From 08e4f4b7de85d756d43b8786cda237e7d68bb734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 40/50] fix: start_on must accept an lvalue awaitable

Both overloads were equally good for an lvalue and therefore the call was
ambiguous, as was `x | start_on(s)`.
---
 macoro/start_on.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/macoro/start_on.h b/macoro/start_on.h
index 850f33a..e0f3079 100644
--- a/macoro/start_on.h
+++ b/macoro/start_on.h
@@ -5,19 +5,24 @@
 
 namespace macoro
 {
-	template<typename scheduler, typename awaitable>
-		auto start_on(scheduler& s, awaitable& a)
-		-> eager_task<remove_rvalue_reference_t<awaitable_result_t<awaitable>>>
+	namespace detail
 	{
-		co_await transfer_to(s);
-		co_return co_await a;
+		// an lvalue (awaitable is `A&`) is awaited where it is. 
+		// Anything else is moved into the coroutine.
+		template<typename scheduler, typename awaitable>
+		auto start_on_impl(scheduler& s, awaitable a)
+			-> eager_task<remove_rvalue_reference_t<awaitable_result_t<awaitable>>>
+		{
+			co_await transfer_to(s);
+			co_return co_await std::forward<awaitable>(a);
+		}
 	}
+
 	template<typename scheduler, typename awaitable>
-		auto start_on(scheduler& s, awaitable a)
+		auto start_on(scheduler& s, awaitable&& a)
 		-> eager_task<remove_rvalue_reference_t<awaitable_result_t<awaitable>>>
 	{
-		co_await transfer_to(s);
-		co_return co_await std::move(a);
+		return detail::start_on_impl<scheduler, awaitable>(s, std::forward<awaitable>(a));
 	}
 
 	template<typename Scheduler>
-- 
2.43.0


From a528c3781570364ee015b0b531b49956e6e8810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 41/50] fix: start_on must keep a scheduler given by value
 until its hop is done

`x | start_on(scheduler{})` left the coroutine with a reference to a parameter
that is gone. A start_on(s) that is kept in a variable could not be used.
---
 macoro/start_on.h | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/macoro/start_on.h b/macoro/start_on.h
index e0f3079..79ca930 100644
--- a/macoro/start_on.h
+++ b/macoro/start_on.h
@@ -7,10 +7,10 @@ namespace macoro
 {
 	namespace detail
 	{
-		// an lvalue (awaitable is `A&`) is awaited where it is. 
-		// Anything else is moved into the coroutine.
+		// an lvalue (awaitable is `A&`) is awaited where it is. Anything else 
+		// is moved into the coroutine. The same goes for the scheduler.
 		template<typename scheduler, typename awaitable>
-		auto start_on_impl(scheduler& s, awaitable a)
+		auto start_on_impl(scheduler s, awaitable a)
 			-> eager_task<remove_rvalue_reference_t<awaitable_result_t<awaitable>>>
 		{
 			co_await transfer_to(s);
@@ -22,17 +22,12 @@ namespace macoro
 		auto start_on(scheduler& s, awaitable&& a)
 		-> eager_task<remove_rvalue_reference_t<awaitable_result_t<awaitable>>>
 	{
-		return detail::start_on_impl<scheduler, awaitable>(s, std::forward<awaitable>(a));
+		return detail::start_on_impl<scheduler&, awaitable>(s, std::forward<awaitable>(a));
 	}
 
 	template<typename Scheduler>
 	struct start_on_t
 	{
-		template<typename S>
-		start_on_t(S&& s)
-			: scheduler(std::forward<S>(s))
-		{}
-
 		Scheduler scheduler;
 	};
 
@@ -45,13 +40,15 @@ namespace macoro
 	template<typename scheduler>
 	start_on_t<scheduler> start_on(scheduler&& s)
 	{
-		return start_on_t<scheduler>{ s };
+		return start_on_t<scheduler>{ std::forward<scheduler>(s) };
 	}
 
 	template<typename awaitable, typename scheduler>
-	decltype(auto) operator|(awaitable&& a, start_on_t<scheduler> s)
+	auto operator|(awaitable&& a, start_on_t<scheduler> s)
+		-> eager_task<remove_rvalue_reference_t<awaitable_result_t<awaitable>>>
 	{
-		return start_on(s.scheduler, std::forward<awaitable>(a));
+		return detail::start_on_impl<scheduler, awaitable>(
+			std::forward<scheduler>(s.scheduler), std::forward<awaitable>(a));
 	}
 
 }
-- 
2.43.0


From 94ba24dded57ddd7e06a74d2a9cb5830a588e02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 42/50] fix: a wrapped awaitable must be told where it is
 awaited

The test whether await_suspend takes the location also asked for a result
convertible to int, which a coroutine handle is not.
---
 macoro/wrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macoro/wrap.h b/macoro/wrap.h
index 21028c6..957409f 100644
--- a/macoro/wrap.h
+++ b/macoro/wrap.h
@@ -32,7 +32,7 @@ namespace macoro
 			template<typename Handle>
 			auto await_suspend(Handle h)
 			{
-				if constexpr (requires(awaiter_storage m_awaiter) { { m_awaiter.await_suspend(h, m_loc) } -> std::convertible_to<int>; })
+				if constexpr (requires { m_awaiter.await_suspend(h, m_loc); })
 				{
 					return m_awaiter.await_suspend(h, m_loc);
 				}
-- 
2.43.0


From 8bc52d27df3ba61f6d270b694d6f06246d7cc213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 43/50] fix: traces must not end at a when_all of void tasks

---
 macoro/detail/when_all_task.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/macoro/detail/when_all_task.h b/macoro/detail/when_all_task.h
index a30b974..24bcf32 100644
--- a/macoro/detail/when_all_task.h
+++ b/macoro/detail/when_all_task.h
@@ -220,6 +220,11 @@ namespace macoro
 				}
 			}
 
+			traceable* get_traceable()
+			{
+				return m_awaitable;
+			}
+
 			//private:
 
 			when_all_ready_awaitable_base* m_awaitable;
-- 
2.43.0


From 39116d2dfa73fc431b8683ca82493cd7bfae20f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 44/50] fix: traces must name the place where a macro coroutine
 awaits

---
 macoro/coro_frame.h | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 0a7d5f8..3b04510 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -12,6 +12,7 @@
 #include <vector>
 #include <cstddef>
 #include <memory>
+#include <source_location>
 #ifdef MACORO_CPP_20
 #include <coroutine>
 #endif
@@ -107,8 +108,22 @@ namespace macoro
 		}
 	}
 
+	namespace detail
+	{
+		// awaiters can ask where they are awaited.
+		template<typename Awaiter, typename Handle>
+		decltype(auto) await_suspend_at(Awaiter& a, Handle h, const std::source_location& loc)
+		{
+			if constexpr (requires { a.await_suspend(h, loc); })
+				return a.await_suspend(h, loc);
+			else
+				return a.await_suspend(h);
+		}
+	}
+
 	template<typename Awaiter, typename T>
 	await_suspend_t<bool> await_suspend(Awaiter& a, coroutine_handle<T> h,
+		std::source_location loc = std::source_location::current(),
 		enable_if_t<
 		has_void_await_suspend<Awaiter, coroutine_handle<T>>::value 
 #ifdef MACORO_CPP_20
@@ -118,12 +133,13 @@ namespace macoro
 		, empty_state> = {}) noexcept(noexcept_await_suspend<Awaiter, T>())
 	{
 		auto h2 = implicit_cast<has_void_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
-		a.await_suspend(h2);
+		detail::await_suspend_at(a, h2, loc);
 		return { true };
 	}
 
 	template<typename Awaiter, typename T>
 	await_suspend_t<bool> await_suspend(Awaiter& a, coroutine_handle<T> h,
+		std::source_location loc = std::source_location::current(),
 		enable_if_t<
 		has_bool_await_suspend<Awaiter, coroutine_handle<T>>::value 
 #ifdef MACORO_CPP_20
@@ -134,12 +150,13 @@ namespace macoro
 	{
 
 		auto h2 = implicit_cast<has_bool_await_suspend<Awaiter, coroutine_handle<T>>::value, T>(h);
-		return { a.await_suspend(h2) };
+		return { detail::await_suspend_at(a, h2, loc) };
 	}
 
 
 	template<typename Awaiter, typename T>
 	auto await_suspend(Awaiter& a, coroutine_handle<T> h,
+		std::source_location loc = std::source_location::current(),
 		enable_if_t<
 		!has_void_await_suspend<Awaiter, coroutine_handle<T>>::value &&
 		!has_bool_await_suspend<Awaiter, coroutine_handle<T>>::value 
@@ -170,20 +187,20 @@ namespace macoro
 			if constexpr (std::is_convertible<ret_type, macoro::coroutine_handle<>>::value)
 			{
 				using promise_type = typename coroutine_handle_traits<ret_type>::promise_type;
-				auto ret = a.await_suspend(h);
+				auto ret = detail::await_suspend_at(a, h, loc);
 				return await_suspend_t<coroutine_handle<promise_type>>{ ret, h != ret  };
 			}
 			else
 			{
 				auto hstd = h.std_cast();
-				auto ret = a.await_suspend(h);
+				auto ret = detail::await_suspend_at(a, h, loc);
 				return await_suspend_t<coroutine_handle<void>>{ coroutine_handle<void>(ret), hstd != ret  };
 			}
 		}
 		else
 		{
 			auto hstd = h.std_cast();
-			auto ret = a.await_suspend(hstd);
+			auto ret = detail::await_suspend_at(a, hstd, loc);
 			return await_suspend_t<coroutine_handle<void>>{ coroutine_handle<void>(ret), hstd != ret  };
 		}
 	}
-- 
2.43.0


From 20c510a3fbf7419767d91ac05f6be6cf20c809cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 45/50] fix: traces must name the place of a piped sync_wait or
 make_blocking

---
 macoro/sync_wait.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/macoro/sync_wait.h b/macoro/sync_wait.h
index 5ce120b..64a9326 100644
--- a/macoro/sync_wait.h
+++ b/macoro/sync_wait.h
@@ -194,13 +194,13 @@ namespace macoro
 	}
 
 
-	struct make_blocking_t { };
-	inline make_blocking_t make_blocking() { return {}; }
+	struct make_blocking_t { std::source_location loc; };
+	inline make_blocking_t make_blocking(std::source_location loc = std::source_location::current()) { return { loc }; }
 
 	template<typename awaitable>
-	decltype(auto) operator|(awaitable&& a, make_blocking_t)
+	decltype(auto) operator|(awaitable&& a, make_blocking_t t)
 	{
-		return make_blocking(std::forward<awaitable>(a));
+		return make_blocking(std::forward<awaitable>(a), t.loc);
 	}
 
 	template<typename Awaitable>
@@ -218,13 +218,13 @@ namespace macoro
 		}
 	}
 
-	struct sync_wait_t { };
-	inline sync_wait_t sync_wait() { return {}; }
+	struct sync_wait_t { std::source_location loc; };
+	inline sync_wait_t sync_wait(std::source_location loc = std::source_location::current()) { return { loc }; }
 
 
 	template<typename awaitable>
-	decltype(auto) operator|(awaitable&& a, sync_wait_t)
+	decltype(auto) operator|(awaitable&& a, sync_wait_t t)
 	{
-		return sync_wait(std::forward<awaitable>(a));
+		return sync_wait(std::forward<awaitable>(a), t.loc);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From ca78217087ec38a68865835be7cbf19400093331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 46/50] fix: sync_wait.h includes trace.h, which it uses

---
 macoro/sync_wait.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/macoro/sync_wait.h b/macoro/sync_wait.h
index 64a9326..722dac8 100644
--- a/macoro/sync_wait.h
+++ b/macoro/sync_wait.h
@@ -4,6 +4,7 @@
 #include "macoro/coro_frame.h"
 #include "macoro/optional.h"
 #include "macoro/coroutine_handle.h"
+#include "macoro/trace.h"
 #include <future>
 #include "macros.h"
 #include <mutex>
-- 
2.43.0


From 17ef814db2e7413056c76b06488c0d0e6854e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:42 +0000
Subject: [PATCH 47/50] fix: inline_scheduler.h may be included more than once

---
 macoro/inline_scheduler.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/macoro/inline_scheduler.h b/macoro/inline_scheduler.h
index f1b3df1..e940ab7 100644
--- a/macoro/inline_scheduler.h
+++ b/macoro/inline_scheduler.h
@@ -1,3 +1,4 @@
+#pragma once
 
 #include "macoro/coroutine_handle.h"
 
-- 
2.43.0


From 5969a8438397a295289bab11492da8ef5f93e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 48/50] fix: wrap also catches exceptions thrown before the
 await is resumed

An exception of the wrapped awaitable's await_ready or await_suspend left
co_await wrap(...) instead of being returned as an Err.
---
 macoro/wrap.h | 50 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/macoro/wrap.h b/macoro/wrap.h
index 957409f..64fbc2d 100644
--- a/macoro/wrap.h
+++ b/macoro/wrap.h
@@ -23,14 +23,25 @@ namespace macoro
 			awaiter_storage m_awaiter;
 			std::source_location m_loc;
 
-			bool await_ready(std::source_location loc = std::source_location::current())
+			// an exception thrown before the await was resumed.
+			std::exception_ptr m_exception;
+
+			bool await_ready(std::source_location loc = std::source_location::current()) noexcept
 			{
 				m_loc = loc;
-				return m_awaiter.await_ready();
+				try
+				{
+					return m_awaiter.await_ready();
+				}
+				catch (...)
+				{
+					m_exception = std::current_exception();
+					return true;
+				}
 			}
 
 			template<typename Handle>
-			auto await_suspend(Handle h)
+			decltype(auto) inner_suspend(Handle h)
 			{
 				if constexpr (requires { m_awaiter.await_suspend(h, m_loc); })
 				{
@@ -42,8 +53,41 @@ namespace macoro
 				}
 			}
 
+			template<typename Handle>
+			auto await_suspend(Handle h)
+			{
+				using suspend_result = std::decay_t<decltype(inner_suspend(h))>;
+				try
+				{
+					// once this succeeds, *this may already be destroyed.
+					if constexpr (std::is_void_v<suspend_result>)
+					{
+						inner_suspend(h);
+						return true;
+					}
+					else
+					{
+						return suspend_result(inner_suspend(h));
+					}
+				}
+				catch (...)
+				{
+					// continue without suspending, await_resume reports it.
+					m_exception = std::current_exception();
+					if constexpr (std::is_void_v<suspend_result> || std::is_same_v<suspend_result, bool>)
+						return false;
+					else if constexpr (std::is_constructible_v<suspend_result, Handle>)
+						return suspend_result(h);
+					else
+						throw;
+				}
+			}
+
 			result<awaitar_result> await_resume() noexcept
 			{
+				if (m_exception)
+					return Err(std::move(m_exception));
+
 				try
 				{
 					if constexpr (std::is_same_v<awaitar_result, void>)
-- 
2.43.0


From b5f011ea0560b1019e182ea66f190e2bda189138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:35 +0000
Subject: [PATCH 49/50] fix: a macro coroutine whose awaiter can not be
 allocated unwinds

---
 macoro/coro_frame.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/macoro/coro_frame.h b/macoro/coro_frame.h
index 3b04510..7ffc403 100644
--- a/macoro/coro_frame.h
+++ b/macoro/coro_frame.h
@@ -407,14 +407,15 @@ namespace macoro
 				assert(aa.suspend_index != CTX::suspend_index);
 #endif
 
+			// either allocation can fail, an entry without a deleter must not stay.
+			std::unique_ptr<CTX> owner(new CTX);
 			awaiters.emplace_back();
+			auto ctx = owner.release();
 			auto& d = awaiters.back();
 #ifndef NDEBUG
 			d._awaiter_typeid_ = &typeid(CTX);
 #endif
 			d.suspend_index = CTX::suspend_index;
-
-			auto ctx = new CTX;
 			d._ctx_ptr = ctx;
 
 			d._awaiter_deleter = [](void* ptr)
-- 
2.43.0


From 198774c3000f5f90ac499cdb2a6e1d5db8c17ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:35 +0000
Subject: [PATCH 50/50] fix: thread_pool's constructor joins the threads it
 made when one can not be created

---
 macoro/thread_pool.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/macoro/thread_pool.h b/macoro/thread_pool.h
index 00fe8d1..18a47f1 100644
--- a/macoro/thread_pool.h
+++ b/macoro/thread_pool.h
@@ -278,10 +278,13 @@ namespace macoro
         }
 
         thread_pool(std::size_t number_of_threads, work& w)
-            : mState(new detail::thread_pool_state)
+            : thread_pool()
         {
-            w = make_work();
+            // if a thread can not be created, guard is released and ~thread_pool() 
+            // joins the threads that were.
+            auto guard = make_work();
             create_threads(number_of_threads);
+            w = std::move(guard);
         }
 
         ~thread_pool()
-- 
2.43.0

