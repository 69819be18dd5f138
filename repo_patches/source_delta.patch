From b4735d9f936e104fffb91a86b47a5988f198b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 01/57] fix: TimeoutsThread::stop() took the stop task without
 holding the lock

Concurrent calls to stop() raced on the owning pointer and could queue the
same task twice.
---
 src/TimeoutsThread.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/TimeoutsThread.h b/src/TimeoutsThread.h
index cc3fb3a..42582f7 100644
--- a/src/TimeoutsThread.h
+++ b/src/TimeoutsThread.h
@@ -257,8 +257,13 @@ public: /* Methods: */
     }
 
     void stop() noexcept {
-        if (m_stopTask)
-            addTask(Clock::time_point(), std::move(m_stopTask));
+        std::unique_ptr<Task> stopTask;
+        {
+            std::lock_guard<std::mutex> const guard(m_mutex);
+            stopTask = std::move(m_stopTask);
+        }
+        if (stopTask)
+            addTask(Clock::time_point(), std::move(stopTask));
     }
 
 private: /* Fields: */
-- 
2.43.0


From cc631837f8f629c0419578d3c036a4480b2304ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 02/57] fix: EventLoop::run() did not stop flushing the wake-up
 pipe when it became empty

A wake-up backlog of exactly the flush buffer size made read() fail with
EAGAIN, which aborted on an assertion or kept reading forever.
---
 src/EventLoop.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index ef4d0de..8e0337b 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -328,14 +328,19 @@ public: /* Methods: */
                         auto const rd = ::read(m_closePipe.readEnd,
                                                events,
                                                DISCARD_SIZE);
-                        assert(static_cast<std::size_t>(rd) <= DISCARD_SIZE);
                         if (rd <= 0) {
-                            if (rd == 0 // HUP or EOF
-                                    || (static_cast<void>(assert(rd == -1)),
-                                        (errno != EAGAIN) && (errno != EINTR)))
-                                return; // Error or stop signalled
-                        } else if (static_cast<std::size_t>(rd) < DISCARD_SIZE)
-                        { goto Sharemind_EventLoop_run_continue; }
+                            if (rd == 0) // HUP or EOF
+                                return; // Stop signalled
+                            assert(rd == -1);
+                            if (errno == EINTR)
+                                continue;
+                            if (errno != EAGAIN)
+                                return; // Error signalled
+                            goto Sharemind_EventLoop_run_continue; // Flushed
+                        }
+                        assert(static_cast<std::size_t>(rd) <= DISCARD_SIZE);
+                        if (static_cast<std::size_t>(rd) < DISCARD_SIZE)
+                            goto Sharemind_EventLoop_run_continue;
                     }
                 }
                 handleEvent(*it);
-- 
2.43.0


From 7fa3e253b62fd8ad07cf235b872577a702acb321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 03/57] fix: concurrent EventLoop::stop()/stopAsync() closed
 the stop pipe twice

The write end was read and replaced without synchronisation, so that two
callers could both close the same descriptor number.
---
 src/EventLoop.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index 8e0337b..592ddff 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -156,22 +156,20 @@ private: /* Types: */
         }
 
         ~Pipe() noexcept {
+            writeEndClose();
             ::close(readEnd);
-            if (readEnd != writeEnd)
-                ::close(writeEnd);
         }
 
         void writeEndClose() noexcept {
-            if (writeEnd == readEnd)
-                return;
-            ::close(writeEnd);
-            writeEnd = readEnd;
+            auto const fd = writeEnd.exchange(readEnd);
+            if (fd != readEnd)
+                ::close(fd);
         }
 
     /* Fields: */
 
         int readEnd;
-        int writeEnd;
+        std::atomic<int> writeEnd;
 
     };
 
-- 
2.43.0


From ab390579374f9746da4325bbb96bf417be7c411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 04/57] fix: EventLoop::spinUntilLoopIterationEnd() returned
 too early when stopping

After stopAsync() the wake-up write fails, and both waiting functions returned
although a handler of the current iteration might still be running.  Also do
not wait for another iteration when the loop has exited in the meantime.
---
 src/EventLoop.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index 592ddff..6f6e663 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -387,10 +387,15 @@ private: /* Methods: */
                 && errno != ENOSPC
                 && errno != EIO
                 && errno != ENOBUFS)
-                return;
+                break; // Stopping, but the last iteration might still be running
         }
-        while (m_loopCounter.load(std::memory_order_acquire) == start)
+        while (m_loopCounter.load(std::memory_order_acquire) == start) {
+            if (m_stopMutex.try_lock()) {
+                m_stopMutex.unlock();
+                return;
+            }
             spinFunction();
+        }
     }
 
     #if defined(__linux__)
-- 
2.43.0


From 4c6857cef8431a5b3e4df22132efad7ec96a162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 05/57] fix: only one of several threads waiting for a Future
 was woken up

Future::wait() and friends are const and may be called concurrently.
---
 src/Future.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index b506507..0f83f01 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -62,7 +62,7 @@ struct ContinuationBase { \
                     assert(!isSet); \
                     exception = std::move(e_); \
                     isSet = true; \
-                    cond.notify_one(); \
+                    cond.notify_all(); \
                     return std::move(m_continuation); \
                 }(std::move(e))) \
             continuation->run(); \
@@ -135,7 +135,7 @@ struct SharedState {
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
                     isSet = true;
-                    cond.notify_one();
+                    cond.notify_all();
                     return std::move(m_continuation);
                 }(std::forward<Args>(args)...))
             continuation->run();
@@ -167,7 +167,7 @@ struct SharedState<void> {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     isSet = true;
-                    cond.notify_one();
+                    cond.notify_all();
                     return std::move(m_continuation);
                 }())
             continuation->run();
-- 
2.43.0


From 96656bcdb5a77f863b4e2e66ba32323087314eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 06/57] fix: the value stored in a Future/Promise shared state
 was never destroyed

---
 src/Future.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Future.h b/src/Future.h
index 0f83f01..4018927 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -125,6 +125,11 @@ struct SharedState {
 
 /* Methods: */
 
+    ~SharedState() noexcept {
+        if (m_hasValue)
+            reinterpret_cast<T *>(&m_data)->~T();
+    }
+
     template <typename ... Args>
     void emplaceValue(Args && ... args)
             noexcept(noexcept(T(std::forward<Args>(args)...)))
@@ -134,6 +139,7 @@ struct SharedState {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
+                    m_hasValue = true;
                     isSet = true;
                     cond.notify_all();
                     return std::move(m_continuation);
@@ -151,6 +157,7 @@ struct SharedState {
 /* Fields: */
 
     typename std::aligned_storage<sizeof(T), alignof(T)>::type m_data;
+    bool m_hasValue = false;
 
 };
 
-- 
2.43.0


From baadc628efd5b3b887591386fa87fc07afed47de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 07/57] fix: throwing value constructor in
 Promise::emplaceValue() terminated the program

The exception is passed on and the promise stays unfulfilled, so that an
exception can still be set (as done for continuations and packaged tasks).
---
 src/Future.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index 4018927..3cb6389 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -135,7 +135,10 @@ struct SharedState {
             noexcept(noexcept(T(std::forward<Args>(args)...)))
     {
         if (auto const continuation =
-                [this](Args && ... args_) noexcept -> ContinuationPtr {
+                [this](Args && ... args_)
+                        noexcept(noexcept(T(std::forward<Args>(args)...)))
+                        -> ContinuationPtr
+                {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
@@ -473,8 +476,17 @@ public: /* Methods: */
                                     std::forward<Args>(args)...)))
     {
         assert(m_state);
-        return SharedStatePtr(std::move(m_state))->emplaceValue(
-                        std::forward<Args>(args)...);
+        struct Guard {
+            ~Guard() noexcept {
+                if (!done)
+                    target = std::move(state);
+            }
+            SharedStatePtr & target;
+            SharedStatePtr state;
+            bool done;
+        } guard{m_state, std::move(m_state), false};
+        guard.state->emplaceValue(std::forward<Args>(args)...);
+        guard.done = true;
     }
 
     void setValue(T && v)
-- 
2.43.0


From 6b471f412f66bb7967a2acc3129c5d3ee3e24f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 08/57] fix: assigning to an unfulfilled Promise did not break
 it

---
 src/Future.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index 3cb6389..f001fa3 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -417,7 +417,10 @@ template <typename T> class PackagedTask;
             , m_futureState(m_state) \
         {} \
         Promise(Promise &&) noexcept = default; \
-        Promise & operator=(Promise &&) noexcept = default; \
+        Promise & operator=(Promise && move) noexcept { \
+            Promise(std::move(move)).swap(*this); \
+            return *this; \
+        } \
         ~Promise() noexcept { \
             if (m_state) \
                 m_state->setException( \
-- 
2.43.0


From cf95700af71bd5515da3c450d2ff4ee80c2e54aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 09/57] fix: PackagedTask constructor was always noexcept

---
 src/Future.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index f001fa3..777e7a7 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -573,9 +573,13 @@ public: /* Methods: */
 
     template <typename F>
     PackagedTask(F && f)
-            noexcept(noexcept(std::is_nothrow_constructible<
-                                    decltype(PackagedTask::m_function),
-                                    decltype(std::forward<F>(f))>::value))
+            noexcept(std::is_nothrow_default_constructible<
+                            Promise<R>
+                        >::value
+                     && std::is_nothrow_constructible<
+                            Function,
+                            decltype(std::forward<F>(f))
+                        >::value)
         : m_function(std::forward<F>(f))
     {}
 
-- 
2.43.0


From be6d833aafee32c5664565c4732e23dad34465e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 10/57] fix: PackagedTask::reset() did not compile

---
 src/Future.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index 777e7a7..fa9e403 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -615,7 +615,10 @@ public: /* Methods: */
 
     bool isValid() const noexcept { return m_promise.isValid(); }
 
-    void reset() { swap(PackagedTask(std::move(m_function))); }
+    void reset() {
+        PackagedTask tmp(std::move(m_function));
+        swap(tmp);
+    }
 
     void swap(PackagedTask & other) noexcept {
         m_promise.swap(other.m_promise);
-- 
2.43.0


From 4b3ffd2e67fe2706a436c189a51d7a7759e3c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 11/57] fix: MpscWaitFreeSemiIntrusiveQueue handed nodes over
 without synchronization

---
 src/MpscWaitFreeSemiIntrusiveQueue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MpscWaitFreeSemiIntrusiveQueue.h b/src/MpscWaitFreeSemiIntrusiveQueue.h
index 1429a6e..51e54d2 100644
--- a/src/MpscWaitFreeSemiIntrusiveQueue.h
+++ b/src/MpscWaitFreeSemiIntrusiveQueue.h
@@ -81,15 +81,15 @@ public: /* Methods: */
         Node * const newNode = node.release();
         assert(!newNode->next.load(std::memory_order_relaxed));
         Node * const oldTail =
-                m_tail.exchange(newNode, std::memory_order_relaxed);
+                m_tail.exchange(newNode, std::memory_order_acq_rel);
         assert(oldTail);
-        oldTail->next.store(newNode, std::memory_order_relaxed);
+        oldTail->next.store(newNode, std::memory_order_release);
     }
 
     std::unique_ptr<Node> pop() noexcept {
         Node * const head = m_head.load(std::memory_order_consume);
         assert(head);
-        Node * const next = head->next.load(std::memory_order_relaxed);
+        Node * const next = head->next.load(std::memory_order_acquire);
 
         if (!next)
             return nullptr;
-- 
2.43.0


From 92234424ddf9cd0934ff758c54f1d319e22a0975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 12/57] fix: AtomicFlags::hasAnyOf(), hasAllOf() and
 hasNoneOf() did not compile

load() was not const, although it is used by const member functions.
---
 src/AtomicFlags.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AtomicFlags.h b/src/AtomicFlags.h
index 185f858..0450828 100644
--- a/src/AtomicFlags.h
+++ b/src/AtomicFlags.h
@@ -37,7 +37,7 @@ public: /* Methods: */
     constexpr explicit AtomicFlags(U const value) noexcept : m_flags{value} {}
 
     Flags<T, U> load(std::memory_order const memoryOrder =
-                             std::memory_order_seq_cst) noexcept
+                             std::memory_order_seq_cst) const noexcept
     { return m_flags.load(memoryOrder); }
 
     void store(U const flags,
-- 
2.43.0


From f8c746867306239b4ccce0c8e305e81f3d599485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:50 +0000
Subject: [PATCH 13/57] fix: ThreadPool::createTask must not leak the task if
 allocating its wrapper fails

The order of the allocation and of the construction of the argument is
unspecified, hence the raw pointer has to be owned beforehand.
---
 src/ThreadPool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index 12ebe6b..ddc93e8 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -266,7 +266,8 @@ private: /* Methods: */
     template <typename TaskSubclass>
     static Task createTask_(TaskSubclass * const task) {
         assert(task);
-        return Task(new TaskWrapper(std::unique_ptr<TaskBase>(task)));
+        std::unique_ptr<TaskBase> taskPtr(task);
+        return Task(new TaskWrapper(std::move(taskPtr)));
     }
 
 private: /* Fields: */
-- 
2.43.0


From f7a4094023ed7c57259507948787df772ee4e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:26 +0000
Subject: [PATCH 14/57] fix: CstddefLiterals.h shared the include guard of
 CstdintLiterals.h, so that one of the two was left out

---
 src/CstddefLiterals.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CstddefLiterals.h b/src/CstddefLiterals.h
index 363bff4..fa72120 100644
--- a/src/CstddefLiterals.h
+++ b/src/CstddefLiterals.h
@@ -17,8 +17,8 @@
  * For further information, please contact us at sharemind@cyber.ee.
  */
 
-#ifndef SHAREMIND_CSTDINTLITERALS_H
-#define SHAREMIND_CSTDINTLITERALS_H
+#ifndef SHAREMIND_CSTDDEFLITERALS_H
+#define SHAREMIND_CSTDDEFLITERALS_H
 
 #include <cstddef>
 #include "IntegerLiterals.h"
@@ -35,4 +35,4 @@ SHAREMIND_INTEGERLITERAL_UNSIGNED_OPS(std::size_t,
 
 } /* namespace sharemind { */
 
-#endif /* #ifndef SHAREMIND_CSTDINTLITERALS_H */
+#endif /* #ifndef SHAREMIND_CSTDDEFLITERALS_H */
-- 
2.43.0


From ec08a5e8fc9b216183b5b184209382c8e210d5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 15/57] fix: literals of more than 64 bits escaped the overflow
 check once the digits' rank had wrapped around

---
 src/IntegerLiterals.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/IntegerLiterals.h b/src/IntegerLiterals.h
index 2e9e44c..5ecd918 100644
--- a/src/IntegerLiterals.h
+++ b/src/IntegerLiterals.h
@@ -50,6 +50,7 @@ struct LastDigit: LiteralBase<Base> {
     constexpr static bool valid = true;
     constexpr static std::uintmax_t value = Value;
     constexpr static std::uintmax_t rank = 1u;
+    constexpr static bool rankOverflow = false;
     constexpr static std::uintmax_t digits = 1u;
 };
 
@@ -136,12 +137,14 @@ struct LiteralStep {
     using Tail = T<Max, C, Cs...>;
     static_assert(Head::base == Tail::base, "");
     constexpr static std::uintmax_t base = Head::base;
+    constexpr static bool rankOverflow =
+            Tail::rankOverflow || (Tail::rank > (Max / base));
     constexpr static bool overflow =
             Head::overflow
             || Tail::overflow
             || ((Head::value != 0)
                 && (
-                    (Tail::rank > (Max / base))
+                    rankOverflow
                     || (Head::value > (Max / (Tail::rank * base)))
                     || (Tail::value
                         > (Max - (Head::value * (Tail::rank * base))))
-- 
2.43.0


From 933242004bd8bc241cb80a68d81c1762d60ed717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 16/57] fix: literals in forms which are not understood
 (binary, with separators, floating) silently became zero

---
 src/IntegerLiterals.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/IntegerLiterals.h b/src/IntegerLiterals.h
index 5ecd918..94fe54d 100644
--- a/src/IntegerLiterals.h
+++ b/src/IntegerLiterals.h
@@ -238,12 +238,14 @@ struct Literal: Literal_<Max, Cs...>
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C(_,P)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Unsupported form of literal!"); \
         static_assert(!L::overflow, "Overflow in _" #P " literal!"); \
         return static_cast<T>(L::value); \
     } \
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C3(_,P,_overflow)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Unsupported form of literal!"); \
         return static_cast<T>(L::value); \
     }
 
@@ -251,11 +253,13 @@ struct Literal: Literal_<Max, Cs...>
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C(_,P)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Unsupported form of literal!"); \
         return static_cast<T>(L::value); \
     } \
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C3(_,P,_no_overflow)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Unsupported form of literal!"); \
         static_assert(!L::overflow, \
                       "Overflow in _" #P "_no_overflow literal!"); \
         return static_cast<T>(L::value); \
-- 
2.43.0


From 2c92982e144dde3af78d5a7e7b90b5ae0144218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 17/57] fix: an exhausted IdentifierPool terminated the program
 instead of throwing

---
 src/IdentifierPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index e6513cd..10825b1 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -142,7 +142,7 @@ public: /* Types: */
 
     private: /* Methods: */
 
-        IdHolder(std::shared_ptr<State> state) noexcept
+        IdHolder(std::shared_ptr<State> state)
             : m_id(state->reserve())
             , m_state(std::move(state))
         {}
-- 
2.43.0


From 169c4d549edf21a264ce7c21258230ea3c91e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 18/57] fix: moving an IdHolder onto itself recycled an
 identifier still in use

---
 src/IdentifierPool.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index 10825b1..eb4e0ea 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -116,10 +116,12 @@ public: /* Types: */
         {}
 
         IdHolder & operator=(IdHolder && move) noexcept {
-            if (m_state)
-                m_state->recycle(m_id);
-            m_id = move.m_id;
-            m_state = std::move(move.m_state);
+            if (this != &move) {
+                if (m_state)
+                    m_state->recycle(m_id);
+                m_id = move.m_id;
+                m_state = std::move(move.m_state);
+            }
             return *this;
         }
 
-- 
2.43.0


From 805369029d46b04c84af2c6bad4ea273e2dc13c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 19/57] fix: SharedResourceMap terminated the program when a
 resource's constructor threw

---
 src/SharedResourceMap.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 577a57e..cc5cd69 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -57,7 +57,6 @@ private: /* Types: */
                   typename Constructor,
                   typename ... Args>
         ValueObj_(C && c, K && k, Constructor constructor, Args && ... args)
-                noexcept
             : container(std::forward<C>(c))
             , key(std::forward<K>(k))
             , realPtr(constructor(key, std::forward<Args>(args)...))
-- 
2.43.0


From 31575ec6f89d332edd688b9d59f73081ab152e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 20/57] fix: SharedResourceMap leaked resources which outlived
 the map

---
 src/SharedResourceMap.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index cc5cd69..38f02f1 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -161,14 +161,16 @@ public: /* Methods: */
             std::shared_ptr<Value> r(
                 valueObj->realPtr.get(),
                 [valueObj](Value * const) mutable noexcept {
-                    if (auto cPtr = valueObj->container.lock()) {
+                    // Break the cycle valueObj -> weakPtr -> this deleter:
+                    auto obj(std::move(valueObj));
+                    if (auto cPtr = obj->container.lock()) {
                         Inner & c = *static_cast<Inner *>(cPtr.get());
                         std::lock_guard<std::mutex> const guard(c.m_mutex);
-                        auto const it = c.m_data.find(valueObj->key);
+                        auto const it = c.m_data.find(obj->key);
                         if ((it != c.m_data.end())
                             && it->second->weakPtr.expired())
                         {
-                            valueObj.reset();
+                            obj.reset();
                             c.m_data.erase(it);
                             c.m_cond.notify_all();
                         }
-- 
2.43.0


From 7442dde18fe44a3804b7b9c030b476d6afe6d71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:35 +0000
Subject: [PATCH 21/57] fix: SharedResourceMap::forEach() deadlocked when it
 held the last reference to a resource

---
 src/SharedResourceMap.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 38f02f1..850a5dd 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -26,6 +26,7 @@
 #include <memory>
 #include <mutex>
 #include <utility>
+#include <vector>
 
 
 namespace sharemind {
@@ -79,10 +80,16 @@ private: /* Types: */
 
         template <typename F>
         void forEach(F f) const {
+            // Resources can't be released before the mutex is:
+            std::vector<std::shared_ptr<Value> > resources;
             std::unique_lock<std::mutex> lock(m_mutex);
-            for (auto const & v : m_data)
-                if (auto ptr = v.second->weakPtr.lock())
+            resources.reserve(m_data.size());
+            for (auto const & v : m_data) {
+                if (auto ptr = v.second->weakPtr.lock()) {
+                    resources.push_back(ptr);
                     f(v.first, std::move(ptr));
+                }
+            }
         }
 
         void waitForEmpty() const noexcept {
-- 
2.43.0


From 47b9ac424b3e8322c862d143ae4a3dec3763151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:13 +0000
Subject: [PATCH 22/57] fix: SharedResourceMap deadlocks when it runs out of
 memory handing out a resource

Allocating the control block of the std::shared_ptr handed out calls its
deleter on failure, which locked the mutex getResource() holds.
---
 src/SharedResourceMap.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 850a5dd..1b715d6 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -165,11 +165,16 @@ public: /* Methods: */
     {
         static auto const createShared = [](std::shared_ptr<ValueObj_> valueObj)
         {
+            // Is empty when allocating r fails, because the deleter is called then
+            // with the mutex already locked:
+            auto const holder(std::make_shared<std::shared_ptr<ValueObj_> >());
             std::shared_ptr<Value> r(
                 valueObj->realPtr.get(),
-                [valueObj](Value * const) mutable noexcept {
+                [holder](Value * const) noexcept {
                     // Break the cycle valueObj -> weakPtr -> this deleter:
-                    auto obj(std::move(valueObj));
+                    auto obj(std::move(*holder));
+                    if (!obj)
+                        return;
                     if (auto cPtr = obj->container.lock()) {
                         Inner & c = *static_cast<Inner *>(cPtr.get());
                         std::lock_guard<std::mutex> const guard(c.m_mutex);
@@ -184,6 +189,7 @@ public: /* Methods: */
                     }
                 });
             valueObj->weakPtr = r;
+            *holder = std::move(valueObj);
             return r;
         };
 
-- 
2.43.0


From 54fcfdac21e07e983ab5c6a43df850960c12f2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:54 +0000
Subject: [PATCH 23/57] fix: OutgoingNetworkMessage::write() of a non-const
 string, message or char * wrote the object's own bytes

---
 src/NetworkMessage.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index 64c534d..75d9ba1 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -138,6 +138,21 @@ public: /* Methods: */
 
 class OutgoingNetworkMessage: public SeekableNetworkMessage {
 
+private: /* Types: */
+
+    /// Whether the object representation of T is what to write:
+    template <typename T>
+    using IsRaw =
+            std::integral_constant<
+                bool,
+                !std::is_base_of<std::string, std::decay_t<T> >::value
+                && !std::is_base_of<NetworkMessage, std::decay_t<T> >::value
+                && !std::is_same<
+                        std::remove_cv_t<std::remove_reference_t<T> >,
+                        char *
+                    >::value
+            >;
+
 public: /* Methods: */
 
     OutgoingNetworkMessage(OutgoingNetworkMessage const &) = delete;
@@ -155,7 +170,7 @@ public: /* Methods: */
     inline void write(std::string const & val) noexcept(false);
     inline void write(NetworkMessage const & val) noexcept(false);
 
-    template<typename T>
+    template<typename T, std::enable_if_t<IsRaw<T>::value, int> = 0>
     inline void write(T && val) noexcept(false);
 
     template <typename SerializedSizeType = DefaultSizeType, typename SizeType>
@@ -408,7 +423,8 @@ inline void OutgoingNetworkMessage::write(NetworkMessage const & message)
         noexcept(false)
 { writeBytes(message.data, message.size); }
 
-template <typename T>
+template <typename T,
+          std::enable_if_t<OutgoingNetworkMessage::IsRaw<T>::value, int> >
 inline void OutgoingNetworkMessage::write(T && val) noexcept(false)
 { writeBytes(&val, sizeof(T)); }
 
-- 
2.43.0


From dfb76ed1324e3019bd8294d60ce1274531e3a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:54 +0000
Subject: [PATCH 24/57] fix: IncomingNetworkMessage::readSize() advanced
 although it threw

---
 src/NetworkMessage.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index 75d9ba1..9ab3a7f 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -345,8 +345,10 @@ inline bool IncomingNetworkMessage::readSize(SizeType & size)
     auto const r(read(rawSize));
     if (r) {
         rawSize = sharemindNetToHostOrder(rawSize);
-        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize))
+        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize)) {
+            m_offset -= sizeof(SerializedSizeType); // Rollback
             throw OverflowException();
+        }
         size = static_cast<SizeType>(rawSize);
     }
     return r;
@@ -367,8 +369,10 @@ inline bool IncomingNetworkMessage::readSize(
     auto const r(read(rawSize));
     if (r) {
         rawSize = sharemindNetToHostOrder(rawSize);
-        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize))
+        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize)) {
+            m_offset -= sizeof(SerializedSizeType); // Rollback
             throw std::forward<OverflowException>(overflowException);
+        }
         size = static_cast<SizeType>(rawSize);
     }
     return r;
-- 
2.43.0


From a5e331d5a4f845361427153fd9b6e931f2e18071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:54 +0000
Subject: [PATCH 25/57] fix: reading from an empty message without data failed
 an assertion

---
 src/NetworkMessage.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index 9ab3a7f..e525c25 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -253,7 +253,7 @@ inline IncomingNetworkMessage::IncomingNetworkMessage(
 inline bool IncomingNetworkMessage::readBytes(void * buffer, std::size_t size)
         noexcept
 {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     if (this->size - m_offset < size)
@@ -267,7 +267,7 @@ inline bool IncomingNetworkMessage::readBytes(void * buffer, std::size_t size)
 
 template <typename T>
 inline bool IncomingNetworkMessage::read(T & val) noexcept {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     if (this->size - m_offset < sizeof(T))
@@ -282,7 +282,7 @@ inline bool IncomingNetworkMessage::read(T & val) noexcept {
 }
 
 inline bool IncomingNetworkMessage::read(std::string & val) {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     auto const rollbackOffset(m_offset);
@@ -313,7 +313,7 @@ inline bool IncomingNetworkMessage::read(std::string & val) {
 }
 
 inline bool IncomingNetworkMessage::read(bool & val) noexcept {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     std::size_t const rollbackOffset = m_offset;
@@ -384,7 +384,7 @@ inline bool IncomingNetworkMessage::readArray(T * data, SizeType const size)
 {
     static_assert(std::is_unsigned<SizeType>::value, "");
 
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     using S = decltype(sizeof(T) * size);
-- 
2.43.0


From 28edc0ffc9a2d490ef0b7ecf2efaa9dc580a8fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:14 +0000
Subject: [PATCH 26/57] fix: BasicStringView::rfind() without a position only
 looked at the start of the text

---
 src/StringView.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StringView.h b/src/StringView.h
index 0f069a4..976a93f 100644
--- a/src/StringView.h
+++ b/src/StringView.h
@@ -425,10 +425,12 @@ public: /* Methods: */
         return npos;
     }
 
-    constexpr SizeType rfind(BasicStringView v, SizeType pos = 0u) const noexcept
+    constexpr SizeType rfind(BasicStringView v, SizeType pos = npos)
+            const noexcept
     { return rfind(v.m_start, pos, v.m_size); }
 
-    constexpr SizeType rfind(CharT const * str, SizeType pos = 0u) const noexcept
+    constexpr SizeType rfind(CharT const * str, SizeType pos = npos)
+            const noexcept
     { return rfind(str, pos, Traits::length(str)); }
 
     constexpr SizeType findFirstOf(CharT c, SizeType pos = 0u) const noexcept
-- 
2.43.0


From 28b616ce941a48426aec50f2ebae1c9afea4e0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:19 +0000
Subject: [PATCH 27/57] fix: an exception from copying or moving an Optional's
 value destroyed a value which was never constructed

---
 src/Optional.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index a9d8ad6..85644f9 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -173,10 +173,12 @@ struct CopyConstructorBase<T, 2>: DestructorBase<T> {
 
     CopyConstructorBase(CopyConstructorBase const & copy)
             noexcept(std::is_nothrow_copy_constructible<T>::value)
-        : DestructorBase<T>(copy.m_containsValue)
+        : DestructorBase<T>()
     {
-        if (copy.m_containsValue)
+        if (copy.m_containsValue) {
             new (std::addressof(this->m_data)) T(copy.m_data);
+            this->m_containsValue = true;
+        }
     }
 
     constexpr CopyConstructorBase(CopyConstructorBase &&) = default;
@@ -201,10 +203,12 @@ struct MoveConstructorBase<T, false>: CopyConstructorBase<T> {
 
     MoveConstructorBase(MoveConstructorBase && move)
             noexcept(std::is_nothrow_move_constructible<T>::value)
-        : CopyConstructorBase<T>(move.m_containsValue)
+        : CopyConstructorBase<T>()
     {
-        if (move.m_containsValue)
+        if (move.m_containsValue) {
             new (std::addressof(this->m_data)) T(std::move(move.m_data));
+            this->m_containsValue = true;
+        }
     }
 
     MoveConstructorBase & operator=(MoveConstructorBase const &) = default;
-- 
2.43.0


From a89fd3710e5114ddc7c4c332d91fcf795ea8b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:19 +0000
Subject: [PATCH 28/57] fix: an Optional<bool> made of a bool did not have it
 as its value

---
 src/Optional.h | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index 85644f9..de0dab4 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -72,11 +72,6 @@ struct DestructorBase<T, true> {
         , m_containsValue(false)
     {}
 
-    constexpr explicit DestructorBase(bool const valid) noexcept
-        : m_noValuePlaceholder()
-        , m_containsValue(valid)
-    {}
-
     template <typename ... Args>
     constexpr explicit DestructorBase(InPlace, Args && ... args)
             noexcept(std::is_nothrow_constructible<T, Args &&...>::value)
@@ -106,11 +101,6 @@ struct DestructorBase<T, false> {
         , m_containsValue(false)
     {}
 
-    constexpr explicit DestructorBase(bool const valid) noexcept
-        : m_noValuePlaceholder()
-        , m_containsValue(valid)
-    {}
-
     template <typename ... Args>
     constexpr explicit DestructorBase(InPlace, Args && ... args)
             noexcept(std::is_nothrow_constructible<T, Args &&...>::value)
@@ -142,7 +132,6 @@ struct DestructorBase<T, false> {
 
 #define SHAREMIND_OPTIONAL_H_PROXY_PASSTHROUGH(name,base) \
     constexpr name() noexcept = default; \
-    constexpr explicit name(bool const v) noexcept : base<T>(v) {} \
     template <typename ... Args> \
     constexpr explicit name(InPlace ip, Args && ... args) \
             noexcept(std::is_nothrow_constructible<T, Args &&...>::value) \
-- 
2.43.0


From 4d1cf5772a9ff8fe0a316ee1a1f4a71a408506d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:19 +0000
Subject: [PATCH 29/57] fix: converting an empty Optional to one of another
 type used its missing value

---
 src/Optional.h | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index de0dab4..6d34a37 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -388,7 +388,12 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && std::is_convertible<U const &, T>::value,
                 int>::type = 0>
-    constexpr Optional(Optional<U> const & v) : Optional(inPlace, *v) {}
+    constexpr Optional(Optional<U> const & v)
+        : Optional()
+    {
+        if (v.hasValue())
+            this->emplace(*v);
+    }
 
     template <
             typename U = T,
@@ -398,8 +403,11 @@ public: /* Methods: */
                 && !std::is_convertible<U const &, T>::value,
                 int>::type = 0>
     explicit constexpr Optional(Optional<U> const & v)
-        : Optional(inPlace, *v)
-    {}
+        : Optional()
+    {
+        if (v.hasValue())
+            this->emplace(*v);
+    }
 
     template <
             typename U = T,
@@ -408,7 +416,12 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && std::is_convertible<U, T>::value,
                 int>::type = 0>
-    constexpr Optional(Optional<U> && v) : Optional(inPlace, std::move(*v)) {}
+    constexpr Optional(Optional<U> && v)
+        : Optional()
+    {
+        if (v.hasValue())
+            this->emplace(std::move(*v));
+    }
 
     template <
             typename U = T,
@@ -418,8 +431,11 @@ public: /* Methods: */
                 && !std::is_convertible<U, T>::value,
                 int>::type = 0>
     explicit constexpr Optional(Optional<U> && v)
-        : Optional(inPlace, std::move(*v))
-    {}
+        : Optional()
+    {
+        if (v.hasValue())
+            this->emplace(std::move(*v));
+    }
 
     Optional & operator=(NullOption) noexcept {
         this->reset_();
-- 
2.43.0


From acfaeb1e35c63e510671aba7df8647a604403ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:19 +0000
Subject: [PATCH 30/57] fix: assigning an Optional of another type did not
 compile

---
 src/Optional.h | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index 6d34a37..e133488 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -229,12 +229,12 @@ struct CopyAssignmentBase<T, true>: MoveConstructorBase<T> {
 
     CopyAssignmentBase(CopyAssignmentBase && move) = default;
 
-#define SHAREMIND_OPTIONAL_H_COPY_ASSIGN(fromOptional) \
-    if (fromOptional.m_containsValue) { \
+#define SHAREMIND_OPTIONAL_H_ASSIGN(fromHasValue,fromValue) \
+    if (fromHasValue) { \
         if (this->m_containsValue) { \
-            this->m_data = fromOptional.m_data; \
+            this->m_data = fromValue; \
         } else { \
-            new (std::addressof(this->m_data)) T(fromOptional.m_data); \
+            new (std::addressof(this->m_data)) T(fromValue); \
             this->m_containsValue = true; \
         } \
     } else { \
@@ -245,7 +245,7 @@ struct CopyAssignmentBase<T, true>: MoveConstructorBase<T> {
     CopyAssignmentBase & operator=(CopyAssignmentBase const & copy)
             noexcept(std::is_nothrow_copy_constructible<T>::value
                      && std::is_nothrow_copy_assignable<T>::value)
-    { SHAREMIND_OPTIONAL_H_COPY_ASSIGN(copy); }
+    { SHAREMIND_OPTIONAL_H_ASSIGN(copy.m_containsValue, copy.m_data); }
 
     CopyAssignmentBase & operator=(CopyAssignmentBase &&) = default;
 
@@ -275,24 +275,13 @@ struct MoveAssignmentBase<T, true>: CopyAssignmentBase<T> {
 
     MoveAssignmentBase & operator=(MoveAssignmentBase const & copy) = default;
 
-#define SHAREMIND_OPTIONAL_H_MOVE_ASSIGN(fromOptional) \
-        if (fromOptional.m_containsValue) { \
-            if (this->m_containsValue) { \
-                this->m_data = std::move(fromOptional.m_data); \
-            } else { \
-                new (std::addressof(this->m_data)) T( \
-                        std::move(fromOptional.m_data)); \
-                this->m_containsValue = true; \
-            } \
-        } else { \
-            this->reset_(); \
-        } \
-        return *this;
-
     MoveAssignmentBase & operator=(MoveAssignmentBase && move)
             noexcept(std::is_nothrow_move_constructible<T>::value
                      && std::is_nothrow_move_assignable<T>::value)
-    { SHAREMIND_OPTIONAL_H_MOVE_ASSIGN(move); }
+    {
+        SHAREMIND_OPTIONAL_H_ASSIGN(move.m_containsValue,
+                                    std::move(move.m_data));
+    }
 
 };
 
@@ -461,8 +450,7 @@ public: /* Methods: */
     Optional & operator=(Optional<U> const & rhs)
             noexcept(std::is_nothrow_constructible<T, U const &>::value
                      && std::is_nothrow_assignable<T, U const &>::value)
-    { SHAREMIND_OPTIONAL_H_COPY_ASSIGN(rhs); }
-#undef SHAREMIND_OPTIONAL_H_COPY_ASSIGN
+    { SHAREMIND_OPTIONAL_H_ASSIGN(rhs.hasValue(), *rhs); }
 
     template <
             typename U = T,
@@ -475,8 +463,8 @@ public: /* Methods: */
     Optional & operator=(Optional<U> && rhs)
             noexcept(std::is_nothrow_constructible<T, U &&>::value
                      && std::is_nothrow_assignable<T, U &&>::value)
-    { SHAREMIND_OPTIONAL_H_MOVE_ASSIGN(rhs); }
-#undef SHAREMIND_OPTIONAL_H_MOVE_ASSIGN
+    { SHAREMIND_OPTIONAL_H_ASSIGN(rhs.hasValue(), *std::move(rhs)); }
+#undef SHAREMIND_OPTIONAL_H_ASSIGN
 
     constexpr T const * operator->() const noexcept
     { return (assert(this->m_containsValue), std::addressof(this->m_data)); }
-- 
2.43.0


From a91e57b93f03f31d182b42738f2ae0eb33236b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:20 +0000
Subject: [PATCH 31/57] fix: swap() of Optionals did not compile

---
 src/Optional.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index e133488..794ea4e 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -670,9 +670,11 @@ SHAREMIND_OPTIONAL_H_VALUECOMPARE(>=, false, true)
 #undef SHAREMIND_OPTIONAL_H_VALUECOMPARE
 
 template <typename T>
-std::enable_if<std::is_move_constructible<T>::value && IsSwappable<T>::value,
-               void>
-swap(Optional<T> & a, Optional<T> & b) { return a.swap(b); }
+typename std::enable_if<
+        std::is_move_constructible<T>::value && IsSwappable<T>::value,
+        void
+    >::type swap(Optional<T> & a, Optional<T> & b) noexcept(noexcept(a.swap(b)))
+{ return a.swap(b); }
 
 template <typename T>
 constexpr Optional<typename std::decay<T>::type> makeOptional(T && v)
-- 
2.43.0


From d716ad72f84c27f284acaaadcf75c725fa3117a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:20 +0000
Subject: [PATCH 32/57] fix: comparing an Optional with a value terminated the
 program when the comparison threw

---
 src/Optional.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index 794ea4e..df404d5 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -656,10 +656,12 @@ SHAREMIND_OPTIONAL_H_NULLCOMPARE(>=, (static_cast<void>(x), true), !x)
 
 #define SHAREMIND_OPTIONAL_H_VALUECOMPARE(op,r1,r2) \
     template <typename T, typename U> \
-    constexpr bool operator op(Optional<T> const & x, U const & v) noexcept \
+    constexpr bool operator op(Optional<T> const & x, U const & v) \
+            noexcept(noexcept(*x op v)) \
     { return bool(x) ? (*x op v) : r1; } \
     template <typename T, typename U> \
-    constexpr bool operator op(T const & v, Optional<U> const & x) noexcept \
+    constexpr bool operator op(T const & v, Optional<U> const & x) \
+            noexcept(noexcept(v op *x)) \
     { return bool(x) ? (v op *x) : r2; }
 SHAREMIND_OPTIONAL_H_VALUECOMPARE(==, false, false)
 SHAREMIND_OPTIONAL_H_VALUECOMPARE(!=, true,  true)
-- 
2.43.0


From 238d5c01021dcbe7f2278736a5ef2e261c97c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:20 +0000
Subject: [PATCH 33/57] fix: noexcept of Optional::emplace() from an
 initializer list looked at the wrong constructor

---
 src/Optional.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Optional.h b/src/Optional.h
index df404d5..6d9565e 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -553,7 +553,12 @@ public: /* Methods: */
 
     template <typename U, typename ... Args>
     auto emplace(std::initializer_list<U> il, Args && ... args)
-            noexcept(std::is_nothrow_constructible<T, Args &&...>::value)
+            noexcept(
+                std::is_nothrow_constructible<
+                    T,
+                    std::initializer_list<U> &,
+                    Args &&...
+                >::value)
             -> typename std::enable_if<
                     std::is_constructible<
                         T,
-- 
2.43.0


From 5afe90ac76b99066f460f2f0ff3aa68c785b27f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:20 +0000
Subject: [PATCH 34/57] fix: Optional::swap() did not use the swap() of its
 values

---
 src/Optional.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optional.h b/src/Optional.h
index 6d9565e..7bedbaf 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -590,7 +590,8 @@ public: /* Methods: */
                 };
         if (rhs.m_containsValue) {
             if (this->m_containsValue) {
-                std::swap(this->m_data, rhs.m_data);
+                using std::swap;
+                swap(this->m_data, rhs.m_data);
             } else {
                 doMove(rhs, *this);
             }
-- 
2.43.0


From 862129707543e6c4228af56c20e553d154dff42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 35/57] fix: assigning through an UnalignedReference copied the
 bytes of a value of another type

---
 src/UnalignedReference.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/UnalignedReference.h b/src/UnalignedReference.h
index 2000ee9..107e3e3 100644
--- a/src/UnalignedReference.h
+++ b/src/UnalignedReference.h
@@ -23,6 +23,7 @@
 #include <cstring>
 #include <memory>
 #include <type_traits>
+#include <utility>
 #include "CopyCv.h"
 
 
@@ -61,7 +62,9 @@ public: /* Methods: */
         type
     >::type &
     operator=(T_ && v) noexcept {
-        std::memcpy(this->m_unalignedData, std::addressof(v), sizeof(T));
+        // Convert first, because T_ might be larger or smaller than T:
+        T const & value = static_cast<T const &>(std::forward<T_>(v));
+        std::memcpy(this->m_unalignedData, std::addressof(value), sizeof(T));
         return *this;
     }
 
-- 
2.43.0


From ba144aa59b16c20ad53ad965b14cbaf8b25845aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 36/57] fix: the difference of two UnalignedPointers did not
 compile and was wrong when negative

---
 src/UnalignedPointer.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/UnalignedPointer.h b/src/UnalignedPointer.h
index a6af1f5..27d8e64 100644
--- a/src/UnalignedPointer.h
+++ b/src/UnalignedPointer.h
@@ -105,8 +105,15 @@ class UnalignedPointer {
                           UnalignedPointer<U_> const & rhs) noexcept;
 
     template <typename T_, typename U_>
-    friend bool operator-(UnalignedPointer<T_> const & lhs,
-                          UnalignedPointer<U_> const & rhs) noexcept;
+    friend typename std::enable_if<
+        std::is_same<
+            typename std::remove_cv<T_>::type,
+            typename std::remove_cv<U_>::type
+        >::value,
+        std::ptrdiff_t
+    >::type
+    operator-(UnalignedPointer<T_> const & lhs,
+              UnalignedPointer<U_> const & rhs) noexcept;
 
     template <typename T_>
     friend UnalignedPointer<T_> operator+(
@@ -226,7 +233,10 @@ typename std::enable_if<
 >::type
 operator-(UnalignedPointer<T> const & lhs, UnalignedPointer<U> const & rhs)
         noexcept
-{ return ptrDist(rhs.m_ptr, lhs.m_ptr) / sizeof(T); }
+{
+    return ptrDist<void const>(rhs.m_ptr, lhs.m_ptr)
+           / static_cast<std::ptrdiff_t>(sizeof(T));
+}
 
 template <typename T>
 UnalignedPointer<T> operator+(
-- 
2.43.0


From b442f851d5eb41c2a5deeb849a9aea65af717aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 37/57] fix: PackedStruct::minSizeInBytes() did not compile

---
 src/PackingInfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PackingInfo.h b/src/PackingInfo.h
index 2a01657..bf727d6 100644
--- a/src/PackingInfo.h
+++ b/src/PackingInfo.h
@@ -160,7 +160,7 @@ struct PackingInfo {
     constexpr static std::size_t staticSize() \
     { return PackingInfo<__VA_ARGS__>::size(); } \
     constexpr static std::size_t minSizeInBytes() \
-    { return PackingInfo<__VA_ARGS__>::minSizeInBytes; } \
+    { return PackingInfo<__VA_ARGS__>::minSizeInBytes(); } \
     constexpr static std::size_t maxSizeInBytes() \
     { return PackingInfo<__VA_ARGS__>::maxSizeInBytes(); } \
     constexpr static std::size_t numFields() \
-- 
2.43.0


From a6f4d480152935460ace36935420a488c12a6eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 38/57] fix: copying a DynamicPackedStruct by assignment did
 not compile

---
 src/DynamicPackedStruct.h | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/DynamicPackedStruct.h b/src/DynamicPackedStruct.h
index ce5a9e4..fe325e6 100644
--- a/src/DynamicPackedStruct.h
+++ b/src/DynamicPackedStruct.h
@@ -141,28 +141,17 @@ public: /* Methods: */
     }
 
     DynamicPackedStruct & operator=(type const & copy) {
-        constexpr static auto lastSizesIndex = numDynamicFields() - 1u;
-        if (copy.m_data) {
-            if (m_data) {
-                if (m_sizes[lastSizesIndex] != copy.m_sizes[lastSizesIndex]) {
-                    if (void * const newData =
-                            ::operator new(copy.size(), std::nothrow))
-                    {
-                        m_data = newData;
-                    } else {
-                        if (m_sizes[lastSizesIndex]
-                                < copy.m_sizes[lastSizesIndex])
-                            throw std::bad_alloc();
-                    }
-                }
-            } else {
-                m_data = ::operator new(copy.size());
-            }
-            std::memcpy(m_data.get(), copy.m_data.get(), copy.size());
-        } else {
+        if (this == &copy)
+            return *this;
+        if (!copy.m_data) {
             m_data.reset();
+        } else {
+            if (!m_data || (size() != copy.size()))
+                m_data.reset(::operator new(copy.size()));
+            std::memcpy(m_data.get(), copy.m_data.get(), copy.size());
         }
         m_sizes = copy.m_sizes;
+        return *this;
     }
 
     void * data() noexcept { return m_data.get(); }
-- 
2.43.0


From e51e56b0786d011f95823a86973d2946b5faabd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 39/57] fix: moving a DynamicPackedStruct by assignment flowed
 off the end of the function

---
 src/DynamicPackedStruct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DynamicPackedStruct.h b/src/DynamicPackedStruct.h
index fe325e6..25bb161 100644
--- a/src/DynamicPackedStruct.h
+++ b/src/DynamicPackedStruct.h
@@ -138,6 +138,7 @@ public: /* Methods: */
     DynamicPackedStruct & operator=(type && move) noexcept {
         m_data = std::move(move.m_data);
         m_sizes = std::move(move.m_sizes);
+        return *this;
     }
 
     DynamicPackedStruct & operator=(type const & copy) {
-- 
2.43.0


From e0afcbc3e2e067bf880124fe9b5a77619a7a37d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 40/57] fix: DynamicPackingInfo::maxSizeInBytes() wrapped
 around

---
 src/DynamicPackingInfo.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/DynamicPackingInfo.h b/src/DynamicPackingInfo.h
index b1cb0fd..88a52e8 100644
--- a/src/DynamicPackingInfo.h
+++ b/src/DynamicPackingInfo.h
@@ -59,7 +59,12 @@ struct DynamicVectorFieldPlaceholder {
     constexpr static std::size_t min() { return min_; }
     constexpr static std::size_t max() { return max_; }
     constexpr static std::size_t minBytes() { return min_ * sizeof(valueType); }
-    constexpr static std::size_t maxBytes() { return max_ * sizeof(valueType); }
+    constexpr static std::size_t maxBytes() {
+        return (max_ > std::numeric_limits<std::size_t>::max()
+                       / sizeof(valueType))
+               ? std::numeric_limits<std::size_t>::max()
+               : max_ * sizeof(valueType);
+    }
 };
 
 namespace Detail {
@@ -126,7 +131,10 @@ struct FieldsTraits<T, Ts...> {
     constexpr static std::size_t minBytes =
             FieldTraits<T>::minBytes + FieldsTraits<Ts...>::minBytes;
     constexpr static std::size_t maxBytes =
-            FieldTraits<T>::maxBytes + FieldsTraits<Ts...>::maxBytes;
+            (FieldTraits<T>::maxBytes > std::numeric_limits<std::size_t>::max()
+                                        - FieldsTraits<Ts...>::maxBytes)
+            ? std::numeric_limits<std::size_t>::max()
+            : FieldTraits<T>::maxBytes + FieldsTraits<Ts...>::maxBytes;
 };
 
 template <typename ... Ts> struct ValidSizes;
-- 
2.43.0


From 370487e189ae426d1992c7bc7f86d93f2c659d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 41/57] fix: DynamicVectorFieldPlaceholder::type lost the
 bounds of the field

---
 src/DynamicPackingInfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DynamicPackingInfo.h b/src/DynamicPackingInfo.h
index 88a52e8..be402ad 100644
--- a/src/DynamicPackingInfo.h
+++ b/src/DynamicPackingInfo.h
@@ -54,7 +54,7 @@ template <typename T,
           std::size_t min_ = std::numeric_limits<std::size_t>::min(),
           std::size_t max_ = std::numeric_limits<std::size_t>::max()>
 struct DynamicVectorFieldPlaceholder {
-    using type = DynamicVectorFieldPlaceholder<T>;
+    using type = DynamicVectorFieldPlaceholder;
     using valueType = T;
     constexpr static std::size_t min() { return min_; }
     constexpr static std::size_t max() { return max_; }
-- 
2.43.0


From f536278644ce7cfdb97f7881e11b07f7834448e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 42/57] fix: ref(), ptr() and voidPtr() of PackedStructAccessor
 were ambiguous

---
 src/PackedStructAccessor.h |  2 +-
 src/PackingInfo.h          | 27 +++++++++++++++------------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/PackedStructAccessor.h b/src/PackedStructAccessor.h
index 770596e..cfff98f 100644
--- a/src/PackedStructAccessor.h
+++ b/src/PackedStructAccessor.h
@@ -65,7 +65,7 @@ public: /* Methods: */
     type & operator=(type &&) noexcept = default;
     type & operator=(type const &) noexcept = default;
 
-    SHAREMIND_PACKINGINFO_DEFINE_READ_METHODS(Ts...)
+    SHAREMIND_PACKINGINFO_DEFINE_CONST_METHODS(Ts...)
     SHAREMIND_PACKINGINFO_DEFINE_WRITE_METHODS(const,Ts...)
 
     void * data() const noexcept { return m_data; }
diff --git a/src/PackingInfo.h b/src/PackingInfo.h
index bf727d6..d00ebd7 100644
--- a/src/PackingInfo.h
+++ b/src/PackingInfo.h
@@ -155,6 +155,20 @@ struct PackingInfo {
             typename PackingInfo<__VA_ARGS__>::template ConstPointerType<I>;
 
 #define SHAREMIND_PACKINGINFO_DEFINE_READ_METHODS(...) \
+    SHAREMIND_PACKINGINFO_DEFINE_CONST_METHODS(__VA_ARGS__) \
+    template <std::size_t I> \
+    void const * voidPtr() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::template constVoidPtr<I>(data()); } \
+    void const * endVoidPtr() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::endConstVoidPtr(data()); } \
+    template <std::size_t I> \
+    ConstPointerType<I> ptr() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::template constPtr<I>(data()); } \
+    template <std::size_t I> \
+    ConstReferenceType<I> ref() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::template cref<I>(data()); }
+
+#define SHAREMIND_PACKINGINFO_DEFINE_CONST_METHODS(...) \
     constexpr static std::size_t size() noexcept \
     { return PackingInfo<__VA_ARGS__>::size(); } \
     constexpr static std::size_t staticSize() \
@@ -170,28 +184,17 @@ struct PackingInfo {
     constexpr static bool hasDynamicFields() \
     { return PackingInfo<__VA_ARGS__>::hasDynamicFields(); } \
     template <std::size_t I> \
-    void const * voidPtr() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::template constVoidPtr<I>(data()); } \
-    template <std::size_t I> \
     void const * constVoidPtr() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template constVoidPtr<I>(data()); } \
-    void const * endVoidPtr() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::endConstVoidPtr(data()); } \
     void const * endConstVoidPtr() const noexcept \
     { return PackingInfo<__VA_ARGS__>::endConstVoidPtr(data()); } \
     template <std::size_t I> \
-    ConstPointerType<I> ptr() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::template constPtr<I>(data()); } \
-    template <std::size_t I> \
     ConstPointerType<I> constPtr() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template constPtr<I>(data()); } \
     template <std::size_t I> \
     ConstReferenceType<I> cref() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template cref<I>(data()); } \
     template <std::size_t I> \
-    ConstReferenceType<I> ref() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::template cref<I>(data()); } \
-    template <std::size_t I> \
     ElemType<I> get() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template get<I>(data()); } \
     bool operator==(type const & rhs) const noexcept \
@@ -203,7 +206,7 @@ struct PackingInfo {
     template <std::size_t I> \
     void * voidPtr() maybeConst noexcept \
     { return PackingInfo<__VA_ARGS__>::template voidPtr<I>(data()); } \
-    void * endVoidPtr() noexcept \
+    void * endVoidPtr() maybeConst noexcept \
     { return PackingInfo<__VA_ARGS__>::endVoidPtr(data()); } \
     template <std::size_t I> \
     PointerType<I> ptr() maybeConst noexcept \
-- 
2.43.0


From f3a10445b0cfe55842c17c58fe28d5f54b3be3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:10 +0000
Subject: [PATCH 43/57] fix: the size of a DynamicPackedStruct without dynamic
 fields was read from outside of an array

---
 src/DynamicPackingInfo.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DynamicPackingInfo.h b/src/DynamicPackingInfo.h
index be402ad..7f41f48 100644
--- a/src/DynamicPackingInfo.h
+++ b/src/DynamicPackingInfo.h
@@ -342,8 +342,11 @@ struct AccumArrayType
     type & operator=(type &&) noexcept = default;
     type & operator=(type const &) noexcept = default;
 
-    std::size_t structSizeInBytes() const noexcept
-    { return StaticTailSize<Ts...>::value + (*this)[numDynamicFields() - 1u]; }
+    std::size_t structSizeInBytes() const noexcept {
+        return hasDynamicFields()
+               ? StaticTailSize<Ts...>::value + (*this)[numDynamicFields() - 1u]
+               : minSizeInBytes();
+    }
 
     template <std::size_t I>
     typename std::enable_if<
@@ -528,10 +531,7 @@ struct DynamicPackingInfo {
 
     static constexpr std::size_t sizeFromAccum(AccumArrayType const & accumSizes)
             noexcept
-    {
-        return Detail::DynamicPacking::StaticTailSize<Ts...>::value
-               + accumSizes[numDynamicFields() - 1u];
-    }
+    { return accumSizes.structSizeInBytes(); }
 
     template <std::size_t I>
     constexpr static std::size_t elemOffset(AccumArrayType const & accumSizes)
-- 
2.43.0


From 83532befa492f63527363c84e19c14bfd111fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 44/57] fix: TemplateContainsType did not compile for a type
 contained more than once

---
 src/TemplateContainsType.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TemplateContainsType.h b/src/TemplateContainsType.h
index d0f59de..b75d2db 100644
--- a/src/TemplateContainsType.h
+++ b/src/TemplateContainsType.h
@@ -28,7 +28,8 @@ namespace sharemind {
 template <typename Needle, typename ... Haystack>
 using TemplateContainsType =
         std::integral_constant<bool,
-                               TemplateCountTypes<Needle, Haystack...>::value>;
+                               (TemplateCountTypes<Needle, Haystack...>::value
+                                > 0u)>;
 
 template <typename Needle, typename ... Haystack>
 constexpr auto TemplateContainsType_v =
-- 
2.43.0


From d4e9a483e538b4926e2646be433c39ce50108a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 45/57] fix: TemplateFilter and TemplateInverseFilter did not
 compile for any values

---
 src/TemplatePrepend.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/TemplatePrepend.h b/src/TemplatePrepend.h
index e8c15dd..c199376 100644
--- a/src/TemplatePrepend.h
+++ b/src/TemplatePrepend.h
@@ -33,6 +33,14 @@ template <typename T, template <T ...> class Tmpl, T ... Tvs, T ... vs>
 struct TemplatePrepend<T, Tmpl<Tvs...>, vs...>
 { using type = Tmpl<vs..., Tvs...>; };
 
+/* For templates like TemplateList, which also take the type of the values: */
+template <typename T,
+          template <typename U, U ...> class Tmpl,
+          T ... Tvs,
+          T ... vs>
+struct TemplatePrepend<T, Tmpl<T, Tvs...>, vs...>
+{ using type = Tmpl<T, vs..., Tvs...>; };
+
 } /* namespace Sharemind { */
 
 #endif /* SHAREMIND_TEMPLATEPREPEND_H */
-- 
2.43.0


From 0cc1d5879453458aa535164359701736e54bc754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 46/57] fix: IsSwappable and IsNothrowSwappable did not compile
 for types which can not be referenced

---
 src/IsSwappable.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/IsSwappable.h b/src/IsSwappable.h
index 0a72357..47c8ac1 100644
--- a/src/IsSwappable.h
+++ b/src/IsSwappable.h
@@ -71,7 +71,10 @@ struct IsSwappable
             bool,
             std::conditional<
                 IsReferenceable<T>::value,
-                IsSwappableWith<T &, T &>,
+                IsSwappableWith<
+                    typename std::add_lvalue_reference<T>::type,
+                    typename std::add_lvalue_reference<T>::type
+                >,
                 std::false_type
             >::type::value>
 {};
@@ -89,7 +92,10 @@ struct IsNothrowSwappable
             bool,
             std::conditional<
                 IsReferenceable<T>::value,
-                IsNothrowSwappableWith<T &, T &>,
+                IsNothrowSwappableWith<
+                    typename std::add_lvalue_reference<T>::type,
+                    typename std::add_lvalue_reference<T>::type
+                >,
                 std::false_type
             >::type::value>
 {};
-- 
2.43.0


From 5249f6f1dab7453b59d76b3d2ed9687cd1357339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 47/57] fix: UninitializedDynamicArray move assignment returned
 no value and self-assignment lost the size

---
 src/UninitializedDynamicArray.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/UninitializedDynamicArray.h b/src/UninitializedDynamicArray.h
index 098e923..c503299 100644
--- a/src/UninitializedDynamicArray.h
+++ b/src/UninitializedDynamicArray.h
@@ -67,9 +67,11 @@ public: /* Methods: */
     UninitializedDynamicArray & operator=(
                 UninitializedDynamicArray && move) noexcept
     {
-        m_size = move.m_size;
-        m_data = std::move(move.m_data);
+        auto const newSize = move.m_size;
         move.m_size = 0u;
+        m_data = std::move(move.m_data);
+        m_size = newSize;
+        return *this;
     }
 
     UninitializedDynamicArray & operator=(
-- 
2.43.0


From 3ece563c31c6c3beb310c0369fc5833ef51dae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 48/57] fix: BasicInputMemoryStream did not compile for streams
 of other characters

---
 src/InputMemoryStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputMemoryStream.h b/src/InputMemoryStream.h
index c2730b8..bbd1dd6 100644
--- a/src/InputMemoryStream.h
+++ b/src/InputMemoryStream.h
@@ -51,7 +51,7 @@ public: /* Methods: */
 
     BasicInputMemoryStream(CharT const * data, std::size_t size)
         : Detail::BasicMemoryBuffer<CharT, Traits>(data, size)
-        , std::istream(
+        , std::basic_istream<CharT, Traits>(
               static_cast<Detail::BasicMemoryBuffer<CharT, Traits> *>(this))
     {}
 
-- 
2.43.0


From c5b7b89e54d753a6eedc86582be3e0cb11d60247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 49/57] fix: AlignedAllocator could not allocate types with
 less alignment than pointers have

---
 src/AlignedAllocator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/AlignedAllocator.h b/src/AlignedAllocator.h
index d2ddfc9..c701e76 100644
--- a/src/AlignedAllocator.h
+++ b/src/AlignedAllocator.h
@@ -34,8 +34,12 @@ template <std::size_t ALIGNMENT>
 inline void * allocateAlignedStorage(std::size_t const size,
                                      std::nothrow_t const &) noexcept
 {
+    /* The alignment given to posix_memalign() must be at least the size of a
+       pointer: */
+    constexpr auto const alignment =
+            (ALIGNMENT < sizeof(void *)) ? sizeof(void *) : ALIGNMENT;
     void * p;
-    if (::posix_memalign(&p, ALIGNMENT, size) != 0)
+    if (::posix_memalign(&p, alignment, size) != 0)
         return nullptr;
     return p;
 }
-- 
2.43.0


From 0b96972ccf02e365c460962fbbb096b0288e2444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 50/57] fix: AlignedAllocator::allocate() overflowed the number
 of bytes

---
 src/AlignedAllocator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AlignedAllocator.h b/src/AlignedAllocator.h
index c701e76..20e2c63 100644
--- a/src/AlignedAllocator.h
+++ b/src/AlignedAllocator.h
@@ -21,7 +21,7 @@
 #define SHAREMIND_ALIGNEDALLOCATOR_H
 
 #include <cstdlib>
-/* #include <limits> */
+#include <limits>
 #include <new>
 #include <memory>
 /* #include <type_traits> */
@@ -119,6 +119,8 @@ struct AlignedAllocator {
     AlignedAllocator(AlignedAllocator<U> const &) noexcept {}
 
     static pointer allocate(size_type const n) {
+        if (n > std::numeric_limits<std::size_t>::max() / sizeof(T))
+            throw std::bad_alloc();
         return static_cast<pointer>(
                     allocateAlignedStorage<alignof(T)>(n * sizeof(T)));
     }
-- 
2.43.0


From 07442679e13b9b9c5fc8a7ace3e413a8988e9217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 51/57] fix: Datum::loadFromFile() failed an assertion when
 read() was interrupted

---
 src/Datum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Datum.h b/src/Datum.h
index 4e5ce28..4d637ee 100644
--- a/src/Datum.h
+++ b/src/Datum.h
@@ -180,7 +180,6 @@ private: /* Methods: */
                 for (;;) {
                     auto const toReadAtOnce(std::min(umax, leftToRead));
                     auto const read = ::read(inFd, buf, toReadAtOnce);
-                    assert(static_cast<U>(read) <= toReadAtOnce);
                     if (read == 0) {
                         throw FileSizeChangedException();
                     } else if (read < 0) {
@@ -188,6 +187,7 @@ private: /* Methods: */
                         if (errno != EINTR)
                             throw ErrnoException(errno);
                     } else {
+                        assert(static_cast<U>(read) <= toReadAtOnce);
                         leftToRead -= static_cast<U>(read);
                         if (leftToRead <= 0u)
                             break;
-- 
2.43.0


From b1e829868f81a8cb5790a5aef8c3698ca180fffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 52/57] fix: Datum dereferenced the end of its data

---
 src/Datum.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Datum.h b/src/Datum.h
index 4d637ee..24936f7 100644
--- a/src/Datum.h
+++ b/src/Datum.h
@@ -113,20 +113,21 @@ public: /* Methods: */
         m_data.resize(size);
         std::copy(static_cast<char const *>(data),
                   static_cast<char const *>(data) + size,
-                  &m_data[0]);
+                  m_data.data());
     }
 
     HashValue hash() const noexcept
-    { return hashRawData(&m_data[0u], m_data.size()); }
+    { return hashRawData(m_data.data(), m_data.size()); }
 
     void clear() noexcept { m_data.clear(); }
     bool empty() const noexcept { return m_data.empty(); }
     size_type size() const noexcept { return m_data.size(); }
-    void * data() noexcept { return &m_data[0u]; }
-    void * dataEnd() noexcept { return &*m_data.end(); }
-    void const * constData() const noexcept { return &m_data[0u]; }
+    void * data() noexcept { return m_data.data(); }
+    void * dataEnd() noexcept
+    { return m_data.data() + m_data.size(); }
+    void const * constData() const noexcept { return m_data.data(); }
     void const * constDataEnd() const noexcept
-    { return &*m_data.end(); }
+    { return m_data.data() + m_data.size(); }
 
 private: /* Methods: */
 
-- 
2.43.0


From 1a6c5879367ba860d11398f546400797f1ca1b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 53/57] fix: copies and moved-from instances of ScopeExit also
 ran the function

---
 src/ScopeExit.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ScopeExit.h b/src/ScopeExit.h
index 31ce1c2..6e63f8c 100644
--- a/src/ScopeExit.h
+++ b/src/ScopeExit.h
@@ -32,7 +32,16 @@ public: /* Methods: */
 
     template <typename ... Args>
     ScopeExit(Args && ... args) : m_f{std::forward<Args>(args)...} {}
-    ~ScopeExit() noexcept(false) { m_f(); }
+    ScopeExit(ScopeExit && move) noexcept { m_f.swap(move.m_f); }
+    ScopeExit(ScopeExit const &) = delete;
+
+    ~ScopeExit() noexcept(false) {
+        if (m_f)
+            m_f();
+    }
+
+    ScopeExit & operator=(ScopeExit &&) = delete;
+    ScopeExit & operator=(ScopeExit const &) = delete;
 
 private: /* Fields: */
 
-- 
2.43.0


From 0d8fb3d2b35969f36885821dac20c17c95b3bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 54/57] fix: BitVec could not be copied

---
 src/BitVector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BitVector.h b/src/BitVector.h
index 276ec64..c7950d7 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -146,6 +146,8 @@ public: /* Methods: */
         , m_num_bits (num_bits)
     { }
 
+    BitVec(BitVec const & other) = default;
+
     BitVec(BitVec&& other)
         : m_blocks{std::move(other.m_blocks)}
         , m_num_bits{std::move(other.m_num_bits)}
@@ -153,6 +155,8 @@ public: /* Methods: */
         other.m_num_bits = 0;
     }
 
+    BitVec& operator=(BitVec const & other) = default;
+
     BitVec& operator=(BitVec&& other) {
         m_blocks = std::move(other.m_blocks);
         m_num_bits = other.m_num_bits;
-- 
2.43.0


From 234d8900bc0768d88c43e5cbe1b919709b082f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 55/57] fix: BitVec::append() read beyond the end, added excess
 blocks and kept excess bits

---
 src/BitVector.h | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index c7950d7..56a1310 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -285,27 +285,28 @@ public: /* Methods: */
     }
 
     void append (const BitVec& other) {
-        using const_iter = typename store_type::const_iterator;
-        block_type r = m_num_bits % bits_per_block();
-        const_iter i = other.m_blocks.begin ();
-        const const_iter e = other.m_blocks.end ();
-        if (r == 0) {
-            for (; i != e; ++ i) {
-                m_blocks.push_back (*i);
+        const size_type r = m_num_bits % bits_per_block();
+        const size_type n = other.num_blocks_ ();
+        const size_type num_bits = m_num_bits + other.m_num_bits;
+        const size_type num_blocks = compute_block_count (num_bits);
+        for (size_type i = 0; i < n; ++ i) {
+            const block_type b = other.m_blocks[i];
+            if (r == 0) {
+                m_blocks.push_back (b);
+            }
+            else {
+                assert (! m_blocks.empty ());
+                /* The excess bits of the last block may have any value: */
+                block_type& last = m_blocks.back ();
+                const block_type mask = bit_mask (r) - 1u;
+                last = (last & mask) | (b << r);
+                if (m_blocks.size () < num_blocks) {
+                    m_blocks.push_back (b >> (bits_per_block() - r));
+                }
             }
-        }
-        else {
-            assert (! empty ());
-            assert (! m_blocks.empty ());
-            m_blocks.back () |= (*i << r);
-            do {
-                const block_type b = *i >> (bits_per_block() - r);
-                ++ i;
-                m_blocks.push_back (b | (i == e ? 0 : *i << r));
-            } while (i != e);
         }
 
-        m_num_bits += other.m_num_bits;
+        m_num_bits = num_bits;
     }
 
     template <typename Rng>
-- 
2.43.0


From 8557fd779c1e17d5bd045a8cd3d9c790a41075aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:08 +0000
Subject: [PATCH 56/57] fix: BitVec::clear_and_release() kept the number of
 bits

---
 src/BitVector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 56a1310..7f90963 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -373,7 +373,10 @@ public: /* Methods: */
     friend bool operator == (const BitVec<B, A, S>& x,
                              const BitVec<B, A, S>& y);
 
-    void clear_and_release() { store_type().swap (m_blocks); }
+    void clear_and_release() {
+        store_type().swap (m_blocks);
+        m_num_bits = 0;
+    }
 
     void* data () { return static_cast<void*>(m_blocks.data ()); }
     const void* data () const { return static_cast<const void*>(m_blocks.data ()); }
-- 
2.43.0


From 3fc51ea7b6da3205b02570a725bf6d4d37b5229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:59 +0000
Subject: [PATCH 57/57] fix: uint_t can be shifted by a uint_t (the call of
 min() did not compile)

---
 src/uint_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index bb167e3..8b5d9bb 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -746,7 +746,7 @@ private: /* Methods: */
     // TODO: we are assuming that blocks are not greater than 64 bits!
     std::uint64_t as_uint64_t() const {
         std::uint64_t out = 0;
-        std::size_t const s = min(num_of_bits, 64u);
+        std::size_t const s = num_of_bits < 64u ? num_of_bits : 64u;
         for (std::size_t i = 0u, j = 0u; j < s; ++i, j += bits_in_block)
             out ^= static_cast<std::uint64_t>(block (i)) << j;
         return out;
-- 
2.43.0

