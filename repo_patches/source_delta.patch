From 22e4e445f95a65c1baebcc42bf788350649b28f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 01/64] fix: WaitHandler blocking_disable could return before
 the last waiter released the mutex

---
 cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
index 9636bfa..536b7bb 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
@@ -100,11 +100,16 @@ void WaitHandler<T>::blocking_disable() noexcept
     disable();
 
     // Wait till every thread has finished
-    while (threads_waiting_.load() > 0)
+    // NOTE: the number of waiting threads is checked with the mutex taken, so the last thread leaving has already
+    // released it and will not use this object any more (it could be destroyed right after this call).
+    while (true)
     {
-        // Lock so this thread has no priority over closing threads
         {
             std::lock_guard<std::mutex> lock(wait_condition_variable_mutex_);
+            if (threads_waiting_.load() == 0)
+            {
+                break;
+            }
         }
 
         // Notify in case there are still threads waiting to be awaken
-- 
2.43.0


From 58d95b496b6e403bf566d46e2f7f89b725e44a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 02/64] fix: disabling or destroying a CounterWaitHandler did
 not release the threads waiting for the threshold

---
 .../include/cpp_utils/wait/CounterWaitHandler.hpp   |  3 +++
 cpp_utils/include/cpp_utils/wait/WaitHandler.hpp    |  7 +++++++
 .../include/cpp_utils/wait/impl/WaitHandler.ipp     | 10 ++++++++--
 cpp_utils/src/cpp/wait/CounterWaitHandler.cpp       | 13 +++++++++++++
 4 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp b/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
index f5ea137..7652572 100644
--- a/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
+++ b/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
@@ -130,6 +130,9 @@ protected:
      */
     void decrease_1_nts_();
 
+    //! Awake also the threads waiting for the threshold to be reached
+    void awake_all_() noexcept override;
+
     const CounterType threshold_;
 
     std::condition_variable threshold_reached_cv_;
diff --git a/cpp_utils/include/cpp_utils/wait/WaitHandler.hpp b/cpp_utils/include/cpp_utils/wait/WaitHandler.hpp
index 980c42f..6639542 100644
--- a/cpp_utils/include/cpp_utils/wait/WaitHandler.hpp
+++ b/cpp_utils/include/cpp_utils/wait/WaitHandler.hpp
@@ -168,6 +168,13 @@ protected:
             const utils::Duration_ms& timeout,
             AwakeReason& reason) noexcept;
 
+    /**
+     * @brief Awake every thread waiting in this object so it checks again its condition and whether this is enabled.
+     *
+     * Child classes that wait in other condition variables must override it to notify them as well.
+     */
+    virtual void awake_all_() noexcept;
+
     /**
      * @brief  Current value
      *
diff --git a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
index 536b7bb..278ca5a 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
@@ -83,7 +83,7 @@ void WaitHandler<T>::disable() noexcept
         }
 
         // Do not block for awaken
-        wait_condition_variable_.notify_all();
+        awake_all_();
     }
     else
     {
@@ -113,7 +113,7 @@ void WaitHandler<T>::blocking_disable() noexcept
         }
 
         // Notify in case there are still threads waiting to be awaken
-        wait_condition_variable_.notify_all();
+        awake_all_();
     }
 }
 
@@ -186,6 +186,12 @@ std::unique_lock<std::mutex> WaitHandler<T>::blocking_wait_(
     return lock;
 }
 
+template <typename T>
+void WaitHandler<T>::awake_all_() noexcept
+{
+    wait_condition_variable_.notify_all();
+}
+
 template <typename T>
 AwakeReason WaitHandler<T>::wait(
         std::function<bool(const T&)> predicate,
diff --git a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
index 8a7ee17..63d2944 100644
--- a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
+++ b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
@@ -36,6 +36,8 @@ CounterWaitHandler::CounterWaitHandler(
 
 CounterWaitHandler::~CounterWaitHandler()
 {
+    // Release every thread before destroying the condition variable of this class
+    blocking_disable();
 }
 
 AwakeReason CounterWaitHandler::wait_and_decrement(
@@ -133,11 +135,22 @@ CounterWaitHandler& CounterWaitHandler::operator ++()
         {
             wait_condition_variable_.notify_one();
         }
+        // If the threshold is reached from below, notify threads waiting for this event
+        else if (value_ == threshold_)
+        {
+            threshold_reached_cv_.notify_all();
+        }
     }
 
     return *this;
 }
 
+void CounterWaitHandler::awake_all_() noexcept
+{
+    WaitHandler<CounterType>::awake_all_();
+    threshold_reached_cv_.notify_all();
+}
+
 void CounterWaitHandler::decrease_1_nts_()
 {
     value_--;
-- 
2.43.0


From 339db6eb732f87afb0e75956af86f05953a23052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 03/64] fix: assigning to a GuardedPtr did not release the data
 it guarded before

---
 .../cpp_utils/memory/impl/GuardedPtr.hpp        |  4 ++--
 .../cpp_utils/memory/impl/GuardedPtr.ipp        | 17 +++++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
index 239dc42..351ae24 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
@@ -63,9 +63,9 @@ public:
     GuardedPtr(
             GuardedPtr&&) noexcept = default;
 
-    //! Move operator not allowed
+    //! Move operator. It unlocks the shared mutex this object had locked before.
     GuardedPtr<T>& operator =(
-            GuardedPtr<T>&& other) noexcept = default;
+            GuardedPtr<T>&& other) noexcept;
 
     //! Unlock the shared mutex
     ~GuardedPtr();
diff --git a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
index fd54366..a191c4d 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
@@ -41,6 +41,23 @@ GuardedPtr<T>::~GuardedPtr()
     }
 }
 
+template<typename T>
+GuardedPtr<T>& GuardedPtr<T>::operator =(
+        GuardedPtr<T>&& other) noexcept
+{
+    if (this != &other)
+    {
+        // Release the data guarded so far
+        if (data_reference_)
+        {
+            data_reference_->unlock_shared();
+        }
+        data_reference_ = std::move(other.data_reference_);
+    }
+
+    return *this;
+}
+
 template<typename T>
 T* GuardedPtr<T>::operator ->() const noexcept
 {
-- 
2.43.0


From c6d7b72814e1e9b6718a07a95c4fdb9e7e17949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 04/64] fix: LesseePtr operator-> unlocked the data before it
 was used

---
 cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp | 4 ++--
 cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp
index cc1141d..eb99fc2 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.hpp
@@ -115,11 +115,11 @@ public:
      * This operator will acces the internal data if this still exist, and lock it while using.
      * If the data do not further exist, it will raise an exception.
      *
-     * @return Internal data ptr
+     * @return guard of the internal data, that locks it until the end of the expression where this operator is used.
      *
      * @throw ValueAccessException in case internal data no longer exists.
      */
-    T* operator ->() const;
+    GuardedPtr<T> operator ->() const;
 
     /**
      * @brief Access operator to internal ptr with exception calls in failure cases.
diff --git a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
index 7e61dca..115bd27 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/LesseePtr.ipp
@@ -39,9 +39,10 @@ LesseePtr<T>::LesseePtr(
 ///////////////////////
 
 template<typename T>
-T* LesseePtr<T>::operator ->() const
+GuardedPtr<T> LesseePtr<T>::operator ->() const
 {
-    return this->lock_with_exception().operator ->();
+    // The guard is the one that gives access to the data, so it is not unlocked till the access has finished
+    return this->lock_with_exception();
 }
 
 template<typename T>
-- 
2.43.0


From 01f1605e578001a2d892473db56dac440db24eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 05/64] fix: checking the validity of a LesseePtr raced with
 the release of the data

---
 cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp | 6 ++++--
 cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
index c921b84..7cab547 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.hpp
@@ -20,6 +20,8 @@
 
 #pragma once
 
+#include <atomic>
+#include <functional>
 #include <memory>
 #include <mutex>
 #include <shared_mutex>
@@ -125,8 +127,8 @@ protected:
     // INTERNAL VARIABLES
     ////////////////////////////
 
-    //! Pointer to the internal data
-    T* reference_;
+    //! Pointer to the internal data (atomic because its validity is checked without the mutex taken)
+    std::atomic<T*> reference_;
 
     //! Mutex to guard the data while using or destroying it
     mutable std::shared_timed_mutex shared_mutex_;
diff --git a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
index 9dc8815..a266ce8 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/InternalPtrData.ipp
@@ -37,7 +37,7 @@ InternalPtrData<T>::InternalPtrData() noexcept
 template<typename T>
 InternalPtrData<T>::InternalPtrData(
         InternalPtrData&& other) noexcept
-    : reference_(std::move(other.reference_))
+    : reference_(other.reference_.exchange(nullptr))
     , shared_mutex_(std::move(other.shared_mutex_))
     , deleter_(std::move(other.deleter_))
 {
@@ -79,7 +79,7 @@ T* InternalPtrData<T>::operator ->() const noexcept
 template<typename T>
 T& InternalPtrData<T>::operator *() const noexcept
 {
-    return *reference_;
+    return *reference_.load();
 }
 
 template<typename T>
-- 
2.43.0


From 8bf224d37251cb722943f2e8dda2b611120e21b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 06/64] fix: copying a SafeDatabaseIterator released the
 database lock twice

---
 .../cpp_utils/collection/database/SafeDatabase.hpp       | 4 ++++
 .../cpp_utils/collection/database/impl/SafeDatabase.ipp  | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
index 63a7c0f..4b4b765 100644
--- a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
+++ b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
@@ -54,6 +54,10 @@ public:
             typename std::map<Key, Value>::const_iterator it,
             std::shared_timed_mutex& mutex);
 
+    //! The copy locks the database by its own (each iterator releases the lock once when destroyed)
+    SafeDatabaseIterator(
+            const SafeDatabaseIterator& other);
+
     ~SafeDatabaseIterator();
 
 private:
diff --git a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
index e1b837e..85eea7d 100644
--- a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
+++ b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
@@ -28,6 +28,15 @@ SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
     mutex_.lock_shared();
 }
 
+template <typename Key, typename Value>
+SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
+        const SafeDatabaseIterator& other)
+    : std::map<Key, Value>::const_iterator(other)
+    , mutex_(other.mutex_)
+{
+    mutex_.lock_shared();
+}
+
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value>::~SafeDatabaseIterator()
 {
-- 
2.43.0


From 6222e8e89f383b8cb31d5a27187ebefd9e93a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 07/64] fix: SafeDatabase begin and end read the map before
 locking it

---
 .../cpp_utils/collection/database/impl/SafeDatabase.ipp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
index 85eea7d..1734e79 100644
--- a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
+++ b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
@@ -103,12 +103,16 @@ SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::find(
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::begin() const
 {
+    std::shared_lock<std::shared_timed_mutex> _(mutex_);
+
     return SafeDatabaseIterator<Key, Value>(internal_db_.begin(), mutex_);
 }
 
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::end() const
 {
+    std::shared_lock<std::shared_timed_mutex> _(mutex_);
+
     return SafeDatabaseIterator<Key, Value>(internal_db_.end(), mutex_);
 }
 
-- 
2.43.0


From 273012b5a04cbe2f53e00e6c8f208d3e92057580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 08/64] fix: enabling a SlotThreadPool again did not execute
 anything

disable() disables the task queue, and nothing enabled it again: the new threads ended at once.
---
 cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
index 10ad615..d4121d3 100644
--- a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
+++ b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
@@ -51,6 +51,9 @@ void SlotThreadPool::enable() noexcept
 {
     if (!enabled_.exchange(true))
     {
+        // The queue may have been disabled with the pool
+        task_queue_.enable();
+
         // Execute threads
         for (uint32_t i = 0; i < number_of_threads_; ++i)
         {
-- 
2.43.0


From 8323808e71986d33d6cb59d3dfa7a34b63d4e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 09/64] fix: EventHandler::wait_for_event read the handler
 after it was released for destruction

Unsetting the callback (as every destructor does) waits until no thread is waiting, but a released thread
still read the event count after that.
---
 cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp b/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
index 275a077..27e2dfc 100644
--- a/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
@@ -137,6 +137,9 @@ bool EventHandler<Args...>::wait_for_event(
             });
 
         --threads_waiting_;
+
+        // Once the mutex is released this object could be destroyed, as no thread is waiting any more
+        return number_of_events_registered_.load() >= n;
     }
 
     // Return true if the condition has been fulfilled. It could stop due to an unset callback
-- 
2.43.0


From 26cecd989b719d825d95471a448036c733cc3259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 10/64] fix: SignalManager could miss the notification of a
 signal

A signal delivered between the check of the condition and the wait was not handled until the next one.
---
 cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
index 224e644..c39d30b 100644
--- a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
@@ -20,6 +20,7 @@
 #pragma once
 
 #include <algorithm>
+#include <chrono>
 #include <thread>
 
 #include <cpp_utils/exception/InconsistencyException.hpp>
@@ -156,8 +157,11 @@ void SignalManager<SigVal>::signal_handler_thread_routine_() noexcept
     while (!signal_handler_thread_stop_.load())
     {
         std::unique_lock<std::mutex> lock(signal_received_cv_mutex_);
-        signal_received_cv_.wait(
+        // As \c signal_received_ cannot take the mutex, its notification is missed if it comes between checking the
+        // condition and waiting. Thus the condition is checked again from time to time.
+        signal_received_cv_.wait_for(
             lock,
+            std::chrono::milliseconds(100),
             [this]
             {
                 return signals_received_.load() > 0 ||
-- 
2.43.0


From bb9b4f8e0890bfb83adc810ee02e5dc672d4c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 11/64] fix: StdinEventHandler ignored the source it was given
 and read stdin

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 0f03e18..4d5f8ad 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -30,17 +30,19 @@
 
 namespace {
 #if defined(_WIN32) || defined(_WIN64)
-inline bool consume_tilde_if_present()
+inline bool consume_tilde_if_present(
+        std::istream&)
 {
     // Windows special keys don’t have a trailing '~'
     return true;
 }
 
 #else
-inline bool consume_tilde_if_present()
+inline bool consume_tilde_if_present(
+        std::istream& source)
 {
     // POSIX: ESC [ <num> ~ → read and verify '~'
-    int t = getchar();
+    int t = source.get();
     return t == '~';
 }
 
@@ -301,11 +303,11 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                     case 72:  // Arrow up
 #else
             char c;
-            c = getchar(); // Read first character
+            c = source_.get(); // Read first character
             if (c == '\033')
             {
-                getchar(); // Ignore next character '['
-                switch (getchar())
+                source_.get(); // Ignore next character '['
+                switch (source_.get())
                 {
                     case 'A':
 #endif // if defined(_WIN32) || defined(_WIN64)
@@ -400,7 +402,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                     case '2':  // Insert: ESC [ 2 ~
 #endif // if defined(_WIN32) || defined(_WIN64)
                     {
-                        int c3 = getchar(); (void)c3; // swallow trailing '~'
+                        consume_tilde_if_present(source_); // swallow trailing '~'
                         // Minimal behavior: do nothing
                         break;
                     }
@@ -411,7 +413,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                     case '3':  // Supr: ESC [ 3 ~
 #endif // if defined(_WIN32) || defined(_WIN64)
                     {
-                        if (consume_tilde_if_present())
+                        if (consume_tilde_if_present(source_))
                         {
                             // delete-forward (char at cursor), if any
                             if (cursor_index < read_str.size())
@@ -436,7 +438,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                     case '5':  // Page Up: ESC [ 5 ~  (history prev)
 #endif // if defined(_WIN32) || defined(_WIN64)
                     {
-                        if (consume_tilde_if_present())
+                        if (consume_tilde_if_present(source_))
                         {
                             std::string prev = history_handler_.get_previous_command();
                             if (!prev.empty())
@@ -460,7 +462,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                     case '6':  // Page Down: ESC [ 6 ~  (history next)
 #endif // if defined(_WIN32) || defined(_WIN64)
                     {
-                        if (consume_tilde_if_present())
+                        if (consume_tilde_if_present(source_))
                         {
                             std::string next = history_handler_.get_next_command();
                             std::string prompt = ">> ";
-- 
2.43.0


From 38086998538b2e348477c9553fd526c6fb1fc277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 12/64] fix: StdinEventHandler grew its line without end once
 the input ended

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 4d5f8ad..8762ca3 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <cstdio>
 #include <thread>
 
 #if defined(_WIN32) || defined(_WIN64)
@@ -272,6 +273,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
     set_terminal_mode_(true);
 
     auto awake_reason = activation_times_.wait_and_decrement();
+    bool end_of_input = false;
     while (awake_reason == AwakeReason::condition_met)
     {
         std::string read_str;
@@ -302,9 +304,14 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                 {
                     case 72:  // Arrow up
 #else
-            char c;
-            c = source_.get(); // Read first character
-            if (c == '\033')
+            int c = source_.get(); // Read first character
+            if (c == EOF)
+            {
+                // There is nothing else to read
+                end_of_input = true;
+                break;
+            }
+            else if (c == '\033')
             {
                 source_.get(); // Ignore next character '['
                 switch (source_.get())
@@ -565,6 +572,11 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
             }
         }
 
+        if (end_of_input)
+        {
+            break;
+        }
+
         awake_reason = activation_times_.wait_and_decrement();
     }
 
-- 
2.43.0


From 7c537a213a82e3b83e750af13a6ebb39b8fccda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 13/64] fix: StdinEventHandler divided by an unset terminal
 width

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 8762ca3..dc72ec3 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -62,7 +62,11 @@ int get_terminal_width()
     return csbi.srWindow.Right - csbi.srWindow.Left + 1;
     #else
     struct winsize w;
-    ioctl(STDOUT_FILENO, TIOCGWINSZ, &w);
+    if (ioctl(STDOUT_FILENO, TIOCGWINSZ, &w) != 0 || w.ws_col == 0)
+    {
+        // Not a terminal, or its size is unknown
+        return 80;
+    }
     return w.ws_col;
     #endif // if defined(_WIN32) || defined(_WIN64)
 }
-- 
2.43.0


From 73285bb145eba44a5c888faad51c9101d6979a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 14/64] fix: CommandHistoryHandler read outside the history
 when it was empty

---
 cpp_utils/src/cpp/history/CommandHistoryHandler.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp b/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
index dc0475f..40eca09 100644
--- a/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
+++ b/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
@@ -45,15 +45,13 @@ std::string CommandHistoryHandler::get_previous_command()
 
 std::string CommandHistoryHandler::get_next_command()
 {
-    if (current_index_ < command_history_.size() - 1)
+    if (current_index_ < command_history_.size())
     {
         ++current_index_;
-        return command_history_[current_index_];
-    }
-    else if (current_index_ == command_history_.size() - 1)
-    {
-        ++current_index_;
-        return "";
+        if (current_index_ < command_history_.size())
+        {
+            return command_history_[current_index_];
+        }
     }
     return "";
 }
-- 
2.43.0


From 109fb4dfdd551a460f716c19772a1096c3bb5920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:37 +0000
Subject: [PATCH 15/64] fix: CommandReader took an opening quote followed by a
 space as its own closing quote

---
 .../include/cpp_utils/user_interface/impl/CommandReader.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
index 3260a5d..efa3070 100644
--- a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
+++ b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
@@ -64,9 +64,9 @@ std::vector<std::string> CommandReader<CommandEnum>::join_quoted_strings(
         {
             std::string joined = input[i];
 
-            // Keep joining until we find a string ending with a quote
+            // Keep joining until we find a string ending with a quote (other than the opening one)
             while (i + 1 < input.size() &&
-                    (joined.empty() || joined.back() != '"'))
+                    (joined.size() == 1 || joined.back() != '"'))
             {
                 joined += " " + input[++i];
             }
@@ -75,7 +75,7 @@ std::vector<std::string> CommandReader<CommandEnum>::join_quoted_strings(
             // a closing quote (") or not. If it is a closing quote
             // remove it from the string (value = 2)
             // otherwise keep all the string (value = 1)
-            int tmp = joined[joined.size() - 1] == '"' ? 2 : 1;
+            int tmp = (joined.size() > 1 && joined[joined.size() - 1] == '"') ? 2 : 1;
             result.push_back(joined.substr(1, joined.size() - tmp));
         }
         else
-- 
2.43.0


From 45503bb5e786c6dcc8d6ffe13f8d44890dda71c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 16/64] fix: replace_all did not end when the replacement
 contained the string replaced

---
 cpp_utils/src/cpp/utils.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index d6cb93e..11f2aae 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -278,9 +278,20 @@ unsigned int replace_all(
         std::string const& replace_by)
 {
     unsigned int replacements = 0;
-    while (replace_first(st, to_replace, replace_by))
+
+    // An empty string is never found
+    if (to_replace.empty())
+    {
+        return replacements;
+    }
+
+    std::size_t pos = st.find(to_replace);
+    while (pos != std::string::npos)
     {
+        st.replace(pos, to_replace.length(), replace_by);
         replacements++;
+        // Go on after the replacement, as it could contain the string to replace
+        pos = st.find(to_replace, pos + replace_by.length());
     }
     return replacements;
 }
-- 
2.43.0


From 1713ed53f53002552170abe5f5799b2135e2f48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 17/64] fix: split_string did not end with an empty delimiter

---
 cpp_utils/src/cpp/utils.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index 11f2aae..7505f36 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -359,6 +359,14 @@ std::vector<std::string> split_string(
         const std::string& delimiter)
 {
     std::vector<std::string> result;
+
+    // There is nothing to split by
+    if (delimiter.empty())
+    {
+        result.push_back(source);
+        return result;
+    }
+
     int start = 0;
     int end = source.find(delimiter);
     while (end != -1)
-- 
2.43.0


From 82ae2e4c446a935220208b9b57125532229e6e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 18/64] fix: number_trailing_zeros_format failed with negative
 numbers and with more than 9 chars

---
 cpp_utils/src/cpp/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index 7505f36..4d2e733 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -316,7 +316,7 @@ std::string number_trailing_zeros_format(
 {
     if (!allow_more_chars)
     {
-        if (value_to_print / fast_exponential(10, n_chars) > 0)
+        if (std::to_string(value_to_print).size() > n_chars)
         {
             throw PreconditionNotMet(STR_ENTRY
                           << "Number <" << value_to_print << ">"
-- 
2.43.0


From bf98073af086914179a7bd94c846d93bb73067d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 19/64] fix: number_trailing_zeros_format added the zeros
 before the sign

---
 cpp_utils/src/cpp/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index 4d2e733..0774b72 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -325,7 +325,7 @@ std::string number_trailing_zeros_format(
     }
 
     std::ostringstream os;
-    os << std::setw(n_chars) << std::setfill('0') << value_to_print;
+    os << std::setw(n_chars) << std::setfill('0') << std::internal << value_to_print;
     return os.str();
 }
 
-- 
2.43.0


From 87d584f1519d9ac06bd763a7981db883a938f8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 20/64] fix: base64 functions overflowed a signed integer

---
 cpp_utils/src/cpp/utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index 0774b72..8617cea 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -385,7 +385,8 @@ std::string base64_encode(
 {
     std::string out;
 
-    int val = 0, valb = -6;
+    unsigned int val = 0;
+    int valb = -6;
     for (unsigned char c : in)
     {
         val = (val << 8) + c;
@@ -419,7 +420,8 @@ std::string base64_decode(
         T[base64_alphabet[i]] = i;
     }
 
-    int val = 0, valb = -8;
+    unsigned int val = 0;
+    int valb = -8;
     for (unsigned char c : in)
     {
         if (T[c] == -1)
-- 
2.43.0


From 3952b301370bc82381c0214e3200054e01958d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 21/64] fix: to_bytes lost precision and overflowed at the
 limit of 64 bits

---
 cpp_utils/src/cpp/utils.cpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index 8617cea..abf13d4 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -151,8 +151,7 @@ std::uint64_t to_bytes(
     }
 
     // Extract the number
-    std::string number_str = matches[1].str();
-    double number = std::stod(number_str);
+    const std::string number_str = matches[1].str();
 
     // Extract the unit
     std::string unit_str = matches[3].str();
@@ -166,17 +165,36 @@ std::uint64_t to_bytes(
 
     const auto unit = units.at(unit_str);
 
-    // Check whether the product of number * unit overflows
+    // Calculate exactly the bytes of the integer and the decimal part of the number
     // @note: The parentheses are necessary to distinguish std::max from the max macro (Windows).
-    if (number > (std::numeric_limits<std::uint64_t>::max)() / unit)
+    constexpr std::uint64_t max_bytes = (std::numeric_limits<std::uint64_t>::max)();
+    const std::size_t point = std::min(number_str.find('.'), number_str.size());
+
+    std::uint64_t number = 0;
+    for (std::size_t i = 0; i < point; ++i)
     {
-        throw std::invalid_argument("The number is too large to be converted to bytes.");
+        const std::uint64_t digit = number_str[i] - '0';
+        if (number > (max_bytes - digit) / 10)
+        {
+            throw std::invalid_argument("The number is too large to be converted to bytes.");
+        }
+        number = number * 10 + digit;
+    }
+
+    std::uint64_t decimal_bytes = 0;
+    for (std::size_t i = number_str.size(); i > point + 1; --i)
+    {
+        const std::uint64_t digit = number_str[i - 1] - '0';
+        decimal_bytes = (digit * unit + decimal_bytes) / 10;
     }
 
-    // The product is safe since the possible overflow has also been checked.
-    const std::uint64_t bytes = number * unit;
+    // Check whether number * unit + decimal_bytes overflows
+    if (number > (max_bytes - decimal_bytes) / unit)
+    {
+        throw std::invalid_argument("The number is too large to be converted to bytes.");
+    }
 
-    return bytes;
+    return number * unit + decimal_bytes;
 }
 
 std::string from_bytes(
-- 
2.43.0


From 9fe264144785312957f95791007c21f594e33c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 22/64] fix: arithmetic_progression_sum overflowed before
 dividing by two

---
 cpp_utils/src/cpp/math/math_extension.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/math/math_extension.cpp b/cpp_utils/src/cpp/math/math_extension.cpp
index eb9ca7e..5d3b4f6 100644
--- a/cpp_utils/src/cpp/math/math_extension.cpp
+++ b/cpp_utils/src/cpp/math/math_extension.cpp
@@ -116,7 +116,9 @@ unsigned int arithmetic_progression_sum(
         unsigned int interval,
         unsigned int steps) noexcept
 {
-    return (((2 * lowest + ((steps - 1) * interval)) * steps) / 2);
+    // The product could not fit in 32 bits even when the result does
+    return static_cast<unsigned int>(
+        ((2 * static_cast<uint64_t>(lowest) + (static_cast<uint64_t>(steps - 1) * interval)) * steps) / 2);
 }
 
 unsigned int fast_exponential(
-- 
2.43.0


From bf97943fa8b175ef3c900ba4e474a88c53a5cb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 23/64] fix: string_to_timestamp failed for the second before
 the epoch

---
 cpp_utils/src/cpp/time/time_utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index 77a5e02..333ff54 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -133,6 +133,9 @@ Timestamp string_to_timestamp(
                       ".");
     }
 
+    // The conversion sets this value, unless it fails (-1 is also the result for the second before the epoch)
+    tm.tm_wday = -1;
+
     std::time_t utc_time;
     if (local_time)
     {
@@ -152,7 +155,7 @@ Timestamp string_to_timestamp(
         utc_time = timegm(&tm);
     }
 
-    if ((time_t)-1 == utc_time)
+    if ((time_t)-1 == utc_time && tm.tm_wday == -1)
     {
         throw ValueNotAllowedException(
                   STR_ENTRY << "Failed to convert string to timestamp");
-- 
2.43.0


From 0aab2ab8a280b1e49945323765da8044895c8396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 24/64] fix: dates out of the range of a timestamp overflowed

---
 cpp_utils/src/cpp/time/time_utils.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index 333ff54..6f7b7da 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -35,6 +35,27 @@
 namespace eprosima {
 namespace utils {
 
+namespace {
+
+//! Convert to \c Timestamp , failing if the time does not fit in it
+Timestamp from_time_t(
+        const time_t& time)
+{
+    using std::chrono::duration_cast;
+    using std::chrono::seconds;
+
+    if (time > duration_cast<seconds>(the_end_of_time().time_since_epoch()).count() ||
+            time < duration_cast<seconds>(the_beginning_of_time().time_since_epoch()).count())
+    {
+        throw ValueNotAllowedException(
+                  STR_ENTRY << "Time <" << time << "> is out of the range of a timestamp.");
+    }
+
+    return Timeclock::from_time_t(time);
+}
+
+} // namespace
+
 Timestamp now() noexcept
 {
     return Timeclock::now();
@@ -67,7 +88,7 @@ Timestamp date_to_timestamp(
     tm.tm_mon = static_cast<int>(month) - 1;
     tm.tm_year = static_cast<int>(year) - 1900;
 
-    return Timeclock::from_time_t(normalize(timegm(&tm)));
+    return from_time_t(normalize(timegm(&tm)));
 }
 
 Timestamp time_to_timestamp(
@@ -161,7 +182,7 @@ Timestamp string_to_timestamp(
                   STR_ENTRY << "Failed to convert string to timestamp");
     }
 
-    return Timeclock::from_time_t(utc_time);
+    return from_time_t(utc_time);
 }
 
 std::chrono::milliseconds duration_to_ms(
-- 
2.43.0


From 9fd0322db4730681fed65325bf54906bfb8cb403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:13 +0000
Subject: [PATCH 25/64] fix: are_set_of_ptr_equal depended on the order of its
 arguments

---
 cpp_utils/include/cpp_utils/impl/utils.ipp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/impl/utils.ipp b/cpp_utils/include/cpp_utils/impl/utils.ipp
index 96f85b5..eae49aa 100644
--- a/cpp_utils/include/cpp_utils/impl/utils.ipp
+++ b/cpp_utils/include/cpp_utils/impl/utils.ipp
@@ -129,6 +129,15 @@ bool are_set_of_ptr_equal(
         }
     }
 
+    // Several elements in set1 could be equal to the same one, so check as well every element in set2
+    for (auto itr2 = set2.begin(); itr2 != set2.end(); itr2++)
+    {
+        if (!set_of_ptr_contains(set1, *itr2))
+        {
+            return false;
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From 1ddb9f45320253e9f9cedcca137c4792e91f73bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 26/64] fix: container_to_stream did not compile for elements
 that are not pointers

---
 cpp_utils/include/cpp_utils/impl/utils.ipp | 31 +++++++++++++++-------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/impl/utils.ipp b/cpp_utils/include/cpp_utils/impl/utils.ipp
index eae49aa..52ee98a 100644
--- a/cpp_utils/include/cpp_utils/impl/utils.ipp
+++ b/cpp_utils/include/cpp_utils/impl/utils.ipp
@@ -19,25 +19,36 @@
 #pragma once
 
 #include <cstring>
+#include <type_traits>
 
 namespace eprosima {
 namespace utils {
 
+// Only the overload that is used must compile for T
+template <typename T>
+std::ostream& element_to_stream_(
+        std::ostream& os,
+        const T& element,
+        std::true_type /* Ptr */)
+{
+    return os << (*element);
+}
+
+template <typename T>
+std::ostream& element_to_stream_(
+        std::ostream& os,
+        const T& element,
+        std::false_type /* Ptr */)
+{
+    return os << element;
+}
+
 template <typename T, bool Ptr /* = false */>
 std::ostream& element_to_stream(
         std::ostream& os,
         T element)
 {
-    if (Ptr)
-    {
-        os << (*element);
-    }
-    else
-    {
-        os << element;
-    }
-
-    return os;
+    return element_to_stream_(os, element, std::integral_constant<bool, Ptr>());
 }
 
 template <typename T, bool Ptr /* = false */>
-- 
2.43.0


From 1a5ace1a1ce50b7a01bc0ea8983f1b53ab91ebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 27/64] fix: Formatter dropped the text after a null character

---
 cpp_utils/src/cpp/Formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/Formatter.cpp b/cpp_utils/src/cpp/Formatter.cpp
index 2182a2b..b709558 100644
--- a/cpp_utils/src/cpp/Formatter.cpp
+++ b/cpp_utils/src/cpp/Formatter.cpp
@@ -29,7 +29,7 @@ Formatter::operator std::string () const noexcept
 
 std::string Formatter::to_string() const noexcept
 {
-    return ss_.str().c_str();
+    return ss_.str();
 }
 
 std::ostream& operator <<(
-- 
2.43.0


From 1fc8417dbd7e4da629b2edefe1217b1f59a67dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 28/64] fix: TreeNode::depth was 0 for every tree

---
 cpp_utils/include/cpp_utils/types/impl/Tree.ipp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/types/impl/Tree.ipp b/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
index 0fe699f..510925e 100644
--- a/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
+++ b/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
@@ -20,6 +20,9 @@
 
 #pragma once
 
+#include <algorithm>
+#include <utility>
+
 namespace eprosima {
 namespace utils {
 
@@ -94,8 +97,8 @@ unsigned int TreeNode<Info>::depth() const noexcept
     unsigned int max_value = 0;
     for (const auto& b : branches_)
     {
-        auto child_value = b.depth();
-        max_value = MAX(max_value, child_value);
+        auto child_value = b.depth() + 1;
+        max_value = std::max(max_value, child_value);
     }
     return max_value;
 }
-- 
2.43.0


From f9edf8157b81245057af7e35a1e4d10be255bdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 29/64] fix: Builder::refactor_values did not compile with a
 map of keys to values

---
 cpp_utils/include/cpp_utils/types/impl/Builder.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
index ac6e4d2..7446e5a 100644
--- a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
+++ b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
@@ -20,7 +20,11 @@
 
 #pragma once
 
+#include <typeinfo>
+
 #include <cpp_utils/exception/ValueNotAllowedException.hpp>
+#include <cpp_utils/Formatter.hpp>
+#include <cpp_utils/macros/macros.hpp>
 
 namespace eprosima {
 namespace utils {
@@ -45,7 +49,7 @@ template <typename Key, typename Value>
 void Builder<Key, Value>::refactor_values(
         const std::map<Key, Value>& keys_to_values)
 {
-    values_ = indexed_map_from_values_to_keys_(keys_to_values);
+    values_ = keys_to_values;
 }
 
 template <typename Key, typename Value>
-- 
2.43.0


From 410e54475771461f727fd1d395af77df19dc4034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:50 +0000
Subject: [PATCH 30/64] fix: create_pool did not compile because UnboundedPool
 was not publicly a pool

---
 cpp_utils/include/cpp_utils/pool/IPool.hpp         | 3 +++
 cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/pool/IPool.hpp b/cpp_utils/include/cpp_utils/pool/IPool.hpp
index c3ef536..8e995f1 100644
--- a/cpp_utils/include/cpp_utils/pool/IPool.hpp
+++ b/cpp_utils/include/cpp_utils/pool/IPool.hpp
@@ -59,6 +59,9 @@ class IPool
 {
 public:
 
+    //! Virtual destructor, as pools are destroyed by this interface
+    virtual ~IPool() = default;
+
     /**
      * @brief Get a new element from the pool.
      *
diff --git a/cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp b/cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp
index 0522a40..bf7311d 100644
--- a/cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp
+++ b/cpp_utils/include/cpp_utils/pool/UnboundedPool.hpp
@@ -42,7 +42,7 @@ namespace utils {
  * @tparam T Type of the elements in the pool.
  */
 template <typename T>
-class UnboundedPool : IPool<T>
+class UnboundedPool : public IPool<T>
 {
 public:
 
-- 
2.43.0


From 1c60a699ca35a1c963693410a432cb79d19408f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:50 +0000
Subject: [PATCH 31/64] fix: the constructor of PoolConfiguration was not
 defined

---
 cpp_utils/include/cpp_utils/pool/IPool.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/pool/IPool.hpp b/cpp_utils/include/cpp_utils/pool/IPool.hpp
index 8e995f1..9b899b5 100644
--- a/cpp_utils/include/cpp_utils/pool/IPool.hpp
+++ b/cpp_utils/include/cpp_utils/pool/IPool.hpp
@@ -31,7 +31,12 @@ struct PoolConfiguration
     PoolConfiguration(
             unsigned int initial_size,
             unsigned int maximum_size,
-            unsigned int batch_size) noexcept;
+            unsigned int batch_size) noexcept
+        : initial_size(initial_size)
+        , maximum_size(maximum_size)
+        , batch_size(batch_size)
+    {
+    }
 
     //! Initial number of elements when preallocating data.
     unsigned int initial_size = 0;
-- 
2.43.0


From 3862dcc934d0c3c8f47beccaa422a688ef7bab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 32/64] fix: string_to_timestamp accepted texts without all the
 fields of the format

---
 cpp_utils/src/cpp/time/time_utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index 6f7b7da..ec67f96 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -144,7 +144,9 @@ Timestamp string_to_timestamp(
         const std::string& format /* = "%Z_%Y-%m-%d_%H-%M-%S" */,
         bool local_time /* = false */)
 {
-    std::istringstream ss(timestamp);
+    // The character after the text does not match any format. Without it, a text that ends after one of the fields of
+    // the format is taken as valid, with the rest of the fields as 0.
+    std::istringstream ss(timestamp + '\0');
     std::tm tm{};
     ss >> std::get_time(&tm, format.c_str());
     if (ss.fail())
-- 
2.43.0


From cf98fd9759a0978b62bc5a980d1215352c3ffdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 33/64] fix: log event handlers consumed entries while being
 constructed or destroyed

---
 .../cpp_utils/event/LogEventHandler.hpp       | 17 ++++++++++++++++
 .../cpp_utils/event/LogSevereEventHandler.hpp |  3 +++
 .../src/cpp/event/logging/LogEventHandler.cpp | 20 ++++++++++++++++---
 .../event/logging/LogSevereEventHandler.cpp   | 12 ++++++++++-
 4 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp b/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp
index 88a29ed..f9a1189 100644
--- a/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp
+++ b/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp
@@ -76,6 +76,23 @@ public:
 
 protected:
 
+    //! Type to choose the constructor that does not register the LogConsumer
+    struct NotRegistered
+    {
+    };
+
+    /**
+     * Construct without callback and without registering in Log.
+     *
+     * For child classes that override \c consume_ , that must call \c register_consumer_ once they are constructed, so
+     * no \c Entry is consumed before, and must release \c connection_callback_ when destroyed.
+     */
+    CPP_UTILS_DllAPI LogEventHandler(
+            const NotRegistered&);
+
+    //! Register in Log the LogConsumer that will call this object.
+    CPP_UTILS_DllAPI void register_consumer_();
+
     /**
      * @brief Consumes an \c Entry given from the \c LogConsumerConnection .
      *
diff --git a/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp b/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
index a3e6f61..75a9abe 100644
--- a/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
+++ b/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
@@ -48,6 +48,9 @@ public:
             std::function<void(utils::Log::Entry)> callback,
             const utils::Log::Kind threshold = utils::Log::Kind::Warning);
 
+    //! Destroy the object, once the entry being consumed has finished
+    CPP_UTILS_DllAPI ~LogSevereEventHandler();
+
 protected:
 
     //! Override parent \c consume_ method but only consuming logs above the \c threshold_ kind.
diff --git a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
index 029d2e6..a907e8a 100644
--- a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
@@ -27,7 +27,8 @@ namespace eprosima {
 namespace utils {
 namespace event {
 
-LogEventHandler::LogEventHandler()
+LogEventHandler::LogEventHandler(
+        const NotRegistered&)
     : EventHandler<utils::Log::Entry>()
     , connection_callback_(
         new LogConsumerConnectionCallbackType(
@@ -37,8 +38,13 @@ LogEventHandler::LogEventHandler()
                 this->consume_(entry);
             }))
 {
-    // Create LogConsumer and register it
-    Log::RegisterConsumer(std::make_unique<LogConsumerConnection>(connection_callback_.lease()));
+    // Do nothing
+}
+
+LogEventHandler::LogEventHandler()
+    : LogEventHandler(NotRegistered())
+{
+    register_consumer_();
 }
 
 LogEventHandler::LogEventHandler(
@@ -51,9 +57,17 @@ LogEventHandler::LogEventHandler(
 
 LogEventHandler::~LogEventHandler()
 {
+    // Wait for the entry being consumed, and do not consume any other
+    connection_callback_.reset();
     unset_callback();
 }
 
+void LogEventHandler::register_consumer_()
+{
+    // Create LogConsumer and register it
+    Log::RegisterConsumer(std::make_unique<LogConsumerConnection>(connection_callback_.lease()));
+}
+
 void LogEventHandler::consume_(
         const utils::Log::Entry& entry)
 {
diff --git a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
index 8b14501..ef75e94 100644
--- a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
@@ -26,9 +26,13 @@ namespace event {
 LogSevereEventHandler::LogSevereEventHandler(
         std::function<void(utils::Log::Entry)> callback,
         utils::Log::Kind threshold /* = utils::Log::Kind::Warning */)
-    : LogEventHandler(callback)
+    : LogEventHandler(NotRegistered())
     , threshold_(threshold)
 {
+    // From here entries are consumed, so this object must be ready
+    register_consumer_();
+    set_callback(callback);
+
     // If threshold is lower than default log level (ERROR) set the filter lower
     if (threshold > utils::Log::Kind::Error)
     {
@@ -36,6 +40,12 @@ LogSevereEventHandler::LogSevereEventHandler(
     }
 }
 
+LogSevereEventHandler::~LogSevereEventHandler()
+{
+    // No entry can be consumed while this class is being destroyed
+    connection_callback_.reset();
+}
+
 void LogSevereEventHandler::consume_(
         const utils::Log::Entry& entry)
 {
-- 
2.43.0


From 5c4dfaa90a809e548bbe02593cc1c5a1c8a65f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 34/64] fix: a LogEventHandler without callback logged an entry
 for each entry it consumed, without end

---
 cpp_utils/src/cpp/event/logging/LogEventHandler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
index a907e8a..96e59df 100644
--- a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
@@ -76,7 +76,11 @@ void LogEventHandler::consume_(
         entries_consumed_.push_back(entry);
     }
 
-    event_occurred_(entry);
+    // Without callback the event would be skipped with another entry in Log, that would arrive here again, and so on
+    if (is_callback_set_.load())
+    {
+        event_occurred_(entry);
+    }
 }
 
 } /* namespace event */
-- 
2.43.0


From 97e2a005845706e3be657c4437041912cdf3f251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 35/64] fix: destroying a FileWatch could block forever on a
 wake-up its callback thread missed

---
 thirdparty/filewatch/FileWatch.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thirdparty/filewatch/FileWatch.hpp b/thirdparty/filewatch/FileWatch.hpp
index f8b62d5..ac9c23c 100644
--- a/thirdparty/filewatch/FileWatch.hpp
+++ b/thirdparty/filewatch/FileWatch.hpp
@@ -266,7 +266,11 @@ private:
 
     void destroy()
     {
-        _destory = true;
+        {
+            // With the mutex, so the callback thread does not miss it between its check and its wait
+            std::lock_guard<std::mutex> lock(_callback_mutex);
+            _destory = true;
+        }
         _running = std::promise<void>();
 #ifdef _WIN32
         SetEvent(_close_event);
-- 
2.43.0


From 8f0e5265231bb8985ab8370cd9c1cd2c43af1d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 36/64] fix: destroying a FileWatch blocked forever once its
 directory had been removed

---
 thirdparty/filewatch/FileWatch.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/thirdparty/filewatch/FileWatch.hpp b/thirdparty/filewatch/FileWatch.hpp
index ac9c23c..9ebec11 100644
--- a/thirdparty/filewatch/FileWatch.hpp
+++ b/thirdparty/filewatch/FileWatch.hpp
@@ -563,10 +563,16 @@ private:
             if (length > 0)
             {
                 int i = 0;
+                bool watch_removed = false;
                 std::vector<std::pair<T, Event>> parsed_information;
                 while (i < length)
                 {
                     struct inotify_event* event = reinterpret_cast<struct inotify_event*>(&buffer[i]);      // NOLINT
+                    if (event->mask & IN_IGNORED)
+                    {
+                        // By destroy(), or because the directory no longer exists: nothing else would be read
+                        watch_removed = true;
+                    }
                     if (event->len)
                     {
                         const UnderpinningString changed_file{ event->name };
@@ -595,6 +601,10 @@ private:
                             parsed_information.begin(), parsed_information.end());
                 }
                 _cv.notify_all();
+                if (watch_removed)
+                {
+                    return;
+                }
             }
         }
     }
-- 
2.43.0


From d4e1fe00791be31edb649b10fce8ad1f38294117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 37/64] fix: services in a namespace were not mangled

---
 cpp_utils/src/cpp/ros2_mangling.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index c72c69e..7f51cdd 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -221,8 +221,7 @@ std::string mangle_ros_service_in_topic(
         const std::string& topic_name,
         const std::string suffix)
 {
-    size_t topic_name_position = topic_name.rfind("/");
-    if (topic_name_position != 0)
+    if (topic_name.rfind("/", 0) != 0)
     {
         return "";
     }
-- 
2.43.0


From 5bb26cee5f34dea5060f9bdde336b1b2d6883375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 38/64] fix: demangle_if_ros_type read out of bounds of an
 empty name

---
 cpp_utils/src/cpp/ros2_mangling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index 7f51cdd..c956603 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -127,7 +127,7 @@ std::string mangle_if_ros_topic(
 std::string demangle_if_ros_type(
         const std::string& dds_type_string)
 {
-    if (dds_type_string[dds_type_string.size() - 1] != '_')
+    if (dds_type_string.empty() || dds_type_string[dds_type_string.size() - 1] != '_')
     {
         // not a ROS type
         return dds_type_string;
-- 
2.43.0


From 30feb3074d361080e59cb941fa8ad751989d1dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 39/64] fix: demangle_service_type_only demangled types whose
 suffix is not at their end

---
 cpp_utils/src/cpp/ros2_mangling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index c956603..0c07fcd 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -299,7 +299,7 @@ std::string demangle_service_type_only(
             break;
         }
     }
-    if (std::string::npos == suffix_position)
+    if (found_suffix.empty())
     {
         logWarning(DDSPIPE_DEMANGLE,
                 "service type contains 'dds_::' but does not have a suffix"
-- 
2.43.0


From 80b4e748c604ec714307ab7c8f9f3768b1199177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 40/64] fix: blocking_disable of the Python WaitHandler never
 returned with threads waiting

---
 py_utils/py_utils/wait/WaitHandler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py_utils/py_utils/wait/WaitHandler.py b/py_utils/py_utils/wait/WaitHandler.py
index 75df6cb..7386b93 100644
--- a/py_utils/py_utils/wait/WaitHandler.py
+++ b/py_utils/py_utils/wait/WaitHandler.py
@@ -136,6 +136,9 @@ class WaitHandler:
                 timeout)
 
             self._n_waiting_threads -= 1
+            if self._n_waiting_threads == 0:
+                # Awake threads in blocking disable
+                self._condition.notify_all()
 
             if not self._enabled:
                 return AwakeReason.disabled
@@ -158,9 +161,9 @@ class WaitHandler:
     # Blocking disable method
     def _blocking_disable_nts(self):
         """Blocking disable object. Not mutex safe, call with _lock taken."""
-        self._enabled = False
-        while self._n_waiting_threads > 0:
-            self._condition.notify_all()
+        self._disable_nts()
+        # This releases the lock while waiting, so the waiting threads can finish
+        self._condition.wait_for(lambda: self._n_waiting_threads == 0)
 
     # Blocking disable method
     def _enabled_nts(self):
-- 
2.43.0


From 561899635b0472d315d528fd406779d6ed9bbc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 41/64] fix: blocking_disable of the Python WaitHandler never
 returned after a predicate raised an exception

---
 py_utils/py_utils/wait/WaitHandler.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/py_utils/py_utils/wait/WaitHandler.py b/py_utils/py_utils/wait/WaitHandler.py
index 7386b93..c21e2d3 100644
--- a/py_utils/py_utils/wait/WaitHandler.py
+++ b/py_utils/py_utils/wait/WaitHandler.py
@@ -131,14 +131,16 @@ class WaitHandler:
 
             self._n_waiting_threads += 1
 
-            awaken_reason = self._condition.wait_for(
-                lambda: not self._enabled_nts() or predicate(self._value),
-                timeout)
-
-            self._n_waiting_threads -= 1
-            if self._n_waiting_threads == 0:
-                # Awake threads in blocking disable
-                self._condition.notify_all()
+            try:
+                awaken_reason = self._condition.wait_for(
+                    lambda: not self._enabled_nts() or predicate(self._value),
+                    timeout)
+            finally:
+                # Also when predicate raises
+                self._n_waiting_threads -= 1
+                if self._n_waiting_threads == 0:
+                    # Awake threads in blocking disable
+                    self._condition.notify_all()
 
             if not self._enabled:
                 return AwakeReason.disabled
-- 
2.43.0


From 56e33ff005b8e653d4b8572ab7a2e22cac15bf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 42/64] fix: the Python logger ignored a new level for the
 levels already used

---
 py_utils/py_utils/logging/log_utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py_utils/py_utils/logging/log_utils.py b/py_utils/py_utils/logging/log_utils.py
index 7e64123..818f3db 100644
--- a/py_utils/py_utils/logging/log_utils.py
+++ b/py_utils/py_utils/logging/log_utils.py
@@ -58,6 +58,14 @@ class CustomLogger(logging.Logger):
         """Modifies logger level."""
         self.setLevel(log_level)
 
+    def setLevel(
+            self,
+            level):
+        """Modifies logger level."""
+        super().setLevel(level)
+        # The manager of loggers does not know this logger, so it does not clear its cache of enabled levels
+        self._cache.clear()
+
     def activate_debug(self):
         """Modifies logger level so it accepts everything equalt or greater than DEBUG."""
         self.set_log_level(logging.DEBUG)
-- 
2.43.0


From a681e2bfba59998214c91b58f33e85ad1a47ae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 43/64] fix: to_bytes overflowed the stack with long inputs

---
 cpp_utils/src/cpp/utils.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index abf13d4..afcf277 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -22,7 +22,6 @@
 #include <cmath>
 #include <cstdint>
 #include <iomanip>
-#include <regex>
 #include <set>
 #include <sstream>
 #include <stdexcept>
@@ -141,20 +140,37 @@ std::uint64_t to_bytes(
     };
 
     // Find the number and the unit
-    std::regex pattern("^(\\d+(\\.\\d+)?)\\s*([a-zA-Z]+)$");
-    std::smatch matches;
+    // @note: std::regex is not used, as it recurses once per character and overflows the stack with long inputs.
+    const char* const digits = "0123456789";
+    const auto find_end = [&input](const char* const characters, const std::size_t begin)
+            {
+                return std::min(input.find_first_not_of(characters, begin), input.size());
+            };
+
+    std::size_t number_end = find_end(digits, 0);
+    bool is_well_formed = number_end > 0;
+
+    if (is_well_formed && number_end < input.size() && input[number_end] == '.')
+    {
+        const std::size_t decimals_begin = number_end + 1;
+        number_end = find_end(digits, decimals_begin);
+        is_well_formed = number_end > decimals_begin;
+    }
+
+    const std::size_t unit_begin = find_end(" \t\n\v\f\r", number_end);
+    const std::size_t unit_end = find_end("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", unit_begin);
 
-    if (!std::regex_match(input, matches, pattern) || matches.size() != 4)
+    if (!is_well_formed || unit_begin == unit_end || unit_end != input.size())
     {
         throw std::invalid_argument(
                   "The quantity is not in the expected format. It should be a rational number followed by a unit (e.g. 10MB).");
     }
 
     // Extract the number
-    const std::string number_str = matches[1].str();
+    const std::string number_str = input.substr(0, number_end);
 
     // Extract the unit
-    std::string unit_str = matches[3].str();
+    std::string unit_str = input.substr(unit_begin);
     to_uppercase(unit_str);
 
     if (units.find(unit_str) == units.end())
-- 
2.43.0


From bf5598819856fbaccc3d6026285512905c89f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 44/64] fix: a directory was read as an empty file

---
 cpp_utils/src/cpp/file/file_utils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp_utils/src/cpp/file/file_utils.cpp b/cpp_utils/src/cpp/file/file_utils.cpp
index 62ed79e..ba3e77c 100644
--- a/cpp_utils/src/cpp/file/file_utils.cpp
+++ b/cpp_utils/src/cpp/file/file_utils.cpp
@@ -71,6 +71,13 @@ std::vector<std::string> file_to_strings(
         }
     }
 
+    // The file could be opened, but not read (e.g. it is a directory)
+    if (file.bad())
+    {
+        throw PreconditionNotMet(
+                  STR_ENTRY << "File <" << file_name << "> could not be read.");
+    }
+
     return result;
 }
 
-- 
2.43.0


From f0d873bc5dc3271028c81cdab70a120cb4dca7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 45/64] fix: conversions of timestamps shared their result
 between threads

---
 cpp_utils/src/cpp/time/time_utils.cpp | 38 +++++++++++++++++----------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index ec67f96..a3020c3 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -54,6 +54,25 @@ Timestamp from_time_t(
     return Timeclock::from_time_t(time);
 }
 
+/**
+ * Convert to calendar time without sharing the result with other threads (as \c std::gmtime and \c std::localtime do)
+ *
+ * @return whether the conversion succeeded
+ */
+bool to_calendar(
+        const time_t& time,
+        bool local_time,
+        std::tm& result)
+{
+#if _EPROSIMA_WINDOWS_PLATFORM
+    return (local_time ? localtime_s(&result, &time) : gmtime_s(&result, &time)) == 0;
+#else
+    // localtime_r is not required to take into account changes of the time zone
+    tzset();
+    return (local_time ? localtime_r(&time, &result) : gmtime_r(&time, &result)) != nullptr;
+#endif // if _EPROSIMA_WINDOWS_PLATFORM
+}
+
 } // namespace
 
 Timestamp now() noexcept
@@ -100,7 +119,7 @@ Timestamp time_to_timestamp(
 
     // Initialise with current timestamp to set date
     time_t duration_seconds = normalize(Timeclock::to_time_t(now()));
-    tm = *std::gmtime(&duration_seconds);
+    to_calendar(duration_seconds, false, tm);
 
     tm.tm_sec = static_cast<int>(second);
     tm.tm_min = static_cast<int>(minute);
@@ -117,23 +136,14 @@ std::string timestamp_to_string(
     std::ostringstream ss;
     time_t duration_seconds = normalize(Timeclock::to_time_t(timestamp));
 
-    std::tm* tm = nullptr;
-    if (local_time)
-    {
-        tm = std::localtime(&duration_seconds);
-    }
-    else
-    {
-        tm = std::gmtime(&duration_seconds);
-    }
-
-    if (tm)
+    std::tm tm{};
+    if (to_calendar(duration_seconds, local_time, tm))
     {
-        ss << std::put_time(tm, format.c_str());
+        ss << std::put_time(&tm, format.c_str());
     }
     else
     {
-        // gmtime/localtime() returned null
+        // The time cannot be converted to calendar time
         throw PreconditionNotMet(STR_ENTRY << "Format <" << format << "> to convert Timestamp to string is incorrect.");
     }
     return ss.str();
-- 
2.43.0


From beb54402df869814916e50222778d90d63b8779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 46/64] fix: LOG_INFO was lost when a project set it, and kept
 from former configurations when nobody did

---
 cmake_utils/cmake/project/cmake_options.cmake | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cmake_utils/cmake/project/cmake_options.cmake b/cmake_utils/cmake/project/cmake_options.cmake
index e2f3707..c776a23 100644
--- a/cmake_utils/cmake/project/cmake_options.cmake
+++ b/cmake_utils/cmake/project/cmake_options.cmake
@@ -103,10 +103,12 @@ macro(configure_cmake_options)
 
     # LOG
     # TODO change LOG cmake options to make them smarter
-    if (NOT DEFINED LOG_INFO AND "${CMAKE_BUILD_TYPE}" STREQUAL "Debug")
-        set(LOG_INFO ON)
-    else ()
-        set(LOG_INFO CACHE BOOL OFF)
+    if (NOT DEFINED LOG_INFO)
+        if ("${CMAKE_BUILD_TYPE}" STREQUAL "Debug")
+            set(LOG_INFO ON)
+        else ()
+            set(LOG_INFO OFF)
+        endif()
     endif()
 
 endmacro()
-- 
2.43.0


From 8f5d0f7bc6955789f6ea19a3e54338a39b905562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 47/64] fix: numbers of the version set by a project were
 overwritten, and MODULE_VERSION_STRING left unset

---
 .../cmake/project/configure_project.cmake     | 12 +++++++++--
 cmake_utils/cmake/project/read_version.cmake  | 20 +++++++++++++------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/cmake_utils/cmake/project/configure_project.cmake b/cmake_utils/cmake/project/configure_project.cmake
index cfc74b1..ff0ab85 100644
--- a/cmake_utils/cmake/project/configure_project.cmake
+++ b/cmake_utils/cmake/project/configure_project.cmake
@@ -62,12 +62,20 @@ macro(configure_project)
     # Read version if it is not already set
     if( NOT DEFINED MODULE_VERSION_MAJOR OR
         NOT DEFINED MODULE_VERSION_MINOR OR
-        NOT DEFINED MODULE_VERSION_PATCH OR
-        NOT DEFINED MODULE_VERSION)
+        NOT DEFINED MODULE_VERSION_PATCH)
 
         read_version(${MODULE_VERSION_FILE_PATH})
     endif()
 
+    # Set those texts of the version that are not already set
+    if(NOT DEFINED MODULE_VERSION)
+        set(MODULE_VERSION ${MODULE_VERSION_MAJOR}.${MODULE_VERSION_MINOR}.${MODULE_VERSION_PATCH})
+    endif()
+
+    if(NOT DEFINED MODULE_VERSION_STRING)
+        set(MODULE_VERSION_STRING "v${MODULE_VERSION}")
+    endif()
+
     # Read git commit hash if not already set
     if( NOT DEFINED MODULE_COMMIT_HASH)
 
diff --git a/cmake_utils/cmake/project/read_version.cmake b/cmake_utils/cmake/project/read_version.cmake
index 89efe9b..c32684d 100644
--- a/cmake_utils/cmake/project/read_version.cmake
+++ b/cmake_utils/cmake/project/read_version.cmake
@@ -22,6 +22,8 @@
 # - VERSION_MINOR y
 # - VERSION_PATCH z
 #
+# Those variables already set (e.g. in project_settings.cmake) keep their value.
+#
 # RETURN VARIABLES:
 # - MODULE_VERSION_MAJOR    : x
 # - MODULE_VERSION_MINOR    : y
@@ -36,14 +38,20 @@ macro(read_version VERSION_FILE_NAME)
     # Read version file
     file(READ ${VERSION_FILE_NAME} READ_VERSION_FILE)
 
-    string(REGEX MATCH "VERSION_MAJOR ([0-9]*)" _ ${READ_VERSION_FILE})
-    set(MODULE_VERSION_MAJOR ${CMAKE_MATCH_1})
+    if(NOT DEFINED MODULE_VERSION_MAJOR)
+        string(REGEX MATCH "VERSION_MAJOR ([0-9]*)" _ ${READ_VERSION_FILE})
+        set(MODULE_VERSION_MAJOR ${CMAKE_MATCH_1})
+    endif()
 
-    string(REGEX MATCH "VERSION_MINOR ([0-9]*)" _ ${READ_VERSION_FILE})
-    set(MODULE_VERSION_MINOR ${CMAKE_MATCH_1})
+    if(NOT DEFINED MODULE_VERSION_MINOR)
+        string(REGEX MATCH "VERSION_MINOR ([0-9]*)" _ ${READ_VERSION_FILE})
+        set(MODULE_VERSION_MINOR ${CMAKE_MATCH_1})
+    endif()
 
-    string(REGEX MATCH "VERSION_PATCH ([0-9]*)" _ ${READ_VERSION_FILE})
-    set(MODULE_VERSION_PATCH ${CMAKE_MATCH_1})
+    if(NOT DEFINED MODULE_VERSION_PATCH)
+        string(REGEX MATCH "VERSION_PATCH ([0-9]*)" _ ${READ_VERSION_FILE})
+        set(MODULE_VERSION_PATCH ${CMAKE_MATCH_1})
+    endif()
 
     # VERSION complete string
     if(NOT DEFINED MODULE_VERSION)
-- 
2.43.0


From 86c17fa610af570e08b700fbf27f508e0ecc8975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 48/64] fix: library_dll.h did not compile once installed in
 another path than the module's name

---
 cmake_utils/templates/cpp/library/library_dll.h.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmake_utils/templates/cpp/library/library_dll.h.in b/cmake_utils/templates/cpp/library/library_dll.h.in
index 0613a07..53cf892 100644
--- a/cmake_utils/templates/cpp/library/library_dll.h.in
+++ b/cmake_utils/templates/cpp/library/library_dll.h.in
@@ -15,7 +15,7 @@
 #ifndef _EPROSIMA_LIBRARY_@MODULE_MACRO@DLL_H_
 #define _EPROSIMA_LIBRARY_@MODULE_MACRO@DLL_H_
 
-#include <@PROJECT_NAME@/library/config.h>
+#include "config.h"
 
 // normalize macros
 #if !defined(@MODULE_MACRO@_DYN_LINK) && !defined(@MODULE_MACRO@_STATIC_LINK) \
-- 
2.43.0


From 2f9bd7ad6b7022f9d75e242218ec76aa0391758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 49/64] fix: headers were not installed in
 MODULE_HEADERS_INSTALL_PATH, nor those of a nested MODULE_HEADERS_PATH where
 they are included from

---
 cmake_utils/cmake/compilation/compile_library.cmake | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmake_utils/cmake/compilation/compile_library.cmake b/cmake_utils/cmake/compilation/compile_library.cmake
index 1f395ef..6b285b7 100644
--- a/cmake_utils/cmake/compilation/compile_library.cmake
+++ b/cmake_utils/cmake/compilation/compile_library.cmake
@@ -176,8 +176,8 @@ function(compile_library _SOURCE_PATH _INCLUDE_PATH)
         # Packaging
         ###############################################################################
         # Install headers
-        install(DIRECTORY ${_INCLUDE_PATH}/${MODULE_HEADERS_PATH}
-                DESTINATION ${INCLUDE_INSTALL_DIR}
+        install(DIRECTORY ${_INCLUDE_PATH}/${MODULE_HEADERS_PATH}/
+                DESTINATION ${INCLUDE_INSTALL_DIR}/${MODULE_HEADERS_INSTALL_PATH}
                 COMPONENT headers
                 FILES_MATCHING
                 PATTERN "*.h"
-- 
2.43.0


From ed49371142c65ea7e926244e917bdeec998caa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 50/64] fix: the installed library looked for its headers in
 include even when installed elsewhere

---
 cmake_utils/cmake/compilation/compile_library.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmake_utils/cmake/compilation/compile_library.cmake b/cmake_utils/cmake/compilation/compile_library.cmake
index 6b285b7..fb4bed3 100644
--- a/cmake_utils/cmake/compilation/compile_library.cmake
+++ b/cmake_utils/cmake/compilation/compile_library.cmake
@@ -128,7 +128,7 @@ function(compile_library _SOURCE_PATH _INCLUDE_PATH)
                 $<BUILD_INTERFACE:${PROJECT_BINARY_DIR}/include>
                 $<BUILD_INTERFACE:${PROJECT_BINARY_DIR}/include/${MODULE_NAME}>
                 $<BUILD_INTERFACE:${_SOURCE_PATH}>
-                $<INSTALL_INTERFACE:include>
+                $<INSTALL_INTERFACE:${INCLUDE_INSTALL_DIR}>
                 ${MODULE_PUBLIC_EXTRA_HEADERS}
             PRIVATE
                 ${MODULE_PRIVATE_EXTRA_HEADERS}
-- 
2.43.0


From 0e3ff1bf66c3fbdd7e6828a6f503a8d6bad6b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 51/64] fix: the minimum version of a package was never
 required

---
 cmake_utils/cmake/cpp_common/find_external.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmake_utils/cmake/cpp_common/find_external.cmake b/cmake_utils/cmake/cpp_common/find_external.cmake
index 07873aa..5bfc054 100644
--- a/cmake_utils/cmake/cpp_common/find_external.cmake
+++ b/cmake_utils/cmake/cpp_common/find_external.cmake
@@ -29,7 +29,7 @@ macro(find_external_projects EXTERNAL_PROJECT_NAMES)
 
     foreach(EXTERNAL_PROJECT ${EXTERNAL_PROJECT_NAMES})
         # Check if this project requires a minimum version, set as ${EXTERNAL_PROJECT}_MINIMUM_VERSION
-        if (${${EXTERNAL_PROJECT}_MINIMUM_VERSION})
+        if (NOT "${${EXTERNAL_PROJECT}_MINIMUM_VERSION}" STREQUAL "")
 
             find_package("${EXTERNAL_PROJECT}" "${${EXTERNAL_PROJECT}_MINIMUM_VERSION}" REQUIRED)
             message(
-- 
2.43.0


From 1ec3a189bb0a6b922fb48edb00199a45617143d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 52/64] fix: an option without a long name was taken for --=ARG

---
 thirdparty/optionparser/optionparser.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/thirdparty/optionparser/optionparser.h b/thirdparty/optionparser/optionparser.h
index e695e1b..8bec267 100644
--- a/thirdparty/optionparser/optionparser.h
+++ b/thirdparty/optionparser/optionparser.h
@@ -1483,6 +1483,10 @@ private:
             const char* st1,
             const char* st2)
     {
+        if (*st1 == 0) // the empty string is no long option name
+        {
+            return false;
+        }
         while (*st1 != 0)
         {
             if (*st1++ != *st2++)
@@ -1522,6 +1526,10 @@ private:
             const char* st2,
             long long min)
     {
+        if (*st1 == 0) // the empty string is no long option name
+        {
+            return false;
+        }
         const char* st1start = st1;
         while (*st1 != 0 && (*st1 == *st2))
         {
-- 
2.43.0


From ffbeb8357a33c1db662d43e1099bd6d93a553b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 53/64] fix: a cell that starts over in the first column was
 followed by another line break

---
 thirdparty/optionparser/optionparser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thirdparty/optionparser/optionparser.h b/thirdparty/optionparser/optionparser.h
index 8bec267..afcbbce 100644
--- a/thirdparty/optionparser/optionparser.h
+++ b/thirdparty/optionparser/optionparser.h
@@ -2203,8 +2203,8 @@ struct PrintUsageImplementation
             {
                 write(&space, 1);
             }
-            x = want_x;
         }
+        x = want_x;
     }
 
     /**
-- 
2.43.0


From 71ebfa112c921566ca2d3a9725802e3322686aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 54/64] fix: enabling a handler during a blocking disable left
 its threads waiting, and the disable for them

---
 py_utils/py_utils/wait/WaitHandler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py_utils/py_utils/wait/WaitHandler.py b/py_utils/py_utils/wait/WaitHandler.py
index c21e2d3..04cff78 100644
--- a/py_utils/py_utils/wait/WaitHandler.py
+++ b/py_utils/py_utils/wait/WaitHandler.py
@@ -55,6 +55,8 @@ class WaitHandler:
         self._enabled = enabled
         self._lock = threading.Lock()
         self._condition = threading.Condition(self._lock)
+        # Taken before _lock: it is not enabled while a blocking disable waits
+        self._status_lock = threading.Lock()
         self._n_waiting_threads = 0
 
     # Get and set methods for the protected variable
@@ -71,8 +73,8 @@ class WaitHandler:
 
     # Enable/disable methods
     def enable(self):
-        """Enable handler."""
-        with self._lock:
+        """Enable handler. It waits for a blocking disable in progress to finish."""
+        with self._status_lock, self._lock:
             self._enable_nts()
 
     def disable(self):
@@ -83,7 +85,7 @@ class WaitHandler:
     # Blocking disable method
     def blocking_disable(self):
         """Disable handler waiting for all waiting threads to have finished."""
-        with self._lock:
+        with self._status_lock, self._lock:
             self._blocking_disable_nts()
 
     # Enabled method
-- 
2.43.0


From dc81fd09cf3b68035003be7ce4b31b232be08102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:02 +0000
Subject: [PATCH 55/64] fix: a line that filled its last row on the terminal
 was edited from the wrong row

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 34 ++++++++++++++-----
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index dc72ec3..5db2474 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -77,7 +77,24 @@ int compute_lines_needed(
         int term_width)
 {
     int total_length = static_cast<int>(prompt.size() + cmd.size());
-    return (total_length + term_width - 1) / term_width;
+    // When the last row is full, the cursor is in the beginning of the next one
+    return total_length / term_width + 1;
+}
+
+void print_line(
+        const std::string& prompt,
+        const std::string& line,
+        int term_width)
+{
+    std::cout << "\033[38;5;82m" << prompt << "\033[0m" << line;
+
+    if ((prompt.size() + line.size()) % term_width == 0)
+    {
+        // The terminal leaves the cursor in the last row until there is something else to print
+        std::cout << "\n";
+    }
+
+    std::cout.flush();
 }
 
 void clear_lines(
@@ -150,8 +167,7 @@ void update_line(
     }
 
     // Remove the old line
-    std::string full_line_before = prompt + old_line;
-    int old_lines = (static_cast<int>(full_line_before.size()) + term_width - 1) / term_width;
+    int old_lines = compute_lines_needed(prompt, old_line, term_width);
 
     // Move to the line where the cursor was
     // Calculate the absolute cursor position
@@ -174,11 +190,11 @@ void update_line(
     }
 
     // Print the new line
-    std::cout << "\033[38;5;82m" << prompt << "\033[0m" << line << std::flush;
+    print_line(prompt, line, term_width);
 
     // Position the cursor
     int abs_cursor = static_cast<int>(prompt.size() + cursor_index);
-    int total_lines = (static_cast<int>(prompt.size() + line.size()) + term_width - 1) / term_width;
+    int total_lines = compute_lines_needed(prompt, line, term_width);
     int cursor_line = abs_cursor / term_width;
     int cursor_col = abs_cursor % term_width;
 
@@ -332,7 +348,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                             clear_lines(lines);
                             read_str = prev_command;
                             cursor_index = read_str.size();
-                            std::cout << "\033[38;5;82m" << prompt << "\033[0m" << read_str << std::flush;
+                            print_line(prompt, read_str, term_width);
                         }
 
                         break;
@@ -353,7 +369,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                             clear_lines(lines);
                             read_str = next_command;
                             cursor_index = read_str.size();
-                            std::cout << "\033[38;5;82m" << prompt << "\033[0m" << read_str << std::flush;
+                            print_line(prompt, read_str, term_width);
                         }
                         else
                         {
@@ -460,7 +476,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                                 clear_lines(lines);
                                 read_str = prev;
                                 cursor_index = read_str.size();
-                                std::cout << "\033[38;5;82m" << prompt << "\033[0m" << read_str << std::flush;
+                                print_line(prompt, read_str, term_width);
                             }
                         }
                         break;
@@ -484,7 +500,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                             {
                                 read_str = next;
                                 cursor_index = read_str.size();
-                                std::cout << "\033[38;5;82m" << prompt << "\033[0m" << read_str << std::flush;
+                                print_line(prompt, read_str, term_width);
                             }
                             else
                             {
-- 
2.43.0


From f506fa3443b9279426413052555438db27be9ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:02 +0000
Subject: [PATCH 56/64] fix: history keys erased what was above a line of
 several rows with the cursor in an upper one

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 82 ++++---------------
 1 file changed, 18 insertions(+), 64 deletions(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 5db2474..3e980a8 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -97,19 +97,6 @@ void print_line(
     std::cout.flush();
 }
 
-void clear_lines(
-        int line_count)
-{
-    for (int i = 0; i < line_count; ++i)
-    {
-        std::cout << "\033[2K\r"; // Clear current line
-        if (i < line_count - 1)
-        {
-            std::cout << "\033[1A"; // Move up (not after last line)
-        }
-    }
-}
-
 void update_line(
         const std::string& prompt,
         std::string& line,
@@ -213,6 +200,20 @@ void update_line(
     std::cout.flush();
 }
 
+void replace_line(
+        const std::string& prompt,
+        std::string& line,
+        size_t& cursor_index,
+        const std::string& new_line)
+{
+    update_line(prompt, line, cursor_index,
+            [&new_line](std::string& line, size_t& index)
+            {
+                line = new_line;
+                index = line.size();
+            });
+}
+
 StdinEventHandler::StdinEventHandler(
         std::function<void(std::string)> callback,
         const bool read_lines /* = true */,
@@ -342,13 +343,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                         std::string prev_command = history_handler_.get_previous_command();
                         if (!prev_command.empty())
                         {
-                            std::string prompt = ">> ";
-                            int term_width = get_terminal_width();
-                            int lines = compute_lines_needed(prompt, read_str, term_width);
-                            clear_lines(lines);
-                            read_str = prev_command;
-                            cursor_index = read_str.size();
-                            print_line(prompt, read_str, term_width);
+                            replace_line(">> ", read_str, cursor_index, prev_command);
                         }
 
                         break;
@@ -361,27 +356,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
 #endif // if defined(_WIN32) || defined(_WIN64)
                     {
                         std::string next_command = history_handler_.get_next_command();
-                        if (!next_command.empty())
-                        {
-                            std::string prompt = ">> ";
-                            int term_width = get_terminal_width();
-                            int lines = compute_lines_needed(prompt, read_str, term_width);
-                            clear_lines(lines);
-                            read_str = next_command;
-                            cursor_index = read_str.size();
-                            print_line(prompt, read_str, term_width);
-                        }
-                        else
-                        {
-                            std::string prompt = ">> ";
-                            int term_width = get_terminal_width();
-                            int lines = compute_lines_needed(prompt, read_str, term_width);
-                            clear_lines(lines);
-
-                            read_str = "";
-                            cursor_index = 0;
-                            std::cout << "\033[38;5;82m" << prompt << "\033[0m" << std::flush;
-                        }
+                        replace_line(">> ", read_str, cursor_index, next_command);
 
                         break;
                     }
@@ -470,13 +445,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                             std::string prev = history_handler_.get_previous_command();
                             if (!prev.empty())
                             {
-                                std::string prompt = ">> ";
-                                int term_width = get_terminal_width();
-                                int lines = compute_lines_needed(prompt, read_str, term_width);
-                                clear_lines(lines);
-                                read_str = prev;
-                                cursor_index = read_str.size();
-                                print_line(prompt, read_str, term_width);
+                                replace_line(">> ", read_str, cursor_index, prev);
                             }
                         }
                         break;
@@ -492,22 +461,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                         if (consume_tilde_if_present(source_))
                         {
                             std::string next = history_handler_.get_next_command();
-                            std::string prompt = ">> ";
-                            int term_width = get_terminal_width();
-                            int lines = compute_lines_needed(prompt, read_str, term_width);
-                            clear_lines(lines);
-                            if (!next.empty())
-                            {
-                                read_str = next;
-                                cursor_index = read_str.size();
-                                print_line(prompt, read_str, term_width);
-                            }
-                            else
-                            {
-                                read_str.clear();
-                                cursor_index = 0;
-                                std::cout << "\033[38;5;82m" << prompt << "\033[0m" << std::flush;
-                            }
+                            replace_line(">> ", read_str, cursor_index, next);
                         }
                         break;
                     }
-- 
2.43.0


From 5b17fa7e4235ca16b2e23cc1f481645868055585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:02 +0000
Subject: [PATCH 57/64] fix: what is printed after the end of a line fell on
 the rows below its cursor

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 3e980a8..d6bde68 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -214,6 +214,24 @@ void replace_line(
             });
 }
 
+void end_line(
+        const std::string& prompt,
+        std::string& line,
+        size_t& cursor_index)
+{
+    if (cursor_index < line.size())
+    {
+        // What is printed next must not fall on the rest of the line
+        update_line(prompt, line, cursor_index,
+                [](std::string& line, size_t& index)
+                {
+                    index = line.size();
+                });
+    }
+
+    std::cout << std::endl;
+}
+
 StdinEventHandler::StdinEventHandler(
         std::function<void(std::string)> callback,
         const bool read_lines /* = true */,
@@ -497,7 +515,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
             }
             else if (c == '\n' || c == '\r')
             {
-                std::cout << std::endl;
+                end_line(">> ", read_str, cursor_index);
                 event_occurred_(read_str);
 
                 if (!is_ignoring_input() && !read_str.empty())
@@ -527,7 +545,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
             }
             else if (c == '\x03') // Ctrl+C
             {
-                std::cout << std::endl;
+                end_line(">> ", read_str, cursor_index);
                 event_occurred_("");
                 read_str = "";
                 cursor_index = 0;
-- 
2.43.0


From 905c60cc2a1670e890caa4ad5fe506fa50448414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:02 +0000
Subject: [PATCH 58/64] fix: a file watcher that could not start left its
 inotify instance open

---
 thirdparty/filewatch/FileWatch.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/thirdparty/filewatch/FileWatch.hpp b/thirdparty/filewatch/FileWatch.hpp
index 9ebec11..30b3c57 100644
--- a/thirdparty/filewatch/FileWatch.hpp
+++ b/thirdparty/filewatch/FileWatch.hpp
@@ -520,14 +520,16 @@ private:
     FolderInfo get_directory(
             const T& path)
     {
+        // const auto listen_filters = _listen_filters;  // Unused variable
+
+        // It throws if there is no such path, so it goes before there is anything to close
+        _watching_single_file = is_file(path);
+
         const auto folder = inotify_init();
         if (folder < 0)
         {
             throw std::system_error(errno, std::system_category());
         }
-        // const auto listen_filters = _listen_filters;  // Unused variable
-
-        _watching_single_file = is_file(path);
 
         const T watch_path = [this, &path]()
                 {
@@ -547,7 +549,9 @@ private:
         const auto watch = inotify_add_watch(folder, watch_path.c_str(), IN_MODIFY | IN_CREATE | IN_DELETE);
         if (watch < 0)
         {
-            throw std::system_error(errno, std::system_category());
+            const int error = errno;
+            close(folder);
+            throw std::system_error(error, std::system_category());
         }
         return { folder, watch };
     }
-- 
2.43.0


From 4e115992fd2c8ecd46dad64896690c214d6813b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:19 +0000
Subject: [PATCH 59/64] fix: the dynamic database interfaces could not be
 compiled

---
 .../cpp_utils/collection/database/IDynamicDatabase.hpp     | 4 +++-
 .../collection/database/IDynamicModificableDatabase.hpp    | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/collection/database/IDynamicDatabase.hpp b/cpp_utils/include/cpp_utils/collection/database/IDynamicDatabase.hpp
index c2df3d3..4a42069 100644
--- a/cpp_utils/include/cpp_utils/collection/database/IDynamicDatabase.hpp
+++ b/cpp_utils/include/cpp_utils/collection/database/IDynamicDatabase.hpp
@@ -14,6 +14,8 @@
 
 #pragma once
 
+#include <functional>
+
 #include <cpp_utils/collection/database/IDatabase.hpp>
 
 namespace eprosima {
@@ -35,7 +37,7 @@ public:
      *
      * @param callback function to call when value added.
      */
-    virtual void register_callback_add(void(const Key&, const Value&) && callback) = 0;
+    virtual void register_callback_add(std::function<void(const Key&, const Value&)>&& callback) = 0;
 };
 
 } /* namespace utils */
diff --git a/cpp_utils/include/cpp_utils/collection/database/IDynamicModificableDatabase.hpp b/cpp_utils/include/cpp_utils/collection/database/IDynamicModificableDatabase.hpp
index e9333f9..bc2791a 100644
--- a/cpp_utils/include/cpp_utils/collection/database/IDynamicModificableDatabase.hpp
+++ b/cpp_utils/include/cpp_utils/collection/database/IDynamicModificableDatabase.hpp
@@ -14,6 +14,9 @@
 
 #pragma once
 
+#include <functional>
+
+#include <cpp_utils/collection/database/IDynamicDatabase.hpp>
 #include <cpp_utils/collection/database/IModificableDatabase.hpp>
 
 namespace eprosima {
@@ -34,14 +37,14 @@ public:
      *
      * @param callback function to call when value modified.
      */
-    virtual void register_callback_modify(void(const Key&, const Value&) && callback) = 0;
+    virtual void register_callback_modify(std::function<void(const Key&, const Value&)>&& callback) = 0;
 
     /**
      * @brief Registering a callback to receive a notification every time a data is removed from the database.
      *
      * @param callback function to call when value removed.
      */
-    virtual void register_callback_remove(void(const Key&, const Value&) && callback) = 0;
+    virtual void register_callback_remove(std::function<void(const Key&, const Value&)>&& callback) = 0;
 
 };
 
-- 
2.43.0


From a881f52177ae11b4b400eb83d55782d50411cebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:19 +0000
Subject: [PATCH 60/64] fix: two units that include SignalManager could not be
 linked together

---
 cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
index c39d30b..328833d 100644
--- a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
@@ -180,7 +180,7 @@ void SignalManager<SigVal>::signal_handler_thread_routine_() noexcept
     }
 }
 
-std::ostream& operator <<(
+inline std::ostream& operator <<(
         std::ostream& os,
         const Signal& sigval)
 {
-- 
2.43.0


From 957d6520f83381a885c1e12fbca029318b83782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:19 +0000
Subject: [PATCH 61/64] fix: an enumeration builder could not be given a list
 of values

---
 cpp_utils/include/cpp_utils/enum/EnumBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/enum/EnumBuilder.hpp b/cpp_utils/include/cpp_utils/enum/EnumBuilder.hpp
index 8e020e8..c55506b 100644
--- a/cpp_utils/include/cpp_utils/enum/EnumBuilder.hpp
+++ b/cpp_utils/include/cpp_utils/enum/EnumBuilder.hpp
@@ -90,10 +90,10 @@ public:
  * @param enum_name name of the enumeration.
  * @param values_map Map of values with key the enumeration values, and value a set of strings.
  */
-#define eProsima_ENUMERATION_BUILDER(builder_name, enum_name, values_map) \
+#define eProsima_ENUMERATION_BUILDER(builder_name, enum_name, ...) \
     typedef eprosima::utils::InitializableSingleton<eprosima::utils::EnumBuilder< enum_name >, 0> builder_name; \
     const bool __STATUS_INITIALIZATION_ ## builder_name = \
-            builder_name::initialize<const std::map< enum_name, std::set<std::string>>&>( values_map )
+            builder_name::initialize<const std::map< enum_name, std::set<std::string>>&>( __VA_ARGS__ )
 
 } /* namespace utils */
 } /* namespace eprosima */
-- 
2.43.0


From f45cdfcd4b982311fad7387fb412a7fc43ff8cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:19 +0000
Subject: [PATCH 62/64] fix: a shared library was not part of the libraries
 component

---
 cmake_utils/cmake/compilation/compile_library.cmake | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmake_utils/cmake/compilation/compile_library.cmake b/cmake_utils/cmake/compilation/compile_library.cmake
index fb4bed3..879981f 100644
--- a/cmake_utils/cmake/compilation/compile_library.cmake
+++ b/cmake_utils/cmake/compilation/compile_library.cmake
@@ -201,10 +201,9 @@ function(compile_library _SOURCE_PATH _INCLUDE_PATH)
 
         install(TARGETS ${MODULE_NAME}
             EXPORT ${MODULE_NAME}-targets
-            RUNTIME DESTINATION ${BIN_INSTALL_DIR}
-            LIBRARY DESTINATION ${LIB_INSTALL_DIR}
-            ARCHIVE DESTINATION ${LIB_INSTALL_DIR}
-            COMPONENT libraries
+            RUNTIME DESTINATION ${BIN_INSTALL_DIR} COMPONENT libraries
+            LIBRARY DESTINATION ${LIB_INSTALL_DIR} COMPONENT libraries
+            ARCHIVE DESTINATION ${LIB_INSTALL_DIR} COMPONENT libraries
             )
 
         install(EXPORT ${MODULE_NAME}-targets
-- 
2.43.0


From cf78cded44b93f30a326a899cdf0d3234140e046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:19 +0000
Subject: [PATCH 63/64] fix: the component of the documentation had no name

---
 cmake_utils/cmake/compilation/compile_documentation.cmake | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmake_utils/cmake/compilation/compile_documentation.cmake b/cmake_utils/cmake/compilation/compile_documentation.cmake
index 320cac0..e0ec37f 100644
--- a/cmake_utils/cmake/compilation/compile_documentation.cmake
+++ b/cmake_utils/cmake/compilation/compile_documentation.cmake
@@ -62,7 +62,7 @@ macro(compile_documentation)
             DESTINATION docs/${PROJECT_NAME}/sphinx
             COMPONENT monitor-sphinx
             PATTERN ".buildinfo" EXCLUDE)
-        set(CPACK_COMPONENT_monitor-sphinx_DISPLAY_NAME "${MODULE_LARGE_NAME}")
+        set(CPACK_COMPONENT_monitor-sphinx_DISPLAY_NAME "${MODULE_NAME_LARGE}")
         set(CPACK_COMPONENT_monitor-sphinx_DESCRIPTION
             "${MODULE_DESCRIPTION}")
         set(CPACK_COMPONENTS_ALL ${CPACK_COMPONENTS_ALL} ${DOCS_BUILDER})
-- 
2.43.0


From 3a540c6a6185ac3e06f7015d2284cfda9381a73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:19 +0000
Subject: [PATCH 64/64] fix: the documentation of debug builds did not show its
 todo notes

---
 .../cmake/compilation/compile_documentation.cmake      | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmake_utils/cmake/compilation/compile_documentation.cmake b/cmake_utils/cmake/compilation/compile_documentation.cmake
index e0ec37f..c310dc8 100644
--- a/cmake_utils/cmake/compilation/compile_documentation.cmake
+++ b/cmake_utils/cmake/compilation/compile_documentation.cmake
@@ -46,16 +46,22 @@ macro(compile_documentation)
 
         set(DOCS_BUILDER html)
 
+        # Show the todo notes in debug builds
+        set(DOCS_EXTRA_OPTIONS)
+        if("${CMAKE_BUILD_TYPE}" STREQUAL "Debug")
+            set(DOCS_EXTRA_OPTIONS -Dtodo_include_todos=1)
+        endif()
+
         # Generate the sphinx documentation
         add_custom_target(Sphinx ALL
             COMMAND
             ${SPHINX_EXECUTABLE} -b ${DOCS_BUILDER}
             -d "${PROJECT_BINARY_DOCS_DIR}/doctrees"
+            ${DOCS_EXTRA_OPTIONS}
             ${PROJECT_SOURCE_DOCS_DIR}
             ${DOCS_OUTPUT_HTML_DIR}
             WORKING_DIRECTORY ${CMAKE_CURRENT_BINARY_DIR}
-            COMMENT "Generating documentation with Sphinx"
-            $<$<STREQUAL:"${CMAKE_BUILD_TYPE}","Debug">:-Dtodo_include_todos=1>)
+            COMMENT "Generating documentation with Sphinx")
 
         # Install the generated docs
         install(DIRECTORY ${DOCS_OUTPUT_HTML_DIR}
-- 
2.43.0

