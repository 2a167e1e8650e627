From 3e74415cc23850236e85f8554987abaa777d3380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 01/31] fix: arithmetic_progression_sum loses bits when the
 doubled sum overflows 32 bits

---
 cpp_utils/src/cpp/math/math_extension.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/math/math_extension.cpp b/cpp_utils/src/cpp/math/math_extension.cpp
index eb9ca7e..8df60cc 100644
--- a/cpp_utils/src/cpp/math/math_extension.cpp
+++ b/cpp_utils/src/cpp/math/math_extension.cpp
@@ -116,7 +116,10 @@ unsigned int arithmetic_progression_sum(
         unsigned int interval,
         unsigned int steps) noexcept
 {
-    return (((2 * lowest + ((steps - 1) * interval)) * steps) / 2);
+    // Calculated in 64 bits so the division by 2 does not lose the bits that overflow 32 bits
+    const uint64_t first_plus_last =
+            2 * static_cast<uint64_t>(lowest) + (static_cast<uint64_t>(steps) - 1) * interval;
+    return static_cast<unsigned int>((first_plus_last * steps) / 2);
 }
 
 unsigned int fast_exponential(
-- 
2.43.0


From ca34621deeddfe3ce800482ef39ec975ab776431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 02/31] fix: split_string never returns with an empty delimiter

---
 cpp_utils/src/cpp/utils.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index d6cb93e..a5a0ed7 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -347,10 +347,16 @@ std::vector<std::string> split_string(
         const std::string& source,
         const std::string& delimiter)
 {
+    // An empty delimiter does not divide anything
+    if (delimiter.empty())
+    {
+        return {source};
+    }
+
     std::vector<std::string> result;
-    int start = 0;
-    int end = source.find(delimiter);
-    while (end != -1)
+    std::size_t start = 0;
+    std::size_t end = source.find(delimiter);
+    while (end != std::string::npos)
     {
         result.push_back(source.substr(start, end - start));
         start = end + delimiter.size();
-- 
2.43.0


From 75b017e327d2a7e85643850dc91ff20b2e6d6652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 03/31] fix: replace_all never returns when the replacement
 contains the text replaced

---
 cpp_utils/src/cpp/utils.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index a5a0ed7..57bfc21 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -277,10 +277,21 @@ unsigned int replace_all(
         std::string const& to_replace,
         std::string const& replace_by)
 {
+    // An empty string does not match anything
+    if (to_replace.empty())
+    {
+        return 0;
+    }
+
     unsigned int replacements = 0;
-    while (replace_first(st, to_replace, replace_by))
+    std::size_t pos = st.find(to_replace);
+    while (pos != std::string::npos)
     {
+        st.replace(pos, to_replace.length(), replace_by);
         replacements++;
+
+        // Continue after the text inserted, so it is not replaced again
+        pos = st.find(to_replace, pos + replace_by.length());
     }
     return replacements;
 }
-- 
2.43.0


From 5b200b31422708e593d97f49cf1321179febedf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 04/31] fix: number_trailing_zeros_format overflows the power
 of ten with wide widths

---
 cpp_utils/src/cpp/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index 57bfc21..27e7648 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -316,7 +316,7 @@ std::string number_trailing_zeros_format(
 {
     if (!allow_more_chars)
     {
-        if (value_to_print / fast_exponential(10, n_chars) > 0)
+        if (std::to_string(value_to_print).size() > n_chars)
         {
             throw PreconditionNotMet(STR_ENTRY
                           << "Number <" << value_to_print << ">"
-- 
2.43.0


From 03013e8c61574a6a110ca682e5bc079bbdd98ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:44 +0000
Subject: [PATCH 05/31] fix: WaitHandler blocking disable returns while a
 thread is still inside a wait

---
 cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
index 9636bfa..27431cf 100644
--- a/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
+++ b/cpp_utils/include/cpp_utils/wait/impl/WaitHandler.ipp
@@ -100,11 +100,18 @@ void WaitHandler<T>::blocking_disable() noexcept
     disable();
 
     // Wait till every thread has finished
-    while (threads_waiting_.load() > 0)
+    while (true)
     {
         // Lock so this thread has no priority over closing threads
         {
+            // WARNING: threads_waiting_ must be read with mutex taken, as a thread that has already decremented it
+            // keeps using this object until it releases the mutex
             std::lock_guard<std::mutex> lock(wait_condition_variable_mutex_);
+
+            if (threads_waiting_.load() == 0)
+            {
+                break;
+            }
         }
 
         // Notify in case there are still threads waiting to be awaken
-- 
2.43.0


From 3d84e2f8a86340a3d99503fbd4e95f74c77d1c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 06/31] fix: CounterWaitHandler never wakes the threads waiting
 for the threshold when disabled, destroyed or raised to it

---
 .../include/cpp_utils/wait/CounterWaitHandler.hpp |  9 +++++++--
 cpp_utils/src/cpp/wait/CounterWaitHandler.cpp     | 15 +++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp b/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
index f5ea137..c462d9c 100644
--- a/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
+++ b/cpp_utils/include/cpp_utils/wait/CounterWaitHandler.hpp
@@ -75,12 +75,16 @@ public:
 
     // Make this methods public
     using WaitHandler<CounterType>::enable;
-    using WaitHandler<CounterType>::disable;
     using WaitHandler<CounterType>::blocking_disable;
     using WaitHandler<CounterType>::enabled;
     using WaitHandler<CounterType>::get_value;
     using WaitHandler<CounterType>::stop_and_continue;
 
+    /**
+     * @brief Override \c WaitHandler::disable to also awake the threads waiting for the threshold to be reached
+     */
+    CPP_UTILS_DllAPI void disable() noexcept override;
+
     /////
     // Wait methods
 
@@ -115,7 +119,8 @@ public:
     /**
      * @brief Operator prefix ++ to add 1 to counter
      *
-     * It notifies one threads if internal value is higher than threshold.
+     * It notifies one threads if internal value is higher than threshold, and every thread waiting for the
+     * threshold if it is reached.
      *
      * @return this object
      */
diff --git a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
index 8a7ee17..40e643b 100644
--- a/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
+++ b/cpp_utils/src/cpp/wait/CounterWaitHandler.cpp
@@ -36,6 +36,16 @@ CounterWaitHandler::CounterWaitHandler(
 
 CounterWaitHandler::~CounterWaitHandler()
 {
+    // Every thread must have finished waiting before destroying the internal condition variable
+    blocking_disable();
+}
+
+void CounterWaitHandler::disable() noexcept
+{
+    WaitHandler<CounterType>::disable();
+
+    // Awake threads waiting for the threshold
+    threshold_reached_cv_.notify_all();
 }
 
 AwakeReason CounterWaitHandler::wait_and_decrement(
@@ -133,6 +143,11 @@ CounterWaitHandler& CounterWaitHandler::operator ++()
         {
             wait_condition_variable_.notify_one();
         }
+        // If value has just reached the threshold, notify threads waiting for this event
+        else if (value_ == threshold_)
+        {
+            threshold_reached_cv_.notify_all();
+        }
     }
 
     return *this;
-- 
2.43.0


From 08f876992a1ef1198f45c2b5b9046ed63c545f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 07/31] fix: SlotThreadPool runs no task after being disabled
 and enabled again

---
 cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
index 10ad615..f6d2025 100644
--- a/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
+++ b/cpp_utils/src/cpp/thread_pool/pool/SlotThreadPool.cpp
@@ -51,6 +51,9 @@ void SlotThreadPool::enable() noexcept
 {
     if (!enabled_.exchange(true))
     {
+        // The queue may have been disabled by a previous disable, so threads could not consume from it
+        task_queue_.enable();
+
         // Execute threads
         for (uint32_t i = 0; i < number_of_threads_; ++i)
         {
-- 
2.43.0


From 29d6357db58a6b8c32ca45ef7815352998160d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 08/31] fix: GuardedPtr move assignment never unlocks the data
 guarded so far

---
 .../cpp_utils/memory/impl/GuardedPtr.hpp      |  4 ++--
 .../cpp_utils/memory/impl/GuardedPtr.ipp      | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
index 239dc42..16cfd2b 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
+++ b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.hpp
@@ -63,9 +63,9 @@ public:
     GuardedPtr(
             GuardedPtr&&) noexcept = default;
 
-    //! Move operator not allowed
+    //! Move operator. It unlocks the data this object was guarding, if any
     GuardedPtr<T>& operator =(
-            GuardedPtr<T>&& other) noexcept = default;
+            GuardedPtr<T>&& other) noexcept;
 
     //! Unlock the shared mutex
     ~GuardedPtr();
diff --git a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
index fd54366..f69f56a 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/GuardedPtr.ipp
@@ -41,6 +41,25 @@ GuardedPtr<T>::~GuardedPtr()
     }
 }
 
+template<typename T>
+GuardedPtr<T>& GuardedPtr<T>::operator =(
+        GuardedPtr<T>&& other) noexcept
+{
+    if (this != &other)
+    {
+        // The data guarded so far must be unlocked, as nobody else will do it
+        if (data_reference_)
+        {
+            data_reference_->unlock_shared();
+        }
+
+        data_reference_ = std::move(other.data_reference_);
+        // Move a shared ptr reset the internal ptr, so other does not unlock it
+    }
+
+    return *this;
+}
+
 template<typename T>
 T* GuardedPtr<T>::operator ->() const noexcept
 {
-- 
2.43.0


From fcf5b372899fd9ab173ff3c45caa4510581d4c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 09/31] fix: SafeDatabaseIterator copies release a lock they do
 not hold, and begin() reads the map without lock

---
 .../collection/database/SafeDatabase.hpp          |  4 ++++
 .../collection/database/impl/SafeDatabase.ipp     | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
index 63a7c0f..50ec160 100644
--- a/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
+++ b/cpp_utils/include/cpp_utils/collection/database/SafeDatabase.hpp
@@ -54,6 +54,10 @@ public:
             typename std::map<Key, Value>::const_iterator it,
             std::shared_timed_mutex& mutex);
 
+    //! Copy constructor. The copy keeps its own shared lock, as it releases it when destroyed
+    SafeDatabaseIterator(
+            const SafeDatabaseIterator& other);
+
     ~SafeDatabaseIterator();
 
 private:
diff --git a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
index e1b837e..6f857b6 100644
--- a/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
+++ b/cpp_utils/include/cpp_utils/collection/database/impl/SafeDatabase.ipp
@@ -28,6 +28,15 @@ SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
     mutex_.lock_shared();
 }
 
+template <typename Key, typename Value>
+SafeDatabaseIterator<Key, Value>::SafeDatabaseIterator(
+        const SafeDatabaseIterator& other)
+    : std::map<Key, Value>::const_iterator(other)
+    , mutex_(other.mutex_)
+{
+    mutex_.lock_shared();
+}
+
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value>::~SafeDatabaseIterator()
 {
@@ -94,12 +103,18 @@ SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::find(
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::begin() const
 {
+    // The internal iterator must be taken with the mutex locked, so the database does not change until it is guarded
+    std::shared_lock<std::shared_timed_mutex> _(mutex_);
+
     return SafeDatabaseIterator<Key, Value>(internal_db_.begin(), mutex_);
 }
 
 template <typename Key, typename Value>
 SafeDatabaseIterator<Key, Value> SafeDatabase<Key, Value>::end() const
 {
+    // The internal iterator must be taken with the mutex locked, so the database does not change until it is guarded
+    std::shared_lock<std::shared_timed_mutex> _(mutex_);
+
     return SafeDatabaseIterator<Key, Value>(internal_db_.end(), mutex_);
 }
 
-- 
2.43.0


From cd915e1eafa9ecd980957e4b86f4ee68d73f4230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 10/31] fix: Builder::refactor_values with a map from keys to
 values

---
 cpp_utils/include/cpp_utils/types/impl/Builder.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
index ac6e4d2..57e1c3b 100644
--- a/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
+++ b/cpp_utils/include/cpp_utils/types/impl/Builder.ipp
@@ -45,7 +45,7 @@ template <typename Key, typename Value>
 void Builder<Key, Value>::refactor_values(
         const std::map<Key, Value>& keys_to_values)
 {
-    values_ = indexed_map_from_values_to_keys_(keys_to_values);
+    values_ = keys_to_values;
 }
 
 template <typename Key, typename Value>
-- 
2.43.0


From 585583d03810b48eebecb3f04c316e1849c82bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 11/31] fix: count the levels in TreeNode::depth

---
 cpp_utils/include/cpp_utils/types/impl/Tree.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/types/impl/Tree.ipp b/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
index 0fe699f..cd6129d 100644
--- a/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
+++ b/cpp_utils/include/cpp_utils/types/impl/Tree.ipp
@@ -94,7 +94,7 @@ unsigned int TreeNode<Info>::depth() const noexcept
     unsigned int max_value = 0;
     for (const auto& b : branches_)
     {
-        auto child_value = b.depth();
+        unsigned int child_value = b.depth() + 1;
         max_value = MAX(max_value, child_value);
     }
     return max_value;
-- 
2.43.0


From c131c0725e400c6f9f587f00c4946d096e9decf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 12/31] fix: destroy the object of a Heritable as what it was
 created as

---
 cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp b/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp
index d017976..a32db60 100644
--- a/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp
+++ b/cpp_utils/include/cpp_utils/memory/impl/Heritable.ipp
@@ -40,7 +40,7 @@ template <typename T>
 template <typename U>
 Heritable<T>::Heritable(
         U* ptr)
-    : data_ptr_(static_cast<T*>(ptr))
+    : data_ptr_(ptr)
 {
 }
 
-- 
2.43.0


From 3b92d6e872e10c709e3443f97f62c753209f19f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 13/31] fix: mangle service names that have more than one slash

---
 cpp_utils/src/cpp/ros2_mangling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index c72c69e..7782d41 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -221,7 +221,7 @@ std::string mangle_ros_service_in_topic(
         const std::string& topic_name,
         const std::string suffix)
 {
-    size_t topic_name_position = topic_name.rfind("/");
+    size_t topic_name_position = topic_name.rfind("/", 0);
     if (topic_name_position != 0)
     {
         return "";
-- 
2.43.0


From e587da77b549e692b27f4e0008f5c0378317ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 14/31] fix: demangle empty types and service types with a
 suffix in the middle

---
 cpp_utils/src/cpp/ros2_mangling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/ros2_mangling.cpp b/cpp_utils/src/cpp/ros2_mangling.cpp
index 7782d41..c2ef7c7 100644
--- a/cpp_utils/src/cpp/ros2_mangling.cpp
+++ b/cpp_utils/src/cpp/ros2_mangling.cpp
@@ -127,7 +127,7 @@ std::string mangle_if_ros_topic(
 std::string demangle_if_ros_type(
         const std::string& dds_type_string)
 {
-    if (dds_type_string[dds_type_string.size() - 1] != '_')
+    if (dds_type_string.empty() || dds_type_string.back() != '_')
     {
         // not a ROS type
         return dds_type_string;
@@ -300,7 +300,7 @@ std::string demangle_service_type_only(
             break;
         }
     }
-    if (std::string::npos == suffix_position)
+    if (found_suffix.empty())
     {
         logWarning(DDSPIPE_DEMANGLE,
                 "service type contains 'dds_::' but does not have a suffix"
-- 
2.43.0


From ff806351588f49099f710b16efc9b5e6fe16c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 15/31] fix: let element_to_stream and container_to_stream be
 used with values that are not pointers

---
 cpp_utils/include/cpp_utils/impl/utils.ipp | 29 ++++++++++++++++------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/impl/utils.ipp b/cpp_utils/include/cpp_utils/impl/utils.ipp
index 96f85b5..17f1923 100644
--- a/cpp_utils/include/cpp_utils/impl/utils.ipp
+++ b/cpp_utils/include/cpp_utils/impl/utils.ipp
@@ -19,23 +19,36 @@
 #pragma once
 
 #include <cstring>
+#include <type_traits>
 
 namespace eprosima {
 namespace utils {
 
+template <typename T>
+void element_to_stream_impl_(
+        std::ostream& os,
+        const T& element,
+        std::true_type /* Ptr */)
+{
+    os << (*element);
+}
+
+template <typename T>
+void element_to_stream_impl_(
+        std::ostream& os,
+        const T& element,
+        std::false_type /* Ptr */)
+{
+    os << element;
+}
+
 template <typename T, bool Ptr /* = false */>
 std::ostream& element_to_stream(
         std::ostream& os,
         T element)
 {
-    if (Ptr)
-    {
-        os << (*element);
-    }
-    else
-    {
-        os << element;
-    }
+    // Only the branch selected must compile, as values that are not pointers cannot be dereferenced
+    element_to_stream_impl_(os, element, std::integral_constant<bool, Ptr>());
 
     return os;
 }
-- 
2.43.0


From adc9ebe68bb882a053b5b0e404f45c0049fedd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 16/31] fix: make are_set_of_ptr_equal symmetric

---
 cpp_utils/include/cpp_utils/impl/utils.ipp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/impl/utils.ipp b/cpp_utils/include/cpp_utils/impl/utils.ipp
index 17f1923..7850730 100644
--- a/cpp_utils/include/cpp_utils/impl/utils.ipp
+++ b/cpp_utils/include/cpp_utils/impl/utils.ipp
@@ -142,6 +142,15 @@ bool are_set_of_ptr_equal(
         }
     }
 
+    // Elements in set1 could be equal between them, so check also that every element in set2 is in set1
+    for (auto itr2 = set2.begin(); itr2 != set2.end(); itr2++)
+    {
+        if (!set_of_ptr_contains(set1, *itr2))
+        {
+            return false;
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From 84f130a92442d0b3b5a48187b435db3397ee15ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 17/31] fix: keep the whole text of a Formatter

---
 cpp_utils/src/cpp/Formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/Formatter.cpp b/cpp_utils/src/cpp/Formatter.cpp
index 2182a2b..b709558 100644
--- a/cpp_utils/src/cpp/Formatter.cpp
+++ b/cpp_utils/src/cpp/Formatter.cpp
@@ -29,7 +29,7 @@ Formatter::operator std::string () const noexcept
 
 std::string Formatter::to_string() const noexcept
 {
-    return ss_.str().c_str();
+    return ss_.str();
 }
 
 std::ostream& operator <<(
-- 
2.43.0


From 164e95771a9111c2720eebcbfe09cde894f81f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 18/31] fix: refuse quantities of bytes that do not fit and
 keep whole ones exact

---
 cpp_utils/src/cpp/utils.cpp | 38 ++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/cpp_utils/src/cpp/utils.cpp b/cpp_utils/src/cpp/utils.cpp
index 27e7648..f77e2c7 100644
--- a/cpp_utils/src/cpp/utils.cpp
+++ b/cpp_utils/src/cpp/utils.cpp
@@ -152,7 +152,6 @@ std::uint64_t to_bytes(
 
     // Extract the number
     std::string number_str = matches[1].str();
-    double number = std::stod(number_str);
 
     // Extract the unit
     std::string unit_str = matches[3].str();
@@ -166,17 +165,42 @@ std::uint64_t to_bytes(
 
     const auto unit = units.at(unit_str);
 
-    // Check whether the product of number * unit overflows
     // @note: The parentheses are necessary to distinguish std::max from the max macro (Windows).
-    if (number > (std::numeric_limits<std::uint64_t>::max)() / unit)
+    constexpr std::uint64_t max_bytes = (std::numeric_limits<std::uint64_t>::max)();
+
+    if (!matches[2].matched)
     {
-        throw std::invalid_argument("The number is too large to be converted to bytes.");
+        // The number is whole. Use integer arithmetic, since a double cannot represent every 64 bit number.
+        std::uint64_t number = 0;
+        try
+        {
+            number = std::stoull(number_str);
+        }
+        catch (const std::out_of_range&)
+        {
+            throw std::invalid_argument("The number is too large to be converted to bytes.");
+        }
+
+        // Check whether the product of number * unit overflows
+        if (number > max_bytes / unit)
+        {
+            throw std::invalid_argument("The number is too large to be converted to bytes.");
+        }
+
+        return number * unit;
     }
 
-    // The product is safe since the possible overflow has also been checked.
-    const std::uint64_t bytes = number * unit;
+    // The number has decimals. A number too large (or too small) for a double is read as infinity (or zero).
+    const double bytes = std::strtod(number_str.c_str(), nullptr) * unit;
+
+    // Check whether the product overflows
+    // @note: max_bytes cannot be represented as a double, and it is rounded up to the first value that does not fit.
+    if (bytes >= static_cast<double>(max_bytes))
+    {
+        throw std::invalid_argument("The number is too large to be converted to bytes.");
+    }
 
-    return bytes;
+    return static_cast<std::uint64_t>(bytes);
 }
 
 std::string from_bytes(
-- 
2.43.0


From 9582e9771e1f82f51e5730496c1e2907d4f32790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:26 +0000
Subject: [PATCH 19/31] fix: refuse dates that are incomplete or out of range,
 and accept the second before the epoch

---
 cpp_utils/src/cpp/time/time_utils.cpp | 41 +++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/cpp_utils/src/cpp/time/time_utils.cpp b/cpp_utils/src/cpp/time/time_utils.cpp
index 77a5e02..766e1b2 100644
--- a/cpp_utils/src/cpp/time/time_utils.cpp
+++ b/cpp_utils/src/cpp/time/time_utils.cpp
@@ -35,6 +35,21 @@
 namespace eprosima {
 namespace utils {
 
+/**
+ * Convert seconds since epoch to \c Timestamp , refusing those it cannot represent instead of overflowing.
+ */
+static Timestamp seconds_to_timestamp_(
+        const time_t& seconds)
+{
+    if (seconds < Timeclock::to_time_t(the_beginning_of_time()) || seconds > Timeclock::to_time_t(the_end_of_time()))
+    {
+        throw ValueNotAllowedException(
+                  STR_ENTRY << "Date out of the range of values that a timestamp can represent");
+    }
+
+    return Timeclock::from_time_t(seconds);
+}
+
 Timestamp now() noexcept
 {
     return Timeclock::now();
@@ -67,7 +82,7 @@ Timestamp date_to_timestamp(
     tm.tm_mon = static_cast<int>(month) - 1;
     tm.tm_year = static_cast<int>(year) - 1900;
 
-    return Timeclock::from_time_t(normalize(timegm(&tm)));
+    return seconds_to_timestamp_(normalize(timegm(&tm)));
 }
 
 Timestamp time_to_timestamp(
@@ -85,7 +100,7 @@ Timestamp time_to_timestamp(
     tm.tm_min = static_cast<int>(minute);
     tm.tm_hour = static_cast<int>(hour);
 
-    return Timeclock::from_time_t(timegm(&tm));
+    return seconds_to_timestamp_(timegm(&tm));
 }
 
 std::string timestamp_to_string(
@@ -126,13 +141,29 @@ Timestamp string_to_timestamp(
     std::istringstream ss(timestamp);
     std::tm tm{};
     ss >> std::get_time(&tm, format.c_str());
-    if (ss.fail())
+
+    bool failed = ss.fail();
+    if (!failed && ss.eof())
+    {
+        // Some implementations do not fail when the string ends before the format does, and leave fields without value.
+        // Check that both end at the same point by adding the same mark to them.
+        std::istringstream marked_ss(timestamp + "|");
+        const std::string marked_format = format + "|";
+        std::tm marked_tm{};
+        marked_ss >> std::get_time(&marked_tm, marked_format.c_str());
+        failed = marked_ss.fail();
+    }
+
+    if (failed)
     {
         throw PreconditionNotMet(
                   STR_ENTRY << "Format <" << format << "> to convert string to Timestamp is not valid for timestamp " << timestamp <<
                       ".");
     }
 
+    // The value -1 is also the second before the epoch. A successful conversion sets the day of the week.
+    tm.tm_wday = -1;
+
     std::time_t utc_time;
     if (local_time)
     {
@@ -152,13 +183,13 @@ Timestamp string_to_timestamp(
         utc_time = timegm(&tm);
     }
 
-    if ((time_t)-1 == utc_time)
+    if ((time_t)-1 == utc_time && -1 == tm.tm_wday)
     {
         throw ValueNotAllowedException(
                   STR_ENTRY << "Failed to convert string to timestamp");
     }
 
-    return Timeclock::from_time_t(utc_time);
+    return seconds_to_timestamp_(utc_time);
 }
 
 std::chrono::milliseconds duration_to_ms(
-- 
2.43.0


From 40569a266027e16d665d358ff1a774fb2b32919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 20/31] fix: Do not move through an empty command history

---
 cpp_utils/src/cpp/history/CommandHistoryHandler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp b/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
index dc0475f..cf4f93f 100644
--- a/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
+++ b/cpp_utils/src/cpp/history/CommandHistoryHandler.cpp
@@ -45,6 +45,11 @@ std::string CommandHistoryHandler::get_previous_command()
 
 std::string CommandHistoryHandler::get_next_command()
 {
+    if (command_history_.empty())
+    {
+        return "";
+    }
+
     if (current_index_ < command_history_.size() - 1)
     {
         ++current_index_;
-- 
2.43.0


From b531e8fc64e4244a592359c347e18089958a4896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 21/31] fix: Do not divide by an unknown terminal width

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index 0f03e18..be19eb6 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -59,7 +59,10 @@ int get_terminal_width()
     return csbi.srWindow.Right - csbi.srWindow.Left + 1;
     #else
     struct winsize w;
-    ioctl(STDOUT_FILENO, TIOCGWINSZ, &w);
+    if (ioctl(STDOUT_FILENO, TIOCGWINSZ, &w) != 0)
+    {
+        return 0; // The output is not a terminal
+    }
     return w.ws_col;
     #endif // if defined(_WIN32) || defined(_WIN64)
 }
@@ -69,6 +72,11 @@ int compute_lines_needed(
         const std::string& cmd,
         int term_width)
 {
+    if (term_width <= 0)
+    {
+        term_width = 80;
+    }
+
     int total_length = static_cast<int>(prompt.size() + cmd.size());
     return (total_length + term_width - 1) / term_width;
 }
-- 
2.43.0


From 32a6934f1d25ad3fedfbbf7ebbf58cac78736e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:05 +0000
Subject: [PATCH 22/31] fix: End reading the standard input when it ends

---
 cpp_utils/src/cpp/event/StdinEventHandler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/src/cpp/event/StdinEventHandler.cpp b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
index be19eb6..25592bc 100644
--- a/cpp_utils/src/cpp/event/StdinEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/StdinEventHandler.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <cstdio>
 #include <thread>
 
 #if defined(_WIN32) || defined(_WIN64)
@@ -308,7 +309,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                 {
                     case 72:  // Arrow up
 #else
-            char c;
+            int c;
             c = getchar(); // Read first character
             if (c == '\033')
             {
@@ -520,7 +521,7 @@ void StdinEventHandler::stdin_listener_thread_routine_() noexcept
                     }
                 }
             }
-            else if (c == '\n' || c == '\r')
+            else if (c == '\n' || c == '\r' || c == EOF) // The end of the input ends the line
             {
                 std::cout << std::endl;
                 event_occurred_(read_str);
-- 
2.43.0


From 9a2d87e35f39c1fb8001cb3d5a81ef70ebb6893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:05 +0000
Subject: [PATCH 23/31] fix: Keep joining after an opening quote followed by a
 space

---
 .../include/cpp_utils/user_interface/impl/CommandReader.ipp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
index 3260a5d..7daefa9 100644
--- a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
+++ b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
@@ -66,7 +66,7 @@ std::vector<std::string> CommandReader<CommandEnum>::join_quoted_strings(
 
             // Keep joining until we find a string ending with a quote
             while (i + 1 < input.size() &&
-                    (joined.empty() || joined.back() != '"'))
+                    (joined.size() < 2 || joined.back() != '"'))
             {
                 joined += " " + input[++i];
             }
@@ -75,7 +75,7 @@ std::vector<std::string> CommandReader<CommandEnum>::join_quoted_strings(
             // a closing quote (") or not. If it is a closing quote
             // remove it from the string (value = 2)
             // otherwise keep all the string (value = 1)
-            int tmp = joined[joined.size() - 1] == '"' ? 2 : 1;
+            int tmp = (joined.size() > 1 && joined.back() == '"') ? 2 : 1;
             result.push_back(joined.substr(1, joined.size() - tmp));
         }
         else
-- 
2.43.0


From db7b271c1345d5ed68a3fe5f968c3eb80248a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 24/31] fix: Stop reading commands before destroying their
 queue

---
 .../include/cpp_utils/user_interface/CommandReader.hpp | 10 +++++++---
 .../cpp_utils/user_interface/impl/CommandReader.ipp    |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp b/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
index 59c08e0..4397b3c 100644
--- a/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
+++ b/cpp_utils/include/cpp_utils/user_interface/CommandReader.hpp
@@ -100,9 +100,6 @@ protected:
     //! Builder to transform string into a command enum value.
     EnumBuilder<CommandEnum> builder_;
 
-    //! Event Handler used to read from stdin.
-    event::StdinEventHandler stdin_handler_;
-
     /**
      * @brief Consumer where \c stdin_handler_ will produce commands read, and method \c read_next_command will
      * consume next command.
@@ -112,6 +109,13 @@ protected:
      */
     event::DBQueueWaitHandler<std::string> commands_read_;
 
+    /**
+     * @brief Event Handler used to read from stdin.
+     *
+     * @note It is declared after \c commands_read_ so its thread, which produces in it, ends before it is destroyed.
+     */
+    event::StdinEventHandler stdin_handler_;
+
 public:
 
     event::StdinEventHandler& stdin_handler()
diff --git a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
index 7daefa9..10643bc 100644
--- a/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
+++ b/cpp_utils/include/cpp_utils/user_interface/impl/CommandReader.ipp
@@ -24,6 +24,7 @@ CommandReader<CommandEnum>::CommandReader(
         const EnumBuilder<CommandEnum>& builder,
         std::istream& source /* = std::cin */)
     : builder_(builder)
+    , commands_read_(0, true)
     , stdin_handler_(
         [this](std::string st)
         {
@@ -32,7 +33,6 @@ CommandReader<CommandEnum>::CommandReader(
         true,
         0,
         source)
-    , commands_read_(0, true)
 {
     // Do nothing
 }
-- 
2.43.0


From 9a97e165b5dcd57ec7c5574900c3a615dc9c7a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 25/31] fix: Wait for log entries being consumed before
 destroying a log handler

---
 cpp_utils/src/cpp/event/logging/LogEventHandler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
index 029d2e6..0e20159 100644
--- a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
@@ -52,6 +52,9 @@ LogEventHandler::LogEventHandler(
 LogEventHandler::~LogEventHandler()
 {
     unset_callback();
+
+    // Wait for any entry being consumed, and do not consume any other, before the members used by it are destroyed
+    connection_callback_.reset();
 }
 
 void LogEventHandler::consume_(
-- 
2.43.0


From 28e57f7cbb0100336c2c0c80dc39adef1ecbfc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 26/31] fix: Filter by severity from construction to
 destruction of a log handler

---
 .../cpp_utils/event/LogEventHandler.hpp        | 18 ++++++++++++++++++
 .../cpp_utils/event/LogSevereEventHandler.hpp  |  7 +++++++
 .../src/cpp/event/logging/LogEventHandler.cpp  | 17 ++++++++++++++---
 .../event/logging/LogSevereEventHandler.cpp    | 15 ++++++++++++++-
 4 files changed, 53 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp b/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp
index 88a29ed..8503acf 100644
--- a/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp
+++ b/cpp_utils/include/cpp_utils/event/LogEventHandler.hpp
@@ -76,6 +76,24 @@ public:
 
 protected:
 
+    //! Tag to construct an object that is not registered in Log yet.
+    struct NotRegistered
+    {
+        explicit NotRegistered() = default;
+    };
+
+    /**
+     * Construct without callback and without registering in Log.
+     *
+     * Child classes that override \c consume_ must use this constructor and call \c register_consumer_ once they
+     * are ready to consume entries.
+     */
+    CPP_UTILS_DllAPI LogEventHandler(
+            NotRegistered);
+
+    //! Register in Log the LogConsumer that will call this object.
+    CPP_UTILS_DllAPI void register_consumer_();
+
     /**
      * @brief Consumes an \c Entry given from the \c LogConsumerConnection .
      *
diff --git a/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp b/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
index a3e6f61..3bfe7fb 100644
--- a/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
+++ b/cpp_utils/include/cpp_utils/event/LogSevereEventHandler.hpp
@@ -48,6 +48,13 @@ public:
             std::function<void(utils::Log::Entry)> callback,
             const utils::Log::Kind threshold = utils::Log::Kind::Warning);
 
+    /**
+     * @brief Destroy the LogSevereEventHandler object
+     *
+     * Calls \c unset_callback
+     */
+    CPP_UTILS_DllAPI ~LogSevereEventHandler();
+
 protected:
 
     //! Override parent \c consume_ method but only consuming logs above the \c threshold_ kind.
diff --git a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
index 0e20159..fa98e5b 100644
--- a/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogEventHandler.cpp
@@ -27,7 +27,8 @@ namespace eprosima {
 namespace utils {
 namespace event {
 
-LogEventHandler::LogEventHandler()
+LogEventHandler::LogEventHandler(
+        NotRegistered)
     : EventHandler<utils::Log::Entry>()
     , connection_callback_(
         new LogConsumerConnectionCallbackType(
@@ -37,8 +38,12 @@ LogEventHandler::LogEventHandler()
                 this->consume_(entry);
             }))
 {
-    // Create LogConsumer and register it
-    Log::RegisterConsumer(std::make_unique<LogConsumerConnection>(connection_callback_.lease()));
+}
+
+LogEventHandler::LogEventHandler()
+    : LogEventHandler(NotRegistered())
+{
+    register_consumer_();
 }
 
 LogEventHandler::LogEventHandler(
@@ -57,6 +62,12 @@ LogEventHandler::~LogEventHandler()
     connection_callback_.reset();
 }
 
+void LogEventHandler::register_consumer_()
+{
+    // Create LogConsumer and register it
+    Log::RegisterConsumer(std::make_unique<LogConsumerConnection>(connection_callback_.lease()));
+}
+
 void LogEventHandler::consume_(
         const utils::Log::Entry& entry)
 {
diff --git a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
index 8b14501..68737ad 100644
--- a/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
+++ b/cpp_utils/src/cpp/event/logging/LogSevereEventHandler.cpp
@@ -26,7 +26,7 @@ namespace event {
 LogSevereEventHandler::LogSevereEventHandler(
         std::function<void(utils::Log::Entry)> callback,
         utils::Log::Kind threshold /* = utils::Log::Kind::Warning */)
-    : LogEventHandler(callback)
+    : LogEventHandler(NotRegistered())
     , threshold_(threshold)
 {
     // If threshold is lower than default log level (ERROR) set the filter lower
@@ -34,6 +34,19 @@ LogSevereEventHandler::LogSevereEventHandler(
     {
         utils::Log::SetVerbosity(threshold);
     }
+
+    set_callback(callback);
+
+    // Register once the threshold is in use, so no entry under it is consumed
+    register_consumer_();
+}
+
+LogSevereEventHandler::~LogSevereEventHandler()
+{
+    unset_callback();
+
+    // Stop consuming entries while they still are filtered by this class
+    connection_callback_.reset();
 }
 
 void LogSevereEventHandler::consume_(
-- 
2.43.0


From 0cc336c15640b7fce7bb6ec378a81b5ec9d85c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 27/31] fix: Do not use an event handler after the last waiting
 thread has left

---
 cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp b/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
index 275a077..e5aaa5a 100644
--- a/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/EventHandler.ipp
@@ -136,7 +136,12 @@ bool EventHandler<Args...>::wait_for_event(
                 return number_of_events_registered_ >= n || !is_callback_set_.load();
             });
 
+        // Check the result before leaving, as this object could be destroyed once no thread is waiting
+        const bool enough_events = number_of_events_registered_.load() >= n;
+
         --threads_waiting_;
+
+        return enough_events;
     }
 
     // Return true if the condition has been fulfilled. It could stop due to an unset callback
-- 
2.43.0


From afb098819dc6e4a5110addfcbd3444432e45af34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 28/31] fix: Do not miss a signal received while about to wait
 for it

---
 cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
index 224e644..412f1a1 100644
--- a/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
+++ b/cpp_utils/include/cpp_utils/event/impl/SignalManager.ipp
@@ -20,6 +20,7 @@
 #pragma once
 
 #include <algorithm>
+#include <chrono>
 #include <thread>
 
 #include <cpp_utils/exception/InconsistencyException.hpp>
@@ -156,8 +157,10 @@ void SignalManager<SigVal>::signal_handler_thread_routine_() noexcept
     while (!signal_handler_thread_stop_.load())
     {
         std::unique_lock<std::mutex> lock(signal_received_cv_mutex_);
-        signal_received_cv_.wait(
+        // The notification of a signal could be missed (see \c signal_received_ ), so check periodically
+        signal_received_cv_.wait_for(
             lock,
+            std::chrono::milliseconds(100),
             [this]
             {
                 return signals_received_.load() > 0 ||
-- 
2.43.0


From 382183ae63e79fd827eecbebf5621ff9e6ae3356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 29/31] fix: Report a file watcher that could not start

---
 cpp_utils/src/cpp/event/FileWatcherHandler.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cpp_utils/src/cpp/event/FileWatcherHandler.cpp b/cpp_utils/src/cpp/event/FileWatcherHandler.cpp
index 5d079b0..4172479 100644
--- a/cpp_utils/src/cpp/event/FileWatcherHandler.cpp
+++ b/cpp_utils/src/cpp/event/FileWatcherHandler.cpp
@@ -17,9 +17,7 @@
  *
  */
 
-#include <cpp_utils/exception/InitializationException.hpp>
 #include <cpp_utils/Log.hpp>
-#include <cpp_utils/Formatter.hpp>
 #include <cpp_utils/event/FileWatcherHandler.hpp>
 
 #include <event/FileWatcher.hpp>
@@ -76,8 +74,9 @@ void FileWatcherHandler::start_filewatcher_nts_()
     }
     catch (const std::exception& e)
     {
-        utils::InitializationException(STR_ENTRY <<
-                "Error creating file watcher: " << e.what());
+        // Exceptions could not be thrown from here as setting a callback is noexcept
+        logError(UTILS_FILEWATCHER, "Error creating file watcher for file: " << file_path_ << " : " << e.what());
+        return;
     }
 
     filewatcher_started_.store(true);
-- 
2.43.0


From c231d13ff6bdb4275828cb7909df83ebcd3c5cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:16 +0000
Subject: [PATCH 30/31] fix: a blocking disable of a Python WaitHandler
 releases the lock while it waits

---
 py_utils/py_utils/wait/WaitHandler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/py_utils/py_utils/wait/WaitHandler.py b/py_utils/py_utils/wait/WaitHandler.py
index 75df6cb..e65054c 100644
--- a/py_utils/py_utils/wait/WaitHandler.py
+++ b/py_utils/py_utils/wait/WaitHandler.py
@@ -137,6 +137,10 @@ class WaitHandler:
 
             self._n_waiting_threads -= 1
 
+            # A blocking disable may be waiting for the last thread to leave
+            if self._n_waiting_threads == 0:
+                self._condition.notify_all()
+
             if not self._enabled:
                 return AwakeReason.disabled
             elif not awaken_reason:
@@ -159,8 +163,9 @@ class WaitHandler:
     def _blocking_disable_nts(self):
         """Blocking disable object. Not mutex safe, call with _lock taken."""
         self._enabled = False
-        while self._n_waiting_threads > 0:
-            self._condition.notify_all()
+        self._condition.notify_all()
+        # This wait releases the lock, so threads waiting can leave
+        self._condition.wait_for(lambda: self._n_waiting_threads == 0)
 
     # Blocking disable method
     def _enabled_nts(self):
-- 
2.43.0


From 02d86dbc88246f604eb9c7d421b85e83ea4fb928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:47 +0000
Subject: [PATCH 31/31] fix: write each message of the Python logger once after
 changing its format

---
 py_utils/py_utils/logging/log_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_utils/py_utils/logging/log_utils.py b/py_utils/py_utils/logging/log_utils.py
index 7e64123..3f456db 100644
--- a/py_utils/py_utils/logging/log_utils.py
+++ b/py_utils/py_utils/logging/log_utils.py
@@ -40,6 +40,7 @@ class CustomLogger(logging.Logger):
             logger_name: str = 'GLOBAL_LOG'):
         """Creates an object of Logger class and set log level and default format."""
         super().__init__(logger_name)
+        self._format_handler = None
         self.set_format()
         self.set_log_level(log_level)
 
@@ -50,6 +51,10 @@ class CustomLogger(logging.Logger):
         l_format = logging.Formatter(format)
         l_handler = logging.StreamHandler()
         l_handler.setFormatter(l_format)
+        # Replace the handler of the previous format, so each message is written once
+        if self._format_handler is not None:
+            self.removeHandler(self._format_handler)
+        self._format_handler = l_handler
         self.addHandler(l_handler)
 
     def set_log_level(
-- 
2.43.0

