From 5f18d4af67f32706f1eda5b13fa5c8d899f51373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 001/140] fix: mutex holder is only written by the thread that
 owns the mutex

Lock() recorded the holder before acquiring, Unlock() cleared it after
releasing (touching a mutex that may be destroyed already), TryLock()
cleared instead of recording it, and AssertLocked() aborted exactly when
the lock was held.
---
 kanon/thread/mutex_lock.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/kanon/thread/mutex_lock.h b/kanon/thread/mutex_lock.h
index 72496f8..af2880b 100644
--- a/kanon/thread/mutex_lock.h
+++ b/kanon/thread/mutex_lock.h
@@ -9,6 +9,8 @@
 #  include <mutex>
 #endif
 
+#include <atomic>
+
 #include "kanon/util/noncopyable.h"
 
 #include "kanon/thread/pthread_macro.h"
@@ -87,6 +89,7 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 
  public:
   MutexLock()
+    : holder_(0)
   {
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_init(&mutex_, NULL));
@@ -100,18 +103,22 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 #endif
   }
 
-  bool IsLockedInThisThread() { return holder_ == CurrentThread::tid(); }
+  bool IsLockedInThisThread()
+  {
+    return holder_.load(std::memory_order_relaxed) == CurrentThread::tid();
+  }
 
-  void AssertLocked() { ASSERT(IsLockedInThisThread()); }
+  // ASSERT() aborts if its argument is nonzero
+  void AssertLocked() { ASSERT(!IsLockedInThisThread()); }
 
   void Lock() ACQUIRE()
   {
-    assignHolder();
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_lock(&mutex_));
 #else
     mutex_.lock();
 #endif
+    assignHolder();
   }
 
   /**
@@ -132,18 +139,19 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 #else
     success = mutex_.try_lock();
 #endif
-    if (success) unassignHolder();
+    if (success) assignHolder();
     return success;
   }
 
   void Unlock() RELEASE()
   {
+    // Once unlocked, the mutex may be owned(or destroyed) by others
+    unassignHolder();
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_unlock(&mutex_));
 #else
     mutex_.unlock();
 #endif
-    unassignHolder();
   }
 
   // TODO Implement this
@@ -174,9 +182,15 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
     MutexLock &mutex_;
   };
 
-  void assignHolder() KANON_NOEXCEPT { holder_ = CurrentThread::tid(); }
+  void assignHolder() KANON_NOEXCEPT
+  {
+    holder_.store(CurrentThread::tid(), std::memory_order_relaxed);
+  }
 
-  void unassignHolder() KANON_NOEXCEPT { holder_ = 0; }
+  void unassignHolder() KANON_NOEXCEPT
+  {
+    holder_.store(0, std::memory_order_relaxed);
+  }
 
  private:
 #ifdef KANON_ON_UNIX
@@ -184,7 +198,7 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 #else
   std::mutex mutex_;
 #endif
-  int holder_;
+  std::atomic<int> holder_;
 };
 
 // pthread_mutex_t simple RAII wrapper
-- 
2.43.0


From 6a0992090b52d8f79b0adb1c997a4d331203506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 002/140] fix: latch waits re-check the count and every way to
 reach zero notifies

---
 kanon/thread/count_down_latch.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/kanon/thread/count_down_latch.h b/kanon/thread/count_down_latch.h
index 6d26b77..b748c81 100644
--- a/kanon/thread/count_down_latch.h
+++ b/kanon/thread/count_down_latch.h
@@ -30,26 +30,28 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ = count;
+    NotifyIfReached();
   }
 
   void ResetAndWait(int count) KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     count_ = count;
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0) cond_.Wait();
   }
 
   void Add(int count) KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     count_ += count;
+    NotifyIfReached();
   }
 
   void AddAndWait(int count) KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     count_ += count;
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0) cond_.Wait();
   }
 
   void Incr() KANON_NOEXCEPT
@@ -62,19 +64,21 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     ++count_;
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0) cond_.Wait();
   }
 
   KANON_DEPRECATED_ATTR void Minus(int count) KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     count_ -= count;
+    NotifyIfReached();
   }
 
   KANON_DEPRECATED_ATTR void Decr() KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     --count_;
+    NotifyIfReached();
   }
 
   int GetCount() const KANON_NOEXCEPT
@@ -86,19 +90,24 @@ class CountDownLatch : noncopyable {
   void Wait()
   {
     MutexGuard guard(mutex_);
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0) cond_.Wait();
   }
 
   void Countdown() KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     --count_;
-    if (count_ == 0) {
+    NotifyIfReached();
+  }
+
+ private:
+  void NotifyIfReached() KANON_NOEXCEPT
+  {
+    if (count_ <= 0) {
       cond_.NotifyAll();
     }
   }
 
- private:
   int count_;
   mutable MutexLock mutex_;
   Condition cond_ GUARDED_BY(mutex_);
-- 
2.43.0


From 129c262150a8a5573c0fd63b3e0f1752597299b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 003/140] fix: thread pool workers run tasks until the pool is
 destroyed

Each worker executed a single task and ended: later tasks were never run,
Push() blocked forever once the queue was full, and the destructor hung
if there were fewer tasks than workers.
---
 kanon/thread/thread_pool.cc | 24 +++++++++++++++++-------
 kanon/thread/thread_pool.h  |  4 +++-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/kanon/thread/thread_pool.cc b/kanon/thread/thread_pool.cc
index 556529e..6ebe23c 100644
--- a/kanon/thread/thread_pool.cc
+++ b/kanon/thread/thread_pool.cc
@@ -10,10 +10,17 @@ ThreadPool::ThreadPool(int max_queue_size,
   , not_full_{ mutex_ }
   , not_empty_{ mutex_ }
   , max_queue_size_{ max_queue_size }
+  , stopped_{ false }
   , name_{ name }
 { }
 
 ThreadPool::~ThreadPool() KANON_NOEXCEPT {
+  {
+    MutexGuard guard{ mutex_ };
+    stopped_ = true;
+    not_empty_.NotifyAll();
+  }
+
   for (auto& thr : threads_) {
     thr->Join();
   }
@@ -24,11 +31,11 @@ void ThreadPool::StartRun(int thread_num) {
 
   for (int i = 0; i != thread_num; ++i) {
     auto up_thr = kanon::make_unique<Thread>([this]() {
-      auto task = Pop();
+      Task task;
 
-      if (task) {
+      while (Pop(task)) {
         // Exception is handled by Thread
-        task();
+        if (task) task();
       }
     }, name_ + std::to_string(i));
     
@@ -49,17 +56,20 @@ void ThreadPool::Push(Task task) {
   not_empty_.Notify();
 }
 
-auto ThreadPool::Pop() -> Task
+bool ThreadPool::Pop(Task& task)
 {
   MutexGuard guard{ mutex_ };
 
-  while (tasks_.size() == 0) {
+  while (tasks_.size() == 0 && !stopped_) {
     not_empty_.Wait();
   }
 
-  auto task = std::move(tasks_.front());
+  // The tasks accepted before destruction are executed also
+  if (tasks_.size() == 0) return false;
+
+  task = std::move(tasks_.front());
   tasks_.pop();
 
   not_full_.Notify();
-  return task;
+  return true;
 }
diff --git a/kanon/thread/thread_pool.h b/kanon/thread/thread_pool.h
index 6a85d64..ca52181 100644
--- a/kanon/thread/thread_pool.h
+++ b/kanon/thread/thread_pool.h
@@ -53,14 +53,16 @@ class ThreadPool : noncopyable {
   /**
    * \brief pop the task from queue, and notify Push() to produce which can
    * produce more task
+   * \return false if the pool is stopped and there is no task left
    */
-  Task Pop();
+  bool Pop(Task &task);
 
   mutable MutexLock mutex_;
   Condition not_full_ GUARDED_BY(mutex_);
   Condition not_empty_ GUARDED_BY(mutex_);
 
   int max_queue_size_;
+  bool stopped_;
 
   std::vector<std::unique_ptr<kanon::Thread>> threads_;
   std::queue<Task> tasks_;
-- 
2.43.0


From f6b4d1c5cca95313c1ea411ca73ac59c666bf03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 004/140] fix: a started thread never refers to its Thread
 object

---
 kanon/thread/thread.cc | 37 ++++++++++++++++++++++++++++---------
 kanon/thread/thread.h  |  7 +++++--
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/kanon/thread/thread.cc b/kanon/thread/thread.cc
index 77c73b1..7cdf508 100644
--- a/kanon/thread/thread.cc
+++ b/kanon/thread/thread.cc
@@ -11,6 +11,7 @@
 #include <string.h>
 #include <assert.h>
 
+#include <memory>
 #include <system_error>
 // #include "kanon/thread/atomic.h"
 #include "kanon/thread/atomic_counter.h"
@@ -24,6 +25,17 @@ using namespace std;
 
 namespace kanon {
 
+namespace detail {
+
+// The thread must not refer the Thread object which can be moved or destroyed
+// before the thread terminates.
+struct ThreadData {
+  Thread::Threadfunc func;
+  std::string name;
+};
+
+} // namespace detail
+
 AtomicCounter32 Thread::numCreated_{};
 
 Thread::Thread(std::string const &name)
@@ -42,7 +54,9 @@ Thread::Thread(Threadfunc func, string const &name)
   SetDefaultName();
 }
 
-Thread::~Thread()
+Thread::~Thread() { Detach(); }
+
+void Thread::Detach() KANON_NOEXCEPT
 {
   if (is_started_ && !is_joined_) {
 #ifdef KANON_ON_UNIX
@@ -58,10 +72,12 @@ void Thread::StartRun()
   assert(!is_started_);
   is_started_ = false;
 
-  // auto data = new detail::ThreadData{ func_, name_ };
+  std::unique_ptr<detail::ThreadData> data(
+      new detail::ThreadData{std::move(func_), name_});
 #ifdef KANON_ON_UNIX
   int err = 0;
-  err = pthread_create(&pthreadId_, NULL, &detail::Run, this);
+  pthread_t pthread_id{};
+  err = pthread_create(&pthread_id, NULL, &detail::Run, data.get());
   if (err != 0) {
     char buf[128];
     auto ret = ::strerror_r(errno, buf, sizeof buf);
@@ -70,11 +86,14 @@ void Thread::StartRun()
     ::fflush(stderr);
     exit(1);
   } else {
+    data.release();
+    pthreadId_ = pthread_id;
     is_started_ = true;
   }
 #else
   try {
-    std::thread thr(&detail::Run, this);
+    std::thread thr(&detail::Run, data.get());
+    data.release();
 #ifdef KANON_ON_UNIX
     pthreadId_ = thr.native_handle();
 #else
@@ -132,9 +151,9 @@ namespace detail {
 void *Run(void *arg)
 {
   CurrentThread::cacheTid();
-  auto thread = reinterpret_cast<Thread *>(arg);
+  std::unique_ptr<ThreadData> thread(reinterpret_cast<ThreadData *>(arg));
   CurrentThread::t_name =
-      thread->name_.empty() ? "KanonThread" : thread->name_.c_str();
+      thread->name.empty() ? "KanonThread" : thread->name.c_str();
 
   // process control
   // set calling thread name
@@ -147,19 +166,19 @@ void *Run(void *arg)
 #endif
 
   try {
-    thread->func_();
+    thread->func();
     CurrentThread::t_name = "finished";
   }
   catch (std::exception const &ex) {
     ::fprintf(stderr, "std::exception is caught in Thread %s\n",
-              thread->name_.c_str());
+              thread->name.c_str());
     ::fprintf(stderr, "Reason: %s", ex.what());
     ::fflush(stderr);
     ::abort(); // don't throw or return just terminate
   }
   catch (...) {
     ::fprintf(stderr, "Unknown exception is caught in Thread %s\n",
-              thread->name_.c_str());
+              thread->name.c_str());
     ::abort();
   }
 
diff --git a/kanon/thread/thread.h b/kanon/thread/thread.h
index 1d83727..a7a5c26 100644
--- a/kanon/thread/thread.h
+++ b/kanon/thread/thread.h
@@ -62,10 +62,14 @@ class Thread : noncopyable {
     , name_{std::move(rhs.name_)}
   {
     rhs.pthreadId_ = 0;
+    rhs.is_started_ = false;
   }
 
   Thread &operator=(Thread &&rhs) KANON_NOEXCEPT
   {
+    if (this == &rhs) return *this;
+
+    Detach();
     func_ = std::move(rhs.func_);
     is_started_ = rhs.is_started_;
     is_joined_ = rhs.is_joined_;
@@ -88,8 +92,7 @@ class Thread : noncopyable {
 
  private:
   KANON_CORE_NO_API void SetDefaultName();
-
-  friend void *detail::Run(void *arg);
+  KANON_CORE_API void Detach() KANON_NOEXCEPT;
 
  private:
   Threadfunc func_;
-- 
2.43.0


From 06ebfab42cea364e2564d5e94d6307259d2c5183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 005/140] fix: ForwardList::assign(n, v) drops the surplus
 elements

---
 kanon/algo/forward_list/forward_list_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index ee70a53..432e481 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -53,8 +53,8 @@ void FORWARD_LIST_TEMPLATE::assign(SizeType count, ValueType const &value)
     while (count--) {
       push_front(value);
     }
-  } else if (count < 0) {
-    // count < size()
+  } else {
+    // count <= size()
     while (beg.next() != end()) {
       erase_after(beg);
     }
-- 
2.43.0


From 49ae8fa7eb40723d02c2b71588ca3ba3497075ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 006/140] fix: ForwardList self-assignment keeps the elements

---
 kanon/algo/forward_list/forward_list_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 432e481..28d6207 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -89,7 +89,7 @@ void FORWARD_LIST_TEMPLATE::assign(InputIterator first, InputIterator last)
 FORWARD_LIST_TEMPLATE_LIST
 auto FORWARD_LIST_TEMPLATE::operator=(Self const &other) -> Self &
 {
-  assign(other.begin(), other.end());
+  if (this != &other) assign(other.begin(), other.end());
   return *this;
 }
 
-- 
2.43.0


From 13ac8111f3b687cf5f670724ea83af648bc98db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 007/140] fix: ForwardList splicing a node after itself or its
 predecessor is a no-op

---
 kanon/algo/forward_list/forward_list_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 28d6207..8397648 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -324,6 +324,9 @@ FORWARD_LIST_TEMPLATE_LIST
 void FORWARD_LIST_TEMPLATE::splice_after(ConstIterator pos, Self &list,
                                          ConstIterator it)
 {
+  // No effect when the node is already located after pos
+  if (pos == it || pos == it.next()) return;
+
   insert_after(pos, list.extract_after(it));
 }
 
-- 
2.43.0


From 1a1d927e2d8afe868776eb3f4dbe2a14ceab87ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 008/140] fix: ForwardList range splice keeps the order

---
 kanon/algo/forward_list/forward_list_impl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 8397648..b804c58 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -338,6 +338,7 @@ void FORWARD_LIST_TEMPLATE::splice_after(ConstIterator pos, Self &list,
   // (first, last)
   while (first.next() != last) {
     insert_after(pos, list.extract_after(first));
+    ++pos;
   }
 }
 
-- 
2.43.0


From 68894b282054b49fb2871b153d9059372c0997ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 009/140] fix: ForwardList remove accepts a reference to its
 own element

---
 kanon/algo/forward_list/forward_list_impl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index b804c58..4613f46 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -370,10 +370,14 @@ auto FORWARD_LIST_TEMPLATE::remove_if(UnaryPred pred) -> SizeType
 {
   SizeType count = 0;
 
+  // The predicate may refer to an element of this list,
+  // so drop the removed elements after the whole list is checked
+  Self removed;
+
   auto it = search_before(pred);
   while (it != end()) {
     ++count;
-    erase_after(it);
+    removed.push_front(extract_after_node(it));
     it = search_before(pred, it);
   }
 
-- 
2.43.0


From 8bed71b7436487de0259ece0a02cee8003a362ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 010/140] fix: ForwardList sort is stable

---
 kanon/algo/forward_list/forward_list_impl.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 4613f46..15b79cc 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -441,20 +441,19 @@ void FORWARD_LIST_TEMPLATE::sort(Compare cmp)
         break;
       } else {
         // Merge non-empty list
-        // larger list merge shorter list
-        if (lists[i].size() > list.size()) {
-          lists[i].merge(list, cmp);
-          list.swap(lists[i]);
-        } else
-          list.merge(lists[i], cmp);
+        // lists[i] holds the earlier elements, so it must be the
+        // destination to keep the order of equivalent elements
+        lists[i].merge(list, cmp);
+        list.swap(lists[i]);
       }
     }
   }
 
   assert(list.empty());
 
-  for (int i = end_of_lists - 1; i >= 0; --i) {
-    list.merge(lists[i], cmp);
+  for (int i = 0; i < end_of_lists; ++i) {
+    lists[i].merge(list, cmp);
+    list.swap(lists[i]);
   }
 
   *this = std::move(list);
-- 
2.43.0


From ec7e610c6325fb3ee4926e2def45ffa22b60d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 011/140] fix: ForwardList equality compares the sizes

---
 kanon/algo/forward_list/forward_list_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 15b79cc..c33d8bd 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -536,7 +536,7 @@ FORWARD_LIST_TEMPLATE_LIST
 KANON_INLINE bool operator==(ForwardList<T, A> const &x,
                              ForwardList<T, A> const &y)
 {
-  return std::equal(x.begin(), x.end(), y.begin());
+  return x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin());
 }
 
 FORWARD_LIST_TEMPLATE_LIST
-- 
2.43.0


From f4a269943957d0eeee5f2b41614642c9bff982cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 012/140] fix: Buffer::Shrink keeps the indices valid and the
 prepend region

---
 kanon/buffer/buffer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kanon/buffer/buffer.cc b/kanon/buffer/buffer.cc
index 3d24d36..dc1d09c 100644
--- a/kanon/buffer/buffer.cc
+++ b/kanon/buffer/buffer.cc
@@ -19,9 +19,12 @@ void Buffer::Shrink(size_type n)
   // tmp.ReserveWriteSpace(GetReadableSize() + n);
   // tmp.Append(ToStringView());
   // swap(tmp);
-  if (read_index_ != BUFFER_PREFIX_SIZE) {
+  // Keep the prepended contents in place if there are any
+  if (read_index_ > BUFFER_PREFIX_SIZE) {
     std::copy(offset(read_index_), offset(write_index_),
               offset(BUFFER_PREFIX_SIZE));
+    write_index_ = BUFFER_PREFIX_SIZE + GetReadableSize();
+    read_index_ = BUFFER_PREFIX_SIZE;
   }
 
 #ifndef NDEBUG
@@ -30,7 +33,7 @@ void Buffer::Shrink(size_type n)
   }
 #endif
 
-  data_.Shrink(GetReadableSize() + n);
+  data_.Shrink(write_index_ + n);
 }
 
 void Buffer::ReserveWriteSpace(size_type len) KANON_NOEXCEPT
-- 
2.43.0


From 8bbc6abcf165f3aab97d4b1d4b3d6288b02708bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 013/140] fix: Buffer grows instead of moving the contents up
 after a prepend

---
 kanon/buffer/buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/buffer/buffer.cc b/kanon/buffer/buffer.cc
index dc1d09c..ed151bb 100644
--- a/kanon/buffer/buffer.cc
+++ b/kanon/buffer/buffer.cc
@@ -55,7 +55,7 @@ void Buffer::ReserveWriteSpace(size_type len) KANON_NOEXCEPT
   // | | |                        |
   // +-+-+------------------------+
   //
-  if (len > GetPrependableSize() - BUFFER_PREFIX_SIZE + GetWritableSize()) {
+  if (len + BUFFER_PREFIX_SIZE > GetPrependableSize() + GetWritableSize()) {
     // FIXME Need copy [readable region] to the BUFFER_PREFIX_SIZE?
 #if 0
     size_t at_least_size = write_index_ + len;
-- 
2.43.0


From cb2582f729b2374cd0e6474943da1060d9c20bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 014/140] fix: ChunkList accepts appending nothing

---
 kanon/buffer/chunk_list.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index 29fce37..cf6a2b1 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -46,6 +46,8 @@ auto ChunkList::Prepend(void const *data, size_t len) -> void
 
 void ChunkList::Append(void const *data, size_t len)
 {
+  if (len == 0) return;
+
   auto buf = reinterpret_cast<char const *>(data);
 
   /* Allow user append data even though the size header
-- 
2.43.0


From 859b06fdce1f7664f6a2fc0c036890eb416b6533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 015/140] fix: ChunkList counts partially filled chunks

---
 kanon/buffer/chunk_list.cc | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index cf6a2b1..f00248e 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -127,30 +127,13 @@ buffers_.size() > 0.
 
 auto ChunkList::GetReadableSize() const KANON_NOEXCEPT->SizeType
 {
-  if (IsEmpty()) {
-    return 0;
-  } else {
-    auto first_chunk = buffers_.begin();
-    if (buffers_.size() == 1) {
-      return first_chunk->GetReadableSize();
-    } else if (buffers_.size() == 2) {
-      return first_chunk->GetReadableSize() +
-             first_chunk.next()->GetReadableSize();
-    }
-
-    auto last_chunk = buffers_.before_end();
-    // return first_chunk->GetMaxSize() != 4096
-    //            ? first_chunk->GetReadableSize() +
-    //                  first_chunk.next()->GetReadableSize() +
-    //                  (GetChunkSize() - 3) * CHUNK_SIZE +
-    //                  last_chunk->GetReadableSize()
-    //            : first_chunk->GetReadableSize() +
-    //                  (GetChunkSize() - 2) * CHUNK_SIZE +
-    //                  last_chunk->GetReadableSize();
-    return first_chunk->GetReadableSize() +
-           first_chunk.next()->GetReadableSize() +
-           (GetChunkSize() - 3) * CHUNK_SIZE + last_chunk->GetReadableSize();
+  // Any chunk may be filled partially (\see AppendChunkList())
+  SizeType ret = 0;
+  for (auto const &chunk : buffers_) {
+    ret += chunk.GetReadableSize();
   }
+
+  return ret;
 }
 
 bool ChunkList::PutToFreeChunk() KANON_NOEXCEPT
-- 
2.43.0


From ffff80987c24c9f474d37b05b7a5be87bc3fed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 016/140] fix: ChunkList accepts reserving nothing

---
 kanon/buffer/chunk_list.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index f00248e..27854fc 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -201,7 +201,7 @@ auto ChunkList::ReserveWriteSpace(size_t size) -> void
     size -= buffer.GetWritableSize();
   }
 
-  assert(size >= 1);
+  if (size == 0) return;
   const auto chunk_size = ((size - 1) >> 12) + 1;
   ReserveFreeChunk(chunk_size);
 }
-- 
2.43.0


From 1d760ceb5f29c368601d53f804f180b01a4dcd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 017/140] fix: ChunkList::AppendChunkList splices at the back

---
 kanon/buffer/chunk_list.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index 27854fc..b2a0043 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -217,7 +217,7 @@ auto ChunkList::GetFreeChunk() KANON_NOEXCEPT->ListType::Iterator
 
 auto ChunkList::AppendChunkList(ChunkList *rhs) -> void
 {
-  buffers_.splice_after(buffers_.end(), rhs->buffers_);
+  buffers_.splice_after(buffers_.cbefore_end(), rhs->buffers_);
 }
 
 auto ChunkList::DebugPrint() -> void
-- 
2.43.0


From 602e20afa2259e862a6301cf570a98d4aeb1c32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 018/140] fix: ChunkList copies the contents of the chunks

---
 kanon/buffer/chunk_list.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kanon/buffer/chunk_list.h b/kanon/buffer/chunk_list.h
index f19978b..ba09260 100644
--- a/kanon/buffer/chunk_list.h
+++ b/kanon/buffer/chunk_list.h
@@ -181,16 +181,18 @@ class ChunkList final {
   ChunkList Clone()
   {
     ChunkList ret;
-    new (&ret.buffers_) ListType(buffers_);
-    new (&ret.free_buffers_) ListType(free_buffers_);
+    ret.CopyAssign(*this);
     return ret;
   }
 
   void CopyAssign(ChunkList const &rhs)
   {
-    buffers_ = rhs.buffers_;
-    free_buffers_ = rhs.free_buffers_;
-    *this = rhs;
+    if (this == &rhs) return;
+
+    AdvanceReadAll();
+    for (auto const &chunk : rhs.buffers_) {
+      Append(chunk.ToStringView());
+    }
   }
 
   // Disable implicit copy
-- 
2.43.0


From b7dac32d561d5fe3fefd7a3461eefdd73dbbdb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 019/140] fix: ChunkList reads integers that span chunks

---
 kanon/buffer/chunk_list.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/kanon/buffer/chunk_list.h b/kanon/buffer/chunk_list.h
index ba09260..e889662 100644
--- a/kanon/buffer/chunk_list.h
+++ b/kanon/buffer/chunk_list.h
@@ -247,9 +247,9 @@ class ChunkList final {
 #define KANON_CHUNK_LIST_GET_READ_BEGIN_UINT(size)                             \
   uint##size##_t GetReadBegin##size() KANON_NOEXCEPT                           \
   {                                                                            \
-    assert(buffers_.front().GetReadableSize() >= sizeof(uint##size##_t));      \
-    return sock::ToHostByteOrder##size(                                        \
-        *reinterpret_cast<uint##size##_t *>(buffers_.front().GetReadBegin())); \
+    uint##size##_t i;                                                          \
+    CopyFront(&i, sizeof i);                                                   \
+    return sock::ToHostByteOrder##size(i);                                     \
   }
 
   uint8_t GetReadBegin8() KANON_NOEXCEPT
@@ -347,6 +347,21 @@ class ChunkList final {
 
   Chunk *AddChunk();
 
+  // Copy the first len readable bytes, they may span chunks
+  void CopyFront(void *data, size_t len) const KANON_NOEXCEPT
+  {
+    auto buf = static_cast<char *>(data);
+    for (auto chunk = buffers_.begin(); len > 0; ++chunk) {
+      assert(chunk != buffers_.end());
+      const size_t n = chunk->GetReadableSize() < len
+                           ? (size_t)chunk->GetReadableSize()
+                           : len;
+      ::memcpy(buf, chunk->GetReadBegin(), n);
+      buf += n;
+      len -= n;
+    }
+  }
+
   /**
    * buffers_ contains a chunk header and fixed payload chunks.
    * +--------+     +-------------------+
-- 
2.43.0


From 13f958832113f6d81a4a128794b761817727977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 020/140] fix: ChunkListWriteFd respects the limit of writev
 and reports errors

---
 kanon/linux/net/chunk_list.cc | 45 ++++++++++++-----------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/kanon/linux/net/chunk_list.cc b/kanon/linux/net/chunk_list.cc
index f8ef9f2..0b40237 100644
--- a/kanon/linux/net/chunk_list.cc
+++ b/kanon/linux/net/chunk_list.cc
@@ -12,45 +12,30 @@ static constexpr unsigned IOVEC_MAX = IOV_MAX;
 static constexpr unsigned IOVEC_MAX = 1024;
 #endif
 
-static size_t RoundUpDivideIn2(size_t x, size_t y) KANON_NOEXCEPT
-{
-  return (x == 0) ? 0 : ((x - 1) / y + 1);
-}
-
 ChunkList::SizeType kanon::ChunkListWriteFd(ChunkList &buffer, FdType fd,
                                             int &saved_errno) KANON_NOEXCEPT
 {
-  if (buffer.GetChunkSize() == 1) {
-    auto first_chunk = buffer.GetFirstChunk();
-    return (ChunkList::SizeType)sock::Write(
-        fd, buffer.GetFirstChunk()->GetReadBegin(),
-        first_chunk->GetReadableSize());
-  }
-
-  FixedVector<struct iovec> iovecs(buffer.GetChunkSize());
+  // Write once is enough: the chunks beyond the limit of writev() are handled
+  // by the caller like the remaining contents of a short write
+  FixedVector<struct iovec> iovecs(buffer.GetChunkSize() < IOVEC_MAX
+                                       ? buffer.GetChunkSize()
+                                       : IOVEC_MAX);
   auto first_chunk = buffer.begin();
-  auto cnt = RoundUpDivideIn2(buffer.GetChunkSize(), IOVEC_MAX);
-
-  ChunkList::SizeType ret = 0;
 
-  while (cnt--) {
-    for (auto &x : iovecs) {
-      x.iov_base = first_chunk->GetReadBegin();
-      x.iov_len = first_chunk->GetReadableSize();
-      ++first_chunk;
-    }
+  for (auto &x : iovecs) {
+    x.iov_base = first_chunk->GetReadBegin();
+    x.iov_len = first_chunk->GetReadableSize();
+    ++first_chunk;
+  }
 
-    auto n = ::writev(fd, iovecs.data(), (int)iovecs.size());
+  auto n = ::writev(fd, iovecs.data(), (int)iovecs.size());
 
-    if (n >= 0) {
-      ret += (ChunkList::SizeType)n;
-    } else {
-      saved_errno = errno;
-      break;
-    }
+  if (n < 0) {
+    saved_errno = errno;
+    return 0;
   }
 
-  return ret;
+  return (ChunkList::SizeType)n;
 }
 
 void kanon::ChunkListOverlapSend(ChunkList &, FdType, int &, void *)
-- 
2.43.0


From 2a78de06847eb27b4b5198d860a82ab3dfe57a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:01 +0000
Subject: [PATCH 021/140] fix: FixedChunkMemoryPool chunks are aligned

---
 kanon/mem/fixed_chunk_memory_pool.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/mem/fixed_chunk_memory_pool.cc b/kanon/mem/fixed_chunk_memory_pool.cc
index 17c6f83..d1e212b 100644
--- a/kanon/mem/fixed_chunk_memory_pool.cc
+++ b/kanon/mem/fixed_chunk_memory_pool.cc
@@ -11,7 +11,8 @@ using namespace kanon;
 
 #define CHUNK_NEXT_OFFSET (offsetof(Chunk, next))
 #define BLOCK_SPACE(sz) (sizeof(Block) + (CHUNK_NEXT_OFFSET + sz) * chunk_per_block_)
-#define ALIGN_SIZE(sz) ((sz < chunk_next_space) ? chunk_next_space : sz)
+// The next chunk must be aligned also
+#define ALIGN_SIZE(sz) ((sz < chunk_next_space) ? chunk_next_space : (sz + alignof(Chunk) - 1) / alignof(Chunk) * alignof(Chunk))
 #define CHECK_ALIGNED(sz) (sz >= 8)
 
 FixedChunkMemoryPool::FixedChunkMemoryPool(size_t chunk_per_block)
-- 
2.43.0


From 65934a9c261be06b742f103bd6b8dce15ca5b9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:01 +0000
Subject: [PATCH 022/140] fix: FixedChunkMemoryPool::Shrink keeps the free list
 valid and stops at the end

---
 kanon/mem/fixed_chunk_memory_pool.cc | 38 +++++++++++++++-------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/kanon/mem/fixed_chunk_memory_pool.cc b/kanon/mem/fixed_chunk_memory_pool.cc
index d1e212b..e364b56 100644
--- a/kanon/mem/fixed_chunk_memory_pool.cc
+++ b/kanon/mem/fixed_chunk_memory_pool.cc
@@ -72,25 +72,29 @@ void FixedChunkMemoryPool::Free(void *ptr)
 void FixedChunkMemoryPool::Shrink(size_t sz)
 {
   sz = ALIGN_SIZE(sz);
-  /* Check the block whether it can be freed */
-  Block *tmp_next = nullptr;
-
-  /* First, Check the block header whether can free */
-  while (IsBlockFree(block_chain_, sz)) {
-    tmp_next = block_chain_->next;
-    free(block_chain_);
-    block_chain_ = tmp_next;
-    block_count_--;
-  }
-  
-  /* The first block is allocated, we can redirect the next don't care it */
-  for (auto block_iter = block_chain_; block_iter->next != nullptr; block_iter = block_iter->next) {
-    tmp_next = block_iter->next;
-    if (IsBlockFree(tmp_next, sz)) {
-      block_iter->next = tmp_next->next;
-      free(tmp_next);
+  /* The free chunks of the freed blocks must not stay in the free list,
+   * so link the free chunks of the remaining blocks again */
+  free_chunk_header_ = nullptr;
+
+  Block **link = &block_chain_;
+  while (*link != nullptr) {
+    auto block = *link;
+    if (IsBlockFree(block, sz)) {
+      *link = block->next;
+      free(block);
       block_count_--;
+      continue;
+    }
+
+    auto chunk = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(block) + sizeof(Block));
+    for (size_t i = 0; i < chunk_per_block_; ++i) {
+      if (chunk->status == FREE) {
+        chunk->next = free_chunk_header_;
+        free_chunk_header_ = chunk;
+      }
+      chunk = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(chunk) + CHUNK_NEXT_OFFSET + sz);
     }
+    link = &block->next;
   }
 }
 
-- 
2.43.0


From 39ef04d9d63727d000e5ae573a3e4d2b5c98582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:01 +0000
Subject: [PATCH 023/140] fix: FixedChunkMemoryPool remembers the number of
 chunks of each block

---
 kanon/mem/fixed_chunk_memory_pool.cc | 17 +++++++++++------
 kanon/mem/fixed_chunk_memory_pool.h  |  1 +
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/kanon/mem/fixed_chunk_memory_pool.cc b/kanon/mem/fixed_chunk_memory_pool.cc
index e364b56..63ec077 100644
--- a/kanon/mem/fixed_chunk_memory_pool.cc
+++ b/kanon/mem/fixed_chunk_memory_pool.cc
@@ -10,7 +10,7 @@ using namespace kanon;
 // #define ROUNDUP8(x) (((((x) - 1) >> 3) + 1) << 3)
 
 #define CHUNK_NEXT_OFFSET (offsetof(Chunk, next))
-#define BLOCK_SPACE(sz) (sizeof(Block) + (CHUNK_NEXT_OFFSET + sz) * chunk_per_block_)
+#define BLOCK_SPACE(sz, n) (sizeof(Block) + (CHUNK_NEXT_OFFSET + sz) * (n))
 // The next chunk must be aligned also
 #define ALIGN_SIZE(sz) ((sz < chunk_next_space) ? chunk_next_space : (sz + alignof(Chunk) - 1) / alignof(Chunk) * alignof(Chunk))
 #define CHECK_ALIGNED(sz) (sz >= 8)
@@ -87,7 +87,7 @@ void FixedChunkMemoryPool::Shrink(size_t sz)
     }
 
     auto chunk = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(block) + sizeof(Block));
-    for (size_t i = 0; i < chunk_per_block_; ++i) {
+    for (size_t i = 0; i < block->chunk_num; ++i) {
       if (chunk->status == FREE) {
         chunk->next = free_chunk_header_;
         free_chunk_header_ = chunk;
@@ -100,7 +100,11 @@ void FixedChunkMemoryPool::Shrink(size_t sz)
 
 size_t FixedChunkMemoryPool::GetUsage(size_t sz) const KANON_NOEXCEPT
 {
-  return BLOCK_SPACE(ALIGN_SIZE(sz)) * block_count_;
+  size_t ret = 0;
+  for (auto block = block_chain_; block != nullptr; block = block->next) {
+    ret += BLOCK_SPACE(ALIGN_SIZE(sz), block->chunk_num);
+  }
+  return ret;
 }
 
 size_t FixedChunkMemoryPool::GetFreeChunkNum(size_t sz) const KANON_NOEXCEPT
@@ -117,11 +121,12 @@ size_t FixedChunkMemoryPool::GetFreeChunkNum(size_t sz) const KANON_NOEXCEPT
 auto FixedChunkMemoryPool::AllocBlock(size_t sz) -> Chunk*
 {
   assert(CHECK_ALIGNED(sz));
-  auto header = reinterpret_cast<Block*>(malloc(BLOCK_SPACE(sz)));
+  auto header = reinterpret_cast<Block*>(malloc(BLOCK_SPACE(sz, chunk_per_block_)));
   if (!header) return nullptr;
   
   /* Link the block */
   header->next = block_chain_;
+  header->chunk_num = chunk_per_block_;
   block_chain_ = header;
 
   free_chunk_header_ = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(header)+sizeof(Block));
@@ -147,7 +152,7 @@ bool FixedChunkMemoryPool::IsBlockFree(Block *block, size_t sz)
 #else
   assert(CHECK_ALIGNED(sz));
   auto chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(block) + sizeof(Block));
-  for (size_t i = 0; i < chunk_per_block_; ++i) {
+  for (size_t i = 0; i < block->chunk_num; ++i) {
     if (chunk_iter->status == ALLOCATED)
       return false;
     chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(chunk_iter) + CHUNK_NEXT_OFFSET + sz);
@@ -161,7 +166,7 @@ size_t FixedChunkMemoryPool::GetFreeChunkNumInBlock(Block *block, size_t sz) con
   assert(CHECK_ALIGNED(sz));
   auto chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(block) + sizeof(Block));
   size_t ret = 0;
-  for (size_t i = 0; i < chunk_per_block_; ++i) {
+  for (size_t i = 0; i < block->chunk_num; ++i) {
     if (chunk_iter->status == FREE)
       ret++;
     chunk_iter = reinterpret_cast<Chunk*>(reinterpret_cast<char*>(chunk_iter) + CHUNK_NEXT_OFFSET + sz);
diff --git a/kanon/mem/fixed_chunk_memory_pool.h b/kanon/mem/fixed_chunk_memory_pool.h
index c389d66..7e58b09 100644
--- a/kanon/mem/fixed_chunk_memory_pool.h
+++ b/kanon/mem/fixed_chunk_memory_pool.h
@@ -48,6 +48,7 @@ class FixedChunkMemoryPool {
 
   struct Block {
     Block *next;
+    size_t chunk_num; // chunk_per_block_ may be changed afterwards
   };
 
   static KANON_CORE_NO_API constexpr size_t chunk_next_space =
-- 
2.43.0


From edb063463bef3d07f48a13b846e7cc518961c16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 024/140] fix: ShutdownWrite sends what is accepted before it,
 then FIN

---
 kanon/net/connection/connection_base.cc | 29 ++++++++++++++++---------
 kanon/net/connection/connection_base.h  |  6 ++++-
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 103e481..2e5f590 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -254,7 +254,7 @@ void ConnectionBase<D>::HandleLtWrite()
       // need write(channel_->IsWriting()) to kernel space, delay the shutdown()
       // to here
       if (state_ == kDisconnecting) {
-        ShutdownWrite();
+        socket_->ShutdownWrite();
       }
     }
   }
@@ -368,18 +368,27 @@ void ConnectionBase<D>::HandleClose()
 template <typename D>
 void ConnectionBase<D>::ShutdownWrite() KANON_NOEXCEPT
 {
+  if (state_ == kConnected) {
+    // The state must be changed in the loop: the messages sent before this
+    // maybe also wait in the loop
+    loop_->RunInLoop(std::bind(&ConnectionBase<D>::ShutdownWriteInLoop,
+                               this->shared_from_this()));
+  }
+}
+
+template <typename D>
+void ConnectionBase<D>::ShutdownWriteInLoop()
+{
+  loop_->AssertInThread();
   if (state_ == kConnected) {
     state_ = kDisconnecting;
 
-    // Pass raw pointer is safe.
-    loop_->RunInLoop([this]() {
-      // If channel is writing state, we need write all message to
-      // the buffer in kernel space, in case peer half-close can
-      // also receive message
-      if (!channel_->IsWriting() || loop_->IsEdgeTriggerMode()) {
-        socket_->ShutdownWrite();
-      }
-    });
+    // If there are some message in the output buffer, we need write all
+    // message to the buffer in kernel space, in case peer half-close can
+    // also receive message
+    if (!output_buffer_.HasReadable()) {
+      socket_->ShutdownWrite();
+    }
   }
 }
 
diff --git a/kanon/net/connection/connection_base.h b/kanon/net/connection/connection_base.h
index e25cac7..657c70b 100644
--- a/kanon/net/connection/connection_base.h
+++ b/kanon/net/connection/connection_base.h
@@ -1,6 +1,7 @@
 #ifndef KANON_NET_CONNECTION_BASE_H
 #define KANON_NET_CONNECTION_BASE_H
 
+#include <atomic>
 #include <memory>
 
 #include "kanon/util/noncopyable.h"
@@ -236,6 +237,8 @@ class ConnectionBase
   void HandleError();
   void HandleClose();
 
+  void ShutdownWriteInLoop();
+
   void CallWriteCompleteCallback();
   void SendInLoop(void const *data, size_t len);
   void SendInLoop(StringView data);
@@ -302,7 +305,8 @@ class ConnectionBase
    * about a specific connnection(So, it named context)
    */
   RawAny context_;
-  State state_; //!< Internal useage
+  /* Written in the loop only, but also read by other threads */
+  std::atomic<State> state_; //!< Internal useage
 
 #ifdef KANON_ON_WIN
  public:
-- 
2.43.0


From 115f5ad10e8899ddaaf2abcd6929a26a9db0685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 025/140] fix: a connection closed already ignores a queued
 ForceClose

---
 kanon/net/connection/connection_base.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 2e5f590..e40dcbc 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -344,7 +344,8 @@ void ConnectionBase<D>::HandleClose()
   loop_->AssertInThread();
   // Connected ==> read event handling
   // Disconnecting ==> call ForceClose()
-  assert(state_ == kConnected || state_ == kDisconnecting);
+  // Disconnected ==> ForceClose() is queued but closed already
+  if (state_ == kDisconnected) return;
   state_ = kDisconnected;
 
   LOG_DEBUG_KANON << "The connection [" << name_ << "] is disconnected";
@@ -399,8 +400,6 @@ void ConnectionBase<D>::ForceClose() KANON_NOEXCEPT
   // disconnected,
   // ForceClose() do nothing.
   if (state_ == kConnected || state_ == kDisconnecting) {
-    state_ = kDisconnecting;
-
     loop_->RunInLoop(
         std::bind(&ConnectionBase<D>::HandleClose, this->shared_from_this()));
   }
-- 
2.43.0


From 59e62bbdfe77937fb9bf665e0287f47e9523b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 026/140] fix: Send(InputBuffer&) queues what the socket
 doesn't take at all

---
 .../linux/net/connection/connection_base.inl  | 49 +------------------
 1 file changed, 1 insertion(+), 48 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 0435bc0..8d808fc 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -47,54 +47,7 @@ void ConnectionBase<D>::SendInLoopForBuf(InputBuffer &buffer)
     return;
   }
 
-  // if (!channel_->IsWriting() && !output_buffer_.HasReadable()) {
-  if (!output_buffer_.HasReadable()) {
-    // output_buffer_.swap(buffer);
-
-    // auto n = sock::Write(
-    //   channel_->GetFd(),
-    //   output_buffer_.ToStringView().data(),
-    //   output_buffer_.GetReadableSize());
-
-    output_buffer_.Append(buffer.ToStringView());
-    int saved_errno = 0;
-    auto n = ChunkListWriteFd(output_buffer_, channel_->GetFd(), saved_errno);
-
-    if (saved_errno && saved_errno != EAGAIN) {
-      LOG_SYSERROR_KANON << "write unexpected error occurred";
-    }
-
-    if (n > 0) {
-      LOG_TRACE_KANON << "Write length = " << n;
-      output_buffer_.AdvanceRead(n);
-      if (output_buffer_.HasReadable()) {
-#ifdef PRINT_REMAIN
-        LOG_TRACE_KANON << "Remaining length = "
-                        << output_buffer_.GetReadableSize();
-#endif
-
-        if (output_buffer_.GetReadableSize() >= high_water_mark_ &&
-            high_water_mark_callback_)
-        {
-          loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                       this->shared_from_this(),
-                                       output_buffer_.GetReadableSize()));
-        }
-        channel_->EnableWriting();
-      } else {
-        if (write_complete_callback_) {
-          loop_->QueueToLoop(
-              std::bind(write_complete_callback_, this->shared_from_this()));
-        }
-
-        if (channel_->IsWriting()) {
-          channel_->DisableWriting();
-        }
-      }
-    }
-  } else {
-    SendInLoop(buffer.ToStringView());
-  }
+  SendInLoop(buffer.ToStringView());
 }
 
 template <typename D>
-- 
2.43.0


From a281e355751f483b618f724fac0998e0c3f05980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 027/140] fix: Send(data, len) keeps the message when the
 socket is full

---
 kanon/linux/net/connection/connection_base.inl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 8d808fc..b95e7f0 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -210,9 +210,12 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
         return;
       }
     } else {
-      if (errno != EAGAIN) // EWOULDBLOCK
+      if (errno != EAGAIN && errno != EINTR) { // EWOULDBLOCK
         LOG_SYSERROR_KANON << "write unexpected error occurred";
-      return;
+        return;
+      }
+      // The socket takes nothing now, store all of them
+      n = 0;
     }
   }
 
-- 
2.43.0


From 4c6f2fd17556dc236a340dbc052197f475119319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 028/140] fix: Send(OutputBuffer&) keeps the order and waits
 for the socket

---
 .../linux/net/connection/connection_base.inl  | 63 +++++++++++--------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index b95e7f0..0a6b2b6 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -64,36 +64,26 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
   //     "The Send() for ChunkList must be called when output_buffer_ is
   //     empty");
 
-  int saved_errno = 0;
-  auto write_n = ChunkListWriteFd(buffer, channel_->GetFd(), saved_errno);
-
-  if (saved_errno && saved_errno != EAGAIN) {
-    LOG_SYSERROR_KANON << "write unexpected error occurred";
+  if (state_ != kConnected) {
+    LOG_WARN_KANON << "This connection [" << name_
+                   << "] is not connected, don't send any message";
+    return;
   }
 
-  if (write_n > 0) {
+  // The message must follow the remaining message in the output buffer
+  if (!output_buffer_.HasReadable()) {
+    int saved_errno = 0;
+    auto write_n = ChunkListWriteFd(buffer, channel_->GetFd(), saved_errno);
+
+    if (saved_errno && saved_errno != EAGAIN && saved_errno != EINTR) {
+      LOG_SYSERROR_KANON << "write unexpected error occurred";
+      return;
+    }
+
     LOG_DEBUG_KANON << "Write " << write_n << " bytes";
     buffer.AdvanceRead(write_n);
 
-    if (buffer.HasReadable()) {
-      if (high_water_mark_callback_ &&
-          buffer.GetReadableSize() > high_water_mark_)
-      {
-        loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                     this->shared_from_this(),
-                                     high_water_mark_));
-      }
-
-#if 1
-      if (output_buffer_.HasReadable()) {
-        output_buffer_.AppendChunkList(&buffer);
-      } else {
-        output_buffer_.swap(buffer);
-      }
-#else
-      output_buffer_.swap(buffer);
-#endif
-    } else {
+    if (!buffer.HasReadable()) {
       LOG_DEBUG_KANON << "Write complete";
       if (write_complete_callback_) {
         loop_->QueueToLoop(std::bind(&ConnectionBase::CallWriteCompleteCallback,
@@ -103,8 +93,31 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
       if (channel_->IsWriting()) {
         channel_->DisableWriting();
       }
+      return;
     }
   }
+
+  auto readable_len = output_buffer_.GetReadableSize();
+  auto remaining = buffer.GetReadableSize();
+
+  if (high_water_mark_callback_ &&
+      readable_len + remaining >= high_water_mark_ &&
+      readable_len < high_water_mark_)
+  {
+    loop_->QueueToLoop(std::bind(high_water_mark_callback_,
+                                 this->shared_from_this(),
+                                 readable_len + remaining));
+  }
+
+  if (readable_len > 0) {
+    output_buffer_.AppendChunkList(&buffer);
+  } else {
+    output_buffer_.swap(buffer);
+  }
+
+  if (remaining > 0 && !channel_->IsWriting()) {
+    channel_->EnableWriting();
+  }
 }
 
 template <typename D>
-- 
2.43.0


From 0c3bbc8096b844fa5918ee14c4a305ed89b48fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 029/140] fix: write complete callback keeps the pending
 message and the events right

---
 kanon/linux/net/connection/connection_base.inl | 14 +++++++++++---
 kanon/net/connection/connection_base.cc        | 11 +++++++++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 0a6b2b6..983eba4 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -22,9 +22,16 @@ void ConnectionBase<D>::HandleWrite()
   // 1. HandleClose() call DisableAll()
   // 2. ConnectionDestoryed() is called when connection is active
   //    (e.g. TcpServer desctroyed)
+  // 3. The read callback of the same event has sent all and disabled writing
   if (!channel_->IsWriting()) {
-    assert(state_ == kDisconnected);
-    LOG_TRACE_KANON << "This Connection: " << name_ << " is down";
+    LOG_TRACE_KANON << "This Connection: " << name_
+                    << " is down or don't need to write";
+    return;
+  }
+
+  // The write_complete_callback_ returns false but don't send any message
+  if (!output_buffer_.HasReadable()) {
+    channel_->DisableWriting();
     return;
   }
 
@@ -212,7 +219,8 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
       } else {
         if (write_complete_callback_) {
           loop_->QueueToLoop(
-              std::bind(write_complete_callback_, this->shared_from_this()));
+              std::bind(&ConnectionBase::CallWriteCompleteCallback,
+                        this->shared_from_this()));
         }
 
         if (channel_->IsWriting()) {
diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index e40dcbc..7262e15 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -263,10 +263,17 @@ void ConnectionBase<D>::HandleLtWrite()
 template <typename D>
 void ConnectionBase<D>::CallWriteCompleteCallback()
 {
-  if (write_complete_callback_(this->shared_from_this())) {
+  // New message is sent after the write complete or connection is down
+  if (output_buffer_.HasReadable() || state_ == kDisconnected) return;
+
+  // The callback maybe set other callback
+  const auto callback = write_complete_callback_;
+
+  if (!callback || callback(this->shared_from_this())) {
     LOG_TRACE_KANON << "Last chunk in the pipeline write";
     // The write_complete_callback_ maybe disable writing in the SendInLoop()
-    if (channel_->IsWriting()) {
+    // or send message that isn't written completely
+    if (channel_->IsWriting() && !output_buffer_.HasReadable()) {
       channel_->DisableWriting();
     }
   } else {
-- 
2.43.0


From 3d59f8c244bdc58b012cfa950aaa0dc222f3df13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 030/140] fix: edge-triggered write stops when all is written
 or the socket is full

---
 kanon/net/connection/connection_base.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 7262e15..7ca4795 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -288,7 +288,7 @@ void ConnectionBase<D>::HandleEtWrite()
   // The event occurred only in the:
   // 1. buffer high-watermark to low-watermark(writable)
 
-  while (true) {
+  while (output_buffer_.HasReadable()) {
     // auto writen = sock::Write(
     // channel_->GetFd(),
     // output_buffer_.GetReadBegin(),
@@ -298,21 +298,20 @@ void ConnectionBase<D>::HandleEtWrite()
     auto writen =
         ChunkListWriteFd(output_buffer_, channel_->GetFd(), saved_errno);
 
+    if (saved_errno == EINTR) continue;
+
     if (saved_errno) {
       if (saved_errno != EAGAIN) {
         LOG_SYSERROR_KANON << "Write event handle error";
         HandleError();
       }
+      break;
     }
 
     LOG_TRACE_KANON << "Write " << writen << " bytes to [Connection: " << name_
                     << ", fd: " << channel_->GetFd() << "]";
 
     output_buffer_.AdvanceRead(writen);
-
-    if (!output_buffer_.HasReadable() && saved_errno == EAGAIN) {
-      break;
-    }
   }
 
   if (output_buffer_.HasReadable()) {
-- 
2.43.0


From 2cecd57047317dbcb30f0e1831cd44039537735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 031/140] fix: edge-triggered read ends at an error, a close or
 a disabled read

---
 kanon/net/connection/connection_base.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 7ca4795..c145976 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -152,19 +152,23 @@ void ConnectionBase<D>::HandleEtRead(TimeStamp recv_time)
   // 4. The message length is equal to 0, it dicates that peer close this
   // connection
   //    then call HandleClose() since this is passive close
-  int saved_errno = 0;
-
-  for (;;) {
+  // The message callback maybe close the connection or disable reading
+  while (channel_->IsReading()) {
+    int saved_errno = 0;
     auto readn =
         BufferReadFromFd(input_buffer_, channel_->GetFd(), saved_errno);
 
     if (saved_errno != 0) {
+      if (saved_errno == EINTR) continue;
+
       if (saved_errno != EAGAIN) {
+        errno = saved_errno;
         LOG_SYSERROR_KANON << "Read event handle error";
         HandleError();
-      } else {
-        break;
+        // There is no other event to report this
+        HandleClose();
       }
+      break;
     }
 
     LOG_DEBUG_KANON << "Read " << readn << " bytes from [Connection: " << name_
-- 
2.43.0


From 40bd3ffb906b528b9370ae39a43680ed31e62543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 032/140] fix: a connection that doesn't read doesn't call the
 message callback

---
 kanon/linux/net/connection/connection_base.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 983eba4..0d0d27d 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -6,6 +6,10 @@ template <typename D>
 void ConnectionBase<D>::HandleRead(TimeStamp recv_time)
 {
   loop_->AssertInThread();
+
+  // Other handler in the same poll has closed the connection or disabled reading
+  if (!channel_->IsReading()) return;
+
   if (loop_->IsEdgeTriggerMode()) {
     HandleEtRead(recv_time);
   } else {
-- 
2.43.0


From 0fa8f604fed53c060b3983e5506709428b19d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 033/140] fix: an interrupted read isn't an error of the
 connection

---
 kanon/net/connection/connection_base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index c145976..aff60fb 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -108,7 +108,7 @@ void ConnectionBase<D>::HandleLtRead(TimeStamp recv_time)
   if (saved_errno != 0) {
     errno = saved_errno;
 
-    if (errno != EAGAIN) {
+    if (errno != EAGAIN && errno != EINTR) {
       LOG_SYSERROR_KANON << "Read event handle error";
       HandleError();
     }
-- 
2.43.0


From 9a993383f6e523b2b5747fdb503f0267dcc70689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 034/140] fix: a connection in half-close can be destroyed

---
 kanon/net/connection/connection_base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index aff60fb..a1755ea 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -77,7 +77,7 @@ void ConnectionBase<D>::ConnectionDestroyed()
                   << " destoryed";
   // This may be called by TcpServer dtor or close_callback_(see TcpServer)
   // if close_callback_ has be called, just remove channel;
-  if (state_ == kConnected) {
+  if (state_ == kConnected || state_ == kDisconnecting) {
     channel_->DisableAll();
     state_ = kDisconnected;
 
-- 
2.43.0


From 4f2c17562bc8ab0a128e8678d2406f3c072a21fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 035/140] fix: poll(2) back end can enable a disabled channel
 and add a removed one again

---
 kanon/linux/net/poller.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kanon/linux/net/poller.cc b/kanon/linux/net/poller.cc
index 721fd45..cc23985 100644
--- a/kanon/linux/net/poller.cc
+++ b/kanon/linux/net/poller.cc
@@ -75,7 +75,7 @@ void Poller::UpdateChannel(Channel *ch)
     // because new fd is more than or equal all fd in channels_map_
     channels_map_.emplace_hint(channels_map_.end(), ch->GetFd(), ch);
     struct pollfd new_pollfd;
-    new_pollfd.fd = ch->GetFd();
+    new_pollfd.fd = ch->IsNoneEvent() ? -ch->GetFd() - 1 : ch->GetFd();
     new_pollfd.events = static_cast<short>(ch->GetEvents());
     new_pollfd.revents = 0;
 
@@ -91,14 +91,13 @@ void Poller::UpdateChannel(Channel *ch)
     assert(it->second == ch);
 
     auto index = ch->GetIndex();
-    assert(index != -1 && index <= static_cast<int>(pollfds_.size()));
+    assert(index != -1 && index < static_cast<int>(pollfds_.size()));
     auto &now_pollfd = pollfds_[index];
 
-    assert(now_pollfd.fd == ch->GetFd());
+    assert(now_pollfd.fd == ch->GetFd() || now_pollfd.fd == -ch->GetFd() - 1);
 
-    if (ch->IsNoneEvent()) {
-      now_pollfd.fd = -now_pollfd.fd - 1;
-    }
+    // poll() ignores the negative fd
+    now_pollfd.fd = ch->IsNoneEvent() ? -ch->GetFd() - 1 : ch->GetFd();
 
     now_pollfd.events = static_cast<short>(ch->GetEvents());
     now_pollfd.revents = 0;
@@ -149,6 +148,8 @@ void Poller::RemoveChannel(Channel *ch)
     }
 
     channels_map_.erase(it);
+    // The channel can be added again
+    ch->SetIndex(-1);
   }
 }
 
-- 
2.43.0


From dc286abcd2ad00919f14211a45b5444f86061176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 036/140] fix: an interrupted poll(2) isn't an error

---
 kanon/linux/net/poller.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kanon/linux/net/poller.cc b/kanon/linux/net/poller.cc
index cc23985..d76efb8 100644
--- a/kanon/linux/net/poller.cc
+++ b/kanon/linux/net/poller.cc
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <assert.h>
+#include <errno.h>
 
 #include "kanon/log/logger.h"
 #include "kanon/net/event_loop.h"
@@ -26,6 +27,7 @@ TimeStamp Poller::Poll(int ms, ChannelVec &active_channels) KANON_NOEXCEPT
 
   auto ret = ::poll(pollfds_.data(), static_cast<nfds_t>(pollfds_.size()), ms);
 
+  int saved_errno = errno;
   TimeStamp now{TimeStamp::Now()};
 
   if (ret > 0) {
@@ -54,7 +56,8 @@ TimeStamp Poller::Poll(int ms, ChannelVec &active_channels) KANON_NOEXCEPT
   } else if (ret == 0) {
     LOG_TRACE_KANON << "none events are ready";
   } else {
-    if (ret != EINTR) {
+    if (saved_errno != EINTR) {
+      errno = saved_errno;
       LOG_SYSERROR_KANON << "Poll() error occurred";
     }
   }
-- 
2.43.0


From 089315f2f6f4be4d11e2112e31a3afaf54799a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 037/140] fix: epoll(7) back end removes the channel without
 interested events

---
 kanon/linux/net/epoller.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kanon/linux/net/epoller.cc b/kanon/linux/net/epoller.cc
index 88f5c2b..92e8651 100644
--- a/kanon/linux/net/epoller.cc
+++ b/kanon/linux/net/epoller.cc
@@ -102,8 +102,13 @@ void Epoller::UpdateChannel(Channel *ch)
   int index = ch->GetIndex();
 
   if (index == kNew) {
+    if (ch->IsNoneEvent()) return;
     UpdateEpollEvent(EPOLL_CTL_ADD, ch);
     ch->SetIndex(kAdded);
+  } else if (ch->IsNoneEvent()) {
+    // EPOLLHUP and EPOLLERR are always reported if fd is in the events table
+    UpdateEpollEvent(EPOLL_CTL_DEL, ch);
+    ch->SetIndex(kNew);
   } else { // ch->GetIndex() = kAdded
     UpdateEpollEvent(EPOLL_CTL_MOD, ch);
   }
-- 
2.43.0


From 6846d1da1c61f0cd1a22b3e2ea0d8be20e26807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 038/140] fix: functors queued before StartLoop don't wait for
 an event

---
 kanon/net/event_loop.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index fdbd520..89f4315 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -225,7 +225,8 @@ void EventLoop::QueueToLoop(FunctorCallback cb)
   // ConnectionCallback) then WriteCompleteCallback continue write and register
   // it if not complete, but this is in the phase3, if we don't Wakeup(), the
   // next loop must be blocked. \see example/file_transfer/client.cc
-  if (!IsLoopInThread() || calling_functors_) {
+  // Also, the functors queued before the loop starts must not wait for an event.
+  if (!IsLoopInThread() || calling_functors_ || !looping_) {
     Wakeup();
   }
 }
-- 
2.43.0


From 4fe1853495547e77704b80b5308d23c3bae36f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 039/140] fix: the functors queued before Quit are called

---
 kanon/net/event_loop.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 89f4315..26ba4a2 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -173,6 +173,9 @@ void EventLoop::StartLoop()
     activeChannels.clear();
   }
 
+  // The functors queued before quiting must be called also
+  CallFunctors();
+
   LOG_TRACE_KANON << "EventLoop " << this << " loop stop";
 
   looping_ = false;
@@ -237,10 +240,6 @@ void EventLoop::RemoveChannel(Channel *ch) { poller_->RemoveChannel(ch); }
 
 void EventLoop::CallFunctors()
 {
-  if (quit_) {
-    return;
-  }
-
   decltype(functors_) functors;
   {
     MutexGuard dummy{lock_};
-- 
2.43.0


From 5bd91af02afc01449c8b43f05f226b5501bb103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 040/140] fix: Quit and QueueToLoop of other threads don't
 touch a loop that has ended

---
 kanon/net/event_loop.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 26ba4a2..9517bec 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -205,10 +205,9 @@ void EventLoop::RunInLoop(FunctorCallback cb)
 
 void EventLoop::QueueToLoop(FunctorCallback cb)
 {
-  {
-    MutexGuard dummy(lock_);
-    functors_.emplace_back(std::move(cb));
-  }
+  // The functor maybe ends the loop, therefore the lock is also held in Wakeup()
+  MutexGuard dummy(lock_);
+  functors_.emplace_back(std::move(cb));
 
   // If not in IO thread(async), and not event occurred, then block.
   // That's wrong, since it is expected to be called immediately.
@@ -291,9 +290,6 @@ void EventLoop::Wakeup() KANON_NOEXCEPT
 
 void EventLoop::Quit() KANON_NOEXCEPT
 {
-  if (quit_) return;
-  quit_ = true;
-
   LOG_DEBUG_KANON << "EventLoop is quiting";
 
   // If in the IO thread, call Wakeup() in Quit() is not necessary,
@@ -301,7 +297,17 @@ void EventLoop::Quit() KANON_NOEXCEPT
   // * In the loop, the only choice is timer event, but it is not blocking
   // * In the other thread, do an asynchronous call, need call Wakeup() to
   //   avoid empty poll like QueueToLoop()
-  if (!this->IsLoopInThread()) this->Wakeup();
+  if (this->IsLoopInThread()) {
+    quit_ = true;
+    return;
+  }
+
+  // StartLoop() must lock to return, so the loop can't be destroyed before
+  // Wakeup() ends
+  MutexGuard dummy(lock_);
+  if (quit_) return;
+  quit_ = true;
+  this->Wakeup();
 }
 
 TimerId EventLoop::RunAt(TimerCallback cb, TimeStamp expiration)
-- 
2.43.0


From 1b20ca35ae23a5e665385583180fd48984f6c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 041/140] fix: EventLoop closes the eventfd

---
 kanon/net/event_loop.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 9517bec..86ec449 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -148,6 +148,9 @@ EventLoop::~EventLoop()
   //     BUT! The assertion will make effect at first, and the exception
   //     information is messing.
   // assert(!looping_);
+#ifdef KANON_ON_UNIX
+  ::close(ev_channel_->GetFd());
+#endif
 }
 
 void EventLoop::StartLoop()
-- 
2.43.0


From dd684a3cc42f3d3ff9e704ccc0546487e0e1c675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 042/140] fix: TimerQueue closes the timerfd

---
 kanon/linux/net/timer/timer_queue.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 8bd68c6..6550b9c 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -128,6 +128,7 @@ TimerQueue::~TimerQueue() KANON_NOEXCEPT
   for (auto &timer_seq : timers_) {
     delete timer_seq.first;
   }
+  ::close(timer_channel_->GetFd());
 }
 
 TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
-- 
2.43.0


From 39b89997704c857ea875402207190730fd3b02ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 043/140] fix: AddTimer of other threads doesn't touch a timer
 that has expired

---
 kanon/linux/net/timer/timer_queue.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 6550b9c..2eb8fa4 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -135,6 +135,8 @@ TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
                              double interval)
 {
   Timer *timer = new Timer(std::move(cb), time, interval);
+  // The timer maybe has expired and been deleted when RunInLoop() returns
+  const TimerId id(timer);
   loop_->RunInLoop([this, timer]() {
     loop_->AssertInThread();
 
@@ -145,7 +147,7 @@ TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
     }
   });
 
-  return timer;
+  return id;
 }
 
 void TimerQueue::CancelTimer(TimerId id)
-- 
2.43.0


From 549afb2927d217cec15840d3a31f78dc145914ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 044/140] fix: default TimerId doesn't refer to any timer

---
 kanon/net/timer/timer_id.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kanon/net/timer/timer_id.h b/kanon/net/timer/timer_id.h
index 083557e..65b302d 100644
--- a/kanon/net/timer/timer_id.h
+++ b/kanon/net/timer/timer_id.h
@@ -36,9 +36,9 @@ class KANON_NET_NO_API TimerId {
   KANON_INLINE ~TimerId() = default;
 
  private:
-  Timer *timer_;
-  uint64_t seq_;
-  void *ctx_;
+  Timer *timer_ = nullptr;
+  uint64_t seq_ = UINT64_MAX;
+  void *ctx_ = nullptr;
 };
 
 //!@}
-- 
2.43.0


From f9b1231c13e80b6179f997c1131cce3464537371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 045/140] fix: CancelTimer never dereferences a deleted timer
 and releases the canceled one

---
 kanon/linux/net/timer/timer_queue.cc | 39 ++++++++++++++++------------
 kanon/linux/net/timer/timer_queue.h  | 14 ++++------
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 2eb8fa4..16d21d7 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -157,14 +157,20 @@ void TimerQueue::CancelTimer(TimerId id)
   loop_->RunInLoop([this, id]() {
     loop_->AssertInThread();
 
-    const auto active_timer_iter = timers_.find({id.timer_, id.seq_});
+    // The timer maybe has been deleted, don't dereference it
+    const auto active_timer_iter = active_timers_.find(id.seq_);
 
-    if (timers_.end() != active_timer_iter) {
-      timers_.erase(active_timer_iter);
-    } else if (calling_timer_) {
-      // Self-cancel
+    if (active_timer_iter == active_timers_.end()) return;
+
+    const auto timer = active_timer_iter->second;
+
+    if (timers_.erase({timer, id.seq_}) > 0) {
+      active_timers_.erase(active_timer_iter);
+      delete timer;
+    } else {
+      // The timer has expired and is in the same batch(e.g. Self-cancel)
       // \see ProcessAllExpiredTimers()
-      canceling_timers_.emplace(id.timer_, id.seq_);
+      canceling_timers_.emplace(id.seq_);
     }
   });
 }
@@ -181,6 +187,7 @@ bool TimerQueue::Emplace(Timer *timer)
   }
 
   timers_.emplace(timer, timer->sequence());
+  active_timers_.emplace(timer->sequence(), timer);
   LOG_TRACE_KANON << "Now total timer count = " << timers_.size();
   return ret;
 }
@@ -210,6 +217,9 @@ void TimerQueue::ProcessAllExpiredTimers(TimeStamp recv_time)
   calling_timer_ = true;
 
   for (auto const &timer : expired_timers) {
+    // Canceled by the callback of other timer in the same batch
+    if (canceling_timers_.count(timer->sequence()) > 0) continue;
+
     try {
       timer->run();
     }
@@ -266,17 +276,14 @@ void TimerQueue::ResetTimers(TimerVector &expireds, TimeStamp now)
   Timer *next_expire{nullptr};
 
   for (auto &timer : expireds) {
-    if (timer->repeat()) {
-      // If timer is repeat, we should restart it
-      // but if it in such case as self-cancel,
-      // we shouldn't restart it and do nothing.
-      if (canceling_timers_.find({timer, timer->sequence()}) ==
-          canceling_timers_.end())
-      {
-        timer->restart(now);
-        Emplace(timer);
-      }
+    // If timer is repeat, we should restart it
+    // but if it in such case as self-cancel,
+    // we shouldn't restart it.
+    if (timer->repeat() && canceling_timers_.count(timer->sequence()) == 0) {
+      timer->restart(now);
+      Emplace(timer);
     } else {
+      active_timers_.erase(timer->sequence());
       delete timer;
     }
   }
diff --git a/kanon/linux/net/timer/timer_queue.h b/kanon/linux/net/timer/timer_queue.h
index 909db52..460cc1b 100644
--- a/kanon/linux/net/timer/timer_queue.h
+++ b/kanon/linux/net/timer/timer_queue.h
@@ -4,6 +4,7 @@
 #include "kanon/net/timer/itimer_queue_platform.h"
 
 #include <set>
+#include <unordered_map>
 #include <unordered_set>
 #include "kanon/util/ptr.h"
 #include "kanon/util/time_stamp.h"
@@ -178,16 +179,11 @@ class TimerQueue : public ITimerQueuePlatform {
    * The all timers are not reset, and before the next phase of
    * calling callback will be cleared.
    */
-  struct TimerEntryHash {
-    KANON_INLINE uint64_t operator()(TimerEntry const &x) const KANON_NOEXCEPT
-    {
-      return XXH64(&x.first, sizeof x.first, time(NULL)) ^
-             (XXH64(&x.second, sizeof x.second, time(NULL)) << 1);
-    }
-  };
-
-  std::unordered_set<TimerEntry, TimerEntryHash>
+  std::unordered_set<uint64_t>
       canceling_timers_; //!< Store the self-cancel timer to avoid reset
+
+  /** The timers that are not deleted, no matter whether it is in timers_ */
+  std::unordered_map<uint64_t, TimerPtr> active_timers_;
 };
 } // namespace kanon
 
-- 
2.43.0


From 555f5ddaf20ed12b89fc85c91a7dbab8def24418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 046/140] fix: EventLoopThread joins the thread and doesn't
 touch a loop that has quited

---
 kanon/net/event_loop_thread.cc | 17 ++++++++++++-----
 kanon/net/event_loop_thread.h  |  4 +++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/kanon/net/event_loop_thread.cc b/kanon/net/event_loop_thread.cc
index c4407be..00ff72e 100644
--- a/kanon/net/event_loop_thread.cc
+++ b/kanon/net/event_loop_thread.cc
@@ -6,6 +6,7 @@ using namespace kanon;
 
 EventLoopThread::EventLoopThread(std::string const &name)
   : loop_{nullptr}
+  , started_{false}
   , mutex_{}
   , cond_{mutex_}
   , thr_{name}
@@ -16,10 +17,13 @@ EventLoopThread::~EventLoopThread() KANON_NOEXCEPT
 {
   // if Quit() is not called through pointer return from StartRun()
   // we should call quit explicitly
-  if (loop_ != nullptr) {
-    loop_->Quit();
-    thr_.Join(); // wait loop quiting
+  {
+    // The loop isn't destroyed when mutex_ is locked
+    MutexGuard guard{mutex_};
+    if (!started_) return;
+    if (loop_ != nullptr) loop_.load()->Quit();
   }
+  thr_.Join(); // wait loop quiting
 }
 
 EventLoop *EventLoopThread::StartRun(ThreadInitCallback const &init_cb)
@@ -30,7 +34,8 @@ EventLoop *EventLoopThread::StartRun(ThreadInitCallback const &init_cb)
 
   {
     MutexGuard guard{mutex_};
-    while (loop_ == nullptr) {
+    // The loop maybe has quited
+    while (!started_) {
       cond_.Wait();
     }
   }
@@ -46,12 +51,14 @@ void EventLoopThread::BackGroundStartLoop(ThreadInitCallback const &init_cb)
   {
     MutexGuard guard{mutex_};
     loop_ = &loop;
+    started_ = true;
     cond_.Notify();
   }
 
   // Maybe quit before StartLoop() be called,
   // but it is harmless.
-  loop_->StartLoop();
+  loop.StartLoop();
 
+  MutexGuard guard{mutex_};
   loop_ = nullptr;
 }
diff --git a/kanon/net/event_loop_thread.h b/kanon/net/event_loop_thread.h
index 33a52c5..0e78819 100644
--- a/kanon/net/event_loop_thread.h
+++ b/kanon/net/event_loop_thread.h
@@ -1,6 +1,7 @@
 #ifndef KANON_EVENTLOOP_THREAD_H
 #define KANON_EVENTLOOP_THREAD_H
 
+#include <atomic>
 #include <string>
 
 #include "kanon/thread/condition.h"
@@ -45,7 +46,8 @@ class EventLoopThread : noncopyable {
   // Start loop in background thread(IO thread usually)
   KANON_NET_NO_API void BackGroundStartLoop(ThreadInitCallback const &init_cb);
 
-  EventLoop *loop_;
+  std::atomic<EventLoop *> loop_;
+  bool started_; //!< Whether loop_ is set, guarded by mutex_
 
   MutexLock mutex_;
   Condition cond_ GUARDED_BY(mutex_);
-- 
2.43.0


From 1d9bd3b59ec752c1fe443de2161bb9eb4b8895fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 047/140] fix: EventLoopPool that isn't started can be
 destroyed

---
 kanon/net/event_loop_pool.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/net/event_loop_pool.cc b/kanon/net/event_loop_pool.cc
index 3a1db11..1b81354 100644
--- a/kanon/net/event_loop_pool.cc
+++ b/kanon/net/event_loop_pool.cc
@@ -19,7 +19,8 @@ EventLoopPool::EventLoopPool(EventLoop *base_loop, std::string const &name)
 {
 }
 
-EventLoopPool::~EventLoopPool() KANON_NOEXCEPT { assert(started_); }
+// The pool maybe is not started(e.g. TcpServer is destroyed before StartRun())
+EventLoopPool::~EventLoopPool() KANON_NOEXCEPT {}
 
 void EventLoopPool::StartRun(ThreadInitCallback const &cb)
 {
-- 
2.43.0


From 2881bfc703d9fde5a069d26149efd576ba1b698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 048/140] fix: Connector can be stopped, restarted or destroyed
 at any time

---
 kanon/linux/net/connector.cc | 135 ++++++++++++++++++++---------------
 kanon/net/connector.cc       |  38 ++++++----
 kanon/net/connector.h        |  10 +++
 3 files changed, 110 insertions(+), 73 deletions(-)

diff --git a/kanon/linux/net/connector.cc b/kanon/linux/net/connector.cc
index cab1787..1c7b74e 100644
--- a/kanon/linux/net/connector.cc
+++ b/kanon/linux/net/connector.cc
@@ -76,69 +76,88 @@ void Connector::CompleteConnect(FdType sockfd)
   assert(!channel_);
   channel_ = kanon::make_unique<Channel>(loop_, sockfd);
 
-  channel_->SetWriteCallback([this]() {
-    FdType sockfd = channel_->GetFd();
-    // NOTICE:
-    // OUT maybe occurs with ERR(and HUP).
-    // Therefore, the error callback is called before this,
-    // use state to distinguish them.
-    if (state_ == State::kConnecting) {
-      ResetChannel();
-      int err = sock::GetSocketError(sockfd);
-
-      if (err) {
-        // Fatal errors have handled in Connect()
-        LOG_WARN_KANON << "SO_ERROR = " << err << " " << strerror_tl(err);
-        Retry(sockfd);
-      } else if (sock::IsSelfConnect(sockfd)) {
-        // Self connection happend only when:
-        // 1. The IP of client is same with server
-        // 2. The port is a ephemeral port(selected by client kernel)
-        // 3. Only occrurs in three-way shake initailization
-        //
-        // The self connection is so strange and hard to debug it.
-        // We should refuse it.
-        //
-        // \see /proc/sys/net/ipv4/ip_local_port_range
-        // \see
-        // https://github.com/pirDOL/kaka/blob/master/Miscellaneous/TCP-client-self-connect.md
-        LOG_WARN_KANON << "self connect";
-        // Discard the client address and retry
-        // until self connection is skipped
-        Retry(sockfd);
-      } else {
-        // new_connection_callback should be seted by client
-        SetState(State::kConnected);
-
-        if (connect_) {
-          if (new_connection_callback_)
-            new_connection_callback_(sockfd);
-          else {
-            LOG_WARN_KANON << "There is no new connection callback, cannot to create "
-                        "connection";
-          }
-          LOG_TRACE_KANON << "Connection is established successfully";
-        } else {
-          // Must after Stop() is called
-          LOG_WARN_KANON << "Cannot to complete connect since user stop it";
-          sock::Close(sockfd);
-        }
-      }
+  // The connector maybe is destroyed or stopped(and connects again)
+  // in the same event handling phase
+  std::weak_ptr<Connector> wself = shared_from_this();
+  Channel *channel = channel_.get();
+
+  channel_->SetWriteCallback([wself, channel, sockfd]() {
+    auto self = wself.lock();
+    if (self && self->channel_.get() == channel) {
+      self->HandleConnectComplete(sockfd);
     }
   });
 
-  channel_->SetErrorCallback([this]() {
-    if (state_ == State::kConnecting) {
-      FdType sockfd = channel_->GetFd();
-      ResetChannel();
-      int err = sock::GetSocketError(sockfd);
-      if (err) {
-        LOG_ERROR_KANON << "SO_ERROR = " << err << " " << strerror_tl(err);
-      }
-
-      Retry(sockfd);
+  channel_->SetErrorCallback([wself, channel, sockfd]() {
+    auto self = wself.lock();
+    if (self && self->channel_.get() == channel) {
+      self->HandleConnectError(sockfd);
     }
   });
 
   channel_->EnableWriting();
 }
+
+void Connector::HandleConnectComplete(FdType sockfd)
+{
+  // NOTICE:
+  // OUT maybe occurs with ERR(and HUP).
+  // Therefore, the error callback is called before this,
+  // use state to distinguish them.
+  if (state_ == State::kConnecting) {
+    ResetChannel();
+    int err = sock::GetSocketError(sockfd);
+
+    if (err) {
+      // Fatal errors have handled in Connect()
+      LOG_WARN_KANON << "SO_ERROR = " << err << " " << strerror_tl(err);
+      Retry(sockfd);
+    } else if (sock::IsSelfConnect(sockfd)) {
+      // Self connection happend only when:
+      // 1. The IP of client is same with server
+      // 2. The port is a ephemeral port(selected by client kernel)
+      // 3. Only occrurs in three-way shake initailization
+      //
+      // The self connection is so strange and hard to debug it.
+      // We should refuse it.
+      //
+      // \see /proc/sys/net/ipv4/ip_local_port_range
+      // \see
+      // https://github.com/pirDOL/kaka/blob/master/Miscellaneous/TCP-client-self-connect.md
+      LOG_WARN_KANON << "self connect";
+      // Discard the client address and retry
+      // until self connection is skipped
+      Retry(sockfd);
+    } else {
+      // new_connection_callback should be seted by client
+      SetState(State::kConnected);
+
+      if (connect_) {
+        if (new_connection_callback_)
+          new_connection_callback_(sockfd);
+        else {
+          LOG_WARN_KANON << "There is no new connection callback, cannot to create "
+                      "connection";
+        }
+        LOG_TRACE_KANON << "Connection is established successfully";
+      } else {
+        // Must after Stop() is called
+        LOG_WARN_KANON << "Cannot to complete connect since user stop it";
+        sock::Close(sockfd);
+      }
+    }
+  }
+}
+
+void Connector::HandleConnectError(FdType sockfd)
+{
+  if (state_ == State::kConnecting) {
+    ResetChannel();
+    int err = sock::GetSocketError(sockfd);
+    if (err) {
+      LOG_ERROR_KANON << "SO_ERROR = " << err << " " << strerror_tl(err);
+    }
+
+    Retry(sockfd);
+  }
+}
diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index 4d5a919..b3dbc26 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -30,12 +30,13 @@ Connector::~Connector() KANON_NOEXCEPT
 
 void Connector::StartRun()
 {
-  loop_->RunInLoop([this]() {
-    loop_->AssertInThread();
+  auto self = shared_from_this();
+  loop_->RunInLoop([self]() {
+    self->loop_->AssertInThread();
 
-    assert(state_ == kDisconnected);
-    if (connect_) {
-      Connect();
+    // If connecting or connected, Connect() does nothing
+    if (self->connect_) {
+      self->Connect();
     }
   });
 }
@@ -75,22 +76,24 @@ void Connector::StopInLoop()
 
 void Connector::Restrat()
 {
-  loop_->RunInLoop([this]() {
-    connect_ = true;
+  auto self = shared_from_this();
+  loop_->RunInLoop([self]() {
+    self->connect_ = true;
 
     /*
      * Can't distinguish passive close and active close
      * e.g. Connector is destroyed and restart shouldn't be thinked to close
      *      if connection is not established.
      */
-    if (state_ != kConnected) {
+    if (self->state_ != kConnected) {
       // LOG_WARN_KANON << "Restart() must be used for reconnecting when passive
       // closed by peer";
     }
-    SetState(State::kDisconnected);
-    retry_interval_ = INIT_RETRY_INTERVAL;
+    // The connecting attempt continues, it isn't replaced
+    if (self->state_ == kConnected) self->SetState(State::kDisconnected);
+    self->retry_interval_ = INIT_RETRY_INTERVAL;
 
-    StartRun();
+    self->StartRun();
   });
 }
 
@@ -107,9 +110,12 @@ void Connector::Retry(FdType sockfd)
     LOG_TRACE_KANON << "Client will reconnect to " << serv_addr_.ToIpPort()
                     << " after " << delay_sec << " seconds";
 
+    // The connector maybe is destroyed before the timer expires
+    std::weak_ptr<Connector> wself = shared_from_this();
     timer_ = loop_->RunAfter(
-        [this]() {
-          StartRun();
+        [wself]() {
+          auto self = wself.lock();
+          if (self) self->StartRun();
         },
         delay_sec);
 
@@ -129,7 +135,9 @@ void Connector::ResetChannel()
   // \warning
   // In event handle phase now if called in phase2
   // So, you can't call it immediately
-  loop_->QueueToLoop([this]() {
-    channel_.reset();
+  // The connector maybe is destroyed or connects again before phase3
+  std::shared_ptr<Channel> channel{std::move(channel_)};
+  loop_->QueueToLoop([channel]() {
+    KANON_UNUSED(channel);
   });
 }
diff --git a/kanon/net/connector.h b/kanon/net/connector.h
index 4f17a92..434f811 100644
--- a/kanon/net/connector.h
+++ b/kanon/net/connector.h
@@ -118,6 +118,16 @@ class KANON_NET_NO_API Connector
    */
   void CompleteConnect(FdType sockfd);
 
+  /**
+   * Write callback of the channel, connection is established or failed
+   */
+  void HandleConnectComplete(FdType sockfd);
+
+  /**
+   * Error callback of the channel, connection is failed
+   */
+  void HandleConnectError(FdType sockfd);
+
   /**
    * Retry to connect peer
    * Only when errno is:
-- 
2.43.0


From f7ee11bea824709944010596301c3322ccfea074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 049/140] fix: the retry interval of Connector doesn't overflow

---
 kanon/net/connector.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index b3dbc26..d45cf1f 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -119,7 +119,8 @@ void Connector::Retry(FdType sockfd)
         },
         delay_sec);
 
-    retry_interval_ *= 2;
+    retry_interval_ =
+        std::min<uint32_t>(retry_interval_ * 2, MAX_RETRY_INTERVAL);
   }
 }
 
-- 
2.43.0


From 897196c58844731afe998c95a4848b5c11c6bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 050/140] fix: Connector keeps at most one retry timer

---
 kanon/linux/net/connector.cc |  3 +++
 kanon/net/connector.cc       | 10 +++++++++-
 kanon/net/connector.h        |  5 +++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/kanon/linux/net/connector.cc b/kanon/linux/net/connector.cc
index 1c7b74e..038dffc 100644
--- a/kanon/linux/net/connector.cc
+++ b/kanon/linux/net/connector.cc
@@ -12,6 +12,9 @@ void Connector::Connect()
   /* Avoid call StartRun when connection in connecting or connected */
   if (state_ != kDisconnected) return;
 
+  // There is at most one pending retry
+  CancelRetry();
+
   FdType sockfd = sock::CreateNonBlockAndCloExecSocket(!serv_addr_.IsIpv4());
   // Poll to check connection if is established
   // If connection is established, we call CompleteConnect() to register write
diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index d45cf1f..b649aea 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -62,7 +62,7 @@ void Connector::StopInLoop()
   LOG_TRACE_KANON << "Connector is stopping";
 
   connect_ = false;
-  if (timer_) loop_->CancelTimer(*timer_);
+  CancelRetry();
 
   if (state_ == State::kConnecting) {
     // Only be called when connecting,
@@ -124,6 +124,14 @@ void Connector::Retry(FdType sockfd)
   }
 }
 
+void Connector::CancelRetry()
+{
+  if (timer_) {
+    loop_->CancelTimer(*timer_);
+    timer_ = kanon::optional<TimerId>{};
+  }
+}
+
 void Connector::ResetChannel()
 {
   // Ensure this is called in loop
diff --git a/kanon/net/connector.h b/kanon/net/connector.h
index 434f811..538c9b2 100644
--- a/kanon/net/connector.h
+++ b/kanon/net/connector.h
@@ -150,6 +150,11 @@ class KANON_NET_NO_API Connector
 
   void StopInLoop();
 
+  /**
+   * Cancel the retry timer if exists
+   */
+  void CancelRetry();
+
   EventLoop *loop_;
   InetAddr serv_addr_;
   uint32_t retry_interval_; //!< Time interval of retry connect
-- 
2.43.0


From 0b5cddc1616ef5e3ac052069da8528375d44beae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 051/140] fix: a connected socket nobody takes is closed

---
 kanon/linux/net/connector.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kanon/linux/net/connector.cc b/kanon/linux/net/connector.cc
index 038dffc..bb7e8aa 100644
--- a/kanon/linux/net/connector.cc
+++ b/kanon/linux/net/connector.cc
@@ -141,6 +141,7 @@ void Connector::HandleConnectComplete(FdType sockfd)
         else {
           LOG_WARN_KANON << "There is no new connection callback, cannot to create "
                       "connection";
+          sock::Close(sockfd);
         }
         LOG_TRACE_KANON << "Connection is established successfully";
       } else {
-- 
2.43.0


From e7bbe9911f10957eb133f10a5548a3cffcd287e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 052/140] fix: TcpClient closes the socket it doesn't take

---
 kanon/net/tcp_client.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index 89a5e61..ed1599a 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -110,7 +110,11 @@ void TcpClient::NewConnection(FdType sockfd, InetAddr const &serv_addr,
   /* Avoid reference cycle */
   auto cli = wcli.lock();
 
-  if (!cli || cli->conn_) return;
+  if (!cli || cli->conn_) {
+    // Nobody takes the socket
+    sock::Close(sockfd);
+    return;
+  }
 
   LOG_DEBUG_KANON << "cli sc = " << cli.use_count();
 
-- 
2.43.0


From 36c13fad8087870a40b2289ce98ffa7ce427bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 053/140] fix: the connection of a destroyed TcpClient is
 removed from the loop

---
 kanon/net/tcp_client.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index ed1599a..c8d1fcc 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -180,6 +180,10 @@ void TcpClient::CloseConnectionHandler(std::weak_ptr<TcpClient> const &wp_cli,
 {
   auto cli = wp_cli.lock();
   if (!cli) {
+    // The client is destroyed, but the channel must be removed also
+    conn->GetLoop()->QueueToLoop([conn]() {
+      conn->ConnectionDestroyed();
+    });
     return;
   }
 
-- 
2.43.0


From 9166115348d8d54ea2eeaed697ef2cb2d78bffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 054/140] fix: the connection of a destroyed TcpClient isn't
 lost when the loop refers to it

---
 kanon/net/event_loop.cc |  2 ++
 kanon/net/tcp_client.cc | 39 +++++++++++++++++++++++++++++++--------
 kanon/net/tcp_client.h  |  4 ++++
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 86ec449..98ecfdd 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -253,6 +253,8 @@ void EventLoop::CallFunctors()
     try {
       if (KANON_LIKELY(func)) {
         func();
+        // Release the resource hold by the functor early
+        func = nullptr;
       }
     }
     catch (std::exception const &ex) {
diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index c8d1fcc..10f0f23 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -44,16 +44,11 @@ TcpClient::~TcpClient() KANON_NOEXCEPT
   {
     MutexGuard guard{mutex_};
 
-    is_unique = (conn_.use_count() == 1); // not atomic
-
     // To write or read conn_ is not thread-safe,
-    // we can copy it first, for the duplication,
+    // we can move it first, for the moved one,
     // it is thread-safe.
-    // Because conn_ if is not released, conn also.
-    // In the following operations, it is also alive
-    // since ref count is not 0(i.e. pinned). Otherwise,
-    // conn is released. we can't access it.
-    conn = conn_;
+    conn = std::move(conn_);
+    is_unique = (conn.use_count() == 1); // not atomic
   }
 
   LOG_INFO << "is_unique: " << is_unique;
@@ -65,6 +60,11 @@ TcpClient::~TcpClient() KANON_NOEXCEPT
     // may be other thread using it
     if (is_unique) {
       conn->ForceClose();
+    } else {
+      // The loop maybe refers to the connection temporarily, check it in loop
+      loop_->QueueToLoop([conn]() {
+        TcpClient::ReleaseConnection(conn);
+      });
     }
   } else {
     // Disable the connector
@@ -160,6 +160,29 @@ TcpClientPtr kanon::NewTcpClient(EventLoop *loop, InetAddr const &serv_addr,
   return ret;
 }
 
+void TcpClient::ReleaseConnection(TcpConnectionPtr const &conn)
+{
+  // Note: conn is the member of functor in the loop
+
+  // ConnectionDestroyed() has queued
+  if (conn->IsDisconnected()) return;
+
+  if (conn.use_count() == 1) {
+    conn->ForceClose();
+    return;
+  }
+
+  // User closes the connection. The loop handles the events of connection
+  // until it is closed, keep it alive even though user releases it early.
+  conn->SetCloseCallback([conn](TcpConnectionPtr const &) {
+    auto const &alive_conn = conn;
+    conn->GetLoop()->QueueToLoop([alive_conn]() {
+      alive_conn->SetCloseCallback(CloseCallback());
+      alive_conn->ConnectionDestroyed();
+    });
+  });
+}
+
 /*
  * Suppose `cli` is the object of `TcpClient` and `cli->conn` is the connection
  * member of it.
diff --git a/kanon/net/tcp_client.h b/kanon/net/tcp_client.h
index 0e43c1a..8e0441f 100644
--- a/kanon/net/tcp_client.h
+++ b/kanon/net/tcp_client.h
@@ -128,6 +128,10 @@ class TcpClient
   CloseConnectionHandler(std::weak_ptr<TcpClient> const &wp_cli,
                          TcpConnectionPtr const &conn);
 
+  /* Called in loop when the client is destroyed but the connection maybe is
+   * used by user */
+  KANON_NET_NO_API static void ReleaseConnection(TcpConnectionPtr const &conn);
+
   EventLoop *loop_;
   std::shared_ptr<Connector> connector_;
 
-- 
2.43.0


From 53d97cd3c814841d851bdc29d3edbfa97f042c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 055/140] fix: TcpClient can connect again after the connection
 is closed

---
 kanon/net/connector.cc  | 10 ++++++++++
 kanon/net/connector.h   |  8 ++++++++
 kanon/net/tcp_client.cc |  3 +++
 3 files changed, 21 insertions(+)

diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index b649aea..6b6e757 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -97,6 +97,16 @@ void Connector::Restrat()
   });
 }
 
+void Connector::Disconnected()
+{
+  loop_->AssertInThread();
+
+  if (state_ == kConnected) {
+    SetState(kDisconnected);
+    retry_interval_ = INIT_RETRY_INTERVAL;
+  }
+}
+
 void Connector::Retry(FdType sockfd)
 {
   loop_->AssertInThread();
diff --git a/kanon/net/connector.h b/kanon/net/connector.h
index 538c9b2..5b070d5 100644
--- a/kanon/net/connector.h
+++ b/kanon/net/connector.h
@@ -92,6 +92,14 @@ class KANON_NET_NO_API Connector
    */
   void Restrat();
 
+  /**
+   * \brief The established connection is down
+   *
+   * StartRun() can be called to connect again
+   * \note Not thread safe, must be called in loop
+   */
+  void Disconnected();
+
   void SetNewConnectionCallback(NewConnectionCallback cb) KANON_NOEXCEPT
   {
     new_connection_callback_ = std::move(cb);
diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index 10f0f23..4ffd02c 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -232,5 +232,8 @@ void TcpClient::CloseConnectionHandler(std::weak_ptr<TcpClient> const &wp_cli,
   // support restart when passive close occurred
   if (cli->retry_) {
     cli->connector_->Restrat();
+  } else {
+    // User can call Connect() to connect again
+    cli->connector_->Disconnected();
   }
 }
-- 
2.43.0


From ddff8620bf9549f8d2e5a16a3d4e02ca4ac90be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 056/140] fix: accept errors of a client don't end the process

---
 kanon/linux/net/sock_api.cc | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/kanon/linux/net/sock_api.cc b/kanon/linux/net/sock_api.cc
index 5fe07b3..0dfbe9c 100644
--- a/kanon/linux/net/sock_api.cc
+++ b/kanon/linux/net/sock_api.cc
@@ -47,28 +47,42 @@ FdType sock::Accept(FdType fd, sockaddr_in6 *addr) KANON_NOEXCEPT
       ::accept4(fd, sock::to_sockaddr(addr), &socklen, O_NONBLOCK | O_CLOEXEC);
 #endif
   if (cli_sock < 0) {
-    switch (errno) {
+    // The caller checks the errno
+    const int saved_errno = errno;
+    switch (saved_errno) {
       case EAGAIN: // In linux, EAGAIN = EWOULDBLOCK
+        break;
       case ECONNABORTED:
       case EINTR:
       case EMFILE: // per-process limit on the number of open fd has been
                    // reached
+      case ENFILE: // system-wide limit
+      case ENOBUFS:
+      case ENOMEM:
+      case EPERM: // Firewall rules
+      // The pending network errors of the new socket(\see man accept)
+      case EPROTO:
+      case ENETDOWN:
+      case ENOPROTOOPT:
+      case EHOSTDOWN:
+      case ENONET:
+      case EHOSTUNREACH:
+      case EOPNOTSUPP:
+      case ENETUNREACH:
+      case ETIMEDOUT:
         LOG_SYSERROR_KANON << "accept() expected error occurred";
         break;
+      case EBADF:
       case EFAULT:
       case EINVAL:
-      case ENFILE:
       case ENOTSOCK:
-      case EOPNOTSUPP:
-      case EPROTO:
-      case ENOBUFS:
-      case ENOMEM:
         LOG_SYSFATAL << "accept() unexpected error occurred";
         break;
       default:
         LOG_SYSFATAL << "accept() unknown error occurred";
         break;
     }
+    errno = saved_errno;
   }
   return cli_sock;
 }
-- 
2.43.0


From 702d38ba0ca010f3f3cb0bff97b6cbfb4017ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 057/140] fix: Acceptor accepts all the waiting clients in
 edge-triggered mode

---
 kanon/net/acceptor.cc | 32 +++++++++++++++++++++++---------
 kanon/net/acceptor.h  |  5 +++++
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/kanon/net/acceptor.cc b/kanon/net/acceptor.cc
index 7aa0192..1ab3565 100644
--- a/kanon/net/acceptor.cc
+++ b/kanon/net/acceptor.cc
@@ -26,6 +26,24 @@ Acceptor::Acceptor(EventLoop *loop, InetAddr const &addr, bool reuseport)
     KANON_UNUSED(stamp);
     loop_->AssertInThread();
 
+    HandleAccept();
+  });
+
+  // Can't call Channel::EnableReading() in the ctor
+  // Construct a server in the other loop is allowed.
+  // e.g.
+  // EventLoopThread loop_thr;
+  // TcpServer server(loop_thr.StartRun(), addr); // Oops!
+  // server.StartRun();
+}
+
+void Acceptor::HandleAccept()
+{
+  bool again = true;
+
+  // In the edge trigger mode, no event is reported for the clients in the
+  // queue already
+  do {
     InetAddr cli_addr;
     auto cli_fd = socket_.Accpet(cli_addr);
 
@@ -37,17 +55,20 @@ Acceptor::Acceptor(EventLoop *loop, InetAddr const &addr, bool reuseport)
         sock::Close(cli_fd);
       }
     } else {
+      again = errno != EAGAIN && errno != ENOBUFS && errno != ENOMEM;
+
       // if process limited open fd has reached,
       // os also accept this fd and put to wait queue
       // since we take level trigger policy,
       // so it will cause busy loop
       // so we should use dummy fd to accept and close it
-      if (errno == EMFILE) {
+      if (errno == EMFILE || errno == ENFILE) {
 // first close dummy fd, leave a space for fd in wait queue
 #ifdef KANON_ON_UNIX
         ::close(dummyfd_);
         // accept the fd
         dummyfd_ = ::accept(socket_.GetFd(), NULL, NULL);
+        again = dummyfd_ >= 0;
         ::close(dummyfd_);
         // create new dummy fd to use after
         dummyfd_ = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
@@ -56,14 +77,7 @@ Acceptor::Acceptor(EventLoop *loop, InetAddr const &addr, bool reuseport)
 
       // We don't handle error since sock::Accept() has handled
     }
-  });
-
-  // Can't call Channel::EnableReading() in the ctor
-  // Construct a server in the other loop is allowed.
-  // e.g.
-  // EventLoopThread loop_thr;
-  // TcpServer server(loop_thr.StartRun(), addr); // Oops!
-  // server.StartRun();
+  } while (again && loop_->IsEdgeTriggerMode());
 }
 
 Acceptor::~Acceptor() KANON_NOEXCEPT
diff --git a/kanon/net/acceptor.h b/kanon/net/acceptor.h
index 6c4f377..b23a459 100644
--- a/kanon/net/acceptor.h
+++ b/kanon/net/acceptor.h
@@ -73,6 +73,11 @@ class KANON_NET_NO_API Acceptor : noncopyable {
   }
 
  private:
+  /**
+   * \brief Read callback of the channel
+   */
+  void HandleAccept();
+
   EventLoop *loop_; //!< Ensure "One loop per thread"
   Socket socket_;   //!< Accept socket
   Channel channel_; //!< Accept channel
-- 
2.43.0


From 2cb67e033d81f0ceabf2805763bf67203a63eb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 058/140] fix: TcpServer starts once even if StartRun() is
 called by many threads

---
 kanon/net/tcp_server.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 6324dfc..2afdce7 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -193,7 +193,7 @@ void TcpServer::StartRun() KANON_NOEXCEPT
   // If the other thread also call this function,
   // may be call this more than once.
   // EventLoopPool::StartRun() can only be called once
-  if (!start_once_) {
+  if (!start_once_.exchange(true)) {
     // start IO loop
     loop_->RunInLoop([this]() {
       // Boot the loop pool in the binded loop
@@ -213,7 +213,6 @@ void TcpServer::StartRun() KANON_NOEXCEPT
       pool_->StartRun(init_cb_);
       LOG_INFO_KANON << name_ << " is listening in " << ip_port_;
       acceptor_->Listen();
-      start_once_ = true;
     });
   }
 }
-- 
2.43.0


From 7fe12d89c652df3f7326ffcb5f9be76f58f5f4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 059/140] fix: ApplyAllPeers can close the connections

---
 kanon/net/tcp_server.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 2afdce7..6e32967 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -13,6 +13,7 @@
 
 #include <signal.h>
 #include <atomic>
+#include <vector>
 
 using namespace kanon;
 
@@ -221,8 +222,17 @@ bool TcpServer::IsRunning() KANON_NOEXCEPT { return acceptor_->Listening(); }
 
 void TcpServer::ApplyAllPeers(ConnApplyCb cb)
 {
-  MutexGuard gaurd(lock_conn_);
-  for (auto &name_conn : connections_) {
-    cb(name_conn.second);
+  // The callback maybe close the connection
+  std::vector<TcpConnectionPtr> conns;
+  {
+    MutexGuard gaurd(lock_conn_);
+    conns.reserve(connections_.size());
+    for (auto &name_conn : connections_) {
+      conns.push_back(name_conn.second);
+    }
+  }
+
+  for (auto &conn : conns) {
+    cb(conn);
   }
 }
-- 
2.43.0


From 9fc6273fb43090bb00e4c5aa11671d4c8c39ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 060/140] fix: TcpServer can be destroyed when the IO loops run

---
 kanon/net/tcp_server.cc | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 6e32967..bfbfd48 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -133,17 +133,14 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
           auto io_loop = conn->GetLoop();
           io_loop->AssertInThread();
 
-          size_t n = 0;
-          KANON_UNUSED(n);
           {
             MutexGuard guard(lock_conn_);
-            n = connections_.erase(conn->GetName());
+            // The server is being destroyed, it has queued ConnectionDestroyed()
+            if (connections_.erase(conn->GetName()) == 0) return;
             LOG_TRACE_KANON << "The number of alive connections(closing): "
                             << connections_.size();
           }
 
-          assert(n == 1);
-
           // !Must call QueueToLoop() here,
           // we can't destroy the channel_ in the handling events phase,
           // and delay the ConnectionDestroyed() in calling functor phase.
@@ -173,16 +170,34 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
 
 TcpServer::~TcpServer() KANON_NOEXCEPT
 {
-  //
-  for (auto &conn_pair : connections_) {
-    auto conn = conn_pair.second;
-    conn_pair.second.reset();
+  // No new connection
+  acceptor_.reset();
+
+  ConnectionMap connections;
+  {
+    // The IO loops maybe are closing the connections
+    MutexGuard guard(lock_conn_);
+    connections.swap(connections_);
+  }
+
+  for (auto &conn_pair : connections) {
+    auto conn = std::move(conn_pair.second);
 
     auto io_loop = conn->GetLoop();
     io_loop->RunInLoop([conn]() {
       conn->ConnectionDestroyed();
     });
+
+    if (io_loop == loop_) {
+      // The events of connection maybe are being handled
+      io_loop->QueueToLoop([conn]() {
+        KANON_UNUSED(conn);
+      });
+    }
   }
+
+  // The callbacks in the IO loops access the members
+  pool_.reset();
 }
 
 void TcpServer::SetLoopNum(int num) KANON_NOEXCEPT { pool_->SetLoopNum(num); }
-- 
2.43.0


From 4d0af36e5e62c7c254e875b825cc211403a754fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 061/140] fix: the connection pool is shared by the IO loops
 safely

---
 kanon/net/tcp_server.cc | 71 +++++++++++++++++++++++++++++++++++++----
 kanon/net/tcp_server.h  | 13 ++++++--
 2 files changed, 75 insertions(+), 9 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index bfbfd48..d333194 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -9,7 +9,7 @@
 #include "kanon/net/event_loop_pool.h"
 #include "kanon/net/acceptor.h"
 
-#include "kanon/mem/object_pool_allocator.h"
+#include <new>
 
 #include <signal.h>
 #include <atomic>
@@ -57,6 +57,62 @@ KANON_INLINE void SigTermHandler(int signo) KANON_NOEXCEPT
   exit(1);
 }
 
+struct TcpServer::ConnPool {
+  explicit ConnPool(size_t chunk_per_block)
+    : pool{chunk_per_block}
+  {
+  }
+
+  MutexLock lock;
+  FixedChunkMemoryPool pool;
+};
+
+template <typename T>
+struct TcpServer::ConnAllocator {
+  using value_type = T;
+
+  explicit ConnAllocator(std::shared_ptr<ConnPool> const &p)
+    : pool{p}
+  {
+  }
+
+  template <typename U>
+  ConnAllocator(ConnAllocator<U> const &other)
+    : pool{other.pool}
+  {
+  }
+
+  T *allocate(size_t n)
+  {
+    KANON_UNUSED(n);
+    assert(n == 1);
+    MutexGuard guard(pool->lock);
+    auto ptr = pool->pool.Malloc(sizeof(T));
+    if (!ptr) throw std::bad_alloc();
+    return static_cast<T *>(ptr);
+  }
+
+  void deallocate(T *ptr, size_t) KANON_NOEXCEPT
+  {
+    MutexGuard guard(pool->lock);
+    pool->pool.Free(ptr);
+  }
+
+  template <typename U>
+  bool operator==(ConnAllocator<U> const &other) const KANON_NOEXCEPT
+  {
+    return pool == other.pool;
+  }
+
+  template <typename U>
+  bool operator!=(ConnAllocator<U> const &other) const KANON_NOEXCEPT
+  {
+    return pool != other.pool;
+  }
+
+  std::shared_ptr<ConnPool> pool;
+};
+
 TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
                      StringArg name, bool reuseport)
   : loop_{loop}
@@ -69,7 +125,7 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
                                             static_cast<char const *>(name))}
   , start_once_{false}
   , enable_pool_{false}
-  , conn_pool_{10}
+  , conn_pool_{std::make_shared<ConnPool>(10)}
 {
   g_loop = loop_;
   ::signal(SIGINT, &SigIntHandler);
@@ -106,9 +162,6 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
       conn = TcpConnection::NewTcpConnection(io_loop, conn_name, cli_sock, local_addr, cli_addr);  
     }
 #else
-        LOG_TRACE_KANON << "Pool block num = " << conn_pool_.GetBlockNum();
-        LOG_TRACE_KANON << "Pool usage = "
-                        << conn_pool_.GetUsage(sizeof(TcpConnection));
         LOG_TRACE_KANON << "The number of alive connections: "
                         << connections_.size();
 
@@ -116,7 +169,7 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
             enable_pool_
                 ? TcpConnection::NewTcpConnection(
                       io_loop, conn_name, cli_sock, local_addr, cli_addr,
-                      ObjectPoolAllocator<void>(conn_pool_))
+                      ConnAllocator<TcpConnection>(conn_pool_))
                 : TcpConnection::NewTcpConnection(io_loop, conn_name, cli_sock,
                                                   local_addr, cli_addr);
 #endif
@@ -202,6 +255,12 @@ TcpServer::~TcpServer() KANON_NOEXCEPT
 
 void TcpServer::SetLoopNum(int num) KANON_NOEXCEPT { pool_->SetLoopNum(num); }
 
+void TcpServer::SetConnPoolChunkPerBlock(size_t n) KANON_NOEXCEPT
+{
+  MutexGuard guard(conn_pool_->lock);
+  conn_pool_->pool.SetChunkPerBlock(n);
+}
+
 void TcpServer::StartRun() KANON_NOEXCEPT
 {
   // ! Must be thread-safe
diff --git a/kanon/net/tcp_server.h b/kanon/net/tcp_server.h
index 08704b8..0b00102 100644
--- a/kanon/net/tcp_server.h
+++ b/kanon/net/tcp_server.h
@@ -123,7 +123,7 @@ class TcpServer : noncopyable {
 
   void SetChunkPerBlock(size_t n) KANON_NOEXCEPT
   {
-    conn_pool_.SetChunkPerBlock(n);
+    SetConnPoolChunkPerBlock(n);
   }
 
   //!@}
@@ -183,6 +183,8 @@ class TcpServer : noncopyable {
   void ApplyAllPeers(ConnApplyCb cb);
 
  private:
+  KANON_NET_API void SetConnPoolChunkPerBlock(size_t n) KANON_NOEXCEPT;
+
   EventLoop *loop_;
   std::string const ip_port_;
   std::string const name_;
@@ -226,11 +228,16 @@ class TcpServer : noncopyable {
    */
   /* ObjectPoolArray<TcpConnection* const> conn_pool_; */
 
+  struct ConnPool;
+  template <typename T>
+  struct ConnAllocator;
+
   /**
-   * Fixed chunk memory pool.
+   * Fixed chunk memory pool, the connections are created in the loop_ but
+   * destroyed in the IO loops, and maybe are alive after the server.
    * The chunk size is sizeof(TcpConnection).
    */
-  FixedChunkMemoryPool conn_pool_;
+  std::shared_ptr<ConnPool> conn_pool_;
 };
 
 //!@}
-- 
2.43.0


From 87725d78928d81eb5656812c5f1070a2d03056dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 062/140] fix: EventLoop can be created in a thread that isn't
 created by Thread

---
 kanon/net/event_loop.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index 98ecfdd..d985149 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -87,11 +87,8 @@ EventLoop::EventLoop()
 }
 
 EventLoop::EventLoop(bool is_poller)
-#if KANON___THREAD_DEFINED
-  : owner_thread_id_{(PId)CurrentThread::t_tid}
-#else
-  : owner_thread_id_{(PId)CurrentThread::GetTid()}
-#endif
+  // The thread maybe isn't created by Thread, its id isn't cached yet
+  : owner_thread_id_{(PId)CurrentThread::tid()}
   , looping_{false}
   , quit_{false}
   , calling_functors_{false}
-- 
2.43.0


From 2d550738ed8eecc7886d2b634af2cf742af070fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 063/140] fix: an interrupted Send() doesn't wait for an
 edge-triggered event that never comes

---
 kanon/linux/net/connection/connection_base.inl | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 0d0d27d..a08bc1e 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -83,10 +83,15 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
 
   // The message must follow the remaining message in the output buffer
   if (!output_buffer_.HasReadable()) {
-    int saved_errno = 0;
-    auto write_n = ChunkListWriteFd(buffer, channel_->GetFd(), saved_errno);
+    int saved_errno;
+    size_t write_n;
 
-    if (saved_errno && saved_errno != EAGAIN && saved_errno != EINTR) {
+    do {
+      saved_errno = 0;
+      write_n = ChunkListWriteFd(buffer, channel_->GetFd(), saved_errno);
+    } while (saved_errno == EINTR);
+
+    if (saved_errno && saved_errno != EAGAIN) {
       LOG_SYSERROR_KANON << "write unexpected error occurred";
       return;
     }
@@ -214,7 +219,9 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
 
   // if (channel_->IsWriting() && output_buffer_.GetReadableSize() == 0) {
   if (!output_buffer_.HasReadable()) {
-    n = sock::Write(channel_->GetFd(), data, len);
+    do {
+      n = sock::Write(channel_->GetFd(), data, len);
+    } while (n < 0 && errno == EINTR);
 
     if (n >= 0) {
       LOG_TRACE_KANON << "Write " << n << " bytes";
@@ -235,7 +242,7 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
         return;
       }
     } else {
-      if (errno != EAGAIN && errno != EINTR) { // EWOULDBLOCK
+      if (errno != EAGAIN) { // EWOULDBLOCK
         LOG_SYSERROR_KANON << "write unexpected error occurred";
         return;
       }
-- 
2.43.0


From 04e89811ea39b7a6c19679ec0322d4f765fc02b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 064/140] fix: the connection of a client isn't destroyed under
 the loop that handles its events

---
 kanon/net/tcp_client.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index 4ffd02c..a8bbe4e 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -58,13 +58,14 @@ TcpClient::~TcpClient() KANON_NOEXCEPT
     assert(conn->GetLoop() == loop_);
     // Should not use old close callback
     // may be other thread using it
-    if (is_unique) {
+    if (is_unique && loop_->IsLoopInThread()) {
       conn->ForceClose();
     } else {
-      // The loop maybe refers to the connection temporarily, check it in loop
-      loop_->QueueToLoop([conn]() {
-        TcpClient::ReleaseConnection(conn);
-      });
+      // The loop maybe refers to the connection temporarily(even is handling
+      // its events), check it in loop. Move it since the last reference
+      // shouldn't be dropped in this thread.
+      loop_->QueueToLoop(
+          std::bind(&TcpClient::ReleaseConnection, std::move(conn)));
     }
   } else {
     // Disable the connector
-- 
2.43.0


From 9edadec72b7d8b2b360d0b5bee7f1d1af0fee97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 065/140] fix: StringView::copy() and substr() never go beyond
 the viewed bytes

---
 kanon/string/string_view.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 05b0b79..335eb9e 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -201,10 +201,11 @@ class StringView {
   KANON_INLINE size_type copy(char *dst, size_type count,
                               size_type pos = 0) const
   {
-    if (pos >= len_) {
+    if (pos > len_) {
       throw std::out_of_range{"Given position over length of StringView"};
     }
 
+    count = std::min(count, len_ - pos);
     ::memcpy(dst, data_ + pos, count);
     return count;
   }
@@ -216,8 +217,8 @@ class StringView {
   KANON_CONSTEXPR StringView substr(size_type pos = 0,
                                     size_type count = npos) const KANON_NOEXCEPT
   {
-    auto len = std::min(count, len_ - pos);
-    return StringView(data_ + pos, len);
+    return pos > len_ ? StringView(data_ + len_, 0)
+                      : StringView(data_ + pos, std::min(count, len_ - pos));
   }
 
   KANON_CONSTEXPR StringView
-- 
2.43.0


From 5f79e6de19b8ce6a90a4a755ea0d928283812636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 066/140] fix: StringView::find() compares the bytes behind an
 embedded NUL

---
 kanon/string/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 335eb9e..9484135 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -238,7 +238,7 @@ class StringView {
     if (v.size() <= len_) {
       size_type n = len_ - v.size() + 1;
       for (size_type i = pos; i < n; ++i) {
-        if (!::strncmp(data_ + i, v.data(), v.size())) {
+        if (!::memcmp(data_ + i, v.data(), v.size())) {
           return i;
         }
       }
-- 
2.43.0


From 469f011ed10c05d9972dae78ddc582324a5c06be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 067/140] fix: StringView::rfind() doesn't read an empty view
 and finds the empty string

---
 kanon/string/string_view.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 9484135..8c1ac83 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -264,14 +264,12 @@ class StringView {
    */
   size_type rfind(StringView v, size_type pos = npos) const KANON_NOEXCEPT
   {
-    if (!v.empty()) {
-      auto len = std::min(len_ - 1, pos);
+    if (v.size() <= len_) {
+      auto len = std::min(len_ - v.size(), pos);
 
       // Avoid --len == size_type(-1)
       for (;; --len) {
-        if (data_[len] == v.front() && len_ - len >= v.size() &&
-            memcmp(data_ + len, v.data(), v.size()) == 0)
-          return len;
+        if (memcmp(data_ + len, v.data(), v.size()) == 0) return len;
 
         if (len == 0) break;
       }
@@ -282,6 +280,7 @@ class StringView {
 
   size_type rfind(char c, size_type pos = npos) const KANON_NOEXCEPT
   {
+    if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto len = std::min(len_ - 1, pos);
     for (;; --len) {
       if (data_[len] == c) {
-- 
2.43.0


From 74ed7647366f6170c57160e9e7df37b90abf13a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 068/140] fix: StringView::find_last_of() terminates, checks
 the first character and returns its position

---
 kanon/string/string_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 8c1ac83..4a4ea0a 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -359,7 +359,7 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0;) {
+    for (;; --i) {
       if (charInRange(data_[i], v)) return i;
       if (i == 0) break;
     }
@@ -372,8 +372,8 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
-      if (data_[i] == c) return pos;
+    for (;; --i) {
+      if (data_[i] == c) return i;
       if (i == 0) break;
     }
 
-- 
2.43.0


From 4e371654aa9e27115e6fca25921d4d2365c681e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 069/140] fix: StringView::find_last_not_of() skips the given
 characters and checks the first one

---
 kanon/string/string_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 4a4ea0a..7eb1cd3 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -403,7 +403,7 @@ class StringView {
     if (KANON_UNLIKELY(len_ == 0)) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
+    for (;; --i) {
       if (!charInRange(data_[i], v)) return i;
       if (i == 0) break;
     }
@@ -416,8 +416,8 @@ class StringView {
     if (KANON_UNLIKELY((len_ == 0))) return npos;
     auto i = std::min(len_ - 1, pos);
 
-    for (; i > 0; --i) {
-      if (data_[i] == c) return i;
+    for (;; --i) {
+      if (data_[i] != c) return i;
       if (i == 0) break;
     }
 
-- 
2.43.0


From 5bc006786e11adb55ec6bce1faf66d99a760cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 070/140] fix: StringView::compare() and caseCompare() of a
 character, of bytes behind a NUL and of bytes above 127

---
 kanon/string/string_view.h | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 7eb1cd3..6e94e2e 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -426,8 +426,12 @@ class StringView {
 
   int caseCompare(StringView v) const KANON_NOEXCEPT
   {
-    int r = kanon::StrNCaseCompare(data_, v.data(),
-                                   len_ < v.size() ? len_ : v.size());
+    // Don't use StrNCaseCompare() since it stops at a NUL character
+    int r = 0;
+    for (size_type i = 0; r == 0 && i < len_ && i < v.size(); ++i) {
+      r = ::tolower(static_cast<unsigned char>(data_[i])) -
+          ::tolower(static_cast<unsigned char>(v[i]));
+    }
 
     if (r == 0) {
       if (len_ < v.size())
@@ -441,14 +445,7 @@ class StringView {
 
   int caseCompare(char c) const KANON_NOEXCEPT
   {
-    auto data_0 = ::toupper(data_[0]);
-    auto _c = ::toupper(c);
-
-    if (len_ < 1 || data_0 < _c) return -1;
-
-    if (data_0 > _c) return 1;
-
-    return (data_0 == c && len_ == 1) ? 0 : 1;
+    return caseCompare(StringView(&c, 1));
   }
 
   // lexicographic compare
@@ -468,11 +465,7 @@ class StringView {
 
   int compare(char c) const KANON_NOEXCEPT
   {
-    if (len_ < 1 || data_[0] < c) return -1;
-
-    if (data_[0] > c) return 1;
-
-    return (data_[0] == c && len_ == 1) ? 0 : 1;
+    return compare(StringView(&c, 1));
   }
 
   KANON_CORE_API std::vector<std::string> split(StringView spliter = " ") const;
-- 
2.43.0


From 3d58b3a1c906df62853801ac3fd0479f3c3fe860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 071/140] fix: StringView is compared with the whole literal by
 > and <= also

---
 kanon/string/string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/string/string_view.h b/kanon/string/string_view.h
index 6e94e2e..2204680 100644
--- a/kanon/string/string_view.h
+++ b/kanon/string/string_view.h
@@ -574,7 +574,7 @@ template <StringView::size_type N>
 KANON_INLINE bool operator>(StringView const &lhs,
                             char const (&rhs)[N]) KANON_NOEXCEPT
 {
-  return rhs < lhs;
+  return MakeStringView(rhs) < lhs;
 }
 
 KANON_INLINE bool operator>=(StringView const &lhs,
@@ -600,7 +600,7 @@ template <StringView::size_type N>
 KANON_INLINE bool operator<=(StringView const &lhs,
                              char const (&rhs)[N]) KANON_NOEXCEPT
 {
-  return !(lhs > rhs);
+  return !(lhs > MakeStringView(rhs));
 }
 
 // template<typename Ostream>
-- 
2.43.0


From 0821806e5e28843e549ca7f4eb934a8524d8da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 072/140] fix: StringView::split() by the empty string
 terminates

---
 kanon/string/string_view.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/string/string_view.cc b/kanon/string/string_view.cc
index b560a46..a429028 100644
--- a/kanon/string/string_view.cc
+++ b/kanon/string/string_view.cc
@@ -5,7 +5,8 @@ namespace kanon {
 std::vector<std::string> StringView::split(StringView spliter) const 
 {
   size_type indicator_begin = 0;
-  size_type indicator_end = find(spliter);
+  // The empty spliter splits nothing
+  size_type indicator_end = spliter.empty() ? npos : find(spliter);
   std::vector<std::string> ret{};
   std::string tmp;    
 
-- 
2.43.0


From 20618661eb281195eeaa05b2f28debfd8fd525ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 073/140] fix: FixedBuffer::appendPtr() doesn't write beyond
 the buffer

---
 kanon/string/fixed_buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/string/fixed_buffer.h b/kanon/string/fixed_buffer.h
index 105a06f..7354616 100644
--- a/kanon/string/fixed_buffer.h
+++ b/kanon/string/fixed_buffer.h
@@ -123,7 +123,7 @@ class FixedBuffer {
 
     if (!p && avali() > 6) {
       Append("(null)", 6);
-    } else if (avali() > 10) {
+    } else if (p && avali() > kMaxPtrSize) {
       cur[0] = '0';
       cur[1] = 'x';
 
@@ -163,6 +163,7 @@ class FixedBuffer {
 
  private:
   static constexpr unsigned kMaxIntSize = 32;
+  static constexpr unsigned kMaxPtrSize = 2 + 16; // 0x + hex digits
   static constexpr unsigned kMaxFloatingSize = 324;
 
   char data_[SZ];
-- 
2.43.0


From e0c151ba0c8dfc533056de376f80a3402ff882da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 074/140] fix: a floating-point number fits in the buffer of
 lexical_cast

---
 kanon/string/fixed_buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/string/fixed_buffer.h b/kanon/string/fixed_buffer.h
index 7354616..45512dc 100644
--- a/kanon/string/fixed_buffer.h
+++ b/kanon/string/fixed_buffer.h
@@ -164,7 +164,8 @@ class FixedBuffer {
  private:
   static constexpr unsigned kMaxIntSize = 32;
   static constexpr unsigned kMaxPtrSize = 2 + 16; // 0x + hex digits
-  static constexpr unsigned kMaxFloatingSize = 324;
+  // %.12g: sign, 12 digits, point, exponent(e-308)
+  static constexpr unsigned kMaxFloatingSize = 32;
 
   char data_[SZ];
   unsigned len_;
-- 
2.43.0


From 8afd013b631798face9b38f0867bf45922d2c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 075/140] fix: a text that doesn't fit in the FixedBuffer is
 truncated instead of dropped

---
 kanon/string/fixed_buffer.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kanon/string/fixed_buffer.h b/kanon/string/fixed_buffer.h
index 45512dc..1cc189c 100644
--- a/kanon/string/fixed_buffer.h
+++ b/kanon/string/fixed_buffer.h
@@ -73,11 +73,11 @@ class FixedBuffer {
   // append
   void Append(char const *str, unsigned len) KANON_NOEXCEPT
   {
-    if (len < avali()) {
-      memcpy(cur(), str, len);
-      len_ += len;
-      *cur() = 0;
-    }
+    // Reserve the room for the terminator
+    if (len >= avali()) len = avali() - 1;
+    memcpy(cur(), str, len);
+    len_ += len;
+    *cur() = 0;
   }
 
   void Append(StringView str) KANON_NOEXCEPT
-- 
2.43.0


From cbdae87eaf0d26a6a04f5f18ca999ceee0272df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 076/140] fix: lexical_cast to string can be used by several
 threads

---
 kanon/string/lexical_cast.cc | 2 +-
 kanon/string/lexical_cast.h  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/kanon/string/lexical_cast.cc b/kanon/string/lexical_cast.cc
index 4f81149..3e6da4b 100644
--- a/kanon/string/lexical_cast.cc
+++ b/kanon/string/lexical_cast.cc
@@ -1,4 +1,4 @@
 #include "kanon/string/lexical_cast.h"
 
 using namespace kanon;
-CastLexicalStream kanon::_cast_stream;
+thread_local CastLexicalStream kanon::_cast_stream;
diff --git a/kanon/string/lexical_cast.h b/kanon/string/lexical_cast.h
index e0595f4..5b97af5 100644
--- a/kanon/string/lexical_cast.h
+++ b/kanon/string/lexical_cast.h
@@ -23,7 +23,8 @@ class LexicalCast {
   }
 };
 
-extern CastLexicalStream _cast_stream;
+/* The result of conversion to StringView or char const* is stored here */
+extern thread_local CastLexicalStream _cast_stream;
 
 #define DST_STRING_SPECIALIZATION(type)                                        \
   template <typename Src>                                                      \
-- 
2.43.0


From 344d16e06633cb4faac4afc43f70f87570eab3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 077/140] fix: lexical_cast rejects empty text, text with NUL
 and out of range number, and can be used by several threads

---
 kanon/string/lexical_cast.h | 67 +++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/kanon/string/lexical_cast.h b/kanon/string/lexical_cast.h
index 5b97af5..1dcf6ff 100644
--- a/kanon/string/lexical_cast.h
+++ b/kanon/string/lexical_cast.h
@@ -1,7 +1,10 @@
 #ifndef KANON_LEXICAL_CAST_H
 #define KANON_LEXICAL_CAST_H
 
+#include <errno.h>
+#include <stdlib.h>
 #include <string.h>
+#include <limits>
 #include <string>
 
 #include "kanon/util/optional.h"
@@ -54,45 +57,45 @@ class LexicalCast<char const *, Src, false> {
 DST_STRING_SPECIALIZATION(std::string);
 DST_STRING_SPECIALIZATION(kanon::StringView);
 
-static char lexical_cvt_buf[64];
+namespace detail {
 
-#define Str2Int(integer_type, str_type, func)                                  \
-  template <>                                                                  \
-  class LexicalCast<integer_type, str_type, false> {                           \
-   public:                                                                     \
-    static kanon::optional<integer_type> apply(str_type const &src)            \
-    {                                                                          \
-      if (src.size() > 63) return kanon::make_null_optional<integer_type>();   \
-      ::strncpy(lexical_cvt_buf, src.data(), src.size());                      \
-      lexical_cvt_buf[src.size()] = 0;                                         \
-                                                                               \
-      char *endptr = nullptr;                                                  \
-                                                                               \
-      auto ret =                                                               \
-          static_cast<integer_type>(func(lexical_cvt_buf, &endptr, 10));       \
-      if (*endptr == 0) {                                                      \
-        return kanon::optional<integer_type>(ret);                             \
-      }                                                                        \
-                                                                               \
-      return kanon::make_null_optional<integer_type>();                        \
-    }                                                                          \
-  }
+template <typename T, typename R>
+optional<T> StrToInt(char const *data, size_t len,
+                     R (*func)(char const *, char **, int))
+{
+  char buf[64];
+  if (len == 0 || len >= sizeof buf) return make_null_optional<T>();
+  ::memcpy(buf, data, len);
+  buf[len] = 0;
+
+  char *endptr = nullptr;
+  const int saved_errno = errno;
+  errno = 0;
+  const R ret = func(buf, &endptr, 10);
+  const bool is_overflow = errno == ERANGE;
+  errno = saved_errno;
+
+  if (endptr != buf + len || is_overflow ||
+      ret < static_cast<R>(std::numeric_limits<T>::min()) ||
+      ret > static_cast<R>(std::numeric_limits<T>::max()))
+    return make_null_optional<T>();
+
+  // strtoul() accepts the negative number
+  if (std::is_unsigned<T>::value && ret != 0 && ::memchr(buf, '-', len))
+    return make_null_optional<T>();
+
+  return optional<T>(static_cast<T>(ret));
+}
+
+} // namespace detail
 
-#define Str2Int2(integer_type, str_type, func)                                 \
+#define Str2Int(integer_type, str_type, func)                                  \
   template <>                                                                  \
   class LexicalCast<integer_type, str_type, false> {                           \
    public:                                                                     \
     static kanon::optional<integer_type> apply(str_type const &src)            \
     {                                                                          \
-      if (src.size() > 63) return kanon::make_null_optional<integer_type>();   \
-      char *endptr = nullptr;                                                  \
-                                                                               \
-      auto ret = static_cast<integer_type>(func(src.c_str(), &endptr, 10));    \
-      if (*endptr == 0) {                                                      \
-        return kanon::optional<integer_type>(ret);                             \
-      }                                                                        \
-                                                                               \
-      return kanon::make_null_optional<integer_type>();                        \
+      return detail::StrToInt<integer_type>(src.data(), src.size(), func);     \
     }                                                                          \
   }
 
-- 
2.43.0


From ddcdd12c43e7aef3993397e853a530e34acb47fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 078/140] fix: FmtStream doesn't read beyond the format that
 ends with a placeholder

---
 kanon/string/fmt_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/string/fmt_stream.h b/kanon/string/fmt_stream.h
index 878e595..5ec85ae 100644
--- a/kanon/string/fmt_stream.h
+++ b/kanon/string/fmt_stream.h
@@ -134,7 +134,7 @@ void FMT_STREAM_TEMPLATE::ParseAndSerializeSingle(StringView fmt, Arg arg,
   stream_.Append(fmt.data(), pos == StringView::npos ? fmt.size() : pos);
 
   if (pos < fmt.size()) {
-    if (fmt[pos + 1] == '%') {
+    if (pos + 1 < fmt.size() && fmt[pos + 1] == '%') {
       stream_.Append("%");
       ParseAndSerialize(fmt.substr(pos + 2), arg, args...);
     } else {
-- 
2.43.0


From d3caa8764dddc7afca9e229f48630d1b87eaf048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 079/140] fix: FmtStream prints the C string instead of its
 address

---
 kanon/string/fmt_stream.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kanon/string/fmt_stream.h b/kanon/string/fmt_stream.h
index 5ec85ae..8d305d9 100644
--- a/kanon/string/fmt_stream.h
+++ b/kanon/string/fmt_stream.h
@@ -71,6 +71,14 @@ class FmtStream {
     stream_.Append(s.data(), s.size());
   }
   void SerializeOne(StringView sv) KANON_NOEXCEPT { stream_.Append(sv); }
+  void SerializeOne(char const *s) KANON_NOEXCEPT
+  {
+    stream_.Append(StringView(s));
+  }
+  void SerializeOne(std::nullptr_t) KANON_NOEXCEPT
+  {
+    stream_.appendPtr(nullptr);
+  }
 
   detail::FixedBuffer<SZ> stream_;
 };
-- 
2.43.0


From e6e280e41ab698da167895bbf547d46b796b9dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 080/140] fix: the length of Fmt is not over its buffer

---
 kanon/string/lexical_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/string/lexical_stream.h b/kanon/string/lexical_stream.h
index fae952a..6d35dfc 100644
--- a/kanon/string/lexical_stream.h
+++ b/kanon/string/lexical_stream.h
@@ -175,7 +175,7 @@ class KANON_DEPRECATED_ATTR Fmt {
                   "Fmt: Give value's type must be integer or floating-point");
     auto ret = snprintf(buf_, sizeof buf_, str, val);
     if (ret < 0) throw std::runtime_error("Failed to call snprintf in Fmt");
-    len_ = (size_type)ret;
+    len_ = std::min((size_type)ret, (size_type)sizeof buf_ - 1);
   }
 
   explicit Fmt(std::string const &str)
-- 
2.43.0


From 4d0926bda0f4b5a6843a73bb1ca29a86ef37ca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 081/140] fix: an optional can be constructed and assigned from
 an empty optional of other type

---
 kanon/util/optional.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/kanon/util/optional.h b/kanon/util/optional.h
index 67f7e77..158347a 100644
--- a/kanon/util/optional.h
+++ b/kanon/util/optional.h
@@ -81,14 +81,16 @@ class optional {
   //
   template <typename U>
   optional(optional<U> const &other)
-    : opt_{Rep{other.has_value(), other.value()}}
+    : opt_{Rep{false, T{}}}
   {
+    if (other.has_value()) opt_ = Rep{true, other.value()};
   }
 
   template <typename U>
   optional(optional<U> &&other) KANON_NOEXCEPT
-    : opt_{Rep{other.has_value(), std::move(other.value())}}
+    : opt_{Rep{false, T{}}}
   {
+    if (other.has_value()) opt_ = Rep{true, std::move(other.value())};
   }
 
   optional(optional const &other) = default;
@@ -97,17 +99,13 @@ class optional {
   template <typename U>
   optional &operator=(optional<U> const &other)
   {
-    opt_ = Rep{other.has_value(), other.value()};
-
-    return *this;
+    return *this = Self(other);
   }
 
   template <typename U>
   optional &operator=(optional<U> &&other) KANON_NOEXCEPT
   {
-    std::swap(opt_, other.opt_);
-
-    return *this;
+    return *this = Self(std::move(other));
   }
 
   optional &operator=(optional const &other) = default;
-- 
2.43.0


From b371b446532233d4aea8ffbb2b2252c81cbebfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 082/140] fix: the cast of an empty Any/UniqueAny returns null
 instead of accessing null

---
 kanon/util/any.h        | 6 +++++-
 kanon/util/unique_any.h | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/kanon/util/any.h b/kanon/util/any.h
index e05eb19..eaaf3c9 100644
--- a/kanon/util/any.h
+++ b/kanon/util/any.h
@@ -96,7 +96,11 @@ class Any final {
     holder_ = nullptr;
   }
 
-  std::type_info const &type() const { return holder_->type(); }
+  /** \return typeid(void) if it is empty */
+  std::type_info const &type() const
+  {
+    return holder_ ? holder_->type() : typeid(void);
+  }
 
   void swap(Any &rhs) KANON_NOEXCEPT { std::swap(holder_, rhs.holder_); }
 
diff --git a/kanon/util/unique_any.h b/kanon/util/unique_any.h
index 058a7a0..0899053 100644
--- a/kanon/util/unique_any.h
+++ b/kanon/util/unique_any.h
@@ -65,7 +65,11 @@ class UniqueAny final {
     holder_ = nullptr;
   }
 
-  std::type_info const &type() const { return holder_->type(); }
+  /** \return typeid(void) if it is empty */
+  std::type_info const &type() const
+  {
+    return holder_ ? holder_->type() : typeid(void);
+  }
 
   void swap(UniqueAny &rhs) KANON_NOEXCEPT { std::swap(holder_, rhs.holder_); }
 
-- 
2.43.0


From 7a225e9608518e72e5bc6fb6032ef8f0a382d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 083/140] fix: an Any/UniqueAny can hold the container of them

---
 kanon/util/any.h        | 4 ++--
 kanon/util/unique_any.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kanon/util/any.h b/kanon/util/any.h
index eaaf3c9..91ef4c9 100644
--- a/kanon/util/any.h
+++ b/kanon/util/any.h
@@ -162,7 +162,7 @@ class Any final {
     ~Holder() = default;
 
     Holder(V const &v)
-      : holder_{v}
+      : holder_(v)
     {
     }
 
@@ -170,7 +170,7 @@ class Any final {
 
     /* Don't mark KANON_NOEXCEPT */
     Holder(V &&v)
-      : holder_{std::move(v)}
+      : holder_(std::move(v))
     {
     }
 
diff --git a/kanon/util/unique_any.h b/kanon/util/unique_any.h
index 0899053..1d5e584 100644
--- a/kanon/util/unique_any.h
+++ b/kanon/util/unique_any.h
@@ -127,7 +127,7 @@ class UniqueAny final {
     Holder &operator=(Holder const &) = delete;
 
     Holder(V &&v)
-      : holder_{std::move(v)}
+      : holder_(std::move(v))
     {
     }
 
-- 
2.43.0


From 94281362df3dd1af95bc146d66bdedf09132db51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 084/140] fix: TimeStamp::ToString() prints six digits of
 microseconds

---
 kanon/util/time_stamp.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kanon/util/time_stamp.cc b/kanon/util/time_stamp.cc
index 815472c..4b2ad7d 100644
--- a/kanon/util/time_stamp.cc
+++ b/kanon/util/time_stamp.cc
@@ -22,7 +22,10 @@ std::string TimeStamp::ToString() const
 
   int64_t seconds = microseconds_ / kMicrosecondsPerSeconds_;
   int microseconds = static_cast<int>(microseconds_ % kMicrosecondsPerSeconds_);
-  snprintf(buf, sizeof buf, "%" PRId64 ".6%d", seconds, microseconds);
+  const bool is_negative = microseconds_ < 0;
+  snprintf(buf, sizeof buf, "%s%" PRId64 ".%06d", is_negative ? "-" : "",
+           is_negative ? -seconds : seconds,
+           is_negative ? -microseconds : microseconds);
 
   return buf;
 }
-- 
2.43.0


From 0b4216c55032208ade50b31eb99acafe719fdea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 085/140] fix: TimeStamp::ToFormattedString() prints the time
 before the epoch

---
 kanon/util/time_stamp.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kanon/util/time_stamp.cc b/kanon/util/time_stamp.cc
index 4b2ad7d..1b60c21 100644
--- a/kanon/util/time_stamp.cc
+++ b/kanon/util/time_stamp.cc
@@ -35,6 +35,13 @@ std::string TimeStamp::ToFormattedString(bool isShowMicroseconds) const
   char buf[64]{ 0 };
 
   auto seconds = static_cast<time_t>(microseconds_ / kMicrosecondsPerSeconds_);
+  int microseconds = static_cast<int>(microseconds_ % kMicrosecondsPerSeconds_);
+  if (microseconds < 0) {
+    // The time before the epoch
+    seconds--;
+    microseconds += kMicrosecondsPerSeconds_;
+  }
+
   struct tm tm;
   // gmtime_r(&seconds, &tm);
 #ifdef KANON_ON_UNIX
@@ -43,10 +50,7 @@ std::string TimeStamp::ToFormattedString(bool isShowMicroseconds) const
   ::localtime_s(&tm, &seconds);
 #endif
   if (isShowMicroseconds) {
-    int microseconds =
-        static_cast<int>(microseconds_ % kMicrosecondsPerSeconds_);
-
-    snprintf(buf, sizeof buf, "%4d%02d%02d %02d:%02d:%02d.%06d",
+    snprintf(buf, sizeof buf, "%04d%02d%02d %02d:%02d:%02d.%06d",
              tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour,
              tm.tm_min, tm.tm_sec, microseconds);
   } else {
-- 
2.43.0


From 023e2c0af1397d0766e92b14226c87c3f284ef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 086/140] fix: TimeStamp::FromTimeStr() handles the malformed
 text and the daylight saving time

---
 kanon/util/time_stamp.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/util/time_stamp.cc b/kanon/util/time_stamp.cc
index 1b60c21..1943b16 100644
--- a/kanon/util/time_stamp.cc
+++ b/kanon/util/time_stamp.cc
@@ -71,9 +71,11 @@ TimeStamp TimeStamp::FromTimeStr(char const *format, std::string const &rep,
   if (!strptime(rep.c_str(), format, &tm)) {
     if (ok) {
       *ok = false;
-      return TimeStamp(0);
     }
+    return TimeStamp(0);
   }
+  // Let mktime() determine whether the daylight saving time is in effect
+  tm.tm_isdst = -1;
   time_t t = mktime(&tm);
   if (ok) *ok = true;
 #else
-- 
2.43.0


From 52bb779a7939f4007cc7f6b9ca1a5ee1fe95c2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 087/140] fix: adding seconds or milliseconds to a TimeStamp
 doesn't overflow int

---
 kanon/util/time_stamp.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/kanon/util/time_stamp.h b/kanon/util/time_stamp.h
index d2f8752..76f130b 100644
--- a/kanon/util/time_stamp.h
+++ b/kanon/util/time_stamp.h
@@ -148,12 +148,12 @@ class TimeStamp
 
   TimeStamp operator+(MilliSecond ms) const KANON_NOEXCEPT
   {
-    return *this + Microsecond(ms.count * 1000);
+    return TimeStamp(microseconds_ + ms.count * INT64_C(1000));
   }
 
   TimeStamp operator+(Second sec) const KANON_NOEXCEPT
   {
-    return *this + Microsecond(sec.count * 1000000);
+    return TimeStamp(microseconds_ + sec.count * INT64_C(1000000));
   }
 
   TimeStamp operator-(double seconds) const KANON_NOEXCEPT
@@ -164,17 +164,17 @@ class TimeStamp
 
   TimeStamp operator-(Microsecond us) const KANON_NOEXCEPT
   {
-    return *this + Microsecond(-us.count);
+    return TimeStamp(microseconds_ - us.count);
   }
 
   TimeStamp operator-(MilliSecond ms) const KANON_NOEXCEPT
   {
-    return *this + MilliSecond(-ms.count);
+    return TimeStamp(microseconds_ - ms.count * INT64_C(1000));
   }
 
   TimeStamp operator-(Second sec) const KANON_NOEXCEPT
   {
-    return *this + Second(-sec.count);
+    return TimeStamp(microseconds_ - sec.count * INT64_C(1000000));
   }
 
   friend TimeStamp operator+(double seconds, TimeStamp ts) KANON_NOEXCEPT
-- 
2.43.0


From d6443067d8c7f68a7c197bb69ef73865a19905fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 088/140] fix: adding seconds to a TimeStamp rounds to the
 nearest microsecond

---
 kanon/util/time_stamp.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/kanon/util/time_stamp.h b/kanon/util/time_stamp.h
index 76f130b..576f67d 100644
--- a/kanon/util/time_stamp.h
+++ b/kanon/util/time_stamp.h
@@ -1,6 +1,7 @@
 #ifndef KANON_TIMESTAMP_H
 #define KANON_TIMESTAMP_H
 
+#include <cmath>
 #include <ctime>
 #include <stdint.h>
 #include <string>
@@ -138,7 +139,7 @@ class TimeStamp
   TimeStamp operator+(double seconds) const KANON_NOEXCEPT
   {
     return TimeStamp(microseconds_ +
-                     (int64_t)(seconds * kMicrosecondsPerSeconds_));
+                     ToMicroseconds(seconds));
   }
 
   TimeStamp operator+(Microsecond us) const KANON_NOEXCEPT
@@ -159,7 +160,7 @@ class TimeStamp
   TimeStamp operator-(double seconds) const KANON_NOEXCEPT
   {
     return TimeStamp(microseconds_ -
-                     int64_t(seconds * kMicrosecondsPerSeconds_));
+                     ToMicroseconds(seconds));
   }
 
   TimeStamp operator-(Microsecond us) const KANON_NOEXCEPT
@@ -252,6 +253,13 @@ class TimeStamp
 
   static constexpr int kMicrosecondsPerSeconds_ = 1000000;
 
+  /** Round to the nearest microsecond */
+  static int64_t ToMicroseconds(double seconds) KANON_NOEXCEPT
+  {
+    return static_cast<int64_t>(
+        std::llround(seconds * kMicrosecondsPerSeconds_));
+  }
+
  private:
   /**
    * Following the fileds of `struct timeval`,
@@ -283,7 +291,7 @@ KANON_INLINE TimeStamp AddTime(TimeStamp x, double seconds) KANON_NOEXCEPT
 {
   return TimeStamp(
       x.GetMicrosecondsSinceEpoch() +
-      static_cast<int64_t>(seconds * TimeStamp::kMicrosecondsPerSeconds_));
+      TimeStamp::ToMicroseconds(seconds));
 }
 
 KANON_INLINE TimeStamp AddTimeUs(TimeStamp x, uint64_t us) KANON_NOEXCEPT
-- 
2.43.0


From f9dedd13157fc8a04a33ca5dbaccbe1932ba7a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 089/140] fix: StringViewTo*() reject out of range and too long
 number, and can be used by several threads

---
 kanon/string/string_view_util.cc | 91 ++++++++++++++------------------
 kanon/string/string_view_util.h  | 28 +++-------
 2 files changed, 48 insertions(+), 71 deletions(-)

diff --git a/kanon/string/string_view_util.cc b/kanon/string/string_view_util.cc
index ba2b153..16da35c 100644
--- a/kanon/string/string_view_util.cc
+++ b/kanon/string/string_view_util.cc
@@ -1,68 +1,57 @@
 #include "string_view_util.h"
 
 #include <string.h> // memcpy
-#include <assert.h> // assert
+#include <errno.h>  // ERANGE
 #include <stdlib.h> // strtoXXX()
+#include <limits>
+#include <type_traits>
 
 using namespace kanon;
 
-optional<uint64_t> kanon::StringViewToU64(StringView const &sv,
-                                          int base) KANON_NOEXCEPT
-{
-  assert(sv.size() < 64);
-  static char buf[64];
-  memcpy(buf, sv.data(), sv.size());
-  buf[sv.size()] = 0;
-  char *end = NULL;
-  uint64_t ret = strtoull(buf, &end, base);
-  if (ret == 0 && end == buf) {
-    return make_null_optional<uint64_t>();
-  }
-  return ret;
-}
+namespace {
 
-optional<uint32_t> kanon::StringViewToU32(StringView const &sv,
-                                          int base) KANON_NOEXCEPT
+template <typename T, typename R>
+optional<T> StrToInt(StringView const &sv, int base,
+                     R (*func)(char const *, char **, int)) KANON_NOEXCEPT
 {
-  assert(sv.size() < 32);
-  static char buf[32];
+  // Long enough for the number of any base
+  char buf[128];
+  if (sv.size() >= sizeof buf) return make_null_optional<T>();
   memcpy(buf, sv.data(), sv.size());
   buf[sv.size()] = 0;
-  char *end = NULL;
-  uint32_t ret = (uint32_t)strtoul(buf, &end, base);
-  if (ret == 0 && end == buf) {
-    return make_null_optional<uint32_t>();
-  }
-  return ret;
-}
 
-optional<int32_t> kanon::StringViewTo32(StringView const &sv,
-                                        int base) KANON_NOEXCEPT
-{
-  assert(sv.size() < 32);
-  static char buf[32];
-  memcpy(buf, sv.data(), sv.size());
-  buf[sv.size()] = 0;
   char *end = NULL;
-  int32_t ret = (int32_t)strtol(buf, &end, base);
-  if (ret == 0 && end == buf) {
-    return make_null_optional<int32_t>();
-  }
-  return ret;
+  const int saved_errno = errno;
+  errno = 0;
+  const R ret = func(buf, &end, base);
+  const bool is_overflow = errno == ERANGE;
+  errno = saved_errno;
+
+  if (end == buf || is_overflow ||
+      ret < static_cast<R>(std::numeric_limits<T>::min()) ||
+      ret > static_cast<R>(std::numeric_limits<T>::max()))
+    return make_null_optional<T>();
+
+  // strtoull() accepts the negative number
+  if (std::is_unsigned<T>::value && ret != 0 && memchr(buf, '-', end - buf))
+    return make_null_optional<T>();
+
+  return static_cast<T>(ret);
 }
 
-optional<int64_t> kanon::StringViewTo64(StringView const &sv,
-                                        int base) KANON_NOEXCEPT
-{
-  assert(sv.size() < 64);
-  static char buf[64];
-  memcpy(buf, sv.data(), sv.size());
-  buf[sv.size()] = 0;
-  char *end = NULL;
-  int64_t ret = strtoll(buf, &end, base);
-  if (ret == 0 && end == buf) {
-    return make_null_optional<int64_t>();
+} // namespace
+
+#define DEFINE_STRING_VIEW_TO_INT(name, type, func)                            \
+  optional<type> kanon::name(StringView const &sv, int base) KANON_NOEXCEPT    \
+  {                                                                            \
+    return StrToInt<type>(sv, base, func);                                     \
   }
-  return ret;
-}
 
+DEFINE_STRING_VIEW_TO_INT(StringViewToU64, uint64_t, ::strtoull)
+DEFINE_STRING_VIEW_TO_INT(StringViewToU32, uint32_t, ::strtoull)
+DEFINE_STRING_VIEW_TO_INT(StringViewToU16, uint16_t, ::strtoull)
+DEFINE_STRING_VIEW_TO_INT(StringViewToU8, uint8_t, ::strtoull)
+DEFINE_STRING_VIEW_TO_INT(StringViewTo64, int64_t, ::strtoll)
+DEFINE_STRING_VIEW_TO_INT(StringViewTo32, int32_t, ::strtoll)
+DEFINE_STRING_VIEW_TO_INT(StringViewTo16, int16_t, ::strtoll)
+DEFINE_STRING_VIEW_TO_INT(StringViewTo8, int8_t, ::strtoll)
diff --git a/kanon/string/string_view_util.h b/kanon/string/string_view_util.h
index 9221723..a93a488 100644
--- a/kanon/string/string_view_util.h
+++ b/kanon/string/string_view_util.h
@@ -35,29 +35,17 @@ KANON_CORE_API optional<int64_t> StringViewTo64(StringView const &sv,
 KANON_CORE_API optional<int32_t> StringViewTo32(StringView const &sv,
                                                 int base = 10) KANON_NOEXCEPT;
 
-KANON_INLINE optional<int16_t> StringViewTo16(StringView const &sv,
-                                              int base = 10) KANON_NOEXCEPT
-{
-  return StringViewTo32(sv, base);
-}
+KANON_CORE_API optional<int16_t> StringViewTo16(StringView const &sv,
+                                                int base = 10) KANON_NOEXCEPT;
 
-KANON_INLINE optional<uint16_t> StringViewToU16(StringView const &sv,
-                                                int base = 10) KANON_NOEXCEPT
-{
-  return StringViewToU32(sv, base);
-}
+KANON_CORE_API optional<uint16_t> StringViewToU16(StringView const &sv,
+                                                int base = 10) KANON_NOEXCEPT;
 
-KANON_INLINE optional<int8_t> StringViewTo8(StringView const &sv,
-                                            int base = 10) KANON_NOEXCEPT
-{
-  return StringViewTo32(sv, base);
-}
+KANON_CORE_API optional<int8_t> StringViewTo8(StringView const &sv,
+                                                int base = 10) KANON_NOEXCEPT;
 
-KANON_INLINE optional<uint8_t> StringViewToU8(StringView const &sv,
-                                              int base = 10) KANON_NOEXCEPT
-{
-  return StringViewToU32(sv, base);
-}
+KANON_CORE_API optional<uint8_t> StringViewToU8(StringView const &sv,
+                                                int base = 10) KANON_NOEXCEPT;
 
 } // namespace kanon
 
-- 
2.43.0


From 6edca13ed9ed4a9edef0e79bc70ec86578583f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 090/140] fix: an optional keeps its value when the copy of
 other optional throws

---
 kanon/util/optional.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kanon/util/optional.h b/kanon/util/optional.h
index 158347a..b6cea9c 100644
--- a/kanon/util/optional.h
+++ b/kanon/util/optional.h
@@ -108,7 +108,11 @@ class optional {
     return *this = Self(std::move(other));
   }
 
-  optional &operator=(optional const &other) = default;
+  optional &operator=(optional const &other)
+  {
+    // The value is unchanged if the copy throws
+    return *this = Self(other);
+  }
   optional &operator=(optional &&other) KANON_NOEXCEPT = default;
 
   template <typename U = T,
-- 
2.43.0


From 579d4e956520aad7215848d87a0b4b0ebb975553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 091/140] fix: the flow info and the scope id of an InetAddr
 aren't garbage

---
 kanon/net/inet_addr.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kanon/net/inet_addr.cc b/kanon/net/inet_addr.cc
index 37c50c4..d72c7fe 100644
--- a/kanon/net/inet_addr.cc
+++ b/kanon/net/inet_addr.cc
@@ -33,6 +33,7 @@ static_assert(sizeof(InetAddr) == sizeof(struct sockaddr_in6),
               "InetAddr size should equal to sockaddr_in6");
 
 InetAddr::InetAddr(Port port, bool loopback, bool v6)
+  : addr6_()
 {
   if (v6) {
     addr6_.sin6_port = sock::ToNetworkByteOrder16(port);
-- 
2.43.0


From 968956fa279754ff608ef3d549eaf45e8bc62d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 092/140] fix: malformed text of an InetAddr is rejected by
 InetAddrException

---
 kanon/net/inet_addr.cc | 63 +++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/kanon/net/inet_addr.cc b/kanon/net/inet_addr.cc
index d72c7fe..dca1e19 100644
--- a/kanon/net/inet_addr.cc
+++ b/kanon/net/inet_addr.cc
@@ -47,19 +47,40 @@ InetAddr::InetAddr(Port port, bool loopback, bool v6)
   }
 }
 
+static bool ParseIp(StringView ip, int family, void *addr)
+{
+  return !ip.contains('\0') && ::inet_pton(family, ip.ToString().c_str(), addr) == 1;
+}
+
+static optional<InetAddr::Port> ParsePort(StringView port)
+{
+  // strtoul() accepts the sign, leading spaces and the rest
+  if (port.find_first_not_of("0123456789") != StringView::npos)
+    return make_null_optional<InetAddr::Port>();
+  return StringViewToU16(port);
+}
+
 InetAddr::InetAddr(StringView ip, Port port)
+  : addr6_()
 {
-  if (ip.find('.') != StringView::npos) {
-    sock::FromIpPort(ip.data(), port, addr_);
-  } else if (ip.find(':') != StringView::npos) {
-    sock::FromIpPort(ip.data(), port, addr6_);
+  bool ok;
+  // The IPv4-mapped IPv6 address also contains the dot
+  if (ip.contains(':')) {
+    addr6_.sin6_family = AF_INET6;
+    addr6_.sin6_port = sock::ToNetworkByteOrder16(port);
+    ok = ParseIp(ip, AF_INET6, &addr6_.sin6_addr);
   } else {
-    throw InetAddr("This is invalid ip argument");
+    addr_.sin_family = AF_INET;
+    addr_.sin_port = sock::ToNetworkByteOrder16(port);
+    ok = ParseIp(ip, AF_INET, &addr_.sin_addr);
   }
+  if (!ok) throw InetAddrException("This is invalid ip argument");
 }
 
 InetAddr::InetAddr(StringView addr)
+  : addr6_()
 {
+  if (addr.empty()) throw InetAddrException("This a invalid address");
 #if 0
   // Address format:
   // host-part:port-part
@@ -121,7 +142,8 @@ InetAddr::InetAddr(StringView addr)
     }
   }
 #else
-  if (std::isalpha(addr[0])) {
+  const auto first = static_cast<unsigned char>(addr[0]);
+  if (std::isalpha(first)) {
     // Hostname
     auto colon_pos = addr.find(':');
     if (colon_pos != StringView::npos) {
@@ -130,30 +152,33 @@ InetAddr::InetAddr(StringView addr)
       *this = InetAddr(hostname, service);
       return;
     }
-  } else if ((std::isalnum(addr[0]) && addr.find('.') != StringView::npos) ||
-             addr[0] == '*')
+  } else if ((std::isalnum(first) && addr.find('.') != StringView::npos) ||
+             first == '*')
   {
     // Ipv4 address
     auto colon_pos = addr.find(':');
     if (colon_pos != StringView::npos) {
-      auto ip = addr.substr(0, colon_pos).ToString();
+      auto ip = addr.substr(0, colon_pos);
       // ip must be dotted decimal presentation
       if (ip == "*") ip = "0.0.0.0";
-      auto const port = addr.substr(colon_pos + 1).ToString();
-      auto o_port = StringViewToU16(port);
-      if (o_port) {
-        sock::FromIpPort(ip, *o_port, addr_);
+      auto o_port = ParsePort(addr.substr(colon_pos + 1));
+      if (o_port && ParseIp(ip, AF_INET, &addr_.sin_addr)) {
+        addr_.sin_family = AF_INET;
+        addr_.sin_port = sock::ToNetworkByteOrder16(*o_port);
         return;
       }
     }
   } else if (addr[0] == '[') {
     auto right_pos = addr.find(']');
-    if (right_pos != StringView::npos) {
-      auto const ip = addr.substr_range(1, right_pos).ToString();
-      auto const port = addr.substr(right_pos + 2).ToString();
-      auto o_port = StringViewToU16(port);
-      if (o_port) {
-        sock::FromIpPort(ip, *o_port, addr6_);
+    if (right_pos != StringView::npos && right_pos + 1 < addr.size() &&
+        addr[right_pos + 1] == ':')
+    {
+      auto o_port = ParsePort(addr.substr(right_pos + 2));
+      if (o_port &&
+          ParseIp(addr.substr_range(1, right_pos), AF_INET6, &addr6_.sin6_addr))
+      {
+        addr6_.sin6_family = AF_INET6;
+        addr6_.sin6_port = sock::ToNetworkByteOrder16(*o_port);
         return;
       }
     }
-- 
2.43.0


From b08ca09d45e20ecebbc74b1cd3fd4a910aa29646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 093/140] fix: LOG_SYSERROR without error doesn't print the
 uninitialized memory

---
 kanon/log/logger.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index 89b7b74..05c38e7 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -137,6 +137,7 @@ Logger::Logger(SourceFile basefile, size_t line, LogLevel level, bool is_sys)
   // dummy parameter
   KANON_UNUSED(is_sys);
   char error_buf[4096];
+  error_buf[0] = 0; // No error
 #ifdef KANON_ON_UNIX
   auto savedErrno = errno;
   if (savedErrno) {
-- 
2.43.0


From 8af44d340b076a88747c24081b0930c4ab39994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 094/140] fix: strerror_tl() of Logger returns the error
 message instead of empty string

---
 kanon/log/logger.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index 05c38e7..990705a 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -86,16 +86,28 @@ Logger::FlushCallback Logger::flush_callback_ = &DefaultFlush;
 KANON_TLS char t_errorBuf[ERRNO_BUFFER_SIZE];
 KANON_TLS char t_lastErrorBuf[ERRNO_BUFFER_SIZE];
 
+// The XSI-compliant strerror_r() returns int and fills the buffer
+static KANON_INLINE char const *strerrorResult(int) KANON_NOEXCEPT
+{
+  return t_errorBuf;
+}
+
+// The GNU-specific strerror_r() may return the other string
+static KANON_INLINE char const *strerrorResult(char const *msg) KANON_NOEXCEPT
+{
+  return msg;
+}
+
 // tl = thread local
 char const *strerror_tl(int savedErrno)
 {
 #ifdef KANON_ON_UNIX
-  auto ret = ::strerror_r(savedErrno, t_errorBuf, ERRNO_BUFFER_SIZE);
+  return strerrorResult(
+      ::strerror_r(savedErrno, t_errorBuf, ERRNO_BUFFER_SIZE));
 #else
-  auto ret = ::strerror_s(t_errorBuf, ERRNO_BUFFER_SIZE, savedErrno);
+  return strerrorResult(
+      ::strerror_s(t_errorBuf, ERRNO_BUFFER_SIZE, savedErrno));
 #endif
-  KANON_UNUSED(ret);
-  return t_errorBuf;
 }
 
 #ifdef KANON_ON_WIN
-- 
2.43.0


From 1aad1ac0552c6f3735e62f2a7dfdc0e6088ee2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 095/140] fix: the record of a long message ends with the
 location and newline

---
 kanon/log/logger.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index 990705a..7b6a1fd 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -169,7 +169,18 @@ Logger::Logger(SourceFile basefile, size_t line, LogLevel level, bool is_sys)
 
 Logger::~Logger() KANON_NOEXCEPT
 {
-  stream_ << " - " << basename_ << ":" << line_ << "\n";
+  LogStream tail;
+  tail << " - " << basename_ << ":" << line_ << "\n";
+
+  const auto max_size = stream_.maxsize() - 1; // terminator
+  if (stream_.size() + tail.size() > max_size) {
+    // Truncate the message, keep the tail
+    const auto keep = max_size - tail.size();
+    stream_.buffer().reset();
+    stream_.buffer().AdvanceRead(keep);
+  }
+  stream_.Append(tail.data(), tail.size());
+
   output_callback_(stream_.data(), stream_.size());
 
   if (cur_log_level_ == KANON_LL_FATAL || cur_log_level_ == KANON_LL_SYS_FATAL)
-- 
2.43.0


From 9e2b3261fa06a9718dc8b6e603b735f39194c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 096/140] fix: EnableAllLog() takes effect after the
 initialization of Logger

---
 kanon/log/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/log/logger.h b/kanon/log/logger.h
index 9d9f316..08df746 100644
--- a/kanon/log/logger.h
+++ b/kanon/log/logger.h
@@ -131,7 +131,7 @@ class Logger : noncopyable {
   KANON_INLINE static void SetColor(bool c) KANON_NOEXCEPT { need_color_ = c; }
   KANON_INLINE static LogLevel GetLogLevel() KANON_NOEXCEPT
   {
-    return log_level_;
+    return g_all_log ? log_level_ : KANON_LL_OFF;
   }
   KANON_INLINE static void SetLogLevel(LogLevel level) KANON_NOEXCEPT
   {
-- 
2.43.0


From c533c236d0b1508f245b17270f21897174c9ccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 097/140] fix: the else after a log statement matches its own
 if

---
 kanon/log/logger.h | 54 ++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/kanon/log/logger.h b/kanon/log/logger.h
index 08df746..7933453 100644
--- a/kanon/log/logger.h
+++ b/kanon/log/logger.h
@@ -216,33 +216,39 @@ KANON_CORE_API void DefaultOutput(char const *, size_t);
 #endif
 
 #define LOG_TRACE                                                              \
-  if (kanon::Logger::GetLogLevel() <= kanon::Logger::KANON_LL_TRACE)           \
-  kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_TRACE, __func__)   \
+  if (kanon::Logger::GetLogLevel() > kanon::Logger::KANON_LL_TRACE) {          \
+  } else                                                                       \
+    kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_TRACE, __func__) \
       .stream()
 
 #define LOG_DEBUG                                                              \
-  if (kanon::Logger::GetLogLevel() <= kanon::Logger::KANON_LL_DEBUG)           \
-  kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_DEBUG, __func__)   \
+  if (kanon::Logger::GetLogLevel() > kanon::Logger::KANON_LL_DEBUG) {          \
+  } else                                                                       \
+    kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_DEBUG, __func__) \
       .stream()
 
 #define LOG_INFO                                                               \
-  if (kanon::Logger::GetLogLevel() <= kanon::Logger::KANON_LL_INFO)            \
-  kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_INFO).stream()
+  if (kanon::Logger::GetLogLevel() > kanon::Logger::KANON_LL_INFO) {           \
+  } else                                                                       \
+    kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_INFO).stream()
 
 #define LOG_WARN                                                               \
-  if (kanon::Logger::GetLogLevel() <= kanon::Logger::KANON_LL_WARN)            \
-  kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_WARN).stream()
+  if (kanon::Logger::GetLogLevel() > kanon::Logger::KANON_LL_WARN) {           \
+  } else                                                                       \
+    kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_WARN).stream()
 
 #define LOG_ERROR                                                              \
-  if (kanon::Logger::GetLogLevel() <= kanon::Logger::KANON_LL_ERROR)           \
-  kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_ERROR).stream()
+  if (kanon::Logger::GetLogLevel() > kanon::Logger::KANON_LL_ERROR) {          \
+  } else                                                                       \
+    kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_ERROR).stream()
 
 #define LOG_FATAL                                                              \
   kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_FATAL).stream()
 
 #define LOG_SYSERROR                                                           \
-  if (kanon::Logger::GetLogLevel() <= kanon::Logger::KANON_LL_SYS_ERROR)       \
-  kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_SYS_ERROR, true)   \
+  if (kanon::Logger::GetLogLevel() > kanon::Logger::KANON_LL_SYS_ERROR) {      \
+  } else                                                                       \
+    kanon::Logger(__FILE__, __LINE__, kanon::Logger::KANON_LL_SYS_ERROR, true) \
       .stream()
 
 #define LOG_SYSFATAL                                                           \
@@ -251,22 +257,34 @@ KANON_CORE_API void DefaultOutput(char const *, size_t);
 
 // Kanon lib macro
 #define LOG_TRACE_KANON                                                        \
-  if (g_kanon_log) LOG_TRACE
+  if (!g_kanon_log) {                                                          \
+  } else                                                                       \
+    LOG_TRACE
 
 #define LOG_DEBUG_KANON                                                        \
-  if (g_kanon_log) LOG_DEBUG
+  if (!g_kanon_log) {                                                          \
+  } else                                                                       \
+    LOG_DEBUG
 
 #define LOG_INFO_KANON                                                         \
-  if (g_kanon_log) LOG_INFO
+  if (!g_kanon_log) {                                                          \
+  } else                                                                       \
+    LOG_INFO
 
 #define LOG_WARN_KANON                                                         \
-  if (g_kanon_log) LOG_WARN
+  if (!g_kanon_log) {                                                          \
+  } else                                                                       \
+    LOG_WARN
 
 #define LOG_ERROR_KANON                                                        \
-  if (g_kanon_log) LOG_ERROR
+  if (!g_kanon_log) {                                                          \
+  } else                                                                       \
+    LOG_ERROR
 
 #define LOG_SYSERROR_KANON                                                     \
-  if (g_kanon_log) LOG_SYSERROR
+  if (!g_kanon_log) {                                                          \
+  } else                                                                       \
+    LOG_SYSERROR
 
 // Format logging macros
 #define FMT_LOG_TRACE(fmt, ...)                                                \
-- 
2.43.0


From ef9d19c842f1c4f7384ba1785fdd803c445131a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 098/140] hook: KANON_VERIF_LARGE_STREAM_SIZE sets the size of
 the large streams

---
 kanon/string/stream_common.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kanon/string/stream_common.h b/kanon/string/stream_common.h
index c8f28b5..e322b43 100644
--- a/kanon/string/stream_common.h
+++ b/kanon/string/stream_common.h
@@ -6,7 +6,12 @@
 namespace kanon {
 
 constexpr int kSmallStreamSize = 4096;
+#if defined(KANON_VERIF) && defined(KANON_VERIF_LARGE_STREAM_SIZE)
+// A verification harness fills small buffers quickly
+constexpr int64_t kLargeStreamSize = KANON_VERIF_LARGE_STREAM_SIZE;
+#else
 constexpr int64_t kLargeStreamSize = 4096 << 10;
+#endif
 constexpr int kCastStreamSize = 64;
 
 } // namespace kanon
-- 
2.43.0


From 8cd96a5eaf00fdbe46cb31b75e3922d30c47a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 099/140] fix: the directory of log files created by AppendFile
 is accessible

---
 kanon/log/append_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/log/append_file.cc b/kanon/log/append_file.cc
index 81300ee..eaf2ffb 100644
--- a/kanon/log/append_file.cc
+++ b/kanon/log/append_file.cc
@@ -29,7 +29,7 @@ AppendFile::AppendFile(StringArg filename)
     auto ret = 0;
 
 #ifdef KANON_ON_UNIX
-    ret = ::mkdir(dir.data(), S_IRUSR);
+    ret = ::mkdir(dir.data(), S_IRWXU | S_IRGRP | S_IXGRP | S_IROTH | S_IXOTH);
 #elif defined(KANON_ON_WIN)
     ret = ::_mkdir(dir.data());
 #else
-- 
2.43.0


From 92a167a39e6c9edf583fad9688b581de71349385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 100/140] fix: the files removed by LogFile are handed over to
 the remove thread under the lock

---
 kanon/log/log_file.cc | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/kanon/log/log_file.cc b/kanon/log/log_file.cc
index e0507b3..d09aa71 100644
--- a/kanon/log/log_file.cc
+++ b/kanon/log/log_file.cc
@@ -26,19 +26,22 @@ LogFile<T>::LogFile(StringView basename, size_t roll_size, StringView prefix,
 
   if (log_file_num_ != UINT_MAX) {
     remove_thr_.StartRun([this]() {
-      while (!quit_remove_thr_) {
+      std::vector<std::string> old_files;
+      bool quit = false;
+      while (!quit) {
         {
           MutexGuard guard(remove_mtx_);
-          // There is one consumer only, don't use while is also ok
-          if (log_files_dup_.size() < log_file_num_ - 1) {
+          while (log_files_dup_.empty() && !quit_remove_thr_) {
             remove_cond_.Wait();
           }
+          quit = quit_remove_thr_;
+          old_files.swap(log_files_dup_);
         }
 
-        for (auto log_file : log_files_dup_) {
+        for (auto const &log_file : old_files) {
           ::remove(log_file.c_str());
         }
-        log_files_dup_.clear();
+        old_files.clear();
       }
     });
   }
@@ -48,8 +51,11 @@ template <bool T>
 KANON_INLINE LogFile<T>::~LogFile() KANON_NOEXCEPT
 {
   if (log_file_num_ != UINT_MAX) {
-    quit_remove_thr_ = true;
-    remove_cond_.Notify();
+    {
+      MutexGuard guard(remove_mtx_);
+      quit_remove_thr_ = true;
+      remove_cond_.Notify();
+    }
 
     remove_thr_.Join();
   }
@@ -83,14 +89,13 @@ void LogFile<T>::Append(char const *data, size_t num) KANON_NOEXCEPT
     }
   }
 
-  if (log_files_.size() >= log_file_num_) {
-    auto last_file = std::move(log_files_.back());
-    log_files_.pop_back();
-
-    log_files_dup_.swap(log_files_);
-    log_files_.emplace_back(std::move(last_file));
-
+  // The newest file is always kept
+  if (log_files_.size() >= log_file_num_ && log_files_.size() > 1) {
     KANON_MUTEX_GUARD(remove_mtx_);
+
+    auto const last = log_files_.end() - 1;
+    log_files_dup_.insert(log_files_dup_.end(), log_files_.begin(), last);
+    log_files_.erase(log_files_.begin(), last);
     remove_cond_.Notify();
   }
 }
-- 
2.43.0


From 87c07a893c7d3c3f41a1c3283b94765cf93da9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 101/140] fix: the records before AsyncLog::Stop() are written

---
 kanon/log/async_log.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/kanon/log/async_log.cc b/kanon/log/async_log.cc
index 89e1e0f..3e1ba64 100644
--- a/kanon/log/async_log.cc
+++ b/kanon/log/async_log.cc
@@ -65,7 +65,8 @@ void AsyncLog::StartRun()
                      roll_interval_, flush_interval_);
 
     // back thread do long loop
-    while (running_) {
+    bool running = true;
+    while (running) {
       assert(buffer1 && buffer1->len() == 0);
       assert(buffer2 && buffer2->len() == 0);
       assert(buffers_dup_.empty());
@@ -80,7 +81,7 @@ void AsyncLog::StartRun()
         // \note
         //   This is not a classic use,
         //   but there is one cosumer, use if here is safe
-        if (buffers_.empty()) {
+        if (buffers_.empty() && running_) {
           // If front thread log message is so short,
           // we also awake and write
           // To ensure real time message
@@ -88,6 +89,9 @@ void AsyncLog::StartRun()
           // not_empty_.Wait();
         }
 
+        // The last round also writes the records before Stop()
+        running = running_;
+
         // Although current_buffer_ have space to fill
         // we also push it to buffers_
         buffers_.emplace_back(std::move(current_buffer_));
@@ -152,8 +156,11 @@ void AsyncLog::Stop() KANON_NOEXCEPT
 {
   assert(running_);
 
-  running_ = false;
-  not_empty_.Notify();
+  {
+    MutexGuard guard{mutex_};
+    running_ = false;
+    not_empty_.Notify();
+  }
   back_thr_.Join();
 }
 
-- 
2.43.0


From c29fd3870f01c1fd255e3f1b4f7ad603b8aebe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 102/140] fix: the back thread of AsyncLog doesn't set the
 color while the others are logging

---
 kanon/log/async_log.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kanon/log/async_log.cc b/kanon/log/async_log.cc
index 3e1ba64..a5728cd 100644
--- a/kanon/log/async_log.cc
+++ b/kanon/log/async_log.cc
@@ -49,8 +49,6 @@ void AsyncLog::StartRun()
   buffers_dup_.reserve(16);
 
   back_thr_.StartRun([this]() {
-    latch_.Countdown();
-
     // In back thread, we also can set two buffer for front threads using,
     BufferUPtr buffer1{kanon::make_unique<Buffer>()};
     BufferUPtr buffer2{kanon::make_unique<Buffer>()};
@@ -64,6 +62,10 @@ void AsyncLog::StartRun()
     LogFile<> output(basename_, roll_size_, prefix_, log_file_num_,
                      roll_interval_, flush_interval_);
 
+    // LogFile also sets the color of Logger,
+    // hence, the front threads start logging after this
+    latch_.Countdown();
+
     // back thread do long loop
     bool running = true;
     while (running) {
-- 
2.43.0


From 47cedc5e62ac59047e452893a00366271278a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 103/140] fix: the acceptor goes on with the queue although the
 client accepted by the dummy fd has gone

---
 kanon/net/acceptor.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kanon/net/acceptor.cc b/kanon/net/acceptor.cc
index 1ab3565..6b47bbc 100644
--- a/kanon/net/acceptor.cc
+++ b/kanon/net/acceptor.cc
@@ -68,7 +68,10 @@ void Acceptor::HandleAccept()
         ::close(dummyfd_);
         // accept the fd
         dummyfd_ = ::accept(socket_.GetFd(), NULL, NULL);
-        again = dummyfd_ >= 0;
+        // The client in the queue maybe has gone, the others are waiting
+        again = dummyfd_ >= 0 ||
+                (errno != EAGAIN && errno != EMFILE && errno != ENFILE &&
+                 errno != ENOBUFS && errno != ENOMEM);
         ::close(dummyfd_);
         // create new dummy fd to use after
         dummyfd_ = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
-- 
2.43.0


From e0daf98b728e32bde82b6af68d42b39f4061bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 104/140] fix: bringing a latch to zero by ResetAndWait() or
 AddAndWait() also releases the other waiters

---
 kanon/thread/count_down_latch.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/thread/count_down_latch.h b/kanon/thread/count_down_latch.h
index b748c81..9d03fdf 100644
--- a/kanon/thread/count_down_latch.h
+++ b/kanon/thread/count_down_latch.h
@@ -37,6 +37,7 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ = count;
+    NotifyIfReached();
     while (count_ > 0) cond_.Wait();
   }
 
@@ -51,6 +52,7 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ += count;
+    NotifyIfReached();
     while (count_ > 0) cond_.Wait();
   }
 
-- 
2.43.0


From e7ed792f7e61a8482a2429f2b892a3a791881e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 105/140] fix: a range of objects of a user's type can be
 destroyed (FixedVector did not compile for them)

---
 kanon/algo/construct.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/algo/construct.h b/kanon/algo/construct.h
index e2f3385..4be22df 100644
--- a/kanon/algo/construct.h
+++ b/kanon/algo/construct.h
@@ -4,6 +4,7 @@
 #include <utility>     // std::forward
 #include <type_traits> // std::is_trivially_destructible
 #include <iterator>    // std::iterator_traits
+#include <memory>      // std::addressof
 
 #include "kanon/util/macro.h"
 
@@ -48,7 +49,7 @@ template <typename FI>
 KANON_INLINE void destroyRange(FI first, FI last, std::false_type)
 {
   for (; first != last; ++first) {
-    destroy(addressof(*first));
+    destroy(std::addressof(*first));
   }
 }
 
-- 
2.43.0


From daa281e89307d87941738d7c3cff58d600b77694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 106/140] fix: growing, shrinking or assigning a reserved array
 destroys the old elements exactly once

---
 kanon/algo/reserved_array.h | 41 +++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/kanon/algo/reserved_array.h b/kanon/algo/reserved_array.h
index 9d5a9b5..7269fcb 100644
--- a/kanon/algo/reserved_array.h
+++ b/kanon/algo/reserved_array.h
@@ -261,17 +261,29 @@ class ReservedArray : protected Alloc {
       throw std::bad_alloc{};
     }
 
-    auto new_end = new_data;
+    auto new_end = new_data + n;
+    auto old_end = new_data + GetSize();
+
+    // The new elements first: If one can't be constructed,
+    // the old elements have not been moved.
+    try {
+      zstl::UninitializedDefaultConstruct(old_end, new_end);
+    }
+    catch (...) {
+      AllocTraits::deallocate(*this, new_data, n);
+      throw;
+    }
 
     try {
-      new_end = zstl::UninitializedMoveIfNoexcept(data_, end_, new_end);
-      new_end = zstl::UninitializedDefaultConstruct(new_end, new_data + n);
+      zstl::UninitializedMoveIfNoexcept(data_, end_, new_data);
     }
     catch (...) {
+      zstl::DestroyRange(old_end, new_end);
       AllocTraits::deallocate(*this, new_data, n);
       throw;
     }
 
+    zstl::DestroyRange(data_, end_);
     AllocTraits::deallocate(*this, data_, GetSize());
     data_ = new_data;
     end_ = new_end;
@@ -316,10 +328,7 @@ class ReservedArray : protected Alloc {
       throw;
     }
 
-    for (auto beg = data_ + n; beg != end_; ++beg) {
-      AllocTraits::destroy(*this, beg);
-    }
-
+    zstl::DestroyRange(data_, end_);
     AllocTraits::deallocate(*this, data_, GetSize());
 
     data_ = new_data;
@@ -351,23 +360,15 @@ class ReservedArray : protected Alloc {
   template <typename U, typename = zstl::enable_if_t<cond<U>::value>>
   void CopyAssignmentForSizeNotEqual(ReservedArray const &other)
   {
-    auto tmp = this->reallocate(data_, other.size());
-
-    if (tmp == NULL) {
-      throw std::bad_alloc{};
-    }
-
+    // The elements cut off must be destroyed before their memory is released,
+    // and there may be no memory at all afterwards
     if (other.size() > size()) {
-      std::copy(other.begin(), other.begin() + size(), tmp);
-      std::uninitialized_copy(other.begin() + size(), other.end(),
-                              tmp + size());
+      Reallocate<U>(other.size());
     } else {
-      std::copy(other.begin(), other.end(), tmp);
-      zstl::DestroyRange(tmp + other.size(), tmp + size());
+      Shrink_impl<U>(other.size());
     }
 
-    data_ = tmp;
-    end_ = data_ + other.size();
+    std::copy(other.begin(), other.end(), begin());
   }
 
   template <typename U, zstl::enable_if_t<!cond<U>::value, int> = 0>
-- 
2.43.0


From 1ed38e5a19a1d4a15147aedd9e1b72db398e750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:43 +0000
Subject: [PATCH 107/140] fix: a read that ends right behind the size header is
 no error for ProtobufCodec2

---
 kanon/protobuf/protobuf_codec2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/protobuf/protobuf_codec2.cc b/kanon/protobuf/protobuf_codec2.cc
index 534b777..0489895 100644
--- a/kanon/protobuf/protobuf_codec2.cc
+++ b/kanon/protobuf/protobuf_codec2.cc
@@ -91,7 +91,7 @@ void ProtobufCodec2::SetUpConnection(TcpConnectionPtr const &conn)
       }
 
       KANON_ASSERT(
-          buffer.GetReadableSize() > size_header_len,
+          buffer.GetReadableSize() >= size_header_len,
           "Buffer's readable size must be >= the length of size_header");
       // Waiting complete message
       if (buffer.GetReadableSize() - size_header_len < size_header) break;
-- 
2.43.0


From fa2f64cf0f4481856be1f6f5a00213d151f3a17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 108/140] fix: messages that arrive together are not discarded
 by ProtobufCodec2 as a single too large one

---
 kanon/protobuf/protobuf_codec2.cc | 31 ++++++++++++++++++-------------
 kanon/protobuf/protobuf_codec2.h  |  3 +++
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/kanon/protobuf/protobuf_codec2.cc b/kanon/protobuf/protobuf_codec2.cc
index 0489895..7d611b0 100644
--- a/kanon/protobuf/protobuf_codec2.cc
+++ b/kanon/protobuf/protobuf_codec2.cc
@@ -45,15 +45,6 @@ void ProtobufCodec2::SetUpConnection(TcpConnectionPtr const &conn)
 {
   conn->SetMessageCallback([this](TcpConnectionPtr const &conn, Buffer &buffer,
                                   TimeStamp receive_time) {
-    // Discard too large buffer early to avoid making memory overflow
-    if (buffer.GetReadableSize() >= max_size_) {
-      LOG_WARN_KANON_PROTOBUF << "A single message too large, just discard";
-      buffer.AdvanceAll();
-      buffer.Shrink();
-      error_callback_(conn, E_INVALID_SIZE_HEADER);
-      return;
-    }
-
     uint32_t size_header = 0;
     size_t size_header_len = 0;
     // Use while here since maybe not just one message in buffer
@@ -67,7 +58,7 @@ void ProtobufCodec2::SetUpConnection(TcpConnectionPtr const &conn)
               << "This is a valid message encoded by varint";
           break;
         case KVARINT_DECODE_BUF_INVALID:
-          error_callback_(conn, E_INVALID_MESSAGE);
+          OnError(conn, buffer, E_INVALID_MESSAGE);
           return;
         case KVARINT_DECODE_BUF_SHORT:
 #ifndef NDEBUG
@@ -86,7 +77,7 @@ void ProtobufCodec2::SetUpConnection(TcpConnectionPtr const &conn)
       if (size_header < tag_.size() + CHECKSUM_LENGTH ||
           size_header >= max_size_ - size_header_len)
       {
-        error_callback_(conn, E_INVALID_SIZE_HEADER);
+        OnError(conn, buffer, E_INVALID_SIZE_HEADER);
         break;
       }
 
@@ -104,12 +95,12 @@ void ProtobufCodec2::SetUpConnection(TcpConnectionPtr const &conn)
       // untrusted field. Such message should discard.
 
       if (!VerifyCheckSum(buffer, size_header)) {
-        error_callback_(conn, E_INVALID_CHECKSUM);
+        OnError(conn, buffer, E_INVALID_CHECKSUM);
         break;
       }
 
       if (::memcmp(buffer.GetReadBegin(), tag_.data(), tag_.size()) != 0) {
-        error_callback_(conn, E_INVALID_MESSAGE);
+        OnError(conn, buffer, E_INVALID_MESSAGE);
         break;
       }
 
@@ -123,6 +114,20 @@ void ProtobufCodec2::SetUpConnection(TcpConnectionPtr const &conn)
   });
 }
 
+void ProtobufCodec2::OnError(TcpConnectionPtr const &conn, Buffer &buffer,
+                             ErrorCode err)
+{
+  error_callback_(conn, err);
+
+  // There may be many complete messages in the buffer, so its size says
+  // nothing about a single message before they are decoded.
+  if (buffer.GetReadableSize() >= max_size_) {
+    LOG_WARN_KANON_PROTOBUF << "Too large invalid message, just discard";
+    buffer.AdvanceAll();
+    buffer.Shrink();
+  }
+}
+
 void ProtobufCodec2::Send(TcpConnection *const conn,
                           ::google::protobuf::Message const *message)
 {
diff --git a/kanon/protobuf/protobuf_codec2.h b/kanon/protobuf/protobuf_codec2.h
index 9b232dc..5e01a3f 100644
--- a/kanon/protobuf/protobuf_codec2.h
+++ b/kanon/protobuf/protobuf_codec2.h
@@ -155,6 +155,9 @@ class ProtobufCodec2 : noncopyable {
                                           SizeHeaderType size_header);
   static KANON_INLINE char const *ErrorToString(ErrorCode err) noexcept;
 
+  /** Report an error and don't hoard what can't be decoded */
+  void OnError(TcpConnectionPtr const &conn, Buffer &buffer, ErrorCode err);
+
   /**
    * Identify specific message type
    * This should be unique identifier
-- 
2.43.0


From c70dca2ef0acf059769aa8b64ceec8ba14041dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:35 +0000
Subject: [PATCH 109/140] fix: a message of nearly the largest size is not
 discarded by GenericPbCodec because of its header or of what follows it

---
 kanon/protobuf/generic_pb_codec.cc | 27 ++++++++++++++++-----------
 kanon/protobuf/generic_pb_codec.h  |  3 +++
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/kanon/protobuf/generic_pb_codec.cc b/kanon/protobuf/generic_pb_codec.cc
index 1fed446..9970eda 100644
--- a/kanon/protobuf/generic_pb_codec.cc
+++ b/kanon/protobuf/generic_pb_codec.cc
@@ -108,15 +108,6 @@ void GenericPbCodec::OnMessage(TcpConnectionPtr const &conn, Buffer &buffer,
    * 3.2 Otherwise, call message_callback_
    */
 
-  // Discard too large buffer early to avoid making memory overflow
-  if (buffer.GetReadableSize() >= kMaxMessageLength) {
-    LOG_WARN_KANON_PROTOBUF << "A single message too large, just discard";
-    buffer.AdvanceAll();
-    buffer.Shrink();
-    error_callback_(conn, kInvalidLength);
-    return;
-  }
-
   // Use while here since maybe not just one message in buffer
   while (buffer.GetReadableSize() >= kMinMessageLength) {
     const uint32_t size_header = buffer.GetReadBegin32();
@@ -124,7 +115,7 @@ void GenericPbCodec::OnMessage(TcpConnectionPtr const &conn, Buffer &buffer,
     if (size_header < kChecksumLength + tag_.size() ||
         size_header >= kMaxMessageLength)
     {
-      error_callback_(conn, kInvalidLength);
+      OnError(conn, buffer, kInvalidLength);
       break;
     } else if (buffer.GetReadableSize() >= kSizeLength + size_header) {
       // Coming a complete message
@@ -142,7 +133,7 @@ void GenericPbCodec::OnMessage(TcpConnectionPtr const &conn, Buffer &buffer,
         message_callback_(conn, GetPointer(message), receive_time);
         buffer.AdvanceRead(kSizeLength + size_header);
       } else {
-        error_callback_(conn, error_code);
+        OnError(conn, buffer, error_code);
         break;
       }
     } else {
@@ -151,6 +142,20 @@ void GenericPbCodec::OnMessage(TcpConnectionPtr const &conn, Buffer &buffer,
   }
 }
 
+void GenericPbCodec::OnError(TcpConnectionPtr const &conn, Buffer &buffer,
+                             ErrorCode err)
+{
+  error_callback_(conn, err);
+
+  // There may be many complete messages in the buffer, so its size says
+  // nothing about a single message before they are decoded.
+  if (buffer.GetReadableSize() >= kMaxMessageLength) {
+    LOG_WARN_KANON_PROTOBUF << "Too large invalid message, just discard";
+    buffer.AdvanceAll();
+    buffer.Shrink();
+  }
+}
+
 auto GenericPbCodec::Parse(char const *buffer, uint32_t size,
                            PROTOBUF::Message &message) -> ErrorCode
 {
diff --git a/kanon/protobuf/generic_pb_codec.h b/kanon/protobuf/generic_pb_codec.h
index 951fcca..d4e0607 100644
--- a/kanon/protobuf/generic_pb_codec.h
+++ b/kanon/protobuf/generic_pb_codec.h
@@ -136,6 +136,9 @@ class GenericPbCodec : noncopyable {
   // For debugging
   void PrintRawMessage(kanon::Buffer &buffer);
 
+  /** Report an error and don't hoard what can't be decoded */
+  void OnError(TcpConnectionPtr const &conn, Buffer &buffer, ErrorCode err);
+
  private:
   static constexpr uint32_t kSizeLength = sizeof(uint32_t);
   static constexpr uint32_t kChecksumLength = sizeof(uint32_t);
-- 
2.43.0


From 4e606dfc19b96d35e8a527e852a2aafd33c58353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 110/140] fix: the services of a RpcServer live as long as its
 connections use them

---
 kanon/rpc/rpc_server.cc | 6 ++++--
 kanon/rpc/rpc_server.h  | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/kanon/rpc/rpc_server.cc b/kanon/rpc/rpc_server.cc
index f3829de..1c8a9c8 100644
--- a/kanon/rpc/rpc_server.cc
+++ b/kanon/rpc/rpc_server.cc
@@ -8,11 +8,13 @@ using namespace kanon::protobuf::rpc;
 RpcServer::RpcServer(EventLoop *loop, InetAddr const &addr, StringArg name,
                      bool reuseport)
   : TcpServer(loop, addr, name, reuseport)
+  , services_(std::make_shared<RpcChannel::ServiceMap>())
 {
-  SetConnectionCallback([this](TcpConnectionPtr const &conn) {
+  auto services = services_;
+  SetConnectionCallback([services](TcpConnectionPtr const &conn) {
     if (conn->IsConnected()) {
       auto channel = new RpcChannel(conn);
-      channel->SetServices(services_);
+      channel->SetServices(*services);
       conn->SetContext(*channel);
     } else {
       auto p = AnyCast<RpcChannel>(conn->GetContext());
diff --git a/kanon/rpc/rpc_server.h b/kanon/rpc/rpc_server.h
index 96ea74f..2af9716 100644
--- a/kanon/rpc/rpc_server.h
+++ b/kanon/rpc/rpc_server.h
@@ -3,6 +3,8 @@
 
 #include <google/protobuf/message.h>
 
+#include <memory>
+
 #include "rpc_channel.h"
 #include "kanon/net/tcp_server.h"
 
@@ -22,12 +24,14 @@ public:
 
   inline void AddServices(PROTOBUF::Service* service);
 private:
-  RpcChannel::ServiceMap services_;
+  /* Shared with the connections: the loops of the pool may still handle
+     requests until ~TcpServer() stops them */
+  std::shared_ptr<RpcChannel::ServiceMap> services_;
 };
 
 void RpcServer::AddServices(PROTOBUF::Service* service)
 {
-  services_.emplace(service->GetDescriptor()->full_name(), service);
+  services_->emplace(service->GetDescriptor()->full_name(), service);
 }
 
 } // namespace rpc
-- 
2.43.0


From 4ab97af858b81b05dd96cc51f226d9cc7c1f941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 111/140] fix: a request that can't be parsed is not leaked by
 the RpcChannel

---
 kanon/rpc/rpc_channel.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index d5bf897..4768c14 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -303,6 +303,9 @@ void RpcChannel::OnRpcMessageForRequest(TcpConnectionPtr const &conn,
               PROTOBUF::NewCallback(this, &RpcChannel::SendRpcResponse,
                                     response, message->id()));
         } else {
+          // Nobody gets them
+          delete request;
+          delete response;
           error_code = RpcMessage::kInvalidRequest;
         }
       } else {
-- 
2.43.0


From a246f84c2153949ce8142c9cefcf11cbc928fda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 112/140] fix: a RpcChannel starts with a known id and without
 services

---
 kanon/rpc/rpc_channel.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index 4768c14..7f8da49 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -21,12 +21,17 @@ using namespace kanon::protobuf::rpc;
 
 static char const *GetRpcErrorString(RpcMessage::ErrorCode error) noexcept;
 
-RpcChannel::RpcChannel() = default;
+RpcChannel::RpcChannel()
+  : id_(0)
+  , services_(nullptr)
+{
+}
 
 // Constructor does not recommended to do many thing except for initial work
 RpcChannel::RpcChannel(TcpConnectionPtr const &conn)
   : id_(0)
   , codec_()
+  , services_(nullptr)
 {
   SetConnection(conn);
 }
-- 
2.43.0


From 9a9363500e6ec5fc4ff58ba4ded896fc46512eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 113/140] fix: a request to a RpcChannel without services is
 answered, it doesn't crash

---
 kanon/rpc/rpc_channel.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index 7f8da49..d370e0e 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -269,10 +269,15 @@ void RpcChannel::OnRpcMessageForRequest(TcpConnectionPtr const &conn,
   RpcMessage::ErrorCode error_code = RpcMessage::kNoError;
   if (message->has_request() && message->has_service() && message->has_method())
   {
-    const auto it = services_->find(message->service());
+    Service *service = nullptr;
 
-    if (it != services_->end()) {
-      Service *service = it->second;
+    // The channel of a client has no services
+    if (services_) {
+      const auto it = services_->find(message->service());
+      if (it != services_->end()) service = it->second;
+    }
+
+    if (service) {
       MethodDescriptor const *method =
           service->GetDescriptor()->FindMethodByName(message->method());
 
-- 
2.43.0


From 71e6253868cbc0a7f7041b0bd808ceb05b50732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 114/140] fix: a response nobody called for doesn't abort the
 process, eg. a server

---
 kanon/rpc/rpc_channel.cc | 42 +++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index d370e0e..b138318 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -180,33 +180,27 @@ void RpcChannel::OnRpcMessageForResponse(TcpConnectionPtr const &conn,
    * 2. Fill(/Parse) the response
    * 3. Call done with the response, it will process the response
    */
+  // Thread safe since the CallMethod()
+  // insert the outstanding_calls in the loop.
+  auto it = outstanding_calls_.find(message->id());
+
+  // Nobody waits for this:
+  // - If deadline is setted, may the done is erased
+  // - The peer sent it uncalled, eg. to a server
+  if (it == outstanding_calls_.end()) {
+    LOG_WARN_KANON_PROTOBUF_RPC << "Response without call, id = "
+                                << message->id();
+    return;
+  }
+
+  OutstandingCall outstanding_call = it->second;
+  outstanding_calls_.erase(it);
+
   if (!message->has_error()) {
     // The response must be setted in RpcServer
     KANON_ASSERT(message->has_response(),
                  "Server Internal error or unknown error");
 
-    const uint64_t id = message->id();
-
-    KANON_ASSERT(id <= id_, "The id in response should be not greater than the "
-                            "id_ maintained by client");
-
-    // Thread safe since the CallMethod()
-    // insert the outstanding_calls in the loop.
-    OutstandingCall outstanding_call{nullptr, nullptr};
-
-    auto it = outstanding_calls_.find(id);
-
-    // KANON_ASSERT(it != outstanding_calls_.end(),
-    //              "The outstanding_call must be setted before the RpcMessage "
-    //              "on_message Callback");
-
-    // If deadline is setted, may the done is erased
-    if (it == outstanding_calls_.end()) {
-      return;
-    }
-    outstanding_call = it->second;
-    outstanding_calls_.erase(it);
-
     // done and response is setted by client
     KANON_ASSERT(outstanding_call.response != nullptr,
                  "response must be setted by client");
@@ -229,10 +223,6 @@ void RpcChannel::OnRpcMessageForResponse(TcpConnectionPtr const &conn,
     outstanding_call.done->Run();
   } else {
     // Response with error setted
-    const auto n = outstanding_calls_.erase(message->id());
-    KANON_UNUSED(n);
-    assert(n == 1);
-
     // Since this error is logic error(i.e. ensure it don't happened)
     LOG_FATAL << "Rpc error message from server: "
               << GetRpcErrorString(message->error());
-- 
2.43.0


From b71d1857089ff29f1f3191c534e7aeeb0ca1465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 115/140] fix: a call may be completed after its connection is
 gone, the RpcChannel isn't used any more

---
 kanon/rpc/rpc_channel.cc | 31 +++++++++++++++++--------------
 kanon/rpc/rpc_channel.h  |  6 +++++-
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index b138318..8379c34 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -107,18 +107,24 @@ void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
   }
 }
 
-void RpcChannel::SendRpcResponse(Message *response, uint64_t id)
+void RpcChannel::SendRpcResponse(std::weak_ptr<TcpConnection> const &weak_conn,
+                                 Message *response, uint64_t id)
 {
+  // The response is new by Service::GetResponsePrototype().
+  // Must delete it to avoid memory leak.
+  std::unique_ptr<Message> response_guard(response);
+
+  auto conn = weak_conn.lock();
+  if (!conn) return;
+
   // The method is completed, fill RpcMessae and send
   RpcMessage message;
   message.set_id(id);
   message.set_response(response->SerializeAsString());
   message.set_type(RpcMessage::kResponse);
 
-  codec_.Send(conn_, &message);
-  // The response is new by Service::GetResponsePrototype().
-  // Must delete it to avoid memory leak.
-  delete response;
+  Codec codec;
+  codec.Send(conn, &message);
 }
 
 static char const *GetRpcErrorString(RpcMessage::ErrorCode error) noexcept
@@ -283,11 +289,6 @@ void RpcChannel::OnRpcMessageForRequest(TcpConnectionPtr const &conn,
 
         if (request->ParseFromString(message->request())) {
           // Closure see google/protobuf/stubs/callback.h
-          // NewCallback() support one or two argument
-          // NewCallback() accept type should be perfect match, i.e. don't allow
-          // implicit cast e.g. void Foo(std::string); NewCallback(&Foo, "a");
-          // // Don't works
-          //
           // The Service::CallMethod is a virtual function,
           // will call the named overrided function in the concrete
           // derived class of Service.
@@ -298,10 +299,12 @@ void RpcChannel::OnRpcMessageForRequest(TcpConnectionPtr const &conn,
             controller->SetDeadline(message->deadline());
             LOG_DEBUG_KANON_PROTOBUF_RPC << "deadline=" << controller->deadline() << " Ms";
           }
-          service->CallMethod(
-              method, controller, request, response,
-              PROTOBUF::NewCallback(this, &RpcChannel::SendRpcResponse,
-                                    response, message->id()));
+          std::weak_ptr<TcpConnection> weak_conn(conn_);
+          const uint64_t id = message->id();
+          service->CallMethod(method, controller, request, response,
+                              NewCallable([weak_conn, response, id]() {
+                                SendRpcResponse(weak_conn, response, id);
+                              }));
         } else {
           // Nobody gets them
           delete request;
diff --git a/kanon/rpc/rpc_channel.h b/kanon/rpc/rpc_channel.h
index 1124e24..630944a 100644
--- a/kanon/rpc/rpc_channel.h
+++ b/kanon/rpc/rpc_channel.h
@@ -95,8 +95,12 @@ class RpcChannel
   /**
    * Fill response and send
    * Used for server side
+   * \note
+   *  The service may complete the call in other thread or later, the channel
+   *  and the connection may be gone then.
    */
-  void SendRpcResponse(PROTOBUF::Message *response, uint64_t id);
+  static void SendRpcResponse(std::weak_ptr<TcpConnection> const &weak_conn,
+                              PROTOBUF::Message *response, uint64_t id);
 
  private:
   TcpConnectionPtr conn_;
-- 
2.43.0


From ab13a4e2c144ce89f5e4d98b087abb5fa6d88433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 116/140] fix: a call without a controller doesn't crash

---
 kanon/rpc/rpc_channel.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index 8379c34..8ea9e51 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -52,7 +52,9 @@ void RpcChannel::CallMethod(MethodDescriptor const *method,
                             Message const *request, Message *response,
                             Closure *done)
 {
-  RpcController *contr = kanon::down_pointer_cast<RpcController>(controller);
+  // The controller is optional
+  RpcController *contr =
+      controller ? kanon::down_pointer_cast<RpcController>(controller) : nullptr;
 
   RpcMessage message;
   auto id = id_.load(std::memory_order_relaxed);
@@ -92,18 +94,19 @@ void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
                  "Notifiction(done is NULL) no need to set response");
   }
 
-  if (controller->deadline() != INVALID_DEADLINE)
-    message.set_deadline(controller->deadline());
+  const auto deadline = controller ? controller->deadline() : INVALID_DEADLINE;
+
+  if (deadline != INVALID_DEADLINE) message.set_deadline(deadline);
 
   codec_.Send(conn_, &message);
 
-  if (controller->deadline() != INVALID_DEADLINE) {
+  if (deadline != INVALID_DEADLINE) {
     auto id = message.id();
     conn_->GetLoop()->RunAt(
         [this, id]() {
           outstanding_calls_.erase(id);
         },
-        TimeStamp((int64_t)controller->deadline() * 1000));
+        TimeStamp((int64_t)deadline * 1000));
   }
 }
 
-- 
2.43.0


From a557d6ee5c8d9ca32c15a14b5754a0cff1f432e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 117/140] fix: calls of several threads never get the same id

---
 kanon/rpc/rpc_channel.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index 8ea9e51..85f8ea5 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -57,9 +57,7 @@ void RpcChannel::CallMethod(MethodDescriptor const *method,
       controller ? kanon::down_pointer_cast<RpcController>(controller) : nullptr;
 
   RpcMessage message;
-  auto id = id_.load(std::memory_order_relaxed);
-  message.set_id(id);
-  id_.fetch_add(1, std::memory_order_relaxed);
+  message.set_id(id_.fetch_add(1, std::memory_order_relaxed));
 
   message.set_type(RpcMessage::kRequest);
   message.set_request(request->SerializeAsString());
-- 
2.43.0


From 0317b02db4d64b05bf769101e7d4f304d8f27704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 118/140] fix: the controller of a call isn't used after
 CallMethod() has returned

---
 kanon/rpc/rpc_channel.cc | 18 +++++++++---------
 kanon/rpc/rpc_channel.h  |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index 85f8ea5..28bf1f5 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -66,13 +66,17 @@ void RpcChannel::CallMethod(MethodDescriptor const *method,
   message.set_method(method->name());
   message.set_service(method->service()->full_name());
 
+  // The controller is the user's again when this returns, but the request may be
+  // sent later
+  if (contr && contr->deadline() != INVALID_DEADLINE)
+    message.set_deadline(contr->deadline());
+
   conn_->GetLoop()->RunInLoop(std::bind(&RpcChannel::SendRpcRequest, this,
-                                        std::move(message), response, done,
-                                        contr));
+                                        std::move(message), response, done));
 }
 
 void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
-                                Closure *done, RpcController *controller)
+                                Closure *done)
 {
   // Must insert <id, outstanding_call> into outstanding_calls_ first
   // There are maybe server response reach but outstanding_call is not
@@ -92,19 +96,15 @@ void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
                  "Notifiction(done is NULL) no need to set response");
   }
 
-  const auto deadline = controller ? controller->deadline() : INVALID_DEADLINE;
-
-  if (deadline != INVALID_DEADLINE) message.set_deadline(deadline);
-
   codec_.Send(conn_, &message);
 
-  if (deadline != INVALID_DEADLINE) {
+  if (message.has_deadline()) {
     auto id = message.id();
     conn_->GetLoop()->RunAt(
         [this, id]() {
           outstanding_calls_.erase(id);
         },
-        TimeStamp((int64_t)deadline * 1000));
+        TimeStamp((int64_t)message.deadline() * 1000));
   }
 }
 
diff --git a/kanon/rpc/rpc_channel.h b/kanon/rpc/rpc_channel.h
index 630944a..b9f4f7d 100644
--- a/kanon/rpc/rpc_channel.h
+++ b/kanon/rpc/rpc_channel.h
@@ -66,7 +66,7 @@ class RpcChannel
    * since c++11 don't allow variable initialization in capture list
    */
   void SendRpcRequest(RpcMessage &message, PROTOBUF::Message *response,
-                      PROTOBUF::Closure *done, RpcController *controller);
+                      PROTOBUF::Closure *done);
   /**
    * This call the Service::CallMethod(), the logic is
    * fill the response according to the request
-- 
2.43.0


From cbc589c84a18bbc9479d5bc22e4d037e1e6c7a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 119/140] fix: the timer of a deadline doesn't use a RpcChannel
 that is gone

---
 kanon/rpc/rpc_channel.cc | 18 ++++++++++--------
 kanon/rpc/rpc_channel.h  |  6 +++++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/kanon/rpc/rpc_channel.cc b/kanon/rpc/rpc_channel.cc
index 28bf1f5..c81874c 100644
--- a/kanon/rpc/rpc_channel.cc
+++ b/kanon/rpc/rpc_channel.cc
@@ -24,6 +24,7 @@ static char const *GetRpcErrorString(RpcMessage::ErrorCode error) noexcept;
 RpcChannel::RpcChannel()
   : id_(0)
   , services_(nullptr)
+  , outstanding_calls_(std::make_shared<OutstandingCallMap>())
 {
 }
 
@@ -32,6 +33,7 @@ RpcChannel::RpcChannel(TcpConnectionPtr const &conn)
   : id_(0)
   , codec_()
   , services_(nullptr)
+  , outstanding_calls_(std::make_shared<OutstandingCallMap>())
 {
   SetConnection(conn);
 }
@@ -88,9 +90,7 @@ void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
   // If done is NULL, indicates the user don't expect response
   // i.e. void return procedure
   if (done) {
-    // outstanding_calls_.emplace_hint(outstanding_calls_.end(), message.id(),
-    //                                 OutstandingCall{response, done});
-    outstanding_calls_.emplace(message.id(), OutstandingCall{response, done});
+    outstanding_calls_->emplace(message.id(), OutstandingCall{response, done});
   } else {
     KANON_ASSERT(!response,
                  "Notifiction(done is NULL) no need to set response");
@@ -100,9 +100,11 @@ void RpcChannel::SendRpcRequest(RpcMessage &message, Message *response,
 
   if (message.has_deadline()) {
     auto id = message.id();
+    std::weak_ptr<OutstandingCallMap> weak_calls(outstanding_calls_);
     conn_->GetLoop()->RunAt(
-        [this, id]() {
-          outstanding_calls_.erase(id);
+        [weak_calls, id]() {
+          auto calls = weak_calls.lock();
+          if (calls) calls->erase(id);
         },
         TimeStamp((int64_t)message.deadline() * 1000));
   }
@@ -189,19 +191,19 @@ void RpcChannel::OnRpcMessageForResponse(TcpConnectionPtr const &conn,
    */
   // Thread safe since the CallMethod()
   // insert the outstanding_calls in the loop.
-  auto it = outstanding_calls_.find(message->id());
+  auto it = outstanding_calls_->find(message->id());
 
   // Nobody waits for this:
   // - If deadline is setted, may the done is erased
   // - The peer sent it uncalled, eg. to a server
-  if (it == outstanding_calls_.end()) {
+  if (it == outstanding_calls_->end()) {
     LOG_WARN_KANON_PROTOBUF_RPC << "Response without call, id = "
                                 << message->id();
     return;
   }
 
   OutstandingCall outstanding_call = it->second;
-  outstanding_calls_.erase(it);
+  outstanding_calls_->erase(it);
 
   if (!message->has_error()) {
     // The response must be setted in RpcServer
diff --git a/kanon/rpc/rpc_channel.h b/kanon/rpc/rpc_channel.h
index b9f4f7d..405e622 100644
--- a/kanon/rpc/rpc_channel.h
+++ b/kanon/rpc/rpc_channel.h
@@ -135,7 +135,11 @@ class RpcChannel
    * response and done is filled by client
    * ! Used for client side
    */
-  std::unordered_map<IdType, OutstandingCall> outstanding_calls_;
+  using OutstandingCallMap = std::unordered_map<IdType, OutstandingCall>;
+
+  /* Shared with the timers of the deadlines, the channel may be gone when they
+     expire */
+  std::shared_ptr<OutstandingCallMap> outstanding_calls_;
 
   std::unordered_map<IdType, OutstandingCall> canceling_calls_;
 };
-- 
2.43.0


From 8fce0401466207cdc9f12a883bc4bdfc37c881f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:31 +0000
Subject: [PATCH 120/140] fix: weak callback returns what the callback returns

---
 kanon/thread/weak_callback.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/thread/weak_callback.h b/kanon/thread/weak_callback.h
index e5e23b4..b8db156 100644
--- a/kanon/thread/weak_callback.h
+++ b/kanon/thread/weak_callback.h
@@ -25,7 +25,8 @@ public:
   {
     auto sp = ptr_.lock();
     if(sp)
-      fun_(sp.get(), args...);
+      return fun_(sp.get(), args...);
+    return R();
   }
 private:
   std::weak_ptr<T> ptr_;
-- 
2.43.0


From 4d89bf50fc2c4288ea9444fc85b1d3c54bdb2064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:31 +0000
Subject: [PATCH 121/140] fix: down_pointer_cast adjusts the pointer to the
 derived object

---
 kanon/util/ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/util/ptr.h b/kanon/util/ptr.h
index 53ca831..3348eec 100644
--- a/kanon/util/ptr.h
+++ b/kanon/util/ptr.h
@@ -97,7 +97,7 @@ KANON_INLINE std::unique_ptr<T, D> down_pointer_cast(std::unique_ptr<F, D> &ptr)
 #ifndef NDEBUG
   assert(ptr != nullptr && dynamic_cast<T *>(ptr.get()) != nullptr);
 #endif
-  return std::unique_ptr<T>(reinterpret_cast<T *>(ptr.release()));
+  return std::unique_ptr<T>(static_cast<T *>(ptr.release()));
 }
 
 template <typename T, typename F>
@@ -115,7 +115,7 @@ KANON_INLINE T *down_pointer_cast(F *ptr)
 #ifndef NDEBUG
   assert(ptr != nullptr && dynamic_cast<T *>(ptr) != nullptr);
 #endif
-  return reinterpret_cast<T *>(ptr);
+  return static_cast<T *>(ptr);
 }
 
 template <typename T>
-- 
2.43.0


From 72471b6de0c9ac1bfeaf18a620f986dc459ea660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:22 +0000
Subject: [PATCH 122/140] fix: SetNonBlockAndCloExec sets the close-on-exec
 flag, too

---
 kanon/net/sock_api.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kanon/net/sock_api.cc b/kanon/net/sock_api.cc
index 1f47bb5..e6d1446 100644
--- a/kanon/net/sock_api.cc
+++ b/kanon/net/sock_api.cc
@@ -55,10 +55,15 @@ void sock::SetNonBlockAndCloExec(FdType fd) KANON_NOEXCEPT
   auto ret = ::fcntl(fd, F_GETFL, 0);
   if (ret < 0) LOG_SYSFATAL << "fail to get file status flag";
 
-  ret |= (O_NONBLOCK | O_CLOEXEC);
-  ret = ::fcntl(fd, F_SETFL, ret);
-  if (ret < 0)
-    LOG_SYSFATAL << "fail to set file status flag(O_NONBLOCK | O_CLOEXEC)";
+  ret = ::fcntl(fd, F_SETFL, ret | O_NONBLOCK);
+  if (ret < 0) LOG_SYSFATAL << "fail to set file status flag(O_NONBLOCK)";
+
+  // This is a flag of the descriptor, F_SETFL ignores it
+  ret = ::fcntl(fd, F_GETFD, 0);
+  if (ret < 0) LOG_SYSFATAL << "fail to get file descriptor flag";
+
+  ret = ::fcntl(fd, F_SETFD, ret | FD_CLOEXEC);
+  if (ret < 0) LOG_SYSFATAL << "fail to set file descriptor flag(FD_CLOEXEC)";
 #endif
 }
 
-- 
2.43.0


From 65a629a6d18d5e34c1ff101482d48a278bc26749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:43 +0000
Subject: [PATCH 123/140] fix: AtomicCounter::Reset() returns a value

---
 kanon/thread/atomic_counter.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kanon/thread/atomic_counter.h b/kanon/thread/atomic_counter.h
index 9f936a4..d6558a2 100644
--- a/kanon/thread/atomic_counter.h
+++ b/kanon/thread/atomic_counter.h
@@ -34,7 +34,11 @@ class AtomicCounter : noncopyable {
     return *this;
   }
 
-  T Reset() KANON_NOEXCEPT { count_.store(0, std::memory_order_relaxed); }
+  T Reset() KANON_NOEXCEPT
+  {
+    SetValue(0);
+    return 0;
+  }
 
   void SetValue(T const val) KANON_NOEXCEPT
   {
-- 
2.43.0


From 0c5264f1f1744b9ad9547401c8e0adcc44be5495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:23 +0000
Subject: [PATCH 124/140] fix: threads constructed at once have different
 default names

---
 kanon/thread/thread.cc | 7 +++----
 kanon/thread/thread.h  | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/kanon/thread/thread.cc b/kanon/thread/thread.cc
index 7cdf508..2bc6c12 100644
--- a/kanon/thread/thread.cc
+++ b/kanon/thread/thread.cc
@@ -50,8 +50,7 @@ Thread::Thread(Threadfunc func, string const &name)
   , pthreadId_{0}
   , name_{name}
 {
-  numCreated_.Add(1);
-  SetDefaultName();
+  SetDefaultName(numCreated_.Add(1));
 }
 
 Thread::~Thread() { Detach(); }
@@ -135,14 +134,14 @@ void Thread::Join()
 #endif
 }
 
-void Thread::SetDefaultName()
+void Thread::SetDefaultName(uint32_t id)
 {
   if (!name_.empty()) return;
 
   char buf[64];
   BZERO(buf, sizeof buf);
 
-  snprintf(buf, sizeof buf, "KanonThread%d", numCreated_.GetValue());
+  snprintf(buf, sizeof buf, "KanonThread%u", id);
   name_ = buf;
 }
 
diff --git a/kanon/thread/thread.h b/kanon/thread/thread.h
index a7a5c26..7bc7dc6 100644
--- a/kanon/thread/thread.h
+++ b/kanon/thread/thread.h
@@ -91,7 +91,7 @@ class Thread : noncopyable {
   ThreadId GetPthreadId() const KANON_NOEXCEPT { return pthreadId_; }
 
  private:
-  KANON_CORE_NO_API void SetDefaultName();
+  KANON_CORE_NO_API void SetDefaultName(uint32_t id);
   KANON_CORE_API void Detach() KANON_NOEXCEPT;
 
  private:
-- 
2.43.0


From b2ed88a69e329e8b475ad655fff5b89c34471f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:57 +0000
Subject: [PATCH 125/140] fix: a reserved array without the memory for a copy
 throws, and shrinks though the block stays large

---
 kanon/algo/reserved_array.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/kanon/algo/reserved_array.h b/kanon/algo/reserved_array.h
index 7269fcb..cec101e 100644
--- a/kanon/algo/reserved_array.h
+++ b/kanon/algo/reserved_array.h
@@ -127,6 +127,10 @@ class ReservedArray : protected Alloc {
     : data_(AllocTraits::allocate(*this, other.size()))
     , end_(data_ + other.size())
   {
+    if (data_ == NULL) {
+      throw std::bad_alloc{};
+    }
+
     try {
       std::uninitialized_copy(other.begin(), other.end(), data_);
     }
@@ -298,14 +302,14 @@ class ReservedArray : protected Alloc {
 
     auto tmp = this->reallocate(data_, n);
 
-    if (tmp == NULL && n != 0) {
-      throw std::bad_alloc{};
-    }
-
     if (n == 0) {
       data_ = end_ = nullptr;
     } else {
-      data_ = tmp;
+      // The elements cut off are gone already: If the block can't be made
+      // smaller, it is still there and large enough.
+      if (tmp != NULL) {
+        data_ = tmp;
+      }
       end_ = data_ + n;
     }
   }
-- 
2.43.0


From 7dac490b622192c4af54e563c5602b6678ce25fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:08 +0000
Subject: [PATCH 126/140] fix: ForwardList::resize(n) can be called

---
 kanon/algo/forward_list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/algo/forward_list.h b/kanon/algo/forward_list.h
index 96def31..104b1bf 100644
--- a/kanon/algo/forward_list.h
+++ b/kanon/algo/forward_list.h
@@ -182,7 +182,7 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
 
   KANON_INLINE void resize(SizeType n)
   {
-    resize_impl<ValueType>(n, ValueType{});
+    resize_impl<ValueType>(n);
   }
   void resize(SizeType n, ValueType const &val);
 
-- 
2.43.0


From 96413a399d27df295800ce9b79010ddfbc8eae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:08 +0000
Subject: [PATCH 127/140] fix: a list whose element can't be made leaks and
 destroys nothing twice

---
 kanon/algo/forward_list.h                   | 11 +++++++++--
 kanon/algo/forward_list/forward_list_impl.h |  6 ++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/kanon/algo/forward_list.h b/kanon/algo/forward_list.h
index 104b1bf..de0d97b 100644
--- a/kanon/algo/forward_list.h
+++ b/kanon/algo/forward_list.h
@@ -122,6 +122,7 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
   KANON_INLINE ForwardList() = default;
 
   KANON_INLINE explicit ForwardList(SizeType n, ValueType const &val = {})
+    : ForwardList()
   {
     insert_after(cbefore_begin(), n, val);
   }
@@ -130,6 +131,7 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
             typename = zstl::enable_if_t<
                 zstl::is_input_iterator<InputIterator>::value>>
   KANON_INLINE ForwardList(InputIterator first, InputIterator last)
+    : ForwardList()
   {
     insert_after(cbefore_begin(), first, last);
   }
@@ -146,7 +148,7 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
   KANON_INLINE ~ForwardList() KANON_NOEXCEPT { clear(); }
 
   KANON_INLINE ForwardList(ForwardList const &other)
-    : Base()
+    : ForwardList()
   {
     insert_after(cbefore_begin(), other.cbegin(), other.cend());
   }
@@ -494,7 +496,12 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
     auto node = AllocTraits::allocate(*this, sizeof(Node) + sz);
 
     node->next = nullptr;
-    AllocTraits::construct(*this, &node->val, std::forward<Args>(args)...);
+    try {
+      AllocTraits::construct(*this, &node->val, std::forward<Args>(args)...);
+    } catch (...) {
+      AllocTraits::deallocate(*this, node, sizeof(Node) + sz);
+      KANON_RETHROW;
+    }
 
     return node;
   }
diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index c33d8bd..7204965 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -43,8 +43,7 @@ void FORWARD_LIST_TEMPLATE::assign(SizeType count, ValueType const &value)
 {
   Iterator beg;
   for (beg = before_begin(); count != 0 && beg.next() != end(); ++beg) {
-    AllocTraits::destroy(*this, &*beg.next());
-    AllocTraits::construct(*this, &*beg.next(), value);
+    *beg.next() = value;
     --count;
   }
 
@@ -68,8 +67,7 @@ void FORWARD_LIST_TEMPLATE::assign(InputIterator first, InputIterator last)
   Iterator beg;
   for (beg = before_begin(); beg.next() != end() && first != last;
        ++beg, ++first) {
-    AllocTraits::destroy(*this, &*beg.next());
-    AllocTraits::construct(*this, &*beg.next(), *first);
+    *beg.next() = *first;
   }
 
   // size() < distance(first, last)
-- 
2.43.0


From 21a6a48109bd7af20ca5134b1d0d3ac2af9b633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:08 +0000
Subject: [PATCH 128/140] fix: a node of a list takes the memory of one node

---
 kanon/algo/forward_list.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/kanon/algo/forward_list.h b/kanon/algo/forward_list.h
index de0d97b..843796e 100644
--- a/kanon/algo/forward_list.h
+++ b/kanon/algo/forward_list.h
@@ -493,13 +493,13 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
   template <typename... Args>
   KANON_INLINE Node *create_node_size(size_t sz, Args &&...args)
   {
-    auto node = AllocTraits::allocate(*this, sizeof(Node) + sz);
+    auto node = AllocTraits::allocate(*this, GetNodeCount(sz));
 
     node->next = nullptr;
     try {
       AllocTraits::construct(*this, &node->val, std::forward<Args>(args)...);
     } catch (...) {
-      AllocTraits::deallocate(*this, node, sizeof(Node) + sz);
+      AllocTraits::deallocate(*this, node, GetNodeCount(sz));
       KANON_RETHROW;
     }
 
@@ -516,14 +516,14 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
   {
     auto node = static_cast<Node *>(_node);
     AllocTraits::destroy(*this, node);
-    AllocTraits::deallocate(*this, node, sizeof(Node));
+    AllocTraits::deallocate(*this, node, GetNodeCount(0));
   }
 
   KANON_INLINE void drop_node_size(BaseNode *_node, size_t sz)
   {
     auto node = static_cast<Node *>(_node);
     AllocTraits::destroy(*this, node);
-    AllocTraits::deallocate(*this, node, sizeof(Node) + sz);
+    AllocTraits::deallocate(*this, node, GetNodeCount(sz));
   }
 #ifdef FORWARD_LIST_DEBUG
   // For Debugging
@@ -531,6 +531,12 @@ class ForwardList : protected forward_list_detail::ForwardListBase<T, Alloc> {
 #endif
 
  private:
+  // The allocator counts nodes, not bytes
+  KANON_INLINE static size_t GetNodeCount(size_t sz) KANON_NOEXCEPT
+  {
+    return 1 + (sz + sizeof(Node) - 1) / sizeof(Node);
+  }
+
   template <typename U, typename Dummy = zstl::enable_if_t<
                             std::is_default_constructible<U>::value>>
   KANON_INLINE void resize_impl(size_t n)
-- 
2.43.0


From a2861f217a0e337609c8bf0bbbc09fdd11fae6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:00 +0000
Subject: [PATCH 129/140] fix: sort2 doesn't leak a node when a comparison
 throws

---
 kanon/algo/forward_list/forward_list_impl.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/kanon/algo/forward_list/forward_list_impl.h b/kanon/algo/forward_list/forward_list_impl.h
index 7204965..5091761 100644
--- a/kanon/algo/forward_list/forward_list_impl.h
+++ b/kanon/algo/forward_list/forward_list_impl.h
@@ -478,18 +478,17 @@ void FORWARD_LIST_TEMPLATE::sort2()
   }
 
   auto pivot = *begin();
-  Node *tmp;
 
   equal.push_back(extract_front());
 
   while (!empty()) {
-    tmp = extract_front_node();
-    if (tmp->val < pivot) {
-      less.push_back(tmp);
-    } else if (pivot < tmp->val) {
-      larger.push_back(tmp);
+    // Compare first: the comparison may throw
+    if (front() < pivot) {
+      less.push_back(extract_front_node());
+    } else if (pivot < front()) {
+      larger.push_back(extract_front_node());
     } else {
-      equal.push_back(tmp);
+      equal.push_back(extract_front_node());
     }
   }
 
-- 
2.43.0


From 1bd91affca490a5755bcc5cd81788d805d00ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:41 +0000
Subject: [PATCH 130/140] fix: reading can be disabled and enabled after the
 write side is shut down, too

---
 kanon/net/connection/connection_base.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index a1755ea..c479cd2 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -505,7 +505,9 @@ void ConnectionBase<D>::SendInLoop(StringView data)
 template <typename D>
 void ConnectionBase<D>::DisbaleRead()
 {
-  if (state_ == kConnected && channel_->IsReading()) {
+  if ((state_ == kConnected || state_ == kDisconnecting) &&
+      channel_->IsReading())
+  {
     channel_->DisableReading();
   }
 }
@@ -513,7 +515,9 @@ void ConnectionBase<D>::DisbaleRead()
 template <typename D>
 void ConnectionBase<D>::EnableRead()
 {
-  if (state_ == kConnected && !channel_->IsReading()) {
+  if ((state_ == kConnected || state_ == kDisconnecting) &&
+      !channel_->IsReading())
+  {
     channel_->EnableReading();
   }
 }
-- 
2.43.0


From 6755bfc203b1f3cfe6bd0bd37cdc8eca89dc1db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:17 +0000
Subject: [PATCH 131/140] fix: an optional holds the value put into it, not a
 list of it

---
 kanon/util/optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kanon/util/optional.h b/kanon/util/optional.h
index b6cea9c..ff06718 100644
--- a/kanon/util/optional.h
+++ b/kanon/util/optional.h
@@ -71,7 +71,7 @@ class optional {
   template <typename U = T,
             typename = typename std::enable_if<!is_optional<U>::value>::type>
   optional(U &&value)
-    : opt_{Rep{true, T{std::forward<U>(value)}}}
+    : opt_{Rep{true, T(std::forward<U>(value))}}
   {
   }
 
@@ -119,7 +119,7 @@ class optional {
             typename = typename std::enable_if<!is_optional<U>::value>::type>
   optional &operator=(U &&other)
   {
-    opt_ = Rep{true, T{std::forward<U>(other)}};
+    opt_ = Rep{true, T(std::forward<U>(other))};
     return *this;
   }
 
-- 
2.43.0


From 71e40535b1f480d45e30112fc56f8598cfa82677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:13 +0000
Subject: [PATCH 132/140] fix: the directory of a log file may be created by
 another thread at the same time

---
 kanon/log/append_file.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kanon/log/append_file.cc b/kanon/log/append_file.cc
index eaf2ffb..aaf437c 100644
--- a/kanon/log/append_file.cc
+++ b/kanon/log/append_file.cc
@@ -16,8 +16,11 @@ namespace kanon {
 AppendFile::AppendFile(StringArg filename)
   : writtenBytes_(0)
 {
+  bool has_dir = false;
+
   while (!(fp_ = ::fopen(filename.data(), "a"))) {
-    if (errno != ENOENT) {
+    // There is no need to try again after the directory exists
+    if (errno != ENOENT || has_dir) {
       ::fprintf(stderr, "Failed to open file: %s\n", filename.data());
       ::fflush(stderr);
       ::abort();
@@ -38,7 +41,9 @@ AppendFile::AppendFile(StringArg filename)
         "TODO: Call the directory creation function in specific platform!");
     ::abort();
 #endif
-    if (ret != 0) {
+    // It may be created by others at the same time
+    has_dir = ret == 0 || errno == EEXIST;
+    if (!has_dir) {
       ::fprintf(stderr, "Failed to create a directory: %s\n", dir.data());
       ::fflush(stderr);
       ::abort();
-- 
2.43.0


From 514e9454390dae4f06b7478cfa33282f4d0051d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:13 +0000
Subject: [PATCH 133/140] fix: the name of a log file has the time it is
 created at, whatever the other threads do

---
 kanon/log/log_file.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kanon/log/log_file.cc b/kanon/log/log_file.cc
index d09aa71..cc67ed5 100644
--- a/kanon/log/log_file.cc
+++ b/kanon/log/log_file.cc
@@ -144,13 +144,14 @@ std::string LogFile<T>::GetLogFilename(time_t &now)
   char timebuf[32];
   ::tzset();
 
-  // FIXME Don't call localtime_r() here?
-#if 0
+  // The result of localtime() is shared with other threads
   struct tm tm;
+#ifdef KANON_ON_WIN
+  ::localtime_s(&tm, &now);
+#else
   ::localtime_r(&now, &tm);
 #endif
-  auto tm = localtime(&now);
-  ::strftime(timebuf, sizeof timebuf, ".%Y%m%d-%H%M%S.", tm);
+  ::strftime(timebuf, sizeof timebuf, ".%Y%m%d-%H%M%S.", &tm);
 
   filename += timebuf;
   filename += process::PidString().data();
-- 
2.43.0


From f02519de86a1dc40031f442308a3c3be0a1c6b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:13 +0000
Subject: [PATCH 134/140] fix: a host name of the maximum length is terminated

---
 kanon/process/process_info.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/process/process_info.cc b/kanon/process/process_info.cc
index 2934217..b43f68e 100644
--- a/kanon/process/process_info.cc
+++ b/kanon/process/process_info.cc
@@ -23,7 +23,8 @@ StringView
 process::Hostname() KANON_NOEXCEPT {
   // hostname is limited to HOST_NAME_MAX in posix,
   // it is 64 in linux.
-  static char hostname_cache[64];
+  // and the terminating null byte needs its space.
+  static char hostname_cache[65];
   static bool has_cache = false;
   
   if (!has_cache) {
-- 
2.43.0


From 6a3122873453a50b7b676e8d92b82a044b59d318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:34 +0000
Subject: [PATCH 135/140] fix: a timed wait with a limit too large for
 nanoseconds does not time out at once

---
 kanon/thread/condition.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kanon/thread/condition.cc b/kanon/thread/condition.cc
index d2cdced..3410ba4 100644
--- a/kanon/thread/condition.cc
+++ b/kanon/thread/condition.cc
@@ -11,8 +11,13 @@ static constexpr int64_t NANOSECONDS = 1000000000;
 
 namespace kanon {
 
+// Any longer time can't be represented in nanoseconds
+static constexpr double MAX_SECONDS = 1e10;
+
 bool Condition::WaitForSeconds(double seconds)
 {
+  if (!(seconds < MAX_SECONDS)) seconds = MAX_SECONDS;
+
 #ifdef KANON_ON_UNIX
   struct timespec spec;
   ::memset(&spec, 0, sizeof spec);
-- 
2.43.0


From f15780748a1e375f5a8e474a6fd4d6e2b9cc93a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:13 +0000
Subject: [PATCH 136/140] fix: a timer whose time can not be represented does
 not expire at once

---
 kanon/util/time_stamp.h | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/kanon/util/time_stamp.h b/kanon/util/time_stamp.h
index 576f67d..4ddbfa2 100644
--- a/kanon/util/time_stamp.h
+++ b/kanon/util/time_stamp.h
@@ -253,9 +253,17 @@ class TimeStamp
 
   static constexpr int kMicrosecondsPerSeconds_ = 1000000;
 
-  /** Round to the nearest microsecond */
+  /**
+   * Round to the nearest microsecond
+   * (to the nearest value which can be represented)
+   */
   static int64_t ToMicroseconds(double seconds) KANON_NOEXCEPT
   {
+    // 2^63
+    constexpr double limit = 9223372036854775808.0;
+
+    if (seconds * kMicrosecondsPerSeconds_ >= limit) return INT64_MAX;
+    if (seconds * kMicrosecondsPerSeconds_ < -limit) return INT64_MIN;
     return static_cast<int64_t>(
         std::llround(seconds * kMicrosecondsPerSeconds_));
   }
@@ -287,21 +295,26 @@ KANON_INLINE double TimeDifference(TimeStamp x, TimeStamp y) KANON_NOEXCEPT
   return static_cast<double>(diff) / TimeStamp::kMicrosecondsPerSeconds_;
 }
 
-KANON_INLINE TimeStamp AddTime(TimeStamp x, double seconds) KANON_NOEXCEPT
+// The time which is too late to be represented is the latest one
+KANON_INLINE TimeStamp AddTimeUs(TimeStamp x, uint64_t us) KANON_NOEXCEPT
 {
-  return TimeStamp(
-      x.GetMicrosecondsSinceEpoch() +
-      TimeStamp::ToMicroseconds(seconds));
+  const uint64_t base = static_cast<uint64_t>(x.GetMicrosecondsSinceEpoch());
+
+  if (us > static_cast<uint64_t>(INT64_MAX) - base) return TimeStamp(INT64_MAX);
+  return TimeStamp(static_cast<int64_t>(base + us));
 }
 
-KANON_INLINE TimeStamp AddTimeUs(TimeStamp x, uint64_t us) KANON_NOEXCEPT
+KANON_INLINE TimeStamp AddTimeMs(TimeStamp x, uint64_t ms) KANON_NOEXCEPT
 {
-  return TimeStamp(x.GetMicrosecondsSinceEpoch() + (int64_t)us);
+  return AddTimeUs(x, ms > UINT64_MAX / 1000 ? UINT64_MAX : ms * 1000);
 }
 
-KANON_INLINE TimeStamp AddTimeMs(TimeStamp x, uint64_t ms) KANON_NOEXCEPT
+KANON_INLINE TimeStamp AddTime(TimeStamp x, double seconds) KANON_NOEXCEPT
 {
-  return AddTimeUs(x, ms * 1000);
+  const int64_t us = TimeStamp::ToMicroseconds(seconds);
+
+  if (us >= 0) return AddTimeUs(x, static_cast<uint64_t>(us));
+  return TimeStamp(x.GetMicrosecondsSinceEpoch() + us);
 }
 
 } // namespace kanon
-- 
2.43.0


From 87db4e6f8b3d6a167a5fbe29c80becbe0a656227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:13 +0000
Subject: [PATCH 137/140] fix: a timer due before all time expires at once and
 is sorted before the others

---
 kanon/linux/net/timer/timer_queue.cc | 9 ++++++---
 kanon/linux/net/timer/timer_queue.h  | 7 +++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 16d21d7..13876b6 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -35,9 +35,12 @@ static KANON_INLINE int CreateTimerFd() KANON_NOEXCEPT
 static KANON_INLINE struct timespec
 GetTimeFromNow(TimeStamp time) KANON_NOEXCEPT
 {
-  int64_t interval = time.GetMicrosecondsSinceEpoch() -
-                     TimeStamp::Now().GetMicrosecondsSinceEpoch();
-  if (interval < 100) interval = 100;
+  const TimeStamp now = TimeStamp::Now();
+  int64_t interval = 100;
+  if (AddTimeUs(now, interval) < time) {
+    interval =
+        time.GetMicrosecondsSinceEpoch() - now.GetMicrosecondsSinceEpoch();
+  }
 
   struct timespec expire;
   expire.tv_sec =
diff --git a/kanon/linux/net/timer/timer_queue.h b/kanon/linux/net/timer/timer_queue.h
index 460cc1b..dc4cc9a 100644
--- a/kanon/linux/net/timer/timer_queue.h
+++ b/kanon/linux/net/timer/timer_queue.h
@@ -81,12 +81,11 @@ class TimerQueue : public ITimerQueuePlatform {
     KANON_INLINE bool operator()(TimerEntry const &x,
                                  TimerEntry const &y) const KANON_NOEXCEPT
     {
-      auto res = (x.first->expiration().GetMicrosecondsSinceEpoch() -
-                  y.first->expiration().GetMicrosecondsSinceEpoch());
-      if (res == 0) {
+      // The difference of two times may overflow
+      if (x.first->expiration() == y.first->expiration()) {
         return x.second < y.second;
       }
-      return res < 0;
+      return x.first->expiration() < y.first->expiration();
     }
 #endif
   };
-- 
2.43.0


From bec07a650be3145b83eabfe78a2f586c5850ccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:56 +0000
Subject: [PATCH 138/140] fix: an array whose size in bytes overflows is not
 given less memory

---
 kanon/algo/fixed_vector.h                | 5 ++++-
 kanon/algo/libc_allocator_with_realloc.h | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/kanon/algo/fixed_vector.h b/kanon/algo/fixed_vector.h
index 73a9088..2a25348 100644
--- a/kanon/algo/fixed_vector.h
+++ b/kanon/algo/fixed_vector.h
@@ -17,7 +17,10 @@ public:
   : data_(nullptr)
   , size_(size)
   {
-    data_ = static_cast<T*>(::malloc(sizeof(T)*size));
+    // The size in bytes must not overflow
+    if (size <= static_cast<size_t>(-1) / sizeof(T)) {
+      data_ = static_cast<T*>(::malloc(sizeof(T)*size));
+    }
 
     if (!data_) {
       throw std::bad_alloc();
diff --git a/kanon/algo/libc_allocator_with_realloc.h b/kanon/algo/libc_allocator_with_realloc.h
index 0595047..b093898 100644
--- a/kanon/algo/libc_allocator_with_realloc.h
+++ b/kanon/algo/libc_allocator_with_realloc.h
@@ -48,11 +48,17 @@ class LibcAllocatorWithRealloc {
 
   const_pointer address(const_reference x) KANON_NOEXCEPT { return &x; }
   
+  size_type max_size() const KANON_NOEXCEPT {
+    return static_cast<size_type>(-1) / sizeof(T);
+  }
+
   T* allocate(size_type n) KANON_NOEXCEPT {
+    if (n > max_size()) return nullptr;
     return reinterpret_cast<T*>(::malloc(n*sizeof(T))); 
   }
   
   T* reallocate(pointer p, size_type n) KANON_NOEXCEPT {
+    if (n > max_size()) return nullptr;
     return reinterpret_cast<T*>(::realloc(p, n*sizeof(T))); 
   } 
 
-- 
2.43.0


From 5e6bcd21782231386cac1dd983d083493719f3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:56 +0000
Subject: [PATCH 139/140] fix: a block of chunks whose size overflows is not
 given less memory

---
 kanon/mem/fixed_chunk_memory_pool.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kanon/mem/fixed_chunk_memory_pool.cc b/kanon/mem/fixed_chunk_memory_pool.cc
index 63ec077..b9ae8e8 100644
--- a/kanon/mem/fixed_chunk_memory_pool.cc
+++ b/kanon/mem/fixed_chunk_memory_pool.cc
@@ -2,6 +2,7 @@
 
 #include <stdlib.h> // malloc(), free()
 #include <stddef.h> // offsetof(), size_t
+#include <stdint.h> // PTRDIFF_MAX
 #include <assert.h> // assert()
 
 using namespace kanon;
@@ -35,7 +36,7 @@ FixedChunkMemoryPool::~FixedChunkMemoryPool() KANON_NOEXCEPT
 
 void *FixedChunkMemoryPool::Malloc(size_t sz)
 {
-  if (sz == 0) return nullptr;
+  if (sz == 0 || sz > PTRDIFF_MAX) return nullptr;
 
   /* Align to the size of pointer at least
    * since the space of `next` must greater than the object size */
@@ -121,6 +122,10 @@ size_t FixedChunkMemoryPool::GetFreeChunkNum(size_t sz) const KANON_NOEXCEPT
 auto FixedChunkMemoryPool::AllocBlock(size_t sz) -> Chunk*
 {
   assert(CHECK_ALIGNED(sz));
+  // The size of the block must not overflow
+  if ((PTRDIFF_MAX - sizeof(Block)) / (CHUNK_NEXT_OFFSET + sz) < chunk_per_block_)
+    return nullptr;
+
   auto header = reinterpret_cast<Block*>(malloc(BLOCK_SPACE(sz, chunk_per_block_)));
   if (!header) return nullptr;
   
-- 
2.43.0


From 2828e6d8bb47026885026777de6b6547ab3f977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:31 +0000
Subject: [PATCH 140/140] fix: the allocator of a pool reports the lack of
 memory

---
 kanon/mem/object_pool_allocator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kanon/mem/object_pool_allocator.h b/kanon/mem/object_pool_allocator.h
index c083abe..c3294c9 100644
--- a/kanon/mem/object_pool_allocator.h
+++ b/kanon/mem/object_pool_allocator.h
@@ -1,6 +1,8 @@
 #ifndef KANON_OBJECT_POOL_ALLOCATOR_H__
 #define KANON_OBJECT_POOL_ALLOCATOR_H__
 
+#include <new> // std::bad_alloc
+
 #include "fixed_chunk_memory_pool.h"
 
 #include "kanon/zstl/type_traits.h"
@@ -43,7 +45,9 @@ class ObjectPoolAllocator {
   T *allocate(size_type n)
   {
     if (n > 1) throw "";
-    return reinterpret_cast<T*>(pool_->Malloc(sizeof(T)));
+    auto ptr = pool_->Malloc(sizeof(T));
+    if (!ptr) throw std::bad_alloc{};
+    return reinterpret_cast<T*>(ptr);
   }
 
   void deallocate(pointer p, size_type n) KANON_NOEXCEPT {
-- 
2.43.0

