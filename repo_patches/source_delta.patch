From e505b82cf53ddfd20098c7d1725489604d2b1d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 01/97] fix: IdentifierPool::reserve() terminated instead of
 throwing on exhaustion

---
 src/IdentifierPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index e6513cd..10825b1 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -142,7 +142,7 @@ public: /* Types: */
 
     private: /* Methods: */
 
-        IdHolder(std::shared_ptr<State> state) noexcept
+        IdHolder(std::shared_ptr<State> state)
             : m_id(state->reserve())
             , m_state(std::move(state))
         {}
-- 
2.43.0


From ecf39bea542b1ab9fad003b5993e650d69e2965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 02/97] fix: IdHolder self-move-assignment recycled an
 identifier still held

---
 src/IdentifierPool.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index 10825b1..fe21b1f 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -116,6 +116,8 @@ public: /* Types: */
         {}
 
         IdHolder & operator=(IdHolder && move) noexcept {
+            if (this == &move)
+                return *this;
             if (m_state)
                 m_state->recycle(m_id);
             m_id = move.m_id;
-- 
2.43.0


From d547645c4fbd156d6d3f32250d6dd11ca3962406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 03/97] fix: IdentifierPool of a StrongType threw an
 undocumented exception type

---
 src/IdentifierPool.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/IdentifierPool.h b/src/IdentifierPool.h
index fe21b1f..26609bb 100644
--- a/src/IdentifierPool.h
+++ b/src/IdentifierPool.h
@@ -181,15 +181,12 @@ public: /* Types: */
 
     using ValueType = StrongType<T, Tag, Mixins...>;
 
-    SHAREMIND_DETAIL_DEFINE_EXCEPTION(sharemind::Exception, Exception);
+    using Exception = typename IdentifierPool<T>::Exception;
     /**
       \brief Signifies that ID reservation failed because the identifier space
              in type T is exhausted.
     */
-    SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_MSG(
-            Exception,
-            ReserveException,
-            "No more identifiers can be reserved.");
+    using ReserveException = typename IdentifierPool<T>::ReserveException;
 
 public: /* Types: */
 
-- 
2.43.0


From 4f7e960140084d1b821ff892b92b50003f864062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 04/97] fix: PackagedTask::reset() did not compile

---
 src/Future.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index b506507..b372a33 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -589,7 +589,10 @@ public: /* Methods: */
 
     bool isValid() const noexcept { return m_promise.isValid(); }
 
-    void reset() { swap(PackagedTask(std::move(m_function))); }
+    void reset() {
+        PackagedTask tmp(std::move(m_function));
+        swap(tmp);
+    }
 
     void swap(PackagedTask & other) noexcept {
         m_promise.swap(other.m_promise);
-- 
2.43.0


From ede25a19dadec8e2cb20c059775736efe6884088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 05/97] fix: PackagedTask with void return type could not be
 called

---
 src/Future.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index b372a33..2d63dca 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -579,7 +579,7 @@ public: /* Methods: */
     template <typename ... Args>
     void operator()(Args && ... args) noexcept {
         try {
-            m_promise.setValue(m_function(std::forward<Args>(args)...));
+            run(std::is_void<R>(), std::forward<Args>(args)...);
         } catch (...) {
             m_promise.setException(std::current_exception());
         }
@@ -602,6 +602,18 @@ public: /* Methods: */
 
 private: /* Methods: */
 
+    template <typename ... Args>
+    void run(std::false_type const, Args && ... args)
+    { m_promise.setValue(m_function(std::forward<Args>(args)...)); }
+
+    template <typename ... Args>
+    void run(std::true_type const, Args && ... args) {
+        m_function(std::forward<Args>(args)...);
+        m_promise.setReady();
+    }
+
+private: /* Fields: */
+
     Promise<R> m_promise;
     Function m_function;
 
-- 
2.43.0


From d8dc8c4abc1961b57373d75bcbb7869b5b19a7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 06/97] fix: the value stored in a Future's shared state was
 never destroyed

---
 src/Future.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Future.h b/src/Future.h
index 2d63dca..8b04da6 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -125,6 +125,11 @@ struct SharedState {
 
 /* Methods: */
 
+    ~SharedState() noexcept {
+        if (m_hasValue)
+            reinterpret_cast<T *>(&m_data)->~T();
+    }
+
     template <typename ... Args>
     void emplaceValue(Args && ... args)
             noexcept(noexcept(T(std::forward<Args>(args)...)))
@@ -134,6 +139,7 @@ struct SharedState {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
+                    m_hasValue = true;
                     isSet = true;
                     cond.notify_one();
                     return std::move(m_continuation);
@@ -151,6 +157,7 @@ struct SharedState {
 /* Fields: */
 
     typename std::aligned_storage<sizeof(T), alignof(T)>::type m_data;
+    bool m_hasValue = false;
 
 };
 
-- 
2.43.0


From 0665b4271df30c11afb9354b116c1cde1a11504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 07/97] fix: throwing while constructing the value of a Promise
 terminated the program

---
 src/Future.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index 8b04da6..98eacf4 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -135,7 +135,7 @@ struct SharedState {
             noexcept(noexcept(T(std::forward<Args>(args)...)))
     {
         if (auto const continuation =
-                [this](Args && ... args_) noexcept -> ContinuationPtr {
+                [this](Args && ... args_) -> ContinuationPtr {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
@@ -473,8 +473,13 @@ public: /* Methods: */
                                     std::forward<Args>(args)...)))
     {
         assert(m_state);
-        return SharedStatePtr(std::move(m_state))->emplaceValue(
-                        std::forward<Args>(args)...);
+        SharedStatePtr state(std::move(m_state));
+        try {
+            state->emplaceValue(std::forward<Args>(args)...);
+        } catch (...) {
+            m_state = std::move(state);
+            throw;
+        }
     }
 
     void setValue(T && v)
-- 
2.43.0


From 34e789deecbad3295864f2f51cf7471c1d68d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 08/97] fix: move-assigning over an unfulfilled Promise left
 its future pending forever

---
 src/Future.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index 98eacf4..64950d4 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -414,7 +414,11 @@ template <typename T> class PackagedTask;
             , m_futureState(m_state) \
         {} \
         Promise(Promise &&) noexcept = default; \
-        Promise & operator=(Promise &&) noexcept = default; \
+        Promise & operator=(Promise && move) noexcept { \
+            Promise tmp(std::move(move)); \
+            swap(tmp); \
+            return *this; \
+        } \
         ~Promise() noexcept { \
             if (m_state) \
                 m_state->setException( \
-- 
2.43.0


From ca9396e1c221f3dbb8d7fcfddf0d2f2a3178fa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 09/97] fix: makeExceptionalFuture() moved from lvalue
 arguments

---
 src/Future.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Future.h b/src/Future.h
index 64950d4..694a92f 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -539,7 +539,7 @@ inline Future<T> makeExceptionalFuture(std::exception_ptr exception) {
 template <typename T, typename Exception>
 inline Future<T> makeExceptionalFuture(Exception && exception) {
     Promise<T> p;
-    p.setException(std::move(exception));
+    p.setException(std::forward<Exception>(exception));
     return p.takeFuture();
 }
 
-- 
2.43.0


From 9026325bd2b6e271f022e8c2911880739cf90196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 10/97] fix: only one of several threads waiting on a Future
 was woken

---
 src/Future.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Future.h b/src/Future.h
index 694a92f..0d62361 100644
--- a/src/Future.h
+++ b/src/Future.h
@@ -62,7 +62,7 @@ struct ContinuationBase { \
                     assert(!isSet); \
                     exception = std::move(e_); \
                     isSet = true; \
-                    cond.notify_one(); \
+                    cond.notify_all(); \
                     return std::move(m_continuation); \
                 }(std::move(e))) \
             continuation->run(); \
@@ -141,7 +141,7 @@ struct SharedState {
                     new(std::addressof(m_data)) T(std::forward<Args>(args_)...);
                     m_hasValue = true;
                     isSet = true;
-                    cond.notify_one();
+                    cond.notify_all();
                     return std::move(m_continuation);
                 }(std::forward<Args>(args)...))
             continuation->run();
@@ -174,7 +174,7 @@ struct SharedState<void> {
                     std::lock_guard<std::mutex> const guard(mutex);
                     assert(!isSet);
                     isSet = true;
-                    cond.notify_one();
+                    cond.notify_all();
                     return std::move(m_continuation);
                 }())
             continuation->run();
-- 
2.43.0


From 82dea827276fea871ade6400f69f041027c5e81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 11/97] fix: TimeoutsThread::stop() was overtaken by tasks due
 before the clock's epoch

---
 src/TimeoutsThread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TimeoutsThread.h b/src/TimeoutsThread.h
index cc3fb3a..e76e9be 100644
--- a/src/TimeoutsThread.h
+++ b/src/TimeoutsThread.h
@@ -258,7 +258,7 @@ public: /* Methods: */
 
     void stop() noexcept {
         if (m_stopTask)
-            addTask(Clock::time_point(), std::move(m_stopTask));
+            addTask(Clock::time_point::min(), std::move(m_stopTask));
     }
 
 private: /* Fields: */
-- 
2.43.0


From a5dcd03b5d4010f0cf641cc1efcd2d577eae00e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 12/97] fix: SharedResourceMap terminated if constructing a
 resource threw

---
 src/SharedResourceMap.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 577a57e..cc5cd69 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -57,7 +57,6 @@ private: /* Types: */
                   typename Constructor,
                   typename ... Args>
         ValueObj_(C && c, K && k, Constructor constructor, Args && ... args)
-                noexcept
             : container(std::forward<C>(c))
             , key(std::forward<K>(k))
             , realPtr(constructor(key, std::forward<Args>(args)...))
-- 
2.43.0


From bc6b91bb8fe1b4602cb4a41b5305bf64d5ed8873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 13/97] fix: SharedResourceMap leaked resources outliving the
 map and deadlocked when out of memory

---
 src/SharedResourceMap.h | 47 +++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index cc5cd69..4f08765 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -111,6 +111,35 @@ private: /* Types: */
         Map_ m_data;
     };
 
+    struct Releaser_ {
+
+    /* Methods: */
+
+        Releaser_(std::shared_ptr<ValueObj_> valueObj_) noexcept
+            : valueObj(std::move(valueObj_))
+        {}
+
+        ~Releaser_() noexcept {
+            if (auto cPtr = valueObj->container.lock()) {
+                Inner & c = *static_cast<Inner *>(cPtr.get());
+                std::lock_guard<std::mutex> const guard(c.m_mutex);
+                auto const it = c.m_data.find(valueObj->key);
+                if ((it != c.m_data.end())
+                    && it->second->weakPtr.expired())
+                {
+                    valueObj.reset();
+                    c.m_data.erase(it);
+                    c.m_cond.notify_all();
+                }
+            }
+        }
+
+    /* Fields: */
+
+        std::shared_ptr<ValueObj_> valueObj;
+
+    };
+
 public: /* Types: */
 
     using type = SharedResourceMap<Key, Value>;
@@ -158,22 +187,8 @@ public: /* Methods: */
     {
         static auto const createShared = [](std::shared_ptr<ValueObj_> valueObj)
         {
-            std::shared_ptr<Value> r(
-                valueObj->realPtr.get(),
-                [valueObj](Value * const) mutable noexcept {
-                    if (auto cPtr = valueObj->container.lock()) {
-                        Inner & c = *static_cast<Inner *>(cPtr.get());
-                        std::lock_guard<std::mutex> const guard(c.m_mutex);
-                        auto const it = c.m_data.find(valueObj->key);
-                        if ((it != c.m_data.end())
-                            && it->second->weakPtr.expired())
-                        {
-                            valueObj.reset();
-                            c.m_data.erase(it);
-                            c.m_cond.notify_all();
-                        }
-                    }
-                });
+            std::shared_ptr<Value> r(std::make_shared<Releaser_>(valueObj),
+                                     valueObj->realPtr.get());
             valueObj->weakPtr = r;
             return r;
         };
-- 
2.43.0


From 3618f6ba00a5480531e04992ab9d3ac9ffe505d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 14/97] fix: SharedResourceMap could have two live objects for
 one key while releasing

---
 src/SharedResourceMap.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 4f08765..71a0b52 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -124,10 +124,12 @@ private: /* Types: */
                 Inner & c = *static_cast<Inner *>(cPtr.get());
                 std::lock_guard<std::mutex> const guard(c.m_mutex);
                 auto const it = c.m_data.find(valueObj->key);
-                if ((it != c.m_data.end())
-                    && it->second->weakPtr.expired())
-                {
-                    valueObj.reset();
+                assert(it != c.m_data.end());
+                assert(it->second == valueObj);
+                valueObj.reset();
+                /* Erase only if nobody else uses this object or is about to
+                   release it: */
+                if (it->second.use_count() == 1) {
                     c.m_data.erase(it);
                     c.m_cond.notify_all();
                 }
-- 
2.43.0


From 7292d857fead8f56443dbd892ee7164132ddd282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 15/97] fix: SharedResourceMap::forEach() deadlocked if a
 resource lost its other users meanwhile

---
 src/SharedResourceMap.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/SharedResourceMap.h b/src/SharedResourceMap.h
index 71a0b52..37694d6 100644
--- a/src/SharedResourceMap.h
+++ b/src/SharedResourceMap.h
@@ -26,6 +26,7 @@
 #include <memory>
 #include <mutex>
 #include <utility>
+#include <vector>
 
 
 namespace sharemind {
@@ -79,10 +80,17 @@ private: /* Types: */
 
         template <typename F>
         void forEach(F f) const {
+            // Releasing the last reference to a resource locks m_mutex, hence
+            // keep the resources alive until after m_mutex is unlocked:
+            std::vector<std::shared_ptr<Value> > resources;
             std::unique_lock<std::mutex> lock(m_mutex);
-            for (auto const & v : m_data)
-                if (auto ptr = v.second->weakPtr.lock())
+            resources.reserve(m_data.size());
+            for (auto const & v : m_data) {
+                if (auto ptr = v.second->weakPtr.lock()) {
+                    resources.emplace_back(ptr);
                     f(v.first, std::move(ptr));
+                }
+            }
         }
 
         void waitForEmpty() const noexcept {
-- 
2.43.0


From 5271392c21363892ac027c5ada2c94e36bba15a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:09 +0000
Subject: [PATCH 16/97] fix: destroying a tree deadlocked if a child destroyed
 another child

---
 src/ObjectTree.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ObjectTree.h b/src/ObjectTree.h
index 715dc8c..7ae106c 100644
--- a/src/ObjectTree.h
+++ b/src/ObjectTree.h
@@ -148,10 +148,20 @@ public: /* Methods: */
     {}
 
     ~ParentNode() noexcept {
-        lock_guard lock(m_mutex);
-        for (ChildNodeType * const node : m_childNodes)
-            m_childDestructor(node->freeByParent());
-        /* m_childNodes.clear(); */
+        /* Destroy each child with the mutex unlocked, because the destructor of a
+           child might destroy other children: */
+        for (;;) {
+            ChildType * child;
+            {
+                lock_guard lock(m_mutex);
+                auto const it(m_childNodes.begin());
+                if (it == m_childNodes.end())
+                    break;
+                child = (*it)->freeByParent();
+                m_childNodes.erase(it);
+            }
+            m_childDestructor(child);
+        }
     }
 
     std::set<ChildType *> children() const {
-- 
2.43.0


From 1d79188e7d8a02524a867cf93a42be4e901224eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 17/97] fix: BitVec operators &, | and ^ did not compile
 because BitVec was not copyable

---
 src/BitVector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BitVector.h b/src/BitVector.h
index 276ec64..d253f3d 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -146,6 +146,8 @@ public: /* Methods: */
         , m_num_bits (num_bits)
     { }
 
+    BitVec(BitVec const &) = default;
+
     BitVec(BitVec&& other)
         : m_blocks{std::move(other.m_blocks)}
         , m_num_bits{std::move(other.m_num_bits)}
@@ -153,6 +155,8 @@ public: /* Methods: */
         other.m_num_bits = 0;
     }
 
+    BitVec& operator=(BitVec const &) = default;
+
     BitVec& operator=(BitVec&& other) {
         m_blocks = std::move(other.m_blocks);
         m_num_bits = other.m_num_bits;
-- 
2.43.0


From 9b39f5a841871e9db05a186ca115c6022fbb842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 18/97] fix: BitVec::append() at unaligned sizes merged excess
 bits, added excess blocks and read past the end of an empty vector

---
 src/BitVector.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index d253f3d..ae51059 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -285,27 +285,27 @@ public: /* Methods: */
     }
 
     void append (const BitVec& other) {
-        using const_iter = typename store_type::const_iterator;
-        block_type r = m_num_bits % bits_per_block();
-        const_iter i = other.m_blocks.begin ();
-        const const_iter e = other.m_blocks.end ();
-        if (r == 0) {
-            for (; i != e; ++ i) {
-                m_blocks.push_back (*i);
-            }
+        const size_type r = m_num_bits % bits_per_block();
+        const size_type n = other.m_blocks.size (); /* other might be *this */
+        const size_type num_bits = m_num_bits + other.m_num_bits;
+        if (r != 0) {
+            /* Excess bits of the last block are not necessarily zero: */
+            m_blocks.back () &= static_cast<block_type>(bit_mask (r) - 1);
         }
-        else {
-            assert (! empty ());
-            assert (! m_blocks.empty ());
-            m_blocks.back () |= (*i << r);
-            do {
-                const block_type b = *i >> (bits_per_block() - r);
-                ++ i;
-                m_blocks.push_back (b | (i == e ? 0 : *i << r));
-            } while (i != e);
+
+        for (size_type i = 0; i < n; ++ i) {
+            const block_type b = other.m_blocks[i];
+            if (r == 0) {
+                m_blocks.push_back (b);
+            }
+            else {
+                m_blocks.back () |= static_cast<block_type>(b << r);
+                m_blocks.push_back (static_cast<block_type>(b >> (bits_per_block() - r)));
+            }
         }
 
-        m_num_bits += other.m_num_bits;
+        m_blocks.resize (compute_block_count (num_bits));
+        m_num_bits = num_bits;
     }
 
     template <typename Rng>
-- 
2.43.0


From dc25472147f1c25c04ed101799a831fbc4ed2d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 19/97] fix: BitVec::clear_and_release() kept the size

---
 src/BitVector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index ae51059..8714c74 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -372,7 +372,10 @@ public: /* Methods: */
     friend bool operator == (const BitVec<B, A, S>& x,
                              const BitVec<B, A, S>& y);
 
-    void clear_and_release() { store_type().swap (m_blocks); }
+    void clear_and_release() {
+        store_type().swap (m_blocks);
+        m_num_bits = 0;
+    }
 
     void* data () { return static_cast<void*>(m_blocks.data ()); }
     const void* data () const { return static_cast<const void*>(m_blocks.data ()); }
-- 
2.43.0


From b07d63974afc1f41ad0a6f85672755bda572f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 20/97] fix: BitVec construction consumed input iterators
 before reading the bits

---
 src/BitVector.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 8714c74..a4caed8 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -167,11 +167,11 @@ public: /* Methods: */
     template <typename InputIterator>
     BitVec (InputIterator begin, InputIterator end, const Alloc& alloc = Alloc ())
         : m_blocks (alloc)
-        , m_num_bits (std::distance (begin, end))
+        , m_num_bits (0)
     {
-        const size_type num_blocks = compute_block_count (m_num_bits);
-        m_blocks.resize (num_blocks);
-        assign (begin, end);
+        for (; begin != end; ++ begin) {
+            push_back (*begin);
+        }
     }
 
     ~BitVec () {
-- 
2.43.0


From 525e10cad70c89683f61594c3a0787491567ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 21/97] fix: a BitVec moved from might have kept blocks without
 bits

---
 src/BitVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index a4caed8..16bbfd7 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -160,7 +160,7 @@ public: /* Methods: */
     BitVec& operator=(BitVec&& other) {
         m_blocks = std::move(other.m_blocks);
         m_num_bits = other.m_num_bits;
-        other.m_num_bits = 0;
+        other.clear();
         return *this;
     }
 
-- 
2.43.0


From 0376680fe34fb7e2690b86f25f6ad6619cc625dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 22/97] fix: shifting uint_t by uint_t did not compile

---
 src/uint_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index bb167e3..c6b12d1 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -746,7 +746,7 @@ private: /* Methods: */
     // TODO: we are assuming that blocks are not greater than 64 bits!
     std::uint64_t as_uint64_t() const {
         std::uint64_t out = 0;
-        std::size_t const s = min(num_of_bits, 64u);
+        std::size_t const s = min(std::size_t(num_of_bits), std::size_t(64u));
         for (std::size_t i = 0u, j = 0u; j < s; ++i, j += bits_in_block)
             out ^= static_cast<std::uint64_t>(block (i)) << j;
         return out;
-- 
2.43.0


From 3be018c6f86f04f1a0f0a0219765dd2eda500985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 23/97] fix: converting uint128_t to uint_t of at most 64 bits
 wrote out of bounds

---
 src/uint_t.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index c6b12d1..0379fd4 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -813,8 +813,10 @@ private: /* Methods: */
     {
         static void impl(uint_t<N, B>& dest, const T& other) {
             dest = 0;
-            dest += other.upper ();
-            dest <<= 64;
+            if (num_of_bits > 64u) {
+                dest += other.upper ();
+                dest <<= 64;
+            }
             dest += other.lower ();
         }
     };
-- 
2.43.0


From 512a602efce39f87307c1f13314ee15987746c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 24/97] fix: multiplying single-block uint_t of 16-bit blocks
 overflowed int

---
 src/uint_t.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index 0379fd4..ea8c9c0 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -480,7 +480,8 @@ public: /* Methods: */
 
         // static if
         if (num_of_blocks == 1) {
-            uint_t result = x.least_significant_block() * y.least_significant_block();
+            uint_t result = multHiLo(x.least_significant_block(),
+                                     y.least_significant_block()).lo;
             result.clear_unused_bits_();
             return result;
         }
-- 
2.43.0


From af70ec7d454ade135ee3b8e9ba87af9076d295ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 25/97] fix: dividing uint_t<1> shifted by its full width

---
 src/uint_t.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/uint_t.h b/src/uint_t.h
index ea8c9c0..e2f2c1b 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -562,17 +562,13 @@ public: /* Methods: */
         quot = 0;
         rem = 0;
 
-        uint_t bit = 1;
-        bit <<= (num_of_bits - 1);
-        while (bit != 0) {
-            rem <<= 1;
-            rem[0] |= !!(x & bit);
+        for (std::size_t i = num_of_bits; i --> 0u; ) {
+            rem += rem;
+            rem[0] |= x[i];
             if (rem >= y) {
                 rem -= y;
-                quot |= bit;
+                quot[i] = true;
             }
-
-            bit >>= 1;
         }
 
         const div_t result = { quot, rem };
-- 
2.43.0


From 69d3fb9f82b673aeeed57adaadc3ea92d13440ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 26/97] fix: StringView::rfind() of a string searched only at
 the first position by default

---
 src/StringView.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StringView.h b/src/StringView.h
index 0f069a4..976a93f 100644
--- a/src/StringView.h
+++ b/src/StringView.h
@@ -425,10 +425,12 @@ public: /* Methods: */
         return npos;
     }
 
-    constexpr SizeType rfind(BasicStringView v, SizeType pos = 0u) const noexcept
+    constexpr SizeType rfind(BasicStringView v, SizeType pos = npos)
+            const noexcept
     { return rfind(v.m_start, pos, v.m_size); }
 
-    constexpr SizeType rfind(CharT const * str, SizeType pos = 0u) const noexcept
+    constexpr SizeType rfind(CharT const * str, SizeType pos = npos)
+            const noexcept
     { return rfind(str, pos, Traits::length(str)); }
 
     constexpr SizeType findFirstOf(CharT c, SizeType pos = 0u) const noexcept
-- 
2.43.0


From 7ccf483b2c2fb246ca503868b16401e812f0d361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 27/97] fix: minSizeInBytes() of packed structures did not
 compile

---
 src/PackingInfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PackingInfo.h b/src/PackingInfo.h
index 2a01657..bf727d6 100644
--- a/src/PackingInfo.h
+++ b/src/PackingInfo.h
@@ -160,7 +160,7 @@ struct PackingInfo {
     constexpr static std::size_t staticSize() \
     { return PackingInfo<__VA_ARGS__>::size(); } \
     constexpr static std::size_t minSizeInBytes() \
-    { return PackingInfo<__VA_ARGS__>::minSizeInBytes; } \
+    { return PackingInfo<__VA_ARGS__>::minSizeInBytes(); } \
     constexpr static std::size_t maxSizeInBytes() \
     { return PackingInfo<__VA_ARGS__>::maxSizeInBytes(); } \
     constexpr static std::size_t numFields() \
-- 
2.43.0


From cb47a349dc98b725cbfa4d7b5303af6418254d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 28/97] fix: assigning a value of another type or another
 reference to an UnalignedReference copied wrong bytes

---
 src/UnalignedReference.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/UnalignedReference.h b/src/UnalignedReference.h
index 2000ee9..514b844 100644
--- a/src/UnalignedReference.h
+++ b/src/UnalignedReference.h
@@ -23,6 +23,7 @@
 #include <cstring>
 #include <memory>
 #include <type_traits>
+#include <utility>
 #include "CopyCv.h"
 
 
@@ -55,13 +56,20 @@ public: /* Methods: */
         return v;
     }
 
+    UnalignedReference(type &&) noexcept = default;
+    UnalignedReference(type const &) noexcept = default;
+
+    type & operator=(type const & v) noexcept
+    { return (*this) = static_cast<typename std::remove_cv<T>::type>(v); }
+
     template <typename T_>
     typename std::enable_if<
         !std::is_const<T>::value && std::is_convertible<T_, T const &>::value,
         type
     >::type &
     operator=(T_ && v) noexcept {
-        std::memcpy(this->m_unalignedData, std::addressof(v), sizeof(T));
+        T const & value = std::forward<T_>(v);
+        std::memcpy(this->m_unalignedData, std::addressof(value), sizeof(T));
         return *this;
     }
 
-- 
2.43.0


From d8b976b9db34d50f13c10dca0c6d9e3c26a53efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 29/97] fix: the distance between two UnalignedPointers did not
 compile

---
 src/UnalignedPointer.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/UnalignedPointer.h b/src/UnalignedPointer.h
index a6af1f5..7acae6a 100644
--- a/src/UnalignedPointer.h
+++ b/src/UnalignedPointer.h
@@ -105,8 +105,15 @@ class UnalignedPointer {
                           UnalignedPointer<U_> const & rhs) noexcept;
 
     template <typename T_, typename U_>
-    friend bool operator-(UnalignedPointer<T_> const & lhs,
-                          UnalignedPointer<U_> const & rhs) noexcept;
+    friend typename std::enable_if<
+        std::is_same<
+            typename std::remove_cv<T_>::type,
+            typename std::remove_cv<U_>::type
+        >::value,
+        std::ptrdiff_t
+    >::type
+    operator-(UnalignedPointer<T_> const & lhs,
+              UnalignedPointer<U_> const & rhs) noexcept;
 
     template <typename T_>
     friend UnalignedPointer<T_> operator+(
@@ -226,7 +233,11 @@ typename std::enable_if<
 >::type
 operator-(UnalignedPointer<T> const & lhs, UnalignedPointer<U> const & rhs)
         noexcept
-{ return ptrDist(rhs.m_ptr, lhs.m_ptr) / sizeof(T); }
+{
+    return ptrDist(static_cast<void const *>(rhs.m_ptr),
+                   static_cast<void const *>(lhs.m_ptr))
+           / static_cast<std::ptrdiff_t>(sizeof(T));
+}
 
 template <typename T>
 UnalignedPointer<T> operator+(
-- 
2.43.0


From daa7ad8e232c598da49c1a6241b52af9fce8b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 30/97] fix: negative offsets of UnalignedPointer were
 converted to huge unsigned ones

---
 src/UnalignedPointer.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/UnalignedPointer.h b/src/UnalignedPointer.h
index 7acae6a..5e4ab23 100644
--- a/src/UnalignedPointer.h
+++ b/src/UnalignedPointer.h
@@ -129,7 +129,7 @@ public: /* Types: */
 
     using type = UnalignedPointer<T>;
 
-    using difference_type = std::size_t;
+    using difference_type = std::ptrdiff_t;
     using value_type = T;
     using reference = UnalignedReference<T>;
 
@@ -168,20 +168,20 @@ public: /* Methods: */
     }
 
     type & operator+=(difference_type const n) noexcept {
-        m_ptr = ptrAdd(m_ptr, sizeof(T) * n);
+        m_ptr = ptrAdd(m_ptr, static_cast<std::ptrdiff_t>(sizeof(T)) * n);
         return *this;
     }
 
     type & operator-=(difference_type const n) noexcept {
-        m_ptr = ptrSub(m_ptr, sizeof(T) * n);
+        m_ptr = ptrSub(m_ptr, static_cast<std::ptrdiff_t>(sizeof(T)) * n);
         return *this;
     }
 
     type operator-(difference_type const n) const noexcept
-    { return ptrSub(m_ptr, sizeof(T) * n); }
+    { return ptrSub(m_ptr, static_cast<std::ptrdiff_t>(sizeof(T)) * n); }
 
     reference operator[](difference_type const n) const noexcept
-    { return ptrAdd(m_ptr, sizeof(T) * n); }
+    { return ptrAdd(m_ptr, static_cast<std::ptrdiff_t>(sizeof(T)) * n); }
 
     explicit operator bool() const noexcept { return m_ptr; }
 
@@ -243,13 +243,13 @@ template <typename T>
 UnalignedPointer<T> operator+(
         UnalignedPointer<T> const & p,
         typename UnalignedPointer<T>::difference_type const n) noexcept
-{ return ptrAdd(p.m_ptr, sizeof(T) * n); }
+{ return ptrAdd(p.m_ptr, static_cast<std::ptrdiff_t>(sizeof(T)) * n); }
 
 template <typename T>
 UnalignedPointer<T> operator+(
         typename UnalignedPointer<T>::difference_type const n,
         UnalignedPointer<T> const & p) noexcept
-{ return ptrAdd(p.m_ptr, sizeof(T) * n); }
+{ return ptrAdd(p.m_ptr, static_cast<std::ptrdiff_t>(sizeof(T)) * n); }
 
 } /* namespace sharemind { */
 
-- 
2.43.0


From 333b280df4fb292315341589611021d20ebe456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 31/97] fix: voidPtr(), ptr() and ref() of PackedStructAccessor
 were ambiguous

---
 src/ConstPackedStructAccessor.h |  1 +
 src/PackedStruct.h              |  1 +
 src/PackingInfo.h               | 26 ++++++++++++++------------
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/ConstPackedStructAccessor.h b/src/ConstPackedStructAccessor.h
index 1bcb22e..a0f50ba 100644
--- a/src/ConstPackedStructAccessor.h
+++ b/src/ConstPackedStructAccessor.h
@@ -69,6 +69,7 @@ public: /* Methods: */
     type & operator=(type const &) noexcept = default;
 
     SHAREMIND_PACKINGINFO_DEFINE_READ_METHODS(Ts...)
+    SHAREMIND_PACKINGINFO_DEFINE_CONST_METHODS(Ts...)
 
     void const * data() const noexcept { return m_data; }
     void const * constData() const noexcept { return m_data; }
diff --git a/src/PackedStruct.h b/src/PackedStruct.h
index 41be55b..223d950 100644
--- a/src/PackedStruct.h
+++ b/src/PackedStruct.h
@@ -65,6 +65,7 @@ public: /* Methods: */
     ConstPackedStructAccessor<Ts...> crefs() const noexcept { return data(); }
 
     SHAREMIND_PACKINGINFO_DEFINE_READ_METHODS(Ts...)
+    SHAREMIND_PACKINGINFO_DEFINE_CONST_METHODS(Ts...)
     SHAREMIND_PACKINGINFO_DEFINE_WRITE_METHODS(,Ts...)
 
     void * data() noexcept { return &m_data; }
diff --git a/src/PackingInfo.h b/src/PackingInfo.h
index bf727d6..6bf12d0 100644
--- a/src/PackingInfo.h
+++ b/src/PackingInfo.h
@@ -154,6 +154,19 @@ struct PackingInfo {
     template <std::size_t I> using ConstPointerType = \
             typename PackingInfo<__VA_ARGS__>::template ConstPointerType<I>;
 
+#define SHAREMIND_PACKINGINFO_DEFINE_CONST_METHODS(...) \
+    template <std::size_t I> \
+    void const * voidPtr() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::template constVoidPtr<I>(data()); } \
+    void const * endVoidPtr() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::endConstVoidPtr(data()); } \
+    template <std::size_t I> \
+    ConstPointerType<I> ptr() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::template constPtr<I>(data()); } \
+    template <std::size_t I> \
+    ConstReferenceType<I> ref() const noexcept \
+    { return PackingInfo<__VA_ARGS__>::template cref<I>(data()); }
+
 #define SHAREMIND_PACKINGINFO_DEFINE_READ_METHODS(...) \
     constexpr static std::size_t size() noexcept \
     { return PackingInfo<__VA_ARGS__>::size(); } \
@@ -170,28 +183,17 @@ struct PackingInfo {
     constexpr static bool hasDynamicFields() \
     { return PackingInfo<__VA_ARGS__>::hasDynamicFields(); } \
     template <std::size_t I> \
-    void const * voidPtr() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::template constVoidPtr<I>(data()); } \
-    template <std::size_t I> \
     void const * constVoidPtr() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template constVoidPtr<I>(data()); } \
-    void const * endVoidPtr() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::endConstVoidPtr(data()); } \
     void const * endConstVoidPtr() const noexcept \
     { return PackingInfo<__VA_ARGS__>::endConstVoidPtr(data()); } \
     template <std::size_t I> \
-    ConstPointerType<I> ptr() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::template constPtr<I>(data()); } \
-    template <std::size_t I> \
     ConstPointerType<I> constPtr() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template constPtr<I>(data()); } \
     template <std::size_t I> \
     ConstReferenceType<I> cref() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template cref<I>(data()); } \
     template <std::size_t I> \
-    ConstReferenceType<I> ref() const noexcept \
-    { return PackingInfo<__VA_ARGS__>::template cref<I>(data()); } \
-    template <std::size_t I> \
     ElemType<I> get() const noexcept \
     { return PackingInfo<__VA_ARGS__>::template get<I>(data()); } \
     bool operator==(type const & rhs) const noexcept \
@@ -203,7 +205,7 @@ struct PackingInfo {
     template <std::size_t I> \
     void * voidPtr() maybeConst noexcept \
     { return PackingInfo<__VA_ARGS__>::template voidPtr<I>(data()); } \
-    void * endVoidPtr() noexcept \
+    void * endVoidPtr() maybeConst noexcept \
     { return PackingInfo<__VA_ARGS__>::endVoidPtr(data()); } \
     template <std::size_t I> \
     PointerType<I> ptr() maybeConst noexcept \
-- 
2.43.0


From d0835552783d518631860fc0adb966456ebbab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 32/97] fix: assigning to a DynamicPackedStruct did not compile

---
 src/DynamicPackedStruct.h | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/DynamicPackedStruct.h b/src/DynamicPackedStruct.h
index ce5a9e4..143f5e1 100644
--- a/src/DynamicPackedStruct.h
+++ b/src/DynamicPackedStruct.h
@@ -138,31 +138,19 @@ public: /* Methods: */
     DynamicPackedStruct & operator=(type && move) noexcept {
         m_data = std::move(move.m_data);
         m_sizes = std::move(move.m_sizes);
+        return *this;
     }
 
     DynamicPackedStruct & operator=(type const & copy) {
-        constexpr static auto lastSizesIndex = numDynamicFields() - 1u;
         if (copy.m_data) {
-            if (m_data) {
-                if (m_sizes[lastSizesIndex] != copy.m_sizes[lastSizesIndex]) {
-                    if (void * const newData =
-                            ::operator new(copy.size(), std::nothrow))
-                    {
-                        m_data = newData;
-                    } else {
-                        if (m_sizes[lastSizesIndex]
-                                < copy.m_sizes[lastSizesIndex])
-                            throw std::bad_alloc();
-                    }
-                }
-            } else {
-                m_data = ::operator new(copy.size());
-            }
-            std::memcpy(m_data.get(), copy.m_data.get(), copy.size());
+            if (!m_data || (size() != copy.size()))
+                m_data.reset(::operator new(copy.size()));
+            std::memmove(m_data.get(), copy.m_data.get(), copy.size());
         } else {
             m_data.reset();
         }
         m_sizes = copy.m_sizes;
+        return *this;
     }
 
     void * data() noexcept { return m_data.get(); }
-- 
2.43.0


From 1fff218cfe9dd1683dde5859b628334cf283c70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 33/97] fix: setting a field of a DynamicPackedStruct returned
 a dangling reference

---
 src/DynamicPackingInfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DynamicPackingInfo.h b/src/DynamicPackingInfo.h
index b1cb0fd..5d38868 100644
--- a/src/DynamicPackingInfo.h
+++ b/src/DynamicPackingInfo.h
@@ -415,7 +415,7 @@ struct AccumArrayType
     auto set(void * const data, ElemType<I> const & v) const noexcept ->
             typename std::enable_if<
                 TypeTraits<I>::isStatic,
-                decltype(ref<I>(data) = v)
+                ReferenceType<I>
             >::type
     { return ref<I>(data) = v; }
 
-- 
2.43.0


From 0897884727810b78d59be87665594f8b9a664db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 34/97] fix: size() of a DynamicPackedStruct without dynamic
 fields read out of bounds

---
 src/DynamicPackingInfo.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/DynamicPackingInfo.h b/src/DynamicPackingInfo.h
index 5d38868..ef3dd5c 100644
--- a/src/DynamicPackingInfo.h
+++ b/src/DynamicPackingInfo.h
@@ -334,9 +334,21 @@ struct AccumArrayType
     type & operator=(type &&) noexcept = default;
     type & operator=(type const &) noexcept = default;
 
-    std::size_t structSizeInBytes() const noexcept
+    template <typename AccumArrayType_ = AccumArrayType>
+    typename std::enable_if<
+        AccumArrayType_::hasDynamicFields(),
+        std::size_t
+    >::type
+    structSizeInBytes() const noexcept
     { return StaticTailSize<Ts...>::value + (*this)[numDynamicFields() - 1u]; }
 
+    template <typename AccumArrayType_ = AccumArrayType>
+    typename std::enable_if<
+        !AccumArrayType_::hasDynamicFields(),
+        std::size_t
+    >::type
+    structSizeInBytes() const noexcept { return sizeOfTypes<Ts...>(); }
+
     template <std::size_t I>
     typename std::enable_if<
         (TemplateInstantiateWithTypeParams_t<
@@ -520,10 +532,7 @@ struct DynamicPackingInfo {
 
     static constexpr std::size_t sizeFromAccum(AccumArrayType const & accumSizes)
             noexcept
-    {
-        return Detail::DynamicPacking::StaticTailSize<Ts...>::value
-               + accumSizes[numDynamicFields() - 1u];
-    }
+    { return accumSizes.structSizeInBytes(); }
 
     template <std::size_t I>
     constexpr static std::size_t elemOffset(AccumArrayType const & accumSizes)
-- 
2.43.0


From f6583b6a94d9155e5d2bc8ed4bde3ad8afd6e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 35/97] fix: sizes of dynamic packed structures wrapped around,
 allocating too little memory

---
 src/DynamicPackingInfo.h | 47 +++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/DynamicPackingInfo.h b/src/DynamicPackingInfo.h
index ef3dd5c..121ffcd 100644
--- a/src/DynamicPackingInfo.h
+++ b/src/DynamicPackingInfo.h
@@ -39,6 +39,29 @@
 
 
 namespace sharemind {
+namespace Detail {
+namespace DynamicPacking {
+
+/* Sizes which do not fit in std::size_t saturate to its maximum value: */
+
+constexpr inline std::size_t addSizes(std::size_t const a, std::size_t const b)
+        noexcept
+{
+    return (a > std::numeric_limits<std::size_t>::max() - b)
+           ? std::numeric_limits<std::size_t>::max()
+           : a + b;
+}
+
+constexpr inline std::size_t mulSizes(std::size_t const a, std::size_t const b)
+        noexcept
+{
+    return ((b != 0u) && (a > std::numeric_limits<std::size_t>::max() / b))
+           ? std::numeric_limits<std::size_t>::max()
+           : a * b;
+}
+
+} /* namespace DynamicPacking { */
+} /* namespace Detail { */
 
 template <std::size_t min_ = std::numeric_limits<std::size_t>::min(),
           std::size_t max_ = std::numeric_limits<std::size_t>::max()>
@@ -58,8 +81,10 @@ struct DynamicVectorFieldPlaceholder {
     using valueType = T;
     constexpr static std::size_t min() { return min_; }
     constexpr static std::size_t max() { return max_; }
-    constexpr static std::size_t minBytes() { return min_ * sizeof(valueType); }
-    constexpr static std::size_t maxBytes() { return max_ * sizeof(valueType); }
+    constexpr static std::size_t minBytes()
+    { return Detail::DynamicPacking::mulSizes(min_, sizeof(valueType)); }
+    constexpr static std::size_t maxBytes()
+    { return Detail::DynamicPacking::mulSizes(max_, sizeof(valueType)); }
 };
 
 namespace Detail {
@@ -124,9 +149,9 @@ struct FieldsTraits<T, Ts...> {
     constexpr static bool isStatic =
             FieldTraits<T>::isStatic && FieldsTraits<Ts...>::isStatic;
     constexpr static std::size_t minBytes =
-            FieldTraits<T>::minBytes + FieldsTraits<Ts...>::minBytes;
+            addSizes(FieldTraits<T>::minBytes, FieldsTraits<Ts...>::minBytes);
     constexpr static std::size_t maxBytes =
-            FieldTraits<T>::maxBytes + FieldsTraits<Ts...>::maxBytes;
+            addSizes(FieldTraits<T>::maxBytes, FieldsTraits<Ts...>::maxBytes);
 };
 
 template <typename ... Ts> struct ValidSizes;
@@ -178,7 +203,10 @@ struct AccumSize<DynamicFieldPlaceholder<min_, max_>, Ts...> {
     template <typename ... Args>
     constexpr static std::size_t value(std::size_t const size,
                                        Args && ... args) noexcept
-    { return size + AccumSize<Ts...>::value(std::forward<Args>(args)...); }
+    {
+        return addSizes(size,
+                        AccumSize<Ts...>::value(std::forward<Args>(args)...));
+    }
 };
 
 template <typename T, std::size_t min_, std::size_t max_, typename ... Ts>
@@ -187,8 +215,8 @@ struct AccumSize<DynamicVectorFieldPlaceholder<T, min_, max_>, Ts...> {
     constexpr static std::size_t value(std::size_t const size,
                                        Args && ... args) noexcept
     {
-        return sizeof(T) * size
-               + AccumSize<Ts...>::value(std::forward<Args>(args)...);
+        return addSizes(mulSizes(sizeof(T), size),
+                        AccumSize<Ts...>::value(std::forward<Args>(args)...));
     }
 };
 
@@ -196,7 +224,10 @@ template <typename T, typename ... Ts>
 struct AccumSize<T, Ts...> {
     template <typename ... Args>
     constexpr static std::size_t value(Args && ... args) noexcept
-    { return sizeof(T) + AccumSize<Ts...>::value(std::forward<Args>(args)...); }
+    {
+        return addSizes(sizeof(T),
+                        AccumSize<Ts...>::value(std::forward<Args>(args)...));
+    }
 };
 
 template <typename ... Ts>
-- 
2.43.0


From 1acdbc12ddb144296de9fc16180b379cade3569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 36/97] fix: concat() moved from lvalue arguments

---
 src/Concat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Concat.h b/src/Concat.h
index 5c6edf0..bf9d0c4 100644
--- a/src/Concat.h
+++ b/src/Concat.h
@@ -39,7 +39,7 @@ inline std::string concatBase(std::ostringstream && oss,
                               Arg && arg,
                               Args && ... args)
 {
-    oss << std::move(arg);
+    oss << std::forward<Arg>(arg);
     return concatBase(std::move(oss), std::forward<Args>(args)...);
 }
 
-- 
2.43.0


From c889693aa5bce6dedd33215e21c74c249602a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 37/97] fix: BasicInputMemoryStream of other than char did not
 compile

---
 src/InputMemoryStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputMemoryStream.h b/src/InputMemoryStream.h
index c2730b8..bbd1dd6 100644
--- a/src/InputMemoryStream.h
+++ b/src/InputMemoryStream.h
@@ -51,7 +51,7 @@ public: /* Methods: */
 
     BasicInputMemoryStream(CharT const * data, std::size_t size)
         : Detail::BasicMemoryBuffer<CharT, Traits>(data, size)
-        , std::istream(
+        , std::basic_istream<CharT, Traits>(
               static_cast<Detail::BasicMemoryBuffer<CharT, Traits> *>(this))
     {}
 
-- 
2.43.0


From a64c5fffe74d03ebb804e32f82018571b638973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 38/97] fix: swapping StrongTypeSwappable strong types did not
 compile

---
 src/StrongType.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StrongType.h b/src/StrongType.h
index bcbe70f..29e6b29 100644
--- a/src/StrongType.h
+++ b/src/StrongType.h
@@ -277,9 +277,11 @@ using StrongTypeStreamable = StrongTypeStreamableTo<std::ostream>;
 struct StrongTypeSwappable {
     template <typename T>
     struct impl {
-        friend void swap(T & a, T & b) noexcept(IsNothrowSwappable<T>::value) {
+        friend void swap(T & a, T & b)
+                noexcept(IsNothrowSwappable<typename T::ValueType>::value)
+        {
             using std::swap;
-            swap(a.value(), b.value());
+            swap(a.get(), b.get());
         }
     };
 };
-- 
2.43.0


From 99cda98f4046777ab3cc80155f132577d486a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 39/97] fix: Flags and AtomicFlags of integral types did not
 compile

---
 src/AtomicFlags.h | 8 ++++----
 src/Flags.h       | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/AtomicFlags.h b/src/AtomicFlags.h
index 185f858..1844e13 100644
--- a/src/AtomicFlags.h
+++ b/src/AtomicFlags.h
@@ -185,10 +185,10 @@ template <typename EnumOrIntegral>
 using AtomicFlags =
         Detail::AtomicFlags<
             EnumOrIntegral,
-                typename std::conditional<
-                    std::is_integral<EnumOrIntegral>::value,
-                    EnumOrIntegral,
-                    typename std::underlying_type<EnumOrIntegral>::type>::type>;
+            typename std::conditional<
+                std::is_integral<EnumOrIntegral>::value,
+                std::remove_cv<EnumOrIntegral>,
+                std::underlying_type<EnumOrIntegral> >::type::type>;
 
 } /* namespace Sharemind { */
 
diff --git a/src/Flags.h b/src/Flags.h
index dee9c60..c9b0759 100644
--- a/src/Flags.h
+++ b/src/Flags.h
@@ -104,8 +104,8 @@ using Flags =
             EnumOrIntegral,
             typename std::conditional<
                 std::is_integral<EnumOrIntegral>::value,
-                EnumOrIntegral,
-                typename std::underlying_type<EnumOrIntegral>::type>::type>;
+                std::remove_cv<EnumOrIntegral>,
+                std::underlying_type<EnumOrIntegral> >::type::type>;
 
 } /* namespace Sharemind { */
 
-- 
2.43.0


From 1ab6edb31a07a3c3b4375ac29d8d0318b77dfac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 40/97] fix: the AtomicFlags tests of flags did not compile

---
 src/AtomicFlags.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AtomicFlags.h b/src/AtomicFlags.h
index 1844e13..e79599a 100644
--- a/src/AtomicFlags.h
+++ b/src/AtomicFlags.h
@@ -37,7 +37,7 @@ public: /* Methods: */
     constexpr explicit AtomicFlags(U const value) noexcept : m_flags{value} {}
 
     Flags<T, U> load(std::memory_order const memoryOrder =
-                             std::memory_order_seq_cst) noexcept
+                             std::memory_order_seq_cst) const noexcept
     { return m_flags.load(memoryOrder); }
 
     void store(U const flags,
@@ -156,7 +156,7 @@ public: /* Methods: */
              U const of,
              std::memory_order const memoryOrder =
                      std::memory_order_seq_cst) const noexcept
-    { return load(memoryOrder).has(flags, of); }
+    { return (load(memoryOrder) & of) == flags; }
 
     bool hasAnyOf(U const flags,
                   std::memory_order const memoryOrder =
-- 
2.43.0


From 2dc3f75a22609c0288d301c349ecf18a8f41c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:32 +0000
Subject: [PATCH 41/97] fix: Make ErrnoException assignable as declared

---
 src/Exception.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Exception.h b/src/Exception.h
index 2282ecd..ff90fb2 100644
--- a/src/Exception.h
+++ b/src/Exception.h
@@ -106,8 +106,8 @@ public: /* Methods: */
 
 private: /* Fields: */
 
-    MessageBuffer const m_message;
-    int const m_errno;
+    MessageBuffer m_message;
+    int m_errno;
 
 };
 
-- 
2.43.0


From c878a6a09f200d8eb59336288d8d19858f2dd020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:54 +0000
Subject: [PATCH 42/97] fix: Handle failed reads when flushing the event loop's
 pipe

---
 src/EventLoop.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index ef4d0de..c7b0325 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -328,12 +328,14 @@ public: /* Methods: */
                         auto const rd = ::read(m_closePipe.readEnd,
                                                events,
                                                DISCARD_SIZE);
-                        assert(static_cast<std::size_t>(rd) <= DISCARD_SIZE);
                         if (rd <= 0) {
-                            if (rd == 0 // HUP or EOF
-                                    || (static_cast<void>(assert(rd == -1)),
-                                        (errno != EAGAIN) && (errno != EINTR)))
-                                return; // Error or stop signalled
+                            if (rd == 0) // HUP or EOF
+                                return; // Stop signalled
+                            assert(rd == -1);
+                            if (errno == EAGAIN) // Pipe already empty
+                                goto Sharemind_EventLoop_run_continue;
+                            if (errno != EINTR)
+                                return; // Error signalled
                         } else if (static_cast<std::size_t>(rd) < DISCARD_SIZE)
                         { goto Sharemind_EventLoop_run_continue; }
                     }
-- 
2.43.0


From a4676ef0b5fca101e75d5e5f335136871f9dc0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 43/97] fix: Do not write to or close the event loop's pipe
 after it has been closed by another thread

---
 src/EventLoop.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index c7b0325..e0b76ca 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -162,16 +162,24 @@ private: /* Types: */
         }
 
         void writeEndClose() noexcept {
+            std::lock_guard<std::mutex> const guard{writeEndMutex};
             if (writeEnd == readEnd)
                 return;
             ::close(writeEnd);
             writeEnd = readEnd;
         }
 
+        auto writeByte() noexcept {
+            static char const data = '\0';
+            std::lock_guard<std::mutex> const guard{writeEndMutex};
+            return ::write(writeEnd, &data, 1u);
+        }
+
     /* Fields: */
 
         int readEnd;
         int writeEnd;
+        std::mutex writeEndMutex;
 
     };
 
@@ -371,9 +379,8 @@ private: /* Methods: */
         }
         if (m_loopCounter.load(std::memory_order_acquire) != start)
             return;
-        static char const data = '\0';
         for (;;) {
-            auto const w = ::write(m_closePipe.writeEnd, &data, 1u);
+            auto const w = m_closePipe.writeByte();
             assert(w <= 1);
             if (w > 0)
                 break;
-- 
2.43.0


From 3ebfb08d76a3aea77da66cacd7b68c705346ae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:02 +0000
Subject: [PATCH 44/97] fix: Wait for the end of the loop iteration also when
 the event loop is being stopped

---
 src/EventLoop.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index e0b76ca..808b0c8 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -393,7 +393,7 @@ private: /* Methods: */
                 && errno != ENOSPC
                 && errno != EIO
                 && errno != ENOBUFS)
-                return;
+                break; // The loop is being stopped, but might still be running
         }
         while (m_loopCounter.load(std::memory_order_acquire) == start)
             spinFunction();
-- 
2.43.0


From 8094a7ae0752198802573e87269a6984bcda8d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 45/97] fix: Do not wait for the iteration of an event loop
 which is not running

---
 src/EventLoop.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index 808b0c8..40b4217 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -395,8 +395,14 @@ private: /* Methods: */
                 && errno != ENOBUFS)
                 break; // The loop is being stopped, but might still be running
         }
-        while (m_loopCounter.load(std::memory_order_acquire) == start)
+        while (m_loopCounter.load(std::memory_order_acquire) == start) {
+            // It might have been another waiter or stop() who held the mutex:
+            if (m_stopMutex.try_lock()) {
+                m_stopMutex.unlock();
+                return;
+            }
             spinFunction();
+        }
     }
 
     #if defined(__linux__)
-- 
2.43.0


From 9ddee9a1bec7502bd7b3a9fe5c8cb42d806dbcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 46/97] fix: copies of a ScopeExit ran its action again, and it
 could not be moved

---
 src/ScopeExit.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ScopeExit.h b/src/ScopeExit.h
index 31ce1c2..8116291 100644
--- a/src/ScopeExit.h
+++ b/src/ScopeExit.h
@@ -32,7 +32,9 @@ public: /* Methods: */
 
     template <typename ... Args>
     ScopeExit(Args && ... args) : m_f{std::forward<Args>(args)...} {}
-    ~ScopeExit() noexcept(false) { m_f(); }
+    ScopeExit(ScopeExit && move) noexcept { m_f.swap(move.m_f); }
+    ScopeExit(ScopeExit const &) = delete;
+    ~ScopeExit() noexcept(false) { if (m_f) m_f(); }
 
 private: /* Fields: */
 
-- 
2.43.0


From 0b8c5fbd209ffc0b64086b6e7cce23dfaf502358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 47/97] fix: taking an item from a shared item set lost it when
 hashing or comparing threw

---
 src/IntrusiveUnorderedSharedItemSet.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/IntrusiveUnorderedSharedItemSet.h b/src/IntrusiveUnorderedSharedItemSet.h
index 2b703de..9535048 100644
--- a/src/IntrusiveUnorderedSharedItemSet.h
+++ b/src/IntrusiveUnorderedSharedItemSet.h
@@ -223,9 +223,7 @@ public: /* Methods: */
     std::shared_ptr<T> take(Reference ref)
             noexcept(noexcept(std::declval<Container &>().erase(ref)))
     {
-        auto r(ItemTraits::takePtr(ref));
-        m_container.erase(ref);
-        return r;
+        return take(m_container.iterator_to(ref));
     }
 
     static std::shared_ptr<ValueType> retrieveSharedPtr(ConstIterator const it)
-- 
2.43.0


From 4835988ec4283256cd959a045a0c1b272b4e46bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 48/97] fix: items refused by a shared item set owned
 themselves forever

---
 src/IntrusiveUnorderedSharedItemSet.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/IntrusiveUnorderedSharedItemSet.h b/src/IntrusiveUnorderedSharedItemSet.h
index 9535048..3121ff3 100644
--- a/src/IntrusiveUnorderedSharedItemSet.h
+++ b/src/IntrusiveUnorderedSharedItemSet.h
@@ -188,7 +188,8 @@ public: /* Methods: */
     {
         auto & item = *v;
         auto r(m_container.insert(item));
-        ItemTraits::putPtr(item, std::move(v));
+        if (r.second)
+            ItemTraits::putPtr(item, std::move(v));
         return r;
     }
 
-- 
2.43.0


From ce2e33f265a72aec37cb3031247899f367fe48fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 49/97] fix: copying an item of a shared item set copied its
 ownership by the set

---
 src/IntrusiveUnorderedSharedItemSet.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/IntrusiveUnorderedSharedItemSet.h b/src/IntrusiveUnorderedSharedItemSet.h
index 3121ff3..37acce8 100644
--- a/src/IntrusiveUnorderedSharedItemSet.h
+++ b/src/IntrusiveUnorderedSharedItemSet.h
@@ -52,8 +52,22 @@ class IntrusiveUnorderedSharedItemSetItemBase
 
 public: /* Methods: */
 
+    IntrusiveUnorderedSharedItemSetItemBase() noexcept {}
+
+    /* Like the hook, the ownership of the item by a set is never copied: */
+    IntrusiveUnorderedSharedItemSetItemBase(
+            IntrusiveUnorderedSharedItemSetItemBase const &) noexcept
+        : boost::intrusive::unordered_set_base_hook<
+                    boost::intrusive::link_mode<boost::intrusive::normal_link>,
+                    boost::intrusive::store_hash<true> >()
+    {}
+
     virtual ~IntrusiveUnorderedSharedItemSetItemBase() noexcept {}
 
+    IntrusiveUnorderedSharedItemSetItemBase & operator=(
+            IntrusiveUnorderedSharedItemSetItemBase const &) noexcept
+    { return *this; }
+
 private: /* Fields: */
 
     mutable std::shared_ptr<T> m_selfPtr;
-- 
2.43.0


From 5c17a194723d49752877e1ea1f4f022502604326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 50/97] fix: allocating storage of less than pointer alignment
 always failed

---
 src/AlignedAllocator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/AlignedAllocator.h b/src/AlignedAllocator.h
index d2ddfc9..d9556e6 100644
--- a/src/AlignedAllocator.h
+++ b/src/AlignedAllocator.h
@@ -34,8 +34,11 @@ template <std::size_t ALIGNMENT>
 inline void * allocateAlignedStorage(std::size_t const size,
                                      std::nothrow_t const &) noexcept
 {
+    /* Smaller alignments are not valid for posix_memalign(): */
+    constexpr auto const alignment =
+            (ALIGNMENT < sizeof(void *)) ? sizeof(void *) : ALIGNMENT;
     void * p;
-    if (::posix_memalign(&p, ALIGNMENT, size) != 0)
+    if (::posix_memalign(&p, alignment, size) != 0)
         return nullptr;
     return p;
 }
-- 
2.43.0


From 80b6a417e1b65de307cdd87dbc9e2b5def151dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 51/97] fix: AlignedAllocator allocated too little memory when
 the size did not fit

---
 src/AlignedAllocator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AlignedAllocator.h b/src/AlignedAllocator.h
index d9556e6..d806869 100644
--- a/src/AlignedAllocator.h
+++ b/src/AlignedAllocator.h
@@ -24,7 +24,7 @@
 /* #include <limits> */
 #include <new>
 #include <memory>
-/* #include <type_traits> */
+#include <type_traits>
 /* #include <utility> */
 
 
@@ -118,6 +118,8 @@ struct AlignedAllocator {
     AlignedAllocator(AlignedAllocator<U> const &) noexcept {}
 
     static pointer allocate(size_type const n) {
+        if (n > static_cast<size_type>(-1) / sizeof(T))
+            throw std::bad_alloc();
         return static_cast<pointer>(
                     allocateAlignedStorage<alignof(T)>(n * sizeof(T)));
     }
-- 
2.43.0


From 633b86018ebbe56b273b2fb7e8edcb9c0045f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 52/97] fix: missing return in the move assignment of
 UninitializedDynamicArray

---
 src/UninitializedDynamicArray.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/UninitializedDynamicArray.h b/src/UninitializedDynamicArray.h
index 098e923..49e8450 100644
--- a/src/UninitializedDynamicArray.h
+++ b/src/UninitializedDynamicArray.h
@@ -70,6 +70,7 @@ public: /* Methods: */
         m_size = move.m_size;
         m_data = std::move(move.m_data);
         move.m_size = 0u;
+        return *this;
     }
 
     UninitializedDynamicArray & operator=(
-- 
2.43.0


From 03b81454e16c25f9216ce586407b02b0cc6314ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 53/97] fix: constructing a CRefVec from a RefVec did not
 compile

---
 src/ReferenceVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReferenceVector.h b/src/ReferenceVector.h
index cd4fa88..13ab7dc 100644
--- a/src/ReferenceVector.h
+++ b/src/ReferenceVector.h
@@ -142,7 +142,7 @@ public: /* Methods: */
     { }
 
     explicit CRefVec(RefVec<T> const & immvec)
-        : Base(immvec)
+        : Base(immvec.begin(), immvec.size())
     {}
 
     using Base::empty;
-- 
2.43.0


From d27bb0e23faa83b14c58ff8e815ade543a6580a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 54/97] fix: filtering value lists did not compile

---
 src/TemplatePrepend.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/TemplatePrepend.h b/src/TemplatePrepend.h
index e8c15dd..78bb29b 100644
--- a/src/TemplatePrepend.h
+++ b/src/TemplatePrepend.h
@@ -20,6 +20,9 @@
 #ifndef SHAREMIND_TEMPLATEPREPEND_H
 #define SHAREMIND_TEMPLATEPREPEND_H
 
+#include "TemplateList.h"
+
+
 namespace sharemind {
 
 template <typename T, typename TmplInstance, T ... vs>
@@ -33,6 +36,10 @@ template <typename T, template <T ...> class Tmpl, T ... Tvs, T ... vs>
 struct TemplatePrepend<T, Tmpl<Tvs...>, vs...>
 { using type = Tmpl<vs..., Tvs...>; };
 
+template <typename T, T ... Tvs, T ... vs>
+struct TemplatePrepend<T, TemplateList<T, Tvs...>, vs...>
+{ using type = TemplateList<T, vs..., Tvs...>; };
+
 } /* namespace Sharemind { */
 
 #endif /* SHAREMIND_TEMPLATEPREPEND_H */
-- 
2.43.0


From 3e33c0a6b9deb3a2860e755961422b9e3f94bf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 55/97] fix: TemplateContainsType of types occurring many times
 did not compile

---
 src/TemplateContainsType.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TemplateContainsType.h b/src/TemplateContainsType.h
index d0f59de..b75d2db 100644
--- a/src/TemplateContainsType.h
+++ b/src/TemplateContainsType.h
@@ -28,7 +28,8 @@ namespace sharemind {
 template <typename Needle, typename ... Haystack>
 using TemplateContainsType =
         std::integral_constant<bool,
-                               TemplateCountTypes<Needle, Haystack...>::value>;
+                               (TemplateCountTypes<Needle, Haystack...>::value
+                                > 0u)>;
 
 template <typename Needle, typename ... Haystack>
 constexpr auto TemplateContainsType_v =
-- 
2.43.0


From 204dd3df5ae262c7c28e8fb398ebeafe5fa3653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 56/97] fix: IsSwappable of types which cannot be referenced
 did not compile

---
 src/IsSwappable.h | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/IsSwappable.h b/src/IsSwappable.h
index 0a72357..8aa2b12 100644
--- a/src/IsSwappable.h
+++ b/src/IsSwappable.h
@@ -57,6 +57,20 @@ struct TestNoexcept
 template <typename T, typename U>
 struct TestNoexcept<T, U, false> : std::false_type {};
 
+template <typename T, bool = ::sharemind::IsReferenceable<T>::value>
+struct TestSelf : std::integral_constant<bool, Test<T &, T &>::value> {};
+
+template <typename T>
+struct TestSelf<T, false> : std::false_type {};
+
+template <typename T, bool = ::sharemind::IsReferenceable<T>::value>
+struct TestSelfNoexcept
+        : std::integral_constant<bool, TestNoexcept<T &, T &>::value>
+{};
+
+template <typename T>
+struct TestSelfNoexcept<T, false> : std::false_type {};
+
 } /* namespace IsSwappable { */
 } /* namespace Detail { */
 
@@ -67,13 +81,7 @@ struct IsSwappableWith
 
 template <typename T>
 struct IsSwappable
-        : std::integral_constant<
-            bool,
-            std::conditional<
-                IsReferenceable<T>::value,
-                IsSwappableWith<T &, T &>,
-                std::false_type
-            >::type::value>
+        : std::integral_constant<bool, Detail::IsSwappable::TestSelf<T>::value>
 {};
 
 template <typename T, typename U>
@@ -87,11 +95,7 @@ template <typename T>
 struct IsNothrowSwappable
         : std::integral_constant<
             bool,
-            std::conditional<
-                IsReferenceable<T>::value,
-                IsNothrowSwappableWith<T &, T &>,
-                std::false_type
-            >::type::value>
+            Detail::IsSwappable::TestSelfNoexcept<T>::value>
 {};
 
 } /* namespace Sharemind { */
-- 
2.43.0


From 6c42ed3777182e10da06d3343f83396d52808772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 57/97] fix: smart pointers did not model NullablePointer

---
 src/Concepts.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Concepts.h b/src/Concepts.h
index a5a5a55..faf4c47 100644
--- a/src/Concepts.h
+++ b/src/Concepts.h
@@ -393,7 +393,7 @@ SHAREMIND_DEFINE_CONCEPT(NullablePointer) {
                 CopyAssignable(T),
                 Destructible(T),
                 Swappable(T &),
-                ConvertibleTo(T, bool),
+                Constructible(bool, T),
                 ConvertibleTo(decltype(t == nullptr), bool),
                 ConvertibleTo(decltype(nullptr == t), bool),
                 ConvertibleTo(decltype(t != nullptr), bool),
-- 
2.43.0


From 9a7548b9178e90554d98c091c9609b4ce3232e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 58/97] fix: std::string had another hash than the same
 characters in other forms

---
 src/StringHasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringHasher.h b/src/StringHasher.h
index 29f3590..b6a9d09 100644
--- a/src/StringHasher.h
+++ b/src/StringHasher.h
@@ -137,7 +137,7 @@ struct StringHasher {
     std::size_t operator()(std::string const & v) const
             noexcept(noexcept(std::declval<StringHasher const &>()(v.begin(),
                                                                    v.end())))
-    { return boost::hash_range(v.begin(), v.end()); }
+    { return this->operator()(v.begin(), v.end()); }
 
     std::size_t operator()(char const * const v) const noexcept
     { return this->operator()(v, Detail::TerminatingNullCharacterSentinel()); }
-- 
2.43.0


From bbc370c7c644e5a645659f010675d3cf866759c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 59/97] fix: comparing strings containing null characters to C
 strings ignored what followed

---
 src/StringHasher.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/StringHasher.h b/src/StringHasher.h
index b6a9d09..8d9689b 100644
--- a/src/StringHasher.h
+++ b/src/StringHasher.h
@@ -23,7 +23,6 @@
 #include <algorithm>
 #include <boost/functional/hash.hpp>
 #include <cstddef>
-#include <cstring>
 #include <iterator>
 #include <string>
 #include <utility>
@@ -111,11 +110,11 @@ struct StringHasher {
 
         bool operator()(char const * const a, std::string const & b)
                 const noexcept
-        { return std::strcmp(a, b.c_str()) == 0; }
+        { return a == b; }
 
         bool operator()(std::string const & a, char const * const b)
                 const noexcept
-        { return std::strcmp(a.c_str(), b) == 0; }
+        { return a == b; }
 
     };
 
-- 
2.43.0


From 84df8faf51b4afebc428f801aab0ed6957afb459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 60/97] fix: copies of an UnorderedMap shared the elements

---
 src/UnorderedMap.h | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/UnorderedMap.h b/src/UnorderedMap.h
index a3cdfba..b0c9b0c 100644
--- a/src/UnorderedMap.h
+++ b/src/UnorderedMap.h
@@ -366,10 +366,8 @@ public: /* Methods: */
     {}
 
     UnorderedMap(UnorderedMap const & copy)
-        : m_hasher(copy.m_hasher)
-        , m_pred(copy.m_pred)
-        , m_container(copy.m_container)
-        , m_allocator(
+        : UnorderedMap(
+            copy,
             std::allocator_traits<allocator_type>
                 ::select_on_container_copy_construction(copy.m_allocator))
     {}
@@ -383,7 +381,7 @@ public: /* Methods: */
     UnorderedMap(UnorderedMap const & copy, allocator_type const & allocator)
         : m_hasher(copy.m_hasher)
         , m_pred(copy.m_pred)
-        , m_container(copy.m_container)
+        , m_container(copyContainer(copy.m_container, allocator))
         , m_allocator(allocator)
     {}
 
@@ -400,13 +398,18 @@ public: /* Methods: */
 
     UnorderedMap & operator=(UnorderedMap const & rhs) {
         if (&rhs != this) {
-            m_hasher = rhs.m_hasher;
-            m_pred = rhs.m_pred;
-            m_container = rhs.m_container;
-            Detail::UnorderedMap::PropagateAllocator<
+            using PA =
+                    Detail::UnorderedMap::PropagateAllocator<
                         std::allocator_traits<allocator_type>
                             ::propagate_on_container_copy_assignment::value
-                    >::copy(m_allocator, rhs.m_allocator);
+                    >;
+            allocator_type newAllocator(m_allocator);
+            PA::copy(newAllocator, rhs.m_allocator);
+            auto newContainer(copyContainer(rhs.m_container, newAllocator));
+            m_hasher = rhs.m_hasher;
+            m_pred = rhs.m_pred;
+            std::swap(m_container, newContainer);
+            PA::copy(m_allocator, rhs.m_allocator);
         }
         return *this;
     }
@@ -970,6 +973,19 @@ public: /* Methods: */
 
     void reserve(size_type n) { m_container.reserve(n); }
 
+private: /* Methods: */
+
+    static InnerContainer copyContainer(InnerContainer const & from,
+                                        allocator_type const & allocator)
+    {
+        InnerContainer r(from.bucket_count());
+        r.max_load_factor(from.max_load_factor());
+        for (auto const & v : from)
+            r.emplace(v.first,
+                      std::allocate_shared<value_type>(allocator, *v.second));
+        return r;
+    }
+
 private: /* Fields: */
 
     hasher m_hasher;
-- 
2.43.0


From 5e18b7e160d0694b90eebeb44a8c33f49d27b8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 61/97] fix: assigning an initializer list to an UnorderedMap
 did not compile

---
 src/UnorderedMap.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/UnorderedMap.h b/src/UnorderedMap.h
index b0c9b0c..1b2e1e5 100644
--- a/src/UnorderedMap.h
+++ b/src/UnorderedMap.h
@@ -428,12 +428,10 @@ public: /* Methods: */
     }
 
     UnorderedMap & operator=(std::initializer_list<value_type> values) {
-        InnerContainer newInner;
-        for (auto & v : values)
-            newInner.emplace(std::allocate_shared<value_type>(m_allocator,
-                                                              std::move(v)));
-        newInner.rehash();
-        std::swap(m_container, newInner);
+        UnorderedMap newMap(bucket_count(), m_hasher, m_pred, m_allocator);
+        newMap.max_load_factor(max_load_factor());
+        newMap.insert(values);
+        std::swap(m_container, newMap.m_container);
         return *this;
     }
 
-- 
2.43.0


From f5dc3a3008bb5589ff0c5b3b5cc27442a12aa83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 62/97] fix: insert_or_assign of a moved key with a hint did
 not compile

---
 src/UnorderedMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/UnorderedMap.h b/src/UnorderedMap.h
index 1b2e1e5..8666689 100644
--- a/src/UnorderedMap.h
+++ b/src/UnorderedMap.h
@@ -573,7 +573,7 @@ public: /* Methods: */
     iterator insert_or_assign(const_iterator /* hint */,
                               key_type && k,
                               Value && v)
-    { return insert_or_assign(std::move(k), std::forward<Value>(v)); }
+    { return insert_or_assign(std::move(k), std::forward<Value>(v)).first; }
 
     iterator erase(const_iterator position)
     { return iterator(m_container.erase(position.base())); }
-- 
2.43.0


From 4153026624022e20bb7432da16e817138e30bf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 63/97] fix: an Optional whose copy or move construction threw
 destroyed a value which was never constructed

---
 src/Optional.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index a9d8ad6..85644f9 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -173,10 +173,12 @@ struct CopyConstructorBase<T, 2>: DestructorBase<T> {
 
     CopyConstructorBase(CopyConstructorBase const & copy)
             noexcept(std::is_nothrow_copy_constructible<T>::value)
-        : DestructorBase<T>(copy.m_containsValue)
+        : DestructorBase<T>()
     {
-        if (copy.m_containsValue)
+        if (copy.m_containsValue) {
             new (std::addressof(this->m_data)) T(copy.m_data);
+            this->m_containsValue = true;
+        }
     }
 
     constexpr CopyConstructorBase(CopyConstructorBase &&) = default;
@@ -201,10 +203,12 @@ struct MoveConstructorBase<T, false>: CopyConstructorBase<T> {
 
     MoveConstructorBase(MoveConstructorBase && move)
             noexcept(std::is_nothrow_move_constructible<T>::value)
-        : CopyConstructorBase<T>(move.m_containsValue)
+        : CopyConstructorBase<T>()
     {
-        if (move.m_containsValue)
+        if (move.m_containsValue) {
             new (std::addressof(this->m_data)) T(std::move(move.m_data));
+            this->m_containsValue = true;
+        }
     }
 
     MoveConstructorBase & operator=(MoveConstructorBase const &) = default;
-- 
2.43.0


From cb6279c6fac7a6ac3025cd0e9df9cf526d27defd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 64/97] fix: constructing an Optional from a bool gave an
 Optional which claimed to contain a value that was never constructed

---
 src/Optional.h | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index 85644f9..de0dab4 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -72,11 +72,6 @@ struct DestructorBase<T, true> {
         , m_containsValue(false)
     {}
 
-    constexpr explicit DestructorBase(bool const valid) noexcept
-        : m_noValuePlaceholder()
-        , m_containsValue(valid)
-    {}
-
     template <typename ... Args>
     constexpr explicit DestructorBase(InPlace, Args && ... args)
             noexcept(std::is_nothrow_constructible<T, Args &&...>::value)
@@ -106,11 +101,6 @@ struct DestructorBase<T, false> {
         , m_containsValue(false)
     {}
 
-    constexpr explicit DestructorBase(bool const valid) noexcept
-        : m_noValuePlaceholder()
-        , m_containsValue(valid)
-    {}
-
     template <typename ... Args>
     constexpr explicit DestructorBase(InPlace, Args && ... args)
             noexcept(std::is_nothrow_constructible<T, Args &&...>::value)
@@ -142,7 +132,6 @@ struct DestructorBase<T, false> {
 
 #define SHAREMIND_OPTIONAL_H_PROXY_PASSTHROUGH(name,base) \
     constexpr name() noexcept = default; \
-    constexpr explicit name(bool const v) noexcept : base<T>(v) {} \
     template <typename ... Args> \
     constexpr explicit name(InPlace ip, Args && ... args) \
             noexcept(std::is_nothrow_constructible<T, Args &&...>::value) \
-- 
2.43.0


From ae254215e9101ef05cd4f4e0f30de19bd36f14ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 65/97] fix: converting an empty Optional to an Optional of
 another type accessed its missing value

---
 src/Optional.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index de0dab4..4a1ed32 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -388,7 +388,10 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && std::is_convertible<U const &, T>::value,
                 int>::type = 0>
-    constexpr Optional(Optional<U> const & v) : Optional(inPlace, *v) {}
+    Optional(Optional<U> const & v) {
+        if (v)
+            emplace(*v);
+    }
 
     template <
             typename U = T,
@@ -397,9 +400,10 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && !std::is_convertible<U const &, T>::value,
                 int>::type = 0>
-    explicit constexpr Optional(Optional<U> const & v)
-        : Optional(inPlace, *v)
-    {}
+    explicit Optional(Optional<U> const & v) {
+        if (v)
+            emplace(*v);
+    }
 
     template <
             typename U = T,
@@ -408,7 +412,10 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && std::is_convertible<U, T>::value,
                 int>::type = 0>
-    constexpr Optional(Optional<U> && v) : Optional(inPlace, std::move(*v)) {}
+    Optional(Optional<U> && v) {
+        if (v)
+            emplace(std::move(*v));
+    }
 
     template <
             typename U = T,
@@ -417,9 +424,10 @@ public: /* Methods: */
                 && !CanGetValueFromOptional<U>::value
                 && !std::is_convertible<U, T>::value,
                 int>::type = 0>
-    explicit constexpr Optional(Optional<U> && v)
-        : Optional(inPlace, std::move(*v))
-    {}
+    explicit Optional(Optional<U> && v) {
+        if (v)
+            emplace(std::move(*v));
+    }
 
     Optional & operator=(NullOption) noexcept {
         this->reset_();
-- 
2.43.0


From 6282236201843f420cdfea55fe5bbb8605e08280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 66/97] fix: assigning an Optional of another type did not
 compile

---
 src/Optional.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index 4a1ed32..46724c1 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -453,7 +453,16 @@ public: /* Methods: */
     Optional & operator=(Optional<U> const & rhs)
             noexcept(std::is_nothrow_constructible<T, U const &>::value
                      && std::is_nothrow_assignable<T, U const &>::value)
-    { SHAREMIND_OPTIONAL_H_COPY_ASSIGN(rhs); }
+    {
+        if (!rhs) {
+            this->reset_();
+        } else if (this->m_containsValue) {
+            this->m_data = *rhs;
+        } else {
+            emplace(*rhs);
+        }
+        return *this;
+    }
 #undef SHAREMIND_OPTIONAL_H_COPY_ASSIGN
 
     template <
@@ -467,7 +476,16 @@ public: /* Methods: */
     Optional & operator=(Optional<U> && rhs)
             noexcept(std::is_nothrow_constructible<T, U &&>::value
                      && std::is_nothrow_assignable<T, U &&>::value)
-    { SHAREMIND_OPTIONAL_H_MOVE_ASSIGN(rhs); }
+    {
+        if (!rhs) {
+            this->reset_();
+        } else if (this->m_containsValue) {
+            this->m_data = std::move(*rhs);
+        } else {
+            emplace(std::move(*rhs));
+        }
+        return *this;
+    }
 #undef SHAREMIND_OPTIONAL_H_MOVE_ASSIGN
 
     constexpr T const * operator->() const noexcept
-- 
2.43.0


From bd178bdf5f64b837ec9e79d7ff7c2fd5f1bc7e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 67/97] fix: an exception from emplacing a value with an
 initializer list could terminate the program

---
 src/Optional.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Optional.h b/src/Optional.h
index 46724c1..c32ebd2 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -575,7 +575,11 @@ public: /* Methods: */
 
     template <typename U, typename ... Args>
     auto emplace(std::initializer_list<U> il, Args && ... args)
-            noexcept(std::is_nothrow_constructible<T, Args &&...>::value)
+            noexcept(std::is_nothrow_constructible<
+                            T,
+                            std::initializer_list<U> &,
+                            Args &&...
+                     >::value)
             -> typename std::enable_if<
                     std::is_constructible<
                         T,
-- 
2.43.0


From 46445459788f1866e1f035fb52ddace28fa77c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 68/97] fix: swapping Optionals did not compile, or did not use
 the swap function of the value type

---
 src/Optional.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index c32ebd2..e871e84 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -611,7 +611,8 @@ public: /* Methods: */
                 };
         if (rhs.m_containsValue) {
             if (this->m_containsValue) {
-                std::swap(this->m_data, rhs.m_data);
+                using std::swap;
+                swap(this->m_data, rhs.m_data);
             } else {
                 doMove(rhs, *this);
             }
@@ -696,9 +697,11 @@ SHAREMIND_OPTIONAL_H_VALUECOMPARE(>=, false, true)
 #undef SHAREMIND_OPTIONAL_H_VALUECOMPARE
 
 template <typename T>
-std::enable_if<std::is_move_constructible<T>::value && IsSwappable<T>::value,
-               void>
-swap(Optional<T> & a, Optional<T> & b) { return a.swap(b); }
+typename std::enable_if<std::is_move_constructible<T>::value
+                        && IsSwappable<T>::value,
+                        void>::type
+swap(Optional<T> & a, Optional<T> & b) noexcept(noexcept(a.swap(b)))
+{ return a.swap(b); }
 
 template <typename T>
 constexpr Optional<typename std::decay<T>::type> makeOptional(T && v)
-- 
2.43.0


From f49a6313a67d20773bed95227d56e4b79512791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 69/97] fix: an exception from comparing an Optional to a value
 terminated the program

---
 src/Optional.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index e871e84..d1e8ae9 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -683,10 +683,12 @@ SHAREMIND_OPTIONAL_H_NULLCOMPARE(>=, (static_cast<void>(x), true), !x)
 
 #define SHAREMIND_OPTIONAL_H_VALUECOMPARE(op,r1,r2) \
     template <typename T, typename U> \
-    constexpr bool operator op(Optional<T> const & x, U const & v) noexcept \
+    constexpr bool operator op(Optional<T> const & x, U const & v) \
+            noexcept(noexcept(*x op v)) \
     { return bool(x) ? (*x op v) : r1; } \
     template <typename T, typename U> \
-    constexpr bool operator op(T const & v, Optional<U> const & x) noexcept \
+    constexpr bool operator op(T const & v, Optional<U> const & x) \
+            noexcept(noexcept(v op *x)) \
     { return bool(x) ? (v op *x) : r2; }
 SHAREMIND_OPTIONAL_H_VALUECOMPARE(==, false, false)
 SHAREMIND_OPTIONAL_H_VALUECOMPARE(!=, true,  true)
-- 
2.43.0


From a1957c7f168eb102baa947901b76ac6db0959cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 70/97] fix: an Optional of a const type or of a type with its
 own operator new did not compile

---
 src/Optional.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/Optional.h b/src/Optional.h
index d1e8ae9..71875eb 100644
--- a/src/Optional.h
+++ b/src/Optional.h
@@ -59,6 +59,11 @@ constexpr InPlace inPlace = InPlace();
 namespace Detail {
 namespace Optional {
 
+template <typename T> void * storageOf(T & v) noexcept {
+    return const_cast<void *>(
+                static_cast<void const volatile *>(std::addressof(v)));
+}
+
 template <typename T, bool = std::is_trivially_destructible<T>::value>
 struct DestructorBase;
 
@@ -165,7 +170,7 @@ struct CopyConstructorBase<T, 2>: DestructorBase<T> {
         : DestructorBase<T>()
     {
         if (copy.m_containsValue) {
-            new (std::addressof(this->m_data)) T(copy.m_data);
+            ::new (storageOf(this->m_data)) T(copy.m_data);
             this->m_containsValue = true;
         }
     }
@@ -195,7 +200,8 @@ struct MoveConstructorBase<T, false>: CopyConstructorBase<T> {
         : CopyConstructorBase<T>()
     {
         if (move.m_containsValue) {
-            new (std::addressof(this->m_data)) T(std::move(move.m_data));
+            ::new (storageOf(this->m_data)) T(
+                        std::move(move.m_data));
             this->m_containsValue = true;
         }
     }
@@ -234,7 +240,7 @@ struct CopyAssignmentBase<T, true>: MoveConstructorBase<T> {
         if (this->m_containsValue) { \
             this->m_data = fromOptional.m_data; \
         } else { \
-            new (std::addressof(this->m_data)) T(fromOptional.m_data); \
+            ::new (storageOf(this->m_data)) T(fromOptional.m_data); \
             this->m_containsValue = true; \
         } \
     } else { \
@@ -280,7 +286,7 @@ struct MoveAssignmentBase<T, true>: CopyAssignmentBase<T> {
             if (this->m_containsValue) { \
                 this->m_data = std::move(fromOptional.m_data); \
             } else { \
-                new (std::addressof(this->m_data)) T( \
+                ::new (storageOf(this->m_data)) T( \
                         std::move(fromOptional.m_data)); \
                 this->m_containsValue = true; \
             } \
@@ -568,7 +574,8 @@ public: /* Methods: */
             noexcept(std::is_nothrow_constructible<T, Args &&...>::value)
     {
         this->reset_();
-        new (std::addressof(this->m_data)) T(std::forward<Args>(args)...);
+        ::new (Detail::Optional::storageOf(this->m_data)) T(
+                    std::forward<Args>(args)...);
         this->m_containsValue = true;
         return this->m_data;
     }
@@ -589,7 +596,9 @@ public: /* Methods: */
                     T &>::type
     {
         this->reset_();
-        new (std::addressof(this->m_data)) T(il, std::forward<Args>(args)...);
+        ::new (Detail::Optional::storageOf(this->m_data)) T(
+                    il,
+                    std::forward<Args>(args)...);
         this->m_containsValue = true;
         return this->m_data;
     }
@@ -604,7 +613,8 @@ public: /* Methods: */
                 [](Optional & from, Optional & to)
                     noexcept(std::is_nothrow_move_constructible<T>::value)
                 {
-                    new (std::addressof(to.m_data)) T(std::move(from.m_data));
+                    ::new (Detail::Optional::storageOf(to.m_data)) T(
+                                std::move(from.m_data));
                     to.m_containsValue = true;
                     from.m_data.~T();
                     from.m_containsValue = false;
-- 
2.43.0


From 8d3773d71dfcc2bd99725d3ec09c21c6467694b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 71/97] fix: whether a reversed range is bounded or sized
 depended on the forward range

---
 src/ReversedRange.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ReversedRange.h b/src/ReversedRange.h
index 2d5afba..8aeb790 100644
--- a/src/ReversedRange.h
+++ b/src/ReversedRange.h
@@ -58,7 +58,7 @@ SHAREMIND_REVERSED_RANGE_H_TO(ReversedRange);
 SHAREMIND_DEFINE_CONCEPT(BoundedReversedRange) {
     template <typename T>
     auto check(T && t) -> SHAREMIND_REQUIRE_CONCEPTS(
-                    Range(T),
+                    ReversedRange(T),
                     Same(ReversedRangeIteratorT<T>, ReversedRangeSentinelT<T>)
                 );
 };
@@ -67,7 +67,7 @@ SHAREMIND_REVERSED_RANGE_H_TO(BoundedReversedRange);
 SHAREMIND_DEFINE_CONCEPT(SizedReversedRange) {
     template <typename T>
     auto check(T && t) -> SHAREMIND_REQUIRE_CONCEPTS(
-        Range(T),
+        ReversedRange(T),
         ConvertibleTo(
             decltype(
                 size(std::declval<
-- 
2.43.0


From cc4018a338d9263404acc6a259ef1bf563a6de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 72/97] fix: measuring an unsized range which is random access
 in both directions was ambiguous

---
 src/ReversedRange.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ReversedRange.h b/src/ReversedRange.h
index 8aeb790..ca27aae 100644
--- a/src/ReversedRange.h
+++ b/src/ReversedRange.h
@@ -117,6 +117,7 @@ template <typename T,
           SHAREMIND_REQUIRES_CONCEPTS(
                 Not(SizedRange(T)),
                 Not(SizedReversedRange(T)),
+                Not(All(BoundedRange(T), RandomAccessRange(T))),
                 BoundedReversedRange(T),
                 RandomAccessReversedRange(T))>
 auto measureRange(T && t)
-- 
2.43.0


From f9ad9b60fb755e36569d6b848b49a539ba1e13b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 73/97] fix: using the size of a reversed array did not compile

---
 src/ReversedRange.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ReversedRange.h b/src/ReversedRange.h
index ca27aae..68b3993 100644
--- a/src/ReversedRange.h
+++ b/src/ReversedRange.h
@@ -25,6 +25,7 @@
 #include "Iterator.h"
 #include "Range.h"
 #include "RemoveCvref.h"
+#include "Size.h"
 
 
 namespace sharemind {
@@ -140,7 +141,11 @@ struct RangeReversionWrapperImpl { SHAREMIND_REVERSEDRANGE_H_ };
 template <typename T>
 struct RangeReversionWrapperImpl<T, true> {
     SHAREMIND_REVERSEDRANGE_H_
-    auto size() const { return this->m_range.size(); }
+    auto size() const
+    {
+        return sharemind::size(
+                    static_cast<RemoveCvrefT<T> const &>(this->m_range));
+    }
 };
 #undef SHAREMIND_REVERSEDRANGE_H_
 
-- 
2.43.0


From 837ca5e5e25e3142783fe62db7aa331a537bc1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 74/97] fix: iterators of maps did not model ForwardIterator

---
 src/Iterator.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/Iterator.h b/src/Iterator.h
index 23b2647..1c41868 100644
--- a/src/Iterator.h
+++ b/src/Iterator.h
@@ -113,12 +113,10 @@ SHAREMIND_DEFINE_CONCEPT(ForwardIterator) {
                 DefaultConstructible(T),
                 ConvertibleTo(decltype(t++), T const &),
                 Same(decltype(*t++), IteratorReferenceT<T>),
-                Same(IteratorReferenceT<T>,
-                     typename std::conditional<
-                         Models<OutputIterator(T)>::value,
-                         IteratorValueTypeT<T> &,
-                         IteratorValueTypeT<T> const &
-                     >::type)
+                Any(Same(IteratorReferenceT<T>, IteratorValueTypeT<T> &),
+                    All(Not(OutputIterator(T)),
+                        Same(IteratorReferenceT<T>,
+                             IteratorValueTypeT<T> const &)))
             );
 };
 SHAREMIND_ITERATOR_H_TO(ForwardIterator)
-- 
2.43.0


From 34432effc2fe970f3dc67a648ea92db38ce5a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 75/97] fix: destroying a thread pool with many tasks left
 overflowed the stack

---
 src/ThreadPool.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index 12ebe6b..037d77b 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -95,7 +95,11 @@ public: /* Methods: */
     ThreadPool & operator=(ThreadPool &&) = delete;
     ThreadPool & operator=(ThreadPool const &) = delete;
 
-    virtual ~ThreadPool() noexcept {}
+    virtual ~ThreadPool() noexcept {
+        // Avoid unbounded recursion when destroying the remaining tasks:
+        while (m_head)
+            m_head = std::move(m_head->m_next);
+    }
 
     template <typename F>
     static Task createTask(F && f) {
-- 
2.43.0


From 4c482dc923dd16665eda306c29f195caaaace064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 76/97] fix: destroying a strand with many tasks left
 overflowed the stack

---
 src/Strand.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Strand.h b/src/Strand.h
index 6cb3b2c..733b1e3 100644
--- a/src/Strand.h
+++ b/src/Strand.h
@@ -64,6 +64,12 @@ private: /* Types: */
             : m_threadPool(std::move(threadPool))
         {}
 
+        ~Internal() noexcept {
+            // Avoid unbounded recursion when destroying the remaining tasks:
+            while (m_head)
+                m_head = std::move(m_head->m_next);
+        }
+
         void submit(ThreadPool::Task && task) noexcept {
             assert(task);
             assert(task->m_value);
-- 
2.43.0


From 82cb502ab9934b08c8ab506bd592df95c98264ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 77/97] fix: timed participation in a thread pool did not time
 out while another thread waited for tasks

---
 src/ThreadPool.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ThreadPool.h b/src/ThreadPool.h
index 037d77b..d668855 100644
--- a/src/ThreadPool.h
+++ b/src/ThreadPool.h
@@ -215,7 +215,7 @@ private: /* Methods: */
     {}
 
     Task waitAndPop() noexcept {
-        std::lock_guard<std::mutex> const headGuard(m_headMutex);
+        std::lock_guard<std::timed_mutex> const headGuard(m_headMutex);
         assert(m_head);
         {
             std::unique_lock<decltype(m_tailMutex)> tailLock(m_tailMutex);
@@ -242,7 +242,10 @@ private: /* Methods: */
     std::pair<Task, Status> waitAndPop(
             std::chrono::time_point<Clock, Duration> const & timepoint) noexcept
     {
-        std::lock_guard<std::mutex> const headGuard(m_headMutex);
+        std::unique_lock<std::timed_mutex> const headLock(m_headMutex,
+                                                          timepoint);
+        if (!headLock)
+            return {Task(), Timeout};
         assert(m_head);
         {
             std::unique_lock<decltype(m_tailMutex)> tailLock(m_tailMutex);
@@ -275,7 +278,7 @@ private: /* Methods: */
 
 private: /* Fields: */
 
-    std::mutex m_headMutex;
+    std::timed_mutex m_headMutex;
     mutable TicketSpinLock m_tailMutex;
     std::condition_variable_any m_dataCond;
     TaskWrapper * m_tail;
-- 
2.43.0


From fa41b5c82c1dd4c42f8a2d86e0bb6a15ce762b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 78/97] fix: data pushed to MpscWaitFreeSemiIntrusiveQueue was
 not ordered before it was popped

---
 src/MpscWaitFreeSemiIntrusiveQueue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MpscWaitFreeSemiIntrusiveQueue.h b/src/MpscWaitFreeSemiIntrusiveQueue.h
index 1429a6e..51e54d2 100644
--- a/src/MpscWaitFreeSemiIntrusiveQueue.h
+++ b/src/MpscWaitFreeSemiIntrusiveQueue.h
@@ -81,15 +81,15 @@ public: /* Methods: */
         Node * const newNode = node.release();
         assert(!newNode->next.load(std::memory_order_relaxed));
         Node * const oldTail =
-                m_tail.exchange(newNode, std::memory_order_relaxed);
+                m_tail.exchange(newNode, std::memory_order_acq_rel);
         assert(oldTail);
-        oldTail->next.store(newNode, std::memory_order_relaxed);
+        oldTail->next.store(newNode, std::memory_order_release);
     }
 
     std::unique_ptr<Node> pop() noexcept {
         Node * const head = m_head.load(std::memory_order_consume);
         assert(head);
-        Node * const next = head->next.load(std::memory_order_relaxed);
+        Node * const next = head->next.load(std::memory_order_acquire);
 
         if (!next)
             return nullptr;
-- 
2.43.0


From a1348b3fa5f7f126ccacc3b20439f9424fbad0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 79/97] fix: CstddefLiterals.h and CstdintLiterals.h could not
 be used together

---
 src/CstddefLiterals.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CstddefLiterals.h b/src/CstddefLiterals.h
index 363bff4..fa72120 100644
--- a/src/CstddefLiterals.h
+++ b/src/CstddefLiterals.h
@@ -17,8 +17,8 @@
  * For further information, please contact us at sharemind@cyber.ee.
  */
 
-#ifndef SHAREMIND_CSTDINTLITERALS_H
-#define SHAREMIND_CSTDINTLITERALS_H
+#ifndef SHAREMIND_CSTDDEFLITERALS_H
+#define SHAREMIND_CSTDDEFLITERALS_H
 
 #include <cstddef>
 #include "IntegerLiterals.h"
@@ -35,4 +35,4 @@ SHAREMIND_INTEGERLITERAL_UNSIGNED_OPS(std::size_t,
 
 } /* namespace sharemind { */
 
-#endif /* #ifndef SHAREMIND_CSTDINTLITERALS_H */
+#endif /* #ifndef SHAREMIND_CSTDDEFLITERALS_H */
-- 
2.43.0


From 820e1d4b1b1f7ec8171546ffdea62e0afbf3f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 80/97] fix: overflow of integer literals with many digits was
 not detected or did not compile

---
 src/IntegerLiterals.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/IntegerLiterals.h b/src/IntegerLiterals.h
index 2e9e44c..5ecd918 100644
--- a/src/IntegerLiterals.h
+++ b/src/IntegerLiterals.h
@@ -50,6 +50,7 @@ struct LastDigit: LiteralBase<Base> {
     constexpr static bool valid = true;
     constexpr static std::uintmax_t value = Value;
     constexpr static std::uintmax_t rank = 1u;
+    constexpr static bool rankOverflow = false;
     constexpr static std::uintmax_t digits = 1u;
 };
 
@@ -136,12 +137,14 @@ struct LiteralStep {
     using Tail = T<Max, C, Cs...>;
     static_assert(Head::base == Tail::base, "");
     constexpr static std::uintmax_t base = Head::base;
+    constexpr static bool rankOverflow =
+            Tail::rankOverflow || (Tail::rank > (Max / base));
     constexpr static bool overflow =
             Head::overflow
             || Tail::overflow
             || ((Head::value != 0)
                 && (
-                    (Tail::rank > (Max / base))
+                    rankOverflow
                     || (Head::value > (Max / (Tail::rank * base)))
                     || (Tail::value
                         > (Max - (Head::value * (Tail::rank * base))))
-- 
2.43.0


From 65c2ae88cac2214ddd041cb8356dc313c2931b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 81/97] fix: reading from an empty IncomingNetworkMessage or
 reading no data at all was undefined

---
 src/NetworkMessage.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index 64c534d..9b393fb 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -238,9 +238,11 @@ inline IncomingNetworkMessage::IncomingNetworkMessage(
 inline bool IncomingNetworkMessage::readBytes(void * buffer, std::size_t size)
         noexcept
 {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
+    if (size == 0u)
+        return true;
     if (this->size - m_offset < size)
         return false;
 
@@ -252,7 +254,7 @@ inline bool IncomingNetworkMessage::readBytes(void * buffer, std::size_t size)
 
 template <typename T>
 inline bool IncomingNetworkMessage::read(T & val) noexcept {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     if (this->size - m_offset < sizeof(T))
@@ -267,7 +269,7 @@ inline bool IncomingNetworkMessage::read(T & val) noexcept {
 }
 
 inline bool IncomingNetworkMessage::read(std::string & val) {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     auto const rollbackOffset(m_offset);
@@ -298,7 +300,7 @@ inline bool IncomingNetworkMessage::read(std::string & val) {
 }
 
 inline bool IncomingNetworkMessage::read(bool & val) noexcept {
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
     std::size_t const rollbackOffset = m_offset;
@@ -365,9 +367,12 @@ inline bool IncomingNetworkMessage::readArray(T * data, SizeType const size)
 {
     static_assert(std::is_unsigned<SizeType>::value, "");
 
-    assert(this->data);
+    assert(this->data || this->size == 0u);
     assert(m_offset <= this->size);
 
+    if (size == 0u)
+        return true;
+
     using S = decltype(sizeof(T) * size);
     static_assert(std::numeric_limits<S>::max()
                   >= std::numeric_limits<std::size_t>::max(), "");
-- 
2.43.0


From f4e57976289fcf3d65060191f9c265d2c8b7867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 82/97] fix: writing a message to itself read freed memory

---
 src/NetworkMessage.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index 9b393fb..469cd59 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -411,7 +411,16 @@ inline void OutgoingNetworkMessage::write(std::string const & val)
 
 inline void OutgoingNetworkMessage::write(NetworkMessage const & message)
         noexcept(false)
-{ writeBytes(message.data, message.size); }
+{
+    auto const bytes = message.size;
+    if (bytes == 0u)
+        return;
+    if (bytes > spaceLeft())
+        throw MessageLengthError{};
+
+    addBytes(bytes); // This also changes message.data when writing *this
+    pokeBytes(message.data, bytes);
+}
 
 template <typename T>
 inline void OutgoingNetworkMessage::write(T && val) noexcept(false)
-- 
2.43.0


From d775e24bbe3d8f8c5cf0e8e6dd6fc5480b2a3fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 83/97] fix: writing non-const strings, char pointers and
 messages wrote the bytes of the objects

---
 src/NetworkMessage.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index 469cd59..6d7e697 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -155,7 +155,16 @@ public: /* Methods: */
     inline void write(std::string const & val) noexcept(false);
     inline void write(NetworkMessage const & val) noexcept(false);
 
-    template<typename T>
+    template <typename T,
+              typename U = typename std::decay<T>::type,
+              typename std::enable_if<
+                      !std::is_same<U, std::string>::value
+                      && (std::is_array<
+                                typename std::remove_reference<T>::type>::value
+                          || !std::is_same<U, char *>::value)
+                      && !std::is_base_of<NetworkMessage, U>::value,
+                      int
+                  >::type = 0>
     inline void write(T && val) noexcept(false);
 
     template <typename SerializedSizeType = DefaultSizeType, typename SizeType>
@@ -422,7 +431,16 @@ inline void OutgoingNetworkMessage::write(NetworkMessage const & message)
     pokeBytes(message.data, bytes);
 }
 
-template <typename T>
+template <typename T,
+          typename U,
+          typename std::enable_if<
+                  !std::is_same<U, std::string>::value
+                  && (std::is_array<
+                            typename std::remove_reference<T>::type>::value
+                      || !std::is_same<U, char *>::value)
+                  && !std::is_base_of<NetworkMessage, U>::value,
+                  int
+              >::type>
 inline void OutgoingNetworkMessage::write(T && val) noexcept(false)
 { writeBytes(&val, sizeof(T)); }
 
-- 
2.43.0


From edefd64f910924c91dbe00d2116f7f1c7f5390be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 84/97] fix: reading a size which does not fit moved the read
 position

---
 src/NetworkMessage.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/NetworkMessage.h b/src/NetworkMessage.h
index 6d7e697..10dabd5 100644
--- a/src/NetworkMessage.h
+++ b/src/NetworkMessage.h
@@ -337,12 +337,16 @@ template <typename SerializedSizeType,
 inline bool IncomingNetworkMessage::readSize(SizeType & size)
         noexcept(false)
 {
+    auto const rollbackOffset(m_offset);
+
     SerializedSizeType rawSize;
     auto const r(read(rawSize));
     if (r) {
         rawSize = sharemindNetToHostOrder(rawSize);
-        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize))
+        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize)) {
+            m_offset = rollbackOffset;
             throw OverflowException();
+        }
         size = static_cast<SizeType>(rawSize);
     }
     return r;
@@ -359,12 +363,16 @@ inline bool IncomingNetworkMessage::readSize(
     static_assert(std::is_unsigned<SerializedSizeType>::value, "");
     static_assert(std::is_unsigned<SizeType>::value, "");
 
+    auto const rollbackOffset(m_offset);
+
     SerializedSizeType rawSize;
     auto const r(read(rawSize));
     if (r) {
         rawSize = sharemindNetToHostOrder(rawSize);
-        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize))
+        if (!SizeTypeInfo<SizeType>::fitsValue(rawSize)) {
+            m_offset = rollbackOffset;
             throw std::forward<OverflowException>(overflowException);
+        }
         size = static_cast<SizeType>(rawSize);
     }
     return r;
-- 
2.43.0


From e4d175b10cdfe1d1584efa75e578631b9f4cb26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 85/97] fix: Datum accessed elements past the end of its data

---
 src/Datum.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Datum.h b/src/Datum.h
index 4e5ce28..9823f78 100644
--- a/src/Datum.h
+++ b/src/Datum.h
@@ -113,20 +113,20 @@ public: /* Methods: */
         m_data.resize(size);
         std::copy(static_cast<char const *>(data),
                   static_cast<char const *>(data) + size,
-                  &m_data[0]);
+                  m_data.begin());
     }
 
     HashValue hash() const noexcept
-    { return hashRawData(&m_data[0u], m_data.size()); }
+    { return hashRawData(m_data.data(), m_data.size()); }
 
     void clear() noexcept { m_data.clear(); }
     bool empty() const noexcept { return m_data.empty(); }
     size_type size() const noexcept { return m_data.size(); }
-    void * data() noexcept { return &m_data[0u]; }
-    void * dataEnd() noexcept { return &*m_data.end(); }
-    void const * constData() const noexcept { return &m_data[0u]; }
+    void * data() noexcept { return m_data.data(); }
+    void * dataEnd() noexcept { return m_data.data() + m_data.size(); }
+    void const * constData() const noexcept { return m_data.data(); }
     void const * constDataEnd() const noexcept
-    { return &*m_data.end(); }
+    { return m_data.data() + m_data.size(); }
 
 private: /* Methods: */
 
-- 
2.43.0


From d8f2ad6f70a242ff8c090ed484784ba087a25d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:05 +0000
Subject: [PATCH 86/97] fix: reading a file to a Datum asserted when
 interrupted or on read errors

---
 src/Datum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Datum.h b/src/Datum.h
index 9823f78..36c15f5 100644
--- a/src/Datum.h
+++ b/src/Datum.h
@@ -180,7 +180,6 @@ private: /* Methods: */
                 for (;;) {
                     auto const toReadAtOnce(std::min(umax, leftToRead));
                     auto const read = ::read(inFd, buf, toReadAtOnce);
-                    assert(static_cast<U>(read) <= toReadAtOnce);
                     if (read == 0) {
                         throw FileSizeChangedException();
                     } else if (read < 0) {
@@ -188,6 +187,7 @@ private: /* Methods: */
                         if (errno != EINTR)
                             throw ErrnoException(errno);
                     } else {
+                        assert(static_cast<U>(read) <= toReadAtOnce);
                         leftToRead -= static_cast<U>(read);
                         if (leftToRead <= 0u)
                             break;
-- 
2.43.0


From 9da8895179075fa1144da60629305f1856698dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:05 +0000
Subject: [PATCH 87/97] fix: invalid integer literals silently evaluated to
 zero

---
 src/IntegerLiterals.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/IntegerLiterals.h b/src/IntegerLiterals.h
index 5ecd918..db414f7 100644
--- a/src/IntegerLiterals.h
+++ b/src/IntegerLiterals.h
@@ -238,12 +238,14 @@ struct Literal: Literal_<Max, Cs...>
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C(_,P)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Invalid _" #P " literal!"); \
         static_assert(!L::overflow, "Overflow in _" #P " literal!"); \
         return static_cast<T>(L::value); \
     } \
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C3(_,P,_overflow)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Invalid _" #P " literal!"); \
         return static_cast<T>(L::value); \
     }
 
@@ -251,11 +253,13 @@ struct Literal: Literal_<Max, Cs...>
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C(_,P)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Invalid _" #P " literal!"); \
         return static_cast<T>(L::value); \
     } \
     template <char ... Cs> \
     constexpr T operator "" SHAREMIND_C3(_,P,_no_overflow)() { \
         using L = C<Cs...>; \
+        static_assert(L::valid, "Invalid _" #P " literal!"); \
         static_assert(!L::overflow, \
                       "Overflow in _" #P "_no_overflow literal!"); \
         return static_cast<T>(L::value); \
-- 
2.43.0


From 8cc98ca37d97a8feb9c654608f887aabeabf1a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:51 +0000
Subject: [PATCH 88/97] fix: DebugVerboseHandlers.h: End the chain at a nested
 exception without a cause

---
 src/DebugVerboseHandlers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DebugVerboseHandlers.h b/src/DebugVerboseHandlers.h
index 6336e3e..2dd9363 100644
--- a/src/DebugVerboseHandlers.h
+++ b/src/DebugVerboseHandlers.h
@@ -50,7 +50,8 @@ inline void verbosePrintException(std::exception_ptr e,
             if (!ne)
                 return;
             e = ne->nested_ptr();
-            assert(e);
+            if (!e)
+                return;
         } catch (...) {
             oss << n << ": [" SHAREMIND_T "]" << std::endl
                 << "... unable to continue printing nested exceptions, if any "
-- 
2.43.0


From b9a41debdde9568c21dbe5567c3de8817ca68cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 89/97] Revert "fix: a BitVec moved from might have kept blocks
 without bits"

A moved from std::vector with std::allocator is always empty: nothing was broken.
---
 src/BitVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BitVector.h b/src/BitVector.h
index 16bbfd7..a4caed8 100644
--- a/src/BitVector.h
+++ b/src/BitVector.h
@@ -160,7 +160,7 @@ public: /* Methods: */
     BitVec& operator=(BitVec&& other) {
         m_blocks = std::move(other.m_blocks);
         m_num_bits = other.m_num_bits;
-        other.clear();
+        other.m_num_bits = 0;
         return *this;
     }
 
-- 
2.43.0


From a09eba414b48243550a47757beef9deae34adf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:54 +0000
Subject: [PATCH 90/97] fix: ErrnoException did not compile where strerror_r()
 is the one of POSIX

---
 src/Exception.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Exception.h b/src/Exception.h
index ff90fb2..86edb41 100644
--- a/src/Exception.h
+++ b/src/Exception.h
@@ -22,6 +22,7 @@
 
 #include <array>
 #include <cstddef>
+#include <cstdio>
 #include <cstring>
 #include <errno.h>
 #include <exception>
@@ -44,14 +45,17 @@ namespace sharemind {
     && ! _GNU_SOURCE
     #define SHAREMIND_STRERROR_(e, buf, bufsize) \
         do { \
-            const int r = strerror_r((e), (buf), (bufsize)); \
-            if (r != 0) { \
+            const int sharemindStrerrorResult = \
+                    strerror_r((e), (buf), (bufsize)); \
+            if (sharemindStrerrorResult != 0) { \
                 static const char errorMsg[] = "unknown: strerror_r error"; \
                 /* snprintf present, because this holds:
                  _BSD_SOURCE || _XOPEN_SOURCE >= 500 || _ISOC99_SOURCE
                  || _POSIX_C_SOURCE >= 200112L */ \
                 snprintf((buf), (bufsize), "%s %d", errorMsg, \
-                         (r > 0 ? r : errno)); \
+                         (sharemindStrerrorResult > 0 \
+                          ? sharemindStrerrorResult \
+                          : errno)); \
             } \
         } while(0)
 #else
-- 
2.43.0


From 1a75872d4f23d490bcc867baaacdf3043d285c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 91/97] fix: inserting a null pointer corrupted the LRU cache

---
 src/LRU.h | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/LRU.h b/src/LRU.h
index 0a45c7b..544d455 100644
--- a/src/LRU.h
+++ b/src/LRU.h
@@ -43,19 +43,20 @@ private: /* Types: */
         str_ptr getValue() noexcept
         { return m_strong_ptr ? m_strong_ptr : m_weak_ptr.lock(); }
 
-        bool isStrong() const noexcept
-        { return static_cast<bool>(m_strong_ptr); }
+        bool isStrong() const noexcept { return m_isStrong; }
 
         bool expired() const noexcept { return m_weak_ptr.expired(); }
 
         void demote() noexcept {
-            assert(m_strong_ptr);
+            assert(m_isStrong);
             m_strong_ptr.reset();
+            m_isStrong = false;
         }
 
         void promote(str_ptr ptr) noexcept {
-            assert(!m_strong_ptr);
+            assert(!m_isStrong);
             m_strong_ptr = std::move(ptr);
+            m_isStrong = true;
         }
 
         key_t const & key() const noexcept { return m_key; }
@@ -65,6 +66,7 @@ private: /* Types: */
         key_t const m_key;
         str_ptr m_strong_ptr;
         weak_ptr m_weak_ptr{m_strong_ptr};
+        bool m_isStrong = true; // Whether in m_cacheList, even if null
 
     };
 
@@ -107,23 +109,20 @@ public: /* Methods: */
         if (it == m_cacheMap.end())
             return nullptr;
 
-        if (str_ptr ptr = it->second->getValue()) {
-            // found an element
-            if (it->second->isStrong()) {
-                // Move found item to front of LRU list:
-                m_cacheList.splice(m_cacheList.cbegin(),
-                                   m_cacheList,
-                                   it->second);
-            } else {
-                // keep a strong pointer
-                it->second->promote(ptr);
-                // move found item from weakList to cacheList
-                m_cacheList.splice(m_cacheList.cbegin(),
-                                   m_weakList,
-                                   it->second);
-                // make sure to throw out element from cacheList
-                grow();
-            }
+        str_ptr ptr(it->second->getValue());
+        if (it->second->isStrong()) {
+            // Move found item to front of LRU list:
+            m_cacheList.splice(m_cacheList.cbegin(),
+                               m_cacheList,
+                               it->second);
+            return ptr;
+        } else if (ptr) {
+            // keep a strong pointer
+            it->second->promote(ptr);
+            // move found item from weakList to cacheList
+            m_cacheList.splice(m_cacheList.cbegin(), m_weakList, it->second);
+            // make sure to throw out element from cacheList
+            grow();
             return ptr;
         } else {
             // did not get an element, therefore it must be a expired weak_ptr
-- 
2.43.0


From f73596844b99501e44aac95cbcfef0112db6054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:35 +0000
Subject: [PATCH 92/97] fix: TimeoutsThread ran tasks with a very long timeout
 at once

---
 src/TimeoutsThread.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/TimeoutsThread.h b/src/TimeoutsThread.h
index e76e9be..059631b 100644
--- a/src/TimeoutsThread.h
+++ b/src/TimeoutsThread.h
@@ -208,7 +208,14 @@ public: /* Methods: */
 
     void addTimeoutTask(Clock::duration const & duration,
                         std::unique_ptr<Task> task) noexcept
-    { return addTask(Clock::now() + duration, std::move(task)); }
+    {
+        auto const now(Clock::now());
+        addTask((now.time_since_epoch() > Clock::duration::zero()
+                 && duration > Clock::time_point::max() - now)
+                ? Clock::time_point::max()
+                : now + duration,
+                std::move(task));
+    }
 
     template <typename TimePoint>
     void addTask(TimePoint && timePoint, std::unique_ptr<Task> task) noexcept {
-- 
2.43.0


From 1710c336671d382eae0f50747946973d5852b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 93/97] fix: EventLoop::createHandler() kept a reference to a
 callable given as an lvalue

---
 src/EventLoop.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventLoop.h b/src/EventLoop.h
index 40b4217..6a05d7e 100644
--- a/src/EventLoop.h
+++ b/src/EventLoop.h
@@ -226,7 +226,7 @@ public: /* Methods: */
                     noexcept final override
             { m_f(events); }
 
-            F m_f;
+            typename std::decay<F>::type m_f;
         };
         return std::unique_ptr<EventHandler>(
                     new TempHandler(std::forward<F>(f)));
-- 
2.43.0


From 8927cfcb7b3196bca048c5a3389ccdadf5953edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:19 +0000
Subject: [PATCH 94/97] fix: uint_t lost the upper bits of negative integers
 narrower than a block

---
 src/uint_t.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/uint_t.h b/src/uint_t.h
index e2f2c1b..adc4596 100644
--- a/src/uint_t.h
+++ b/src/uint_t.h
@@ -761,6 +761,12 @@ private: /* Methods: */
     >
     {
         static void impl (uint_t<N, B>& dest, const T& val) {
+            // Negative values are converted modulo 2^N:
+            std::fill(dest.begin(),
+                      dest.end(),
+                      std::is_signed<T>::value && val < T(0)
+                      ? static_cast<block_t>(~block_t(0))
+                      : block_t(0));
             dest.least_significant_block() = static_cast<block_t>(val);
         }
     };
-- 
2.43.0


From 56db977a93e16c7d57c0ead118168019f43e7fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:19 +0000
Subject: [PATCH 95/97] fix: uint128_t lost the upper bits of negative integers

---
 src/uint128_t.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/uint128_t.h b/src/uint128_t.h
index 19da989..b03fd50 100644
--- a/src/uint128_t.h
+++ b/src/uint128_t.h
@@ -61,7 +61,7 @@ public: /* Methods: */
 
     template <typename T>
     uint128_t (T rhs)
-        : m_upper (0)
+        : m_upper (sign_extension_ (rhs, is_signed_integer_<T> ()))
         , m_lower (static_cast<std::uint64_t>(rhs))
     { }
 
@@ -72,7 +72,7 @@ public: /* Methods: */
 
     template <typename T>
     uint128_t& operator = (T rhs) {
-        m_upper = 0;
+        m_upper = sign_extension_ (rhs, is_signed_integer_<T> ());
         m_lower = static_cast<std::uint64_t>(rhs);
         return *this;
     }
@@ -123,6 +123,21 @@ private: /* Methods: */
 
     static void divMod (uint128_t x, uint128_t y, uint128_t& quotient, uint128_t& reminder);
 
+    template <typename T>
+    using is_signed_integer_ =
+            std::integral_constant<bool,
+                                   std::is_integral<T>::value
+                                   && std::is_signed<T>::value>;
+
+    // Negative values are converted modulo 2^128:
+    template <typename T>
+    static std::uint64_t sign_extension_ (T const & x, std::true_type)
+    { return (x < 0) ? ~static_cast<std::uint64_t>(0) : 0; }
+
+    template <typename T>
+    static std::uint64_t sign_extension_ (T const &, std::false_type)
+    { return 0; }
+
 private: /* Fields: */
     std::uint64_t m_upper;
     std::uint64_t m_lower;
-- 
2.43.0


From 5c7898d81b0450f1f986c8e26f753db69744e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 96/97] fix: report the text of a failed test assertion as it
 is instead of using it as a format string

---
 src/TestAssert.h | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/TestAssert.h b/src/TestAssert.h
index e11e6f8..dea0b06 100644
--- a/src/TestAssert.h
+++ b/src/TestAssert.h
@@ -89,7 +89,8 @@
     do { \
         std::fprintf( \
                 stderr,  \
-                __FILE__ ":%d: %s: Sharemind test unreachable code reached!\n",\
+                "%s:%d: %s: Sharemind test unreachable code reached!\n", \
+                __FILE__, \
                 __LINE__, \
                 __PRETTY_FUNCTION__); \
         std::fflush(stderr); \
@@ -103,10 +104,12 @@
         } catch (...) { \
             std::fprintf(\
                     stderr, \
-                    __FILE__ ":%d: %s: Sharemind test expression does not " \
-                    "throw assertion failed for  `" #__VA_ARGS__ "'!\n", \
+                    "%s:%d: %s: Sharemind test expression does not throw " \
+                    "assertion failed for  `%s'!\n", \
+                    __FILE__, \
                     __LINE__, \
-                    __PRETTY_FUNCTION__); \
+                    __PRETTY_FUNCTION__, \
+                    #__VA_ARGS__); \
             std::fflush(stderr); \
             SHAREMIND_TEST_PRINT_CURRENT_EXCEPTION; \
             std::abort(); \
@@ -119,10 +122,12 @@
             { __VA_ARGS__ ; } \
             std::fprintf( \
                     stderr, \
-                    __FILE__ ":%d: %s: Sharemind test expression throws " \
-                    "assertion failed for `" #__VA_ARGS__ "'!\n", \
+                    "%s:%d: %s: Sharemind test expression throws " \
+                    "assertion failed for `%s'!\n", \
+                    __FILE__, \
                     __LINE__, \
-                    __PRETTY_FUNCTION__); \
+                    __PRETTY_FUNCTION__, \
+                    #__VA_ARGS__); \
             std::fflush(stderr); \
             std::abort(); \
         } catch (...) { } \
@@ -134,20 +139,23 @@
             if (!(__VA_ARGS__)) { \
                 std::fprintf( \
                         stderr, \
-                        __FILE__ ":%d: %s: Sharemind test assertion `" \
-                        #__VA_ARGS__ "' failed!\n", \
+                        "%s:%d: %s: Sharemind test assertion `%s' failed!\n", \
+                        __FILE__, \
                         __LINE__, \
-                        __PRETTY_FUNCTION__); \
+                        __PRETTY_FUNCTION__, \
+                        #__VA_ARGS__); \
                 std::fflush(stderr); \
                 std::abort(); \
             } \
         } catch(...) { \
             std::fprintf( \
                     stderr, \
-                    __FILE__ ":%d: %s: Sharemind test assertion `" \
-                    #__VA_ARGS__ "' failed due to unexpected exception!\n", \
+                    "%s:%d: %s: Sharemind test assertion `%s' failed due to " \
+                    "unexpected exception!\n", \
+                    __FILE__, \
                     __LINE__, \
-                    __PRETTY_FUNCTION__); \
+                    __PRETTY_FUNCTION__, \
+                    #__VA_ARGS__); \
             std::fflush(stderr); \
             SHAREMIND_TEST_PRINT_CURRENT_EXCEPTION; \
             std::abort(); \
-- 
2.43.0


From e834b1a053f2f127578ed7ecaea7f9a8e2a14399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:04 +0000
Subject: [PATCH 97/97] fix: do not terminate before having printed an
 exception which has nothing nested in it

---
 src/TestAssert.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/TestAssert.h b/src/TestAssert.h
index dea0b06..9cd7051 100644
--- a/src/TestAssert.h
+++ b/src/TestAssert.h
@@ -40,13 +40,14 @@
                         std::rethrow_exception(SHAREMIND_TESTASSERT_eptr2); \
                     } catch (std::exception const & SHAREMIND_TESTASSERT_e) { \
                         ++SHAREMIND_TESTASSERT_count; \
-                        try { \
-                            std::rethrow_if_nested(SHAREMIND_TESTASSERT_e); \
+                        auto const SHAREMIND_TESTASSERT_ne = \
+                                dynamic_cast<std::nested_exception const *>( \
+                                        &SHAREMIND_TESTASSERT_e); \
+                        if (!SHAREMIND_TESTASSERT_ne \
+                            || !SHAREMIND_TESTASSERT_ne->nested_ptr()) \
                             break; \
-                        } catch (...) { \
-                            SHAREMIND_TESTASSERT_eptr2 = \
-                                    std::current_exception(); \
-                        } \
+                        SHAREMIND_TESTASSERT_eptr2 = \
+                                SHAREMIND_TESTASSERT_ne->nested_ptr(); \
                     } catch (...) { \
                         ++SHAREMIND_TESTASSERT_count; \
                         break; \
@@ -66,12 +67,14 @@
                                  SHAREMIND_TESTASSERT_e.what()); \
                     std::fflush(stderr); \
                     ++num; \
-                    try { \
-                        std::rethrow_if_nested(SHAREMIND_TESTASSERT_e); \
+                    auto const SHAREMIND_TESTASSERT_ne = \
+                            dynamic_cast<std::nested_exception const *>( \
+                                    &SHAREMIND_TESTASSERT_e); \
+                    if (!SHAREMIND_TESTASSERT_ne \
+                        || !SHAREMIND_TESTASSERT_ne->nested_ptr()) \
                         break; \
-                    } catch (...) { \
-                        SHAREMIND_TESTASSERT_eptr = std::current_exception(); \
-                    } \
+                    SHAREMIND_TESTASSERT_eptr = \
+                            SHAREMIND_TESTASSERT_ne->nested_ptr(); \
                 } catch (...) { \
                     std::fprintf( \
                             stderr, \
-- 
2.43.0

