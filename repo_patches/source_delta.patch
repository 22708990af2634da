From 535406d1397cc834c30e1a47b9938876fdfd1412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 01/39] fix: leave a hash table empty when init() cannot
 allocate

---
 amtl/am-hashtable.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 51a384b..932fa8e 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -414,15 +414,17 @@ class HashTable : private AllocPolicy
             return false;
         }
 
-        minCapacity_ = uint32_t(capacity);
-
         assert(IsPowerOfTwo(capacity));
-        capacity_ = uint32_t(capacity);
 
-        table_ = createTable(capacity_);
-        if (!table_)
+        // Only commit the new state once the table exists, so a failed init()
+        // leaves an empty table that can be destroyed or initialized again.
+        Entry* table = createTable(uint32_t(capacity));
+        if (!table)
             return false;
 
+        table_ = table;
+        capacity_ = uint32_t(capacity);
+        minCapacity_ = uint32_t(capacity);
         return true;
     }
 
-- 
2.43.0


From c7430630279d4e0adf664df18fe4e5bbf9153c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 02/39] fix: report growing a hash table past its maximum
 capacity as an overflow

---
 amtl/am-hashtable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 932fa8e..c9b8b00 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -245,7 +245,7 @@ class HashTable : private AllocPolicy
     }
 
     bool grow() {
-        if (capacity_ >= kMaxCapacity) {
+        if (capacity_ > kMaxCapacity / 2) {
             this->reportAllocationOverflow();
             return false;
         }
-- 
2.43.0


From 24fdfd1d460d261d097a0c653a2beae27c43cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 03/39] fix: expose the allocation policy that hash maps and
 sets really use

---
 amtl/am-hashmap.h | 6 +++---
 amtl/am-hashset.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/amtl/am-hashmap.h b/amtl/am-hashmap.h
index 2f705bb..2aa5253 100644
--- a/amtl/am-hashmap.h
+++ b/amtl/am-hashmap.h
@@ -48,7 +48,7 @@ namespace ke {
 //
 // Note that like HashTable, a HashMap is not usable until init() has been called.
 template <typename K, typename V, typename HashPolicy, typename AllocPolicy = SystemAllocatorPolicy>
-class HashMap : private AllocPolicy
+class HashMap
 {
   private:
     struct Entry {
@@ -163,10 +163,10 @@ class HashMap : private AllocPolicy
     }
 
     AllocPolicy& allocPolicy() {
-        return *this;
+        return table_.allocPolicy();
     }
     const AllocPolicy& allocPolicy() const {
-        return *this;
+        return table_.allocPolicy();
     }
 
   private:
diff --git a/amtl/am-hashset.h b/amtl/am-hashset.h
index cbc90fc..26689e5 100644
--- a/amtl/am-hashset.h
+++ b/amtl/am-hashset.h
@@ -45,7 +45,7 @@ namespace ke {
 //
 // Like HashMap and HashTable, init() must be called to construct the set.
 template <typename K, typename HashPolicy, typename AllocPolicy = SystemAllocatorPolicy>
-class HashSet : private AllocPolicy
+class HashSet
 {
     struct Policy {
         typedef K Payload;
@@ -146,10 +146,10 @@ class HashSet : private AllocPolicy
     }
 
     AllocPolicy& allocPolicy() {
-        return *this;
+        return table_.allocPolicy();
     }
     const AllocPolicy& allocPolicy() const {
-        return *this;
+        return table_.allocPolicy();
     }
 
   private:
-- 
2.43.0


From 2b770ecf14e851e755202e222534b6aca3324458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 04/39] fix: clear the links of a node removed from an inline
 list in release builds too

---
 amtl/am-inlinelist.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/amtl/am-inlinelist.h b/amtl/am-inlinelist.h
index 5226cd5..79c2280 100644
--- a/amtl/am-inlinelist.h
+++ b/amtl/am-inlinelist.h
@@ -212,10 +212,8 @@ class InlineList
         t->next_->prev_ = t->prev_;
         length_--;
 
-#if !defined(NDEBUG)
         t->next_ = nullptr;
         t->prev_ = nullptr;
-#endif
     }
 
     void append(Node* t) {
-- 
2.43.0


From 96cc3ea499f91ddcac3d7da8995a056c0c32b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 05/39] fix: keep fixed array contents on self-assignment and
 free them on move assignment

---
 amtl/am-fixedarray.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index 85df0b5..b25bcb3 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -124,6 +124,8 @@ class FixedArray : private AllocPolicy
     T* buffer() const { return data_; }
 
     FixedArray& operator =(const FixedArray& other) {
+        if (this == &other)
+            return *this;
         destruct();
         if (size_ != other.size()) {
             deallocate();
@@ -135,6 +137,10 @@ class FixedArray : private AllocPolicy
         return *this;
     }
     FixedArray& operator =(FixedArray&& other) {
+        if (this == &other)
+            return *this;
+        destruct();
+        deallocate();
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
-- 
2.43.0


From eb9ce44136994581e3af2a626f3eed1690478b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 06/39] fix: make a fixed array whose allocation failed or
 overflowed safe to assign and destroy

---
 amtl/am-fixedarray.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index b25bcb3..e17659c 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -30,6 +30,7 @@
 #define _include_amtl_fixedarray_h_
 
 #include <assert.h>
+#include <stdint.h>
 
 #include <vector>
 
@@ -127,7 +128,7 @@ class FixedArray : private AllocPolicy
         if (this == &other)
             return *this;
         destruct();
-        if (size_ != other.size()) {
+        if (size_ != other.size() || !data_) {
             deallocate();
             if (!allocate(other.size()))
                 return *this;
@@ -164,10 +165,18 @@ class FixedArray : private AllocPolicy
   private:
     bool allocate(size_t size) {
         size_ = size;
+        data_ = nullptr;
+        if (size > SIZE_MAX / sizeof(T)) {
+            this->reportAllocationOverflow();
+            return false;
+        }
         data_ = (T*)this->am_malloc(sizeof(T) * size_);
         return !!data_;
     }
     void destruct() {
+        // There are no elements if allocation failed.
+        if (!data_)
+            return;
         for (size_t i = 0; i < size_; i++)
             data_[i].~T();
     }
-- 
2.43.0


From ef1adfaeecb407d70e536ffb5fd32bec6a9703f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 07/39] fix: use the allocation policy given to a fixed array
 and carry it with the elements

---
 amtl/am-fixedarray.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index e17659c..5d6ddc9 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -44,20 +44,26 @@ class FixedArray : private AllocPolicy
   public:
     FixedArray() : size_(0), data_(nullptr)
     {}
-    FixedArray(size_t size, AllocPolicy = AllocPolicy()) {
+    FixedArray(size_t size, AllocPolicy ap = AllocPolicy())
+     : AllocPolicy(ap)
+    {
         if (!allocate(size))
             return;
         for (size_t i = 0; i < size_; i++)
             new (&data_[i]) T();
     }
-    FixedArray(const FixedArray& other) {
+    FixedArray(const FixedArray& other)
+     : AllocPolicy(static_cast<const AllocPolicy&>(other))
+    {
         if (!allocate(other.size()))
             return;
         for (size_t i = 0; i < size_; i++)
             new (&data_[i]) T(other[i]);
     }
 
-    FixedArray(FixedArray&& other) {
+    FixedArray(FixedArray&& other)
+     : AllocPolicy(static_cast<AllocPolicy&&>(other))
+    {
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
@@ -142,6 +148,8 @@ class FixedArray : private AllocPolicy
             return *this;
         destruct();
         deallocate();
+        // The elements must be freed by the policy that allocated them.
+        AllocPolicy::operator =(static_cast<AllocPolicy&&>(other));
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
-- 
2.43.0


From 5edd3d7d0e9d1e856326e90955ae09375de2898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 08/39] fix: make Maybe's arrow operator return a pointer so
 that it can be used

---
 amtl/am-maybe.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 159b27d..7dea5b8 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -79,7 +79,7 @@ class Maybe
         return initialized_;
     }
 
-    T& operator ->() {
+    T* operator ->() {
         assert(isValid());
         return t_.address();
     }
@@ -87,7 +87,7 @@ class Maybe
         assert(isValid());
         return *t_.address();
     }
-    const T& operator ->() const {
+    const T* operator ->() const {
         assert(isValid());
         return t_.address();
     }
-- 
2.43.0


From 36446c2ef6b4a4fca8324a5fadf6280a1137ee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 09/39] fix: destroy every value a Maybe held, and keep it on
 self-assignment

---
 amtl/am-maybe.h | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 7dea5b8..7ac14cf 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -62,14 +62,12 @@ class Maybe
     {}
 
     ~Maybe() {
-        if (isValid())
-            t_.address()->~T();
+        reset();
     }
 
     template <typename... ArgTypes>
     void init(ArgTypes&&... argv) {
-        if (isValid())
-            t_.address()->~T();
+        reset();
 
         new (t_.address()) T(std::forward<ArgTypes>(argv)...);
         initialized_ = true;
@@ -109,13 +107,17 @@ class Maybe
     }
 
     Maybe& operator =(const Maybe& other) {
-        initialized_ = false;
-        copyFrom(other);
+        if (this != &other) {
+            reset();
+            copyFrom(other);
+        }
         return *this;
     }
     Maybe& operator =(Maybe&& other) {
-        initialized_ = false;
-        moveFrom(std::move(other));
+        if (this != &other) {
+            reset();
+            moveFrom(std::move(other));
+        }
         return *this;
     }
 
@@ -128,7 +130,13 @@ class Maybe
     void moveFrom(Maybe&& other) {
         if (other.initialized_) {
             init(std::move(*other.t_.address()));
-            other.initialized_ = false;
+            other.reset();
+        }
+    }
+    void reset() {
+        if (isValid()) {
+            initialized_ = false;
+            t_.address()->~T();
         }
     }
 
-- 
2.43.0


From bafeed431a1bf4ad2ae4304ce65b15bcf054bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 10/39] fix: align a storage buffer for the type it stores

---
 amtl/am-storagebuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-storagebuffer.h b/amtl/am-storagebuffer.h
index f328922..b233219 100644
--- a/amtl/am-storagebuffer.h
+++ b/amtl/am-storagebuffer.h
@@ -49,7 +49,7 @@ class StorageBuffer
 
   private:
     union {
-        char buffer_[sizeof(T)];
+        alignas(T) char buffer_[sizeof(T)];
         uint64_t aligned_;
     };
 };
-- 
2.43.0


From cb85a291448578903bde719a128b2df58608ecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 11/39] fix: take the new reference before releasing the old
 one when assigning a RefPtr

---
 amtl/am-refcounting.h | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/amtl/am-refcounting.h b/amtl/am-refcounting.h
index b44a3d2..31d61af 100644
--- a/amtl/am-refcounting.h
+++ b/amtl/am-refcounting.h
@@ -34,6 +34,8 @@
 #include <stddef.h>
 #include <stdint.h>
 
+#include <utility>
+
 #include <amtl/am-raii.h>
 
 namespace ke {
@@ -264,30 +266,23 @@ class RefPtr
 
     template <typename S>
     RefPtr& operator =(S* thing) {
-        Release();
-        thing_ = thing;
-        AddRef();
+        reset(RefPtr(thing));
         return *this;
     }
 
     template <typename S>
     RefPtr& operator =(const AlreadyRefed<S>& other) {
-        Release();
-        thing_ = other.take();
+        reset(RefPtr(other));
         return *this;
     }
 
     RefPtr& operator =(const RefPtr& other) {
-        Release();
-        thing_ = other.thing_;
-        AddRef();
+        reset(RefPtr(other));
         return *this;
     }
 
     RefPtr& operator =(RefPtr&& other) {
-        Release();
-        thing_ = other.thing_;
-        other.thing_ = nullptr;
+        reset(RefPtr(std::move(other)));
         return *this;
     }
 
@@ -313,6 +308,13 @@ class RefPtr
         if (thing_)
             thing_->Release();
     }
+    // The new reference is taken before the old one is released, as that may
+    // destroy whatever the new one came from, or even this pointer.
+    void reset(RefPtr&& other) {
+        T* old = thing_;
+        thing_ = other.thing_;
+        other.thing_ = old;
+    }
 
   protected:
     T* thing_;
-- 
2.43.0


From 16be849834318c8762f76866e0623706ae160e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 12/39] fix: build a Function's new target before destroying
 the old one, and forward it

---
 amtl/am-function.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 6b26677..d03d23b 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -126,20 +126,27 @@ class Function<ReturnType(ArgTypes...)>
         return *this;
     }
     Function& operator =(const Function& other) {
-        destroy();
-        assign(other);
+        if (this != &other) {
+            Function temp(other);
+            replace(std::move(temp));
+        }
         return *this;
     }
+    Function& operator =(Function& other) {
+        return *this = static_cast<const Function&>(other);
+    }
     Function& operator =(Function&& other) {
-        destroy();
-        move(std::move(other));
+        if (this != &other) {
+            Function temp(std::move(other));
+            replace(std::move(temp));
+        }
         return *this;
     }
 
     template <typename T>
     Function& operator =(T&& other) {
-        destroy();
-        assign(other);
+        Function temp(std::forward<T>(other));
+        replace(std::move(temp));
         return *this;
     }
 
@@ -171,6 +178,13 @@ class Function<ReturnType(ArgTypes...)>
         impl_ = nullptr;
     }
 
+    // The new target is built first, as it may be reachable only through the
+    // old one.
+    void replace(Function&& other) {
+        zap();
+        move(std::move(other));
+    }
+
     void* inline_buffer() {
         return &buffer_;
     }
-- 
2.43.0


From c5f11d94585f248bf00fe23e7df7791d6c7043b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 13/39] fix: copying an empty Function from a non-const source
 gives an empty one

---
 amtl/am-function.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index d03d23b..69d32c2 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -113,7 +113,10 @@ class Function<ReturnType(ArgTypes...)>
 
     template <typename T>
     Function(T&& obj) {
-        assign(std::forward<T>(obj));
+        if (isEmpty(obj))
+            impl_ = nullptr;
+        else
+            assign(std::forward<T>(obj));
     }
 
     ~Function() {
@@ -185,6 +188,16 @@ class Function<ReturnType(ArgTypes...)>
         move(std::move(other));
     }
 
+    // A Function that is not a plain const reference reaches the constructor for
+    // callables, which must not wrap one that has no target.
+    template <typename T>
+    static bool isEmpty(const T&) {
+        return false;
+    }
+    static bool isEmpty(const Function& other) {
+        return !other;
+    }
+
     void* inline_buffer() {
         return &buffer_;
     }
-- 
2.43.0


From 2b3c67a492ed0392969e31ccc550e7ddef8943a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 14/39] fix: stop SafeStrcpyN at the source's terminator and
 terminate for a zero count

---
 amtl/am-string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index d5d2178..18e1cee 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -230,12 +230,12 @@ SafeStrcat(char* dest, size_t maxlength, const char* src)
 static inline size_t
 SafeStrcpyN(char* dest, size_t maxlength, const char* src, size_t n)
 {
-    if (!dest || !maxlength || !n)
+    if (!dest || !maxlength)
         return 0;
 
     char* iter = dest;
     size_t count = maxlength;
-    while (--count && n--)
+    while (--count && n-- && *src)
         *iter++ = *src++;
     *iter = '\0';
 
-- 
2.43.0


From 31edd4455abbd63f42de305d8f13bbb9376b8d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 15/39] fix: return an empty string from SafeVsprintf when
 formatting fails

---
 amtl/am-string.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index 18e1cee..75faa29 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -157,6 +157,14 @@ SafeVsprintf(char* buffer, size_t maxlength, const char* fmt, va_list ap)
 
     size_t len = KE_VSNPRINTF(buffer, maxlength, fmt, ap);
 
+#if !defined(_MSC_VER)
+    // The arguments could not be formatted. (For _vsnprintf this is truncation.)
+    if (int(len) < 0) {
+        buffer[0] = '\0';
+        return 0;
+    }
+#endif
+
     if (len >= maxlength) {
         buffer[maxlength - 1] = '\0';
         return maxlength - 1;
-- 
2.43.0


From e112163249f77c6fde929552be2294a00f68d30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 16/39] fix: compute Log2 over the whole width of size_t

---
 amtl/am-bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index f90cdeb..a742688 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -97,7 +97,7 @@ Log2(size_t number)
     assert(number != 0);
 
 #    ifdef __GNUC__
-    return 31 - __builtin_clz(number);
+    return sizeof(long) * 8 - 1 - __builtin_clzl(number);
 #    else
     size_t bit;
     asm("bsr %1, %0\n" : "=r"(bit) : "rm"(number));
-- 
2.43.0


From b10cd7941d2f17fb7a312a46fe6dcb2a00823027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 17/39] fix: detect overflow in IsUintAddSafe

---
 amtl/am-bits.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index a742688..ff6bb3d 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -182,11 +182,7 @@ template <typename T>
 static inline bool
 IsUintAddSafe(const T& a, const T& b)
 {
-    if (!a || !b)
-        return true;
-    size_t log2_a = Log2(a);
-    size_t log2_b = Log2(b);
-    return (log2_a < sizeof(T) * 8) && (log2_b < sizeof(T) * 8);
+    return a <= T(~T(0)) - b;
 }
 
 static inline bool
-- 
2.43.0


From 4bb404ba7a98e851f936c8050b9c6c2de24efd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 18/39] fix: make IsUintMultiplySafe exact

---
 amtl/am-bits.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index ff6bb3d..a28d930 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -209,10 +209,7 @@ IsUintMultiplySafe(const T& a, const T& b)
 {
     if (a <= 1 || b <= 1)
         return true;
-
-    size_t log2_a = Log2(a);
-    size_t log2_b = Log2(b);
-    return log2_a + log2_b < sizeof(T) * 8;
+    return a <= T(~T(0)) / b;
 }
 
 static inline bool
-- 
2.43.0


From 6ade909c7ff2723ad9849aba6374466bfcdfe3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 19/39] fix: use pointer-sized masks for pointer bits

---
 amtl/am-bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index a28d930..e901737 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -252,12 +252,12 @@ static inline T* SetPointerBits(T* ptr, uintptr_t bits) {
 
 template <uintptr_t NumBits>
 static inline uintptr_t GetPointerBits(void* ptr) {
-  return (reinterpret_cast<uintptr_t>(ptr) & ((1 << NumBits) - 1));
+  return (reinterpret_cast<uintptr_t>(ptr) & ((uintptr_t(1) << NumBits) - 1));
 }
 
 template <uintptr_t NumBits, typename T>
 static inline T* ClearPointerBits(T* ptr) {
-  return reinterpret_cast<T*>(reinterpret_cast<uintptr_t>(ptr) & ~uintptr_t((1 << NumBits) - 1));
+  return reinterpret_cast<T*>(reinterpret_cast<uintptr_t>(ptr) & ~((uintptr_t(1) << NumBits) - 1));
 }
 
 } // namespace ke
-- 
2.43.0


From 5028cbd14b4338a5ecafd5c56204fb6d9a771e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 20/39] fix: detect products that wrap to zero in
 TryUint64Multiply

---
 amtl/am-arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-arithmetic.h b/amtl/am-arithmetic.h
index 45ced6e..289a326 100644
--- a/amtl/am-arithmetic.h
+++ b/amtl/am-arithmetic.h
@@ -37,7 +37,7 @@ static inline bool
 TryUint64Multiply(uint64_t left, uint64_t right, uint64_t* out)
 {
     uint64_t r = left * right;
-    if (r != 0 && ((r / left) != right))
+    if (left != 0 && ((r / left) != right))
         return false;
 
     *out = r;
-- 
2.43.0


From 9a9753609c47d24dbc85bc111743686ba12c3797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 21/39] fix: make IsInfinite hold for infinities only, in
 single and double precision

---
 amtl/am-float.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amtl/am-float.h b/amtl/am-float.h
index 1adc865..ce25c4b 100644
--- a/amtl/am-float.h
+++ b/amtl/am-float.h
@@ -38,7 +38,7 @@
 namespace ke {
 
 static const uint32_t kFloat32ExponentMask = 0x7F800000;
-static const uint64_t kFloat64ExponentMask = 0x7FFF000000000000ULL;
+static const uint64_t kFloat64ExponentMask = 0x7FF0000000000000ULL;
 
 struct float32_bits {
     static const uint32_t kExponentMask = kFloat32ExponentMask;
@@ -64,10 +64,10 @@ struct float64_bits {
 
     union layout {
         uint64_t bits;
-        float value;
+        double value;
     };
 
-    static layout to_layout(float value) {
+    static layout to_layout(double value) {
         layout impl;
         impl.value = value;
         return impl;
@@ -99,7 +99,7 @@ IsInfinite(T value)
     typedef float_bits<T> Properties;
     typedef typename Properties::Bits Bits;
     Bits bits = Properties::to_layout(value).bits;
-    return (bits & Properties::kExponentMask) == Properties::kExponentMask;
+    return (bits & (~Bits(0) >> 1)) == Properties::kExponentMask;
 };
 
 // Performs the operation (x % y) where x and y are floating-point values.
-- 
2.43.0


From 98ff0006bb8267e0c8fb42caa6143741953954f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 22/39] fix: reject --no- in front of an unknown option instead
 of dereferencing null

---
 amtl/experimental/am-argparser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 43a3e32..271cbf8 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -671,7 +671,7 @@ Parser::parse_impl(const std::vector<const char*>& args)
 
             if (!option && strncmp(arg, "--no-", 5) == 0) {
                 option = find_long(&arg[5], len - 5);
-                if (option->canPrefixWithNo())
+                if (option && option->canPrefixWithNo())
                     value_ptr = "false";
                 else
                     option = nullptr;
-- 
2.43.0


From b0b21250044475b761c6aee792f755cdf58674ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 23/39] fix: pass through every argument after the first --,
 another -- included

---
 amtl/experimental/am-argparser.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 271cbf8..af35722 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -628,14 +628,14 @@ Parser::parse_impl(const std::vector<const char*>& args)
         const char* arg = args[i];
         IOption* option = nullptr;
 
-        if (allow_passthrough_args_ && !strcmp(arg, "--")) {
-            has_passthrough_args_ = true;
-            continue;
-        }
         if (has_passthrough_args_) {
             passthrough_args_.emplace_back(arg);
             continue;
         }
+        if (allow_passthrough_args_ && !strcmp(arg, "--")) {
+            has_passthrough_args_ = true;
+            continue;
+        }
 
         const char* value_ptr = nullptr;
         if (arg[0] == '-' || (allow_slashes_ && arg[0] == '/')) {
-- 
2.43.0


From 9cf4ef4e308cb2e8e7b65fb4d655a0f45df809ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 24/39] fix: let Parser::reset() forget extra and passthrough
 arguments and the last error

---
 amtl/experimental/am-argparser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index af35722..2a60849 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -1039,6 +1039,10 @@ Parser::reset()
         option->reset();
     if (help_option_)
         help_option_->reset();
+    error_.clear();
+    extra_args_.clear();
+    passthrough_args_.clear();
+    has_passthrough_args_ = false;
 }
 
 } // namespace args
-- 
2.43.0


From cc093232557831a31a3c8c27ad72cd2130fbbb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 25/39] fix: set an option that omits its value before another
 argument, and reject invalid values given to it

---
 amtl/experimental/am-argparser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 2a60849..1d976d8 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -716,10 +716,10 @@ Parser::parse_impl(const std::vector<const char*>& args)
         }
 
         if (!option->consumeValue(value_ptr)) {
-            if (!option->canOmitValue())
+            // The next argument may not be a value for this option at all.
+            if (!took_next_arg || !option->canOmitValue() || !option->consumeValue(nullptr))
                 return option_invalid_value(option, value_ptr);
-            if (took_next_arg)
-                i--;
+            i--;
         }
 
         if (option->haltOnValue()) {
-- 
2.43.0


From b313a962c2a3393f1c141ca0c11f6889d2fbe841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 26/39] fix: reject integer option values that do not fit an
 int

---
 amtl/experimental/am-argparser.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 1d976d8..8afd5dd 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -30,7 +30,10 @@
 #define _include_amtl_am_argparser_h_
 
 #include <assert.h>
+#include <errno.h>
+#include <limits.h>
 #include <stdio.h>
+#include <stdlib.h>
 
 #include <algorithm>
 #include <memory>
@@ -538,9 +541,13 @@ template <>
 struct ValuePolicy<int> : public BaseValuePolicy {
     static bool consumeValue(const char* arg, int* out) {
         char* endptr = nullptr;
-        *out = strtol(arg, &endptr, 10);
+        errno = 0;
+        long value = strtol(arg, &endptr, 10);
         if (endptr == arg || *endptr != '\0')
             return false;
+        if (errno == ERANGE || value < INT_MIN || value > INT_MAX)
+            return false;
+        *out = int(value);
         return true;
     }
 };
-- 
2.43.0


From b695f66e6012e92721de1cc9e73fcf5cb65c32e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 27/39] fix: end an inline option's name at the first
 separator, so that -s:N may contain =

---
 amtl/experimental/am-argparser.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 8afd5dd..f21ceaf 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -658,8 +658,11 @@ Parser::parse_impl(const std::vector<const char*>& args)
             //   -key:val
             size_t len = strlen(arg);
             const char* sep = strchr(arg, '=');
-            if (!sep && inline_values_)
-                sep = strchr(arg, ':');
+            if (inline_values_) {
+                const char* colon = strchr(arg, ':');
+                if (colon && (!sep || colon < sep))
+                    sep = colon;
+            }
             if (inline_values_ && sep && strlen(sep + 1) == 0)
                 sep = nullptr;    // Don't allow -key= or -key: with no arg.
             if (sep)
-- 
2.43.0


From 64765357bbe9fd36ad459522f3982975565f73b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:32 +0000
Subject: [PATCH 28/39] fix: destroy a virtual thread-safe refcounted object
 with its last reference

---
 amtl/am-refcounting-threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-refcounting-threadsafe.h b/amtl/am-refcounting-threadsafe.h
index adb2e5d..7641dbb 100644
--- a/amtl/am-refcounting-threadsafe.h
+++ b/amtl/am-refcounting-threadsafe.h
@@ -95,7 +95,7 @@ class VirtualRefcountedThreadsafe : public IRefcounted
         refcount_ += 1;
     }
     void Release() override {
-        if (refcount_.fetch_sub(1) == 0) {
+        if (refcount_.fetch_sub(1) == 1) {
             assert(refcount_.load() == 0);
 #if !defined(NDEBUG)
             destroying_ = true;
-- 
2.43.0


From e6033810d1fb1468fd120cd96621cef2dcfb0dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 29/39] fix: acquire when locking an atomic reference

---
 amtl/am-refcounting-threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-refcounting-threadsafe.h b/amtl/am-refcounting-threadsafe.h
index 7641dbb..475c8fb 100644
--- a/amtl/am-refcounting-threadsafe.h
+++ b/amtl/am-refcounting-threadsafe.h
@@ -181,7 +181,7 @@ class AtomicRef
         // indefinitely waiting for it to become unlocked. So we must have a
         // strong guarantee on failure.
         void* oldval = untagged(thing_);
-        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_release,
+        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_acquire,
                                                std::memory_order_relaxed))
         {
             std::this_thread::yield();
-- 
2.43.0


From 4cbd1e4ce6eb386f099b2753d38ce113bf991a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 30/39] fix: publish a thread-local slot only once it is
 allocated, and not at all if that failed

---
 amtl/am-threadlocal.h | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/amtl/am-threadlocal.h b/amtl/am-threadlocal.h
index 9634d55..3a9e0d7 100644
--- a/amtl/am-threadlocal.h
+++ b/amtl/am-threadlocal.h
@@ -36,6 +36,9 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+#include <atomic>
+#include <thread>
+
 #ifdef _WIN32
 # include <windows.h>
 #else
@@ -92,7 +95,25 @@ class ThreadLocal
 
 #if !defined(KE_SINGLE_THREADED)
   private:
-    volatile int allocated_;
+    // 1 if |key_| is allocated, -1 while a thread is allocating it.
+    std::atomic<int> allocated_;
+
+    // Returns false if the slot is allocated, waiting for the outcome if another
+    // thread is at it. Otherwise the caller must allocate it.
+    bool beginAllocate() {
+        for (;;) {
+            int expected = 0;
+            if (allocated_.compare_exchange_strong(expected, -1))
+                return true;
+            if (expected == 1)
+                return false;
+            std::this_thread::yield();
+        }
+    }
+    bool endAllocate(bool ok) {
+        allocated_ = ok ? 1 : 0;
+        return ok;
+    }
 
   public:
     ThreadLocal() {
@@ -100,12 +121,12 @@ class ThreadLocal
     }
 
     T get() const {
-        if (!allocated_)
+        if (allocated_ != 1)
             return T();
         return internalGet();
     }
     void set(const T& t) {
-        if (!allocated_ && !allocate()) {
+        if (allocated_ != 1 && !allocate()) {
             fprintf(stderr, "could not allocate thread-local storage\n");
             abort();
         }
@@ -126,10 +147,10 @@ class ThreadLocal
         TlsSetValue(key_, cast_to_pointer<T>::cast(t));
     }
     bool allocate() {
-        if (InterlockedCompareExchange((volatile LONG*)&allocated_, 1, 0) == 1)
+        if (!beginAllocate())
             return true;
         key_ = TlsAlloc();
-        return key_ != TLS_OUT_OF_INDEXES;
+        return endAllocate(key_ != TLS_OUT_OF_INDEXES);
     }
 
     DWORD key_;
@@ -142,9 +163,9 @@ class ThreadLocal
     }
 
     bool allocate() {
-        if (!__sync_bool_compare_and_swap(&allocated_, 0, 1))
+        if (!beginAllocate())
             return true;
-        return pthread_key_create(&key_, nullptr) == 0;
+        return endAllocate(pthread_key_create(&key_, nullptr) == 0);
     }
 
   private:
-- 
2.43.0


From 7039b04f76ee30b575f8caaac3b580858a7e4d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 31/39] fix: record the owner of a mutex taken with try_lock

---
 amtl/am-mutex.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amtl/am-mutex.h b/amtl/am-mutex.h
index 38d5940..9b8250b 100644
--- a/amtl/am-mutex.h
+++ b/amtl/am-mutex.h
@@ -48,6 +48,13 @@ class Mutex : public std::mutex
        owner_ = std::this_thread::get_id();
     };
 
+    bool try_lock() {
+       if (!std::mutex::try_lock())
+          return false;
+       owner_ = std::this_thread::get_id();
+       return true;
+    }
+
     void unlock() {
        owner_ = {};
        std::mutex::unlock();
-- 
2.43.0


From 48cf426a5a29c588ac714326a9be457040208cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 32/39] fix: let threads that do not hold a mutex ask for its
 owner without a data race

---
 amtl/am-mutex.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/amtl/am-mutex.h b/amtl/am-mutex.h
index 9b8250b..d843b6d 100644
--- a/amtl/am-mutex.h
+++ b/amtl/am-mutex.h
@@ -31,6 +31,7 @@
 
 #include <assert.h>
 
+#include <atomic>
 #include <mutex>
 #include <thread>
 
@@ -56,16 +57,17 @@ class Mutex : public std::mutex
     }
 
     void unlock() {
-       owner_ = {};
+       owner_ = std::thread::id();
        std::mutex::unlock();
     }
 
     void AssertCurrentThreadOwns() {
-        assert(owner_ == std::this_thread::get_id());
+        assert(owner_.load() == std::this_thread::get_id());
     }
 
   private:
-    std::thread::id owner_ = {};
+    // Read by threads that do not hold the mutex, too.
+    std::atomic<std::thread::id> owner_{};
 #endif
 };
 
-- 
2.43.0


From 3e22c705ae9bfd417cb72f916f9ea34a0399f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 33/39] fix: include stdint.h in am-arithmetic.h, which uses
 its types

---
 amtl/am-arithmetic.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amtl/am-arithmetic.h b/amtl/am-arithmetic.h
index 289a326..4ba43e2 100644
--- a/amtl/am-arithmetic.h
+++ b/amtl/am-arithmetic.h
@@ -29,6 +29,8 @@
 #ifndef _include_amtl_bits_h_
 #define _include_amtl_bits_h_
 
+#include <stdint.h>
+
 #include <algorithm>
 
 namespace ke {
-- 
2.43.0


From d9ea1858216e5076632c7746271d3a9bd719179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 34/39] fix: include <new> in am-maybe.h, which constructs in
 place

---
 amtl/am-maybe.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 7ac14cf..6afbd67 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -31,6 +31,7 @@
 
 #include <assert.h>
 
+#include <new>
 #include <type_traits>
 #include <utility>
 
-- 
2.43.0


From 3e10bff3d43fc7b754e2b5e6a6a535ad0cd945c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 35/39] fix: include assert.h in am-raii.h, which asserts

---
 amtl/am-raii.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amtl/am-raii.h b/amtl/am-raii.h
index b942e50..71dfe74 100644
--- a/amtl/am-raii.h
+++ b/amtl/am-raii.h
@@ -30,6 +30,8 @@
 #ifndef _include_amtl_am_raii_h_
 #define _include_amtl_am_raii_h_
 
+#include <assert.h>
+
 #include <utility>
 
 namespace ke {
-- 
2.43.0


From 7211aac816d0216e76f71429ae876576a1c1f41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 36/39] fix: include string.h in am-utility.h, which calls
 memset

---
 amtl/am-utility.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amtl/am-utility.h b/amtl/am-utility.h
index 49463dd..8df3745 100644
--- a/amtl/am-utility.h
+++ b/amtl/am-utility.h
@@ -35,6 +35,7 @@
 #include <stddef.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <amtl/am-cxx.h>
 
-- 
2.43.0


From 4e1f02a116fc66d13059c13da21a2ed9c832776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 37/39] fix: let am-enum.h compile with KE_ALLOW_STD_CXX before
 C++20

---
 amtl/am-enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-enum.h b/amtl/am-enum.h
index 8c8aa3b..cb17ba0 100644
--- a/amtl/am-enum.h
+++ b/amtl/am-enum.h
@@ -37,7 +37,7 @@ namespace ke {
 template <typename T>
 struct enum_integral_type {
 #ifdef KE_ALLOW_STD_CXX
-    using type = std::underlying_type<T>::type;
+    using type = typename std::underlying_type<T>::type;
 #else
     using type = __underlying_type(T);
 #endif
-- 
2.43.0


From 0ebb092d1d72f8edce2eb46d3309fbcfd86ff7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:47 +0000
Subject: [PATCH 38/39] fix: assign a Maybe from a value that its old value
 owns

Both assignments destroyed the old value before reading the new one, which
may live inside it.
---
 amtl/am-maybe.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 6afbd67..65967ff 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -108,16 +108,26 @@ class Maybe
     }
 
     Maybe& operator =(const Maybe& other) {
-        if (this != &other) {
+        if (this == &other)
+            return *this;
+        if (other.initialized_) {
+            // |other| may be reachable only through the old value.
+            T temp(*other.t_.address());
+            init(std::move(temp));
+        } else {
             reset();
-            copyFrom(other);
         }
         return *this;
     }
     Maybe& operator =(Maybe&& other) {
-        if (this != &other) {
+        if (this == &other)
+            return *this;
+        if (other.initialized_) {
+            T temp(std::move(*other.t_.address()));
+            other.reset();
+            init(std::move(temp));
+        } else {
             reset();
-            moveFrom(std::move(other));
         }
         return *this;
     }
-- 
2.43.0


From 13a2a949ee8927d804b4b5c6e8250b6e18956172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:47 +0000
Subject: [PATCH 39/39] fix: move-assign a FixedArray from an array that one of
 its elements owns

The old elements were destroyed before the new ones were taken.
---
 amtl/am-fixedarray.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index 5d6ddc9..9104639 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -32,6 +32,7 @@
 #include <assert.h>
 #include <stdint.h>
 
+#include <utility>
 #include <vector>
 
 #include <amtl/am-allocator-policies.h>
@@ -146,14 +147,16 @@ class FixedArray : private AllocPolicy
     FixedArray& operator =(FixedArray&& other) {
         if (this == &other)
             return *this;
+        // |other| may be one of the old elements, or owned by one.
+        FixedArray temp(std::move(other));
         destruct();
         deallocate();
         // The elements must be freed by the policy that allocated them.
-        AllocPolicy::operator =(static_cast<AllocPolicy&&>(other));
-        size_ = other.size_;
-        data_ = other.data_;
-        other.size_ = 0;
-        other.data_ = nullptr;
+        AllocPolicy::operator =(static_cast<AllocPolicy&&>(temp));
+        size_ = temp.size_;
+        data_ = temp.data_;
+        temp.size_ = 0;
+        temp.data_ = nullptr;
         return *this;
     }
 
-- 
2.43.0

