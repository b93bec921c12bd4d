From 940beceea5bec9044b151f598326bd381a4497d6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 001/191] fix: assigning an Array or DynArray to itself
 destroyed its elements

---
 include/bss-util/Array.h    | 2 ++
 include/bss-util/DynArray.h | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index 261411f..a0c70b9 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -342,6 +342,7 @@ namespace bss {
 
     BSS_FORCEINLINE Array& operator=(const Array& copy) noexcept
     {
+      if(this == &copy) return *this;
       BASE::_setLength(_array, _capacity, 0);
       BASE::_setCapacityDiscard(copy._capacity);
       BASE::_copy(_array, copy._array, _capacity);
@@ -349,6 +350,7 @@ namespace bss {
     }
     BSS_FORCEINLINE Array& operator=(Array&& mov) noexcept
     { 
+      if(this == &mov) return *this;
       BASE::_setLength(_array, _capacity, 0);
       BASE::operator=(std::move(mov));
       return *this;
diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index c118a4e..e5a5241 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -98,6 +98,7 @@ namespace bss {
     inline DynArray& operator=(Array<T, CT, ArrayType, Alloc>&& mov) { BASE::_setLength(_array, _length, 0); BASE::operator=(std::move(mov)); _length = mov._capacity; return *this; }
     inline DynArray& operator=(const DynArray& copy)
     {
+      if(this == &copy) return *this;
       BASE::_setLength(_array, _length, 0);
       if(copy._length > _capacity)
         BASE::_setCapacityDiscard(copy._capacity);
@@ -105,7 +106,7 @@ namespace bss {
       _length = copy._length;
       return *this;
     }
-    inline DynArray& operator=(DynArray&& mov) { BASE::_setLength(_array, _length, 0); BASE::operator=(std::move(mov)); _length = mov._length; mov._length = 0; return *this; }
+    inline DynArray& operator=(DynArray&& mov) { if(this == &mov) return *this; BASE::_setLength(_array, _length, 0); BASE::operator=(std::move(mov)); _length = mov._length; mov._length = 0; return *this; }
     inline DynArray& operator=(const Slice<const T, CT>& copy) { Set(copy); return *this; }
     inline DynArray& operator +=(const DynArray& add)
     {
-- 
2.43.0


From bed5526f5f904c3e54b7ad94e31f20ffd4000c65 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 002/191] fix: appending an Array to itself wrote past the end
 of its storage

---
 include/bss-util/Array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index a0c70b9..fcadb85 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -363,8 +363,9 @@ namespace bss {
     BSS_FORCEINLINE Array& operator +=(const Array& add) noexcept
     {
       CT old = _capacity;
-      BASE::_setCapacity(_capacity + add._capacity, _capacity);
-      BASE::_copy(_array + old, add._array, add._capacity);
+      CT n = add._capacity; // add may be this array
+      BASE::_setCapacity(_capacity + n, _capacity);
+      BASE::_copy(_array + old, add._array, n);
       return *this;
     }
     BSS_FORCEINLINE Array operator +(const Array& add) const noexcept { Array r(*this); return (r += add); }
-- 
2.43.0


From 3dd196b25917e41c152f4ccfff9cf867a6269f82 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:47:41 +0000
Subject: [PATCH 003/191] fix: ArbitraryArray::Add overflowed when the capacity
 was not a multiple of the element size

---
 include/bss-util/DynArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index e5a5241..7690e3f 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -355,7 +355,7 @@ namespace bss {
     template<typename T>
     inline CT Add(const T& item)
     {
-      if((_length*_element) >= _capacity) BASE::_setCapacity(T_FBNEXT(_length)*_element);
+      if(((_length + 1)*_element) > _capacity) BASE::_setCapacity(T_FBNEXT(_length)*_element);
       memcpy(_array + (_length*_element), &item, std::min<CT>(sizeof(T), _element));
       return _length++;
     }
-- 
2.43.0


From ace2f670857aea4fcbfc1dcca0223d35e8bad24e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:52:09 +0000
Subject: [PATCH 004/191] fix: const Front and Back of a bool DynArray read
 bytes instead of bits, past the storage

---
 include/bss-util/DynArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 7690e3f..f557680 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -239,8 +239,8 @@ namespace bss {
     }
     BSS_FORCEINLINE CT Length() const { return _length; }
     BSS_FORCEINLINE CT Capacity() const { return _capacity*DIV_AMT; }
-    BSS_FORCEINLINE bool Front() const { assert(_length > 0); return _array[0]; }
-    BSS_FORCEINLINE bool Back() const { assert(_length > 0); return _array[_length - 1]; }
+    BSS_FORCEINLINE bool Front() const { assert(_length > 0); return GetBit(0); }
+    BSS_FORCEINLINE bool Back() const { assert(_length > 0); return GetBit(_length - 1); }
     BSS_FORCEINLINE BITREF Front() { assert(_length > 0); return GetBit(0); }
     BSS_FORCEINLINE BITREF Back() { assert(_length > 0); return GetBit(_length - 1); }
     BSS_FORCEINLINE bool operator[](CT index) const { assert(index < _length); return (_array[(index / DIV_AMT)] & (((STORE)1) << (index&MOD_AMT))) != 0; }
-- 
2.43.0


From 151909e7d728dbda1be9ddabb0141d5d580768e6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:52:09 +0000
Subject: [PATCH 005/191] fix: AddConstruct of a bool DynArray zeroed the byte
 at the bit index, past the storage

---
 include/bss-util/DynArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index f557680..0e0bf1c 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -192,7 +192,7 @@ namespace bss {
     }
     inline ~DynArray() {}
     BSS_FORCEINLINE CT Add(bool item) { _checkSize(); GetBit(_length++) = item; return _length - 1; }
-    BSS_FORCEINLINE CT AddConstruct() { _checkSize(); _array[_length] = false; return _length++; }
+    BSS_FORCEINLINE CT AddConstruct() { return Add(false); }
     inline void Remove(CT index)
     {
       assert(index < _length);
-- 
2.43.0


From 67b1bad4ca482347f976f945a4b70ae3f7bd5b3d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:52:09 +0000
Subject: [PATCH 006/191] fix: SetCapacity of a bool DynArray called itself
 instead of growing the storage

---
 include/bss-util/DynArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 0e0bf1c..a0778ec 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -214,7 +214,7 @@ namespace bss {
       for(CT i = _length; i < length; ++i) GetBit(i) = false;
       _length = length;
     }
-    inline void SetCapacity(CT capacity) { capacity = _maxChunks(capacity) / DIV_AMT; if(capacity > _capacity) SetCapacity(capacity); }
+    inline void SetCapacity(CT capacity) { capacity = _maxChunks(capacity) / DIV_AMT; if(capacity > _capacity) BASE::_setCapacity(capacity); }
     inline void Flip() { for(CT i = 0; i < _capacity; ++i) _array[i] = ~_array[i]; }
     CT CountBits(CT bitindex, CT length) const
     {
-- 
2.43.0


From 5cc54047d4e65cee8bbf47b4bd695a8fbc72f606 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:52:09 +0000
Subject: [PATCH 007/191] fix: assigning a bool DynArray read past the end of a
 smaller source

---
 include/bss-util/DynArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index a0778ec..60623cc 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -257,7 +257,7 @@ namespace bss {
     {
       if(copy._length > (_capacity*DIV_AMT))
         BASE::_setCapacityDiscard(copy._capacity);
-      memcpy(_array, copy._array, _capacity * sizeof(STORE));
+      memcpy(_array, copy._array, (_maxChunks(copy._length) / DIV_AMT) * sizeof(STORE));
       _length = copy._length;
       return *this;
     }
-- 
2.43.0


From a37335c699c23a9483fd77c4d34a3b7a111d9195 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:52:09 +0000
Subject: [PATCH 008/191] fix: inserting in a bool DynArray carried the wrong
 bit between bytes

---
 include/bss-util/DynArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 60623cc..728f192 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -318,12 +318,12 @@ namespace bss {
       STORE mask = (STORE)(~0) << off;
       STORE store = _array[ind];
       _array[ind] = ((_array[ind] & mask) << 1) | (_array[ind] & (~mask));
-      STORE test = _array[ind];
 
       for(CT i = ind + 1; i < len; ++i)
       {
-        _array[i] = (store >> MOD_AMT) | ((_array[i] << 1) & (STORE)(~1));
+        STORE prev = store;
         store = _array[i];
+        _array[i] = (prev >> MOD_AMT) | ((_array[i] << 1) & (STORE)(~1));
       }
     }
 
-- 
2.43.0


From c56b2e14ac384ce6da396fd11b6960051fe54c75 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:52:09 +0000
Subject: [PATCH 009/191] fix: BitStream::Read mixed the destination's old
 contents in the bits of a partial byte

---
 include/bss-util/BitStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/BitStream.h b/include/bss-util/BitStream.h
index 0385f31..721b333 100644
--- a/include/bss-util/BitStream.h
+++ b/include/bss-util/BitStream.h
@@ -64,7 +64,7 @@ namespace bss {
       if(!i)
         return;
 
-      d[k] |= (_base->peek() >> _roffset);
+      d[k] = (_base->peek() >> _roffset);
 
       if((_roffset + i) >= 8) // We ran over our current character
       {
-- 
2.43.0


From 1990eb05b7e3a49dbb5c5d21b38efa42575d29ba Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:52:41 +0000
Subject: [PATCH 010/191] fix: Queue::Discard never destroyed the element it
 dropped

---
 include/bss-util/Queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Queue.h b/include/bss-util/Queue.h
index af98476..0099dba 100644
--- a/include/bss-util/Queue.h
+++ b/include/bss-util/Queue.h
@@ -30,7 +30,7 @@ namespace bss {
     // Peeks at the value at the top of the queue but does not remove it. If there is no value, this is an illegal call.
     BSS_FORCEINLINE T& Peek() { assert(_length != 0); return BASE::Back(); }
     BSS_FORCEINLINE const T& Peek() const { assert(_length != 0); return BASE::Back(); }
-    BSS_FORCEINLINE void Discard() { --_length; }
+    BSS_FORCEINLINE void Discard() { Pop(); }
     // Returns true if there are no values in the queue (indicating that Pop() and Peek() cannot be called)
     BSS_FORCEINLINE bool Empty() { return !_length; }
     BSS_FORCEINLINE void Clear() { BASE::Clear(); }
-- 
2.43.0


From e996801e6f84694a30013f51d7896c105e9a92e4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:52:50 +0000
Subject: [PATCH 011/191] fix: assigning an ArrayCircular to itself destroyed
 its elements

---
 include/bss-util/ArrayCircular.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/ArrayCircular.h b/include/bss-util/ArrayCircular.h
index 3f7fa0d..00bcd74 100644
--- a/include/bss-util/ArrayCircular.h
+++ b/include/bss-util/ArrayCircular.h
@@ -100,6 +100,7 @@ namespace bss {
     BSS_FORCEINLINE const T& operator[](CT index) const { return _array[_modIndex(index)]; }
     inline ArrayCircular& operator=(const ArrayCircular& right)
     {
+      if(this == &right) return *this;
       Clear();
       BASE::_setCapacityDiscard(right._capacity);
       _cur = right._cur;
@@ -120,6 +121,7 @@ namespace bss {
     }
     inline ArrayCircular& operator=(ArrayCircular&& right)
     {
+      if(this == &right) return *this;
       Clear();
       BASE::operator=(std::move(right));
       _cur = right._cur;
-- 
2.43.0


From 9d9f4ae019bc471e13c4fb2eca03290b042ba22d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:56:37 +0000
Subject: [PATCH 012/191] fix: BinaryHeap::Remove broke the heap order when the
 last item outranked the removed item's parent, and failed on the last item

---
 include/bss-util/BinaryHeap.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/BinaryHeap.h b/include/bss-util/BinaryHeap.h
index 9f1f022..b7461ea 100644
--- a/include/bss-util/BinaryHeap.h
+++ b/include/bss-util/BinaryHeap.h
@@ -72,8 +72,13 @@ namespace bss {
     inline bool Remove(CT index)
     {
       if(index >= _length) return false; //We don't have to copy _array[_length - 1] because it stays valid during the percolation
-      if(_length > 1) //We can't percolate down if there's nothing in the array! 
-        PercolateDown(_array, _length - 1, index, _array[_length - 1], this);
+      if(index < _length - 1) //We can't percolate if the item we're removing is the last one
+      {
+        if(index > 0 && CFunc(_array[_length - 1], _array[CBH_PARENT(index)]) > 0) //The last item can come from another branch and be greater than the parent
+          PercolateUp(_array, _length - 1, index, _array[_length - 1], this);
+        else
+          PercolateDown(_array, _length - 1, index, _array[_length - 1], this);
+      }
       BASE::RemoveLast();
       return true;
     }
-- 
2.43.0


From a4ba1d3f69d2e4b6eb776a9ead29713271ff5dbe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:56:37 +0000
Subject: [PATCH 013/191] fix: BinaryHeap::Clear never destroyed its elements

---
 include/bss-util/BinaryHeap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/BinaryHeap.h b/include/bss-util/BinaryHeap.h
index b7461ea..9ded4b9 100644
--- a/include/bss-util/BinaryHeap.h
+++ b/include/bss-util/BinaryHeap.h
@@ -61,7 +61,7 @@ namespace bss {
     }
     inline bool Empty() { return !_length; }
     inline CT Length() { return _length; }
-    inline void Clear() { _length = 0; }
+    inline void Clear() { BASE::Clear(); }
     // Inserts a value
     inline void Insert(const T& val) { _insert(val); }
     inline void Insert(T&& val) { _insert(std::move(val)); }
-- 
2.43.0


From 0da17bd955fb31a04da4a32a53abfcb6a9240ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:57:11 +0000
Subject: [PATCH 014/191] fix: moving a PriorityHeap lost its key table and
 left the source with dangling free keys

---
 include/bss-util/PriorityQueue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/PriorityQueue.h b/include/bss-util/PriorityQueue.h
index 7dc3039..3c53466 100644
--- a/include/bss-util/PriorityQueue.h
+++ b/include/bss-util/PriorityQueue.h
@@ -65,7 +65,7 @@ namespace bss {
 
   public:
     PriorityHeap(const PriorityHeap& copy) : BASE(copy), _freelist(copy._freelist) { _subarray = copy._subarray; }
-    PriorityHeap(PriorityHeap&& mov) : BASE(std::move(mov)), _freelist(mov._freelist) { _subarray = std::move(mov._subarray); }
+    PriorityHeap(PriorityHeap&& mov) : BASE(std::move(mov)), _freelist(mov._freelist) { mov._freelist = (CT_)-1; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     explicit PriorityHeap(typename Alloc::policy_type* policy) : BASE(policy), _freelist((CT_)-1) {}
     PriorityHeap() : _freelist((CT_)-1) {}
@@ -93,6 +93,7 @@ namespace bss {
     { 
       BASE::operator=(std::move(mov)); 
       _freelist = mov._freelist; 
+      mov._freelist = (CT_)-1;
       return *this; 
     }
 
-- 
2.43.0


From 50528cd8ba71230b19e6ef525ea5c7a6fcd57113 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:02:06 +0000
Subject: [PATCH 015/191] fix: assigning a Hash to itself lost its contents

---
 include/bss-util/Hash.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index f1bb146..06bbcc4 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -305,6 +305,9 @@ namespace bss {
 
     Hash& operator=(const Hash& copy)
     {
+      if(this == &copy)
+        return *this;
+
       Clear();
       if(!copy.n_buckets)
       {
@@ -318,6 +321,9 @@ namespace bss {
 
     Hash& operator=(Hash&& mov)
     {
+      if(this == &mov)
+        return *this;
+
       Clear();
       _freeall();
       Alloc::operator=(std::move(mov));
-- 
2.43.0


From fdef15ef3e9bc3948da1a61be0fde2e35dc73c97 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:03:26 +0000
Subject: [PATCH 016/191] fix: growing a Hash never destroyed the keys and
 values it moved out of

---
 include/bss-util/Hash.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index 06bbcc4..88e02dc 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -491,7 +491,12 @@ namespace bss {
             [[maybe_unused]] FakeData val;
             khint_t new_mask;
             new_mask = new_n_buckets - 1;
-            if constexpr(IsMap)val = std::move(vals[j]);
+            if constexpr(IsMap)
+            {
+              val = std::move(vals[j]);
+              vals[j].~Data();
+            }
+            keys[j].~Key(); // this bucket no longer exists, so anything that lands here is initialized, not assigned
             __ac_set_isdel_true(flags, j);
             while(1)
             { /* kick-out process; sort of like in Cuckoo hashing */
@@ -628,7 +633,10 @@ namespace bss {
           for(khint_t i = 0; i < n_buckets; ++i)
           {
             if(!__ac_iseither(flags, i))
+            {
               new(n + i) T(std::move(src[i]));
+              src[i].~T();
+            }
           }
         }
 
-- 
2.43.0


From 903528dd67fa348e3fbc0cdd45d6f7146c2ca22d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:10:45 +0000
Subject: [PATCH 017/191] fix: AVLTree::Traverse did not compile with GCC,
 which cannot force a recursive function inline

---
 include/bss-util/AVLTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/AVLTree.h b/include/bss-util/AVLTree.h
index e432b1a..2c9e8ca 100644
--- a/include/bss-util/AVLTree.h
+++ b/include/bss-util/AVLTree.h
@@ -165,7 +165,7 @@ namespace bss {
 
   protected:
     template<typename F>
-    BSS_FORCEINLINE static void _traverse(F lambda, Node* node)
+    inline static void _traverse(F lambda, Node* node) // recursive, so it cannot be forced inline
     {
       if(!node)
         return;
-- 
2.43.0


From 64a17bd27f22011c5b476c41b5126130c0eab9cf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:10:45 +0000
Subject: [PATCH 018/191] fix: move-assigning an AVLTree returned its nodes to
 the wrong allocator

---
 include/bss-util/AVLTree.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/AVLTree.h b/include/bss-util/AVLTree.h
index 2c9e8ca..53795b3 100644
--- a/include/bss-util/AVLTree.h
+++ b/include/bss-util/AVLTree.h
@@ -161,7 +161,14 @@ namespace bss {
       return (cur != 0);
     }
 
-    inline AVLTree& operator=(AVLTree&& mov) { Clear(); _root = mov._root; mov._root = 0; return *this; }
+    inline AVLTree& operator=(AVLTree&& mov)
+    {
+      Clear();
+      Alloc::operator=(mov); // The nodes must be returned to the allocator they came from
+      _root = mov._root;
+      mov._root = 0;
+      return *this;
+    }
 
   protected:
     template<typename F>
-- 
2.43.0


From e9fb212ff44dfbb6e36914f929353533c5df1e5d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:10:45 +0000
Subject: [PATCH 019/191] fix: moving a TRBtree overwrote the sentinel it had
 just taken and left the source's uninitialized

---
 include/bss-util/TRBtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/TRBtree.h b/include/bss-util/TRBtree.h
index 2578cfa..d51eb8e 100644
--- a/include/bss-util/TRBtree.h
+++ b/include/bss-util/TRBtree.h
@@ -403,7 +403,7 @@ namespace bss {
       mov._first = 0;
       mov._last = 0;
       mov.NIL = Alloc::allocate(1);
-      new (NIL) TRB_Node<T>(0);
+      new (mov.NIL) TRB_Node<T>(0);
       mov.NIL->left = mov.NIL;
       mov.NIL->right = mov.NIL;
       mov._root = mov.NIL;
-- 
2.43.0


From f839b25473872f4e87ae1d9ba999f7d3d81388e0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:10:45 +0000
Subject: [PATCH 020/191] fix: TRBtree::GetNear(value, false) returned a
 duplicate of the smaller neighbour

---
 include/bss-util/TRBtree.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bss-util/TRBtree.h b/include/bss-util/TRBtree.h
index d51eb8e..74c3347 100644
--- a/include/bss-util/TRBtree.h
+++ b/include/bss-util/TRBtree.h
@@ -529,7 +529,11 @@ namespace bss {
       if(before)
         return (res < 0 && parent->prev) ? parent->prev : parent;
       else
+      {
+        while(res > 0 && parent->next && parent->next->color == -1) // skip over duplicates of a smaller value
+          parent = parent->next;
         return (res > 0 && parent->next) ? parent->next : parent;
+      }
     }
 
     inline int DEBUGVERIFY() { return TRB_Node<T>::DEBUGVERIFY(_root, NIL); }
-- 
2.43.0


From 65a59c17995299ef8ee30feab80b1ef5908deae8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:10:45 +0000
Subject: [PATCH 021/191] fix: AATree::Remove read an uninitialized or stale
 node pointer when every key on the path was greater

---
 include/bss-util/AATree.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index 8951010..3afe657 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -41,7 +41,11 @@ namespace bss {
       Alloc::deallocate(_sentinel, 1);
     }
     inline void Insert(const T& data) { _insert(_root, data); }
-    inline bool Remove(const T& data) { return _remove(_root, data); }
+    inline bool Remove(const T& data)
+    {
+      _deleted = _last = _sentinel;
+      return _remove(_root, data);
+    }
     // Gets the node that belongs to the data or returns nullptr if not found.
     inline AANODE<T>* Get(const T& data)
     {
-- 
2.43.0


From 81aee1792b9180cdf6348f0e4de1a5f5ac2a7757 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:10:45 +0000
Subject: [PATCH 022/191] fix: AATree::Clear kept using the nodes it had freed

---
 include/bss-util/AATree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index 3afe657..5c4aced 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -63,7 +63,7 @@ namespace bss {
 
       return 0;
     }
-    inline void Clear() { _clear(_root); }
+    inline void Clear() { _clear(_root); _root = _sentinel; }
     // Gets the root, unless the tree is empty, in which case returns nullptr
     inline AANODE<T>* GetRoot() { return _root == _sentinel ? 0 : _root; }
     inline bool IsEmpty() { return _root == _sentinel; }
-- 
2.43.0


From 55ce0b9a8073fda4c636ed69dad2290f9311cade Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:11:12 +0000
Subject: [PATCH 023/191] fix: AATree never constructed the elements it
 inserted nor destroyed those it removed

---
 include/bss-util/AATree.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/AATree.h b/include/bss-util/AATree.h
index 5c4aced..c892452 100644
--- a/include/bss-util/AATree.h
+++ b/include/bss-util/AATree.h
@@ -113,9 +113,7 @@ namespace bss {
       if(n == _sentinel)
       {
         n = Alloc::allocate(1);
-        n->left = n->right = _sentinel;
-        n->data = data;
-        n->level = 1;
+        new(n) AANODE<T>{ 1, _sentinel, _sentinel, data };
         return;
       }
 
@@ -148,6 +146,7 @@ namespace bss {
         _deleted->data = n->data;
         _deleted = _sentinel;
         n = n->right;
+        _last->~AANODE<T>();
         Alloc::deallocate(_last);
         _last = _sentinel;
         b = true;
-- 
2.43.0


From fc55e607be2178ec742d563343fd80480a1ee72c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:14:06 +0000
Subject: [PATCH 024/191] fix: LinkedList::Clear zeroed its allocator along
 with its nodes

---
 include/bss-util/LinkedList.h | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/include/bss-util/LinkedList.h b/include/bss-util/LinkedList.h
index 66d854b..139a755 100644
--- a/include/bss-util/LinkedList.h
+++ b/include/bss-util/LinkedList.h
@@ -178,17 +178,8 @@ namespace bss {
     }
     inline void Clear()
     {
-      LLNode<T>* hold = _root;
-      LLNode<T>* nexthold;
-
-      while(hold)
-      {
-        nexthold = hold->next;
-        _deleteNode(hold);
-        hold = nexthold;
-      }
-
-      bssFill(*this, 0);
+      while(_root)
+        Remove(_root);
     }
 
     inline LLNode<T>* Front() const { return _root; }
-- 
2.43.0


From 14f9223c8458843addc99dd23853a630773bc185 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:14:06 +0000
Subject: [PATCH 025/191] fix: a CompactArray built from a short initializer
 list wrote through an uninitialized pointer

---
 include/bss-util/CompactArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/CompactArray.h b/include/bss-util/CompactArray.h
index 868f7ff..278fdfe 100644
--- a/include/bss-util/CompactArray.h
+++ b/include/bss-util/CompactArray.h
@@ -46,7 +46,7 @@ namespace bss {
       CT len = Length();
 
       for(auto i = list.begin(); i != end && j < len; ++i)
-        new(_array + (j++)) T(*i);
+        new(begin() + (j++)) T(*i);
     }
     inline ~CompactArray() 
     { 
-- 
2.43.0


From dd3d79c6a2425b69e1154cbf13a7925bcfc9dd3d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:15:16 +0000
Subject: [PATCH 026/191] fix: a Trie with an index type smaller than int wrote
 out of bounds if it contained the empty word

---
 include/bss-util/Trie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Trie.h b/include/bss-util/Trie.h
index 049c7bd..cf7af8a 100644
--- a/include/bss-util/Trie.h
+++ b/include/bss-util/Trie.h
@@ -142,8 +142,8 @@ namespace bss {
 
       if(!c) // The only place we'll recieve the end of the word is in our starting position due to alphabetical order
       {
-        _checkSize(r + 1);
-        _array[r + 1].word = str[0].first; 
+        _checkSize(cnt);
+        _array[cnt].word = str[0].first; // not r + 1, which doesn't wrap around if T is smaller than int
         ++str;
         --len; 
       }
-- 
2.43.0


From cd1e19f8f1f3b88e907d3b261b2e568abec658f7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:15:16 +0000
Subject: [PATCH 027/191] fix: a Trie could not find words with characters
 outside of ASCII

---
 include/bss-util/Trie.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Trie.h b/include/bss-util/Trie.h
index cf7af8a..efdce79 100644
--- a/include/bss-util/Trie.h
+++ b/include/bss-util/Trie.h
@@ -105,7 +105,7 @@ namespace bss {
     inline T operator[](const char* word) const { return Get(word); }
     inline Trie& operator=(const Trie& copy) { BASE::operator=(copy); _length = copy._length; return *this; }
     inline Trie& operator=(Trie&& mov) { BASE::operator=(std::move(mov)); _length = mov._length; mov._length = 0; return *this; }
-    static inline char _CompTNode(const TNODE& t, const char& c) { return SGNCOMPARE(t.chr, c); }
+    static inline char _CompTNode(const TNODE& t, const char& c) { return SGNCOMPARE((unsigned char)t.chr, (unsigned char)c); } // The words are sorted by unsigned characters
 
   protected:
     void _construct(T num, const char* const* initstr)
-- 
2.43.0


From 43b55bac8c29973f4adfcd56dfb0da5361de7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:15:44 +0000
Subject: [PATCH 028/191] fix: growing a Trie past half the range of its index
 type overflowed its capacity

---
 include/bss-util/Trie.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Trie.h b/include/bss-util/Trie.h
index efdce79..60f043f 100644
--- a/include/bss-util/Trie.h
+++ b/include/bss-util/Trie.h
@@ -132,7 +132,7 @@ namespace bss {
         _array[i].chr = 0;
       }
     }
-    BSS_FORCEINLINE void _checkSize(T r) { assert(r < (std::numeric_limits<T>::max() - 2)); if(r >= _capacity) { T s = _capacity; BASE::_setCapacity(_capacity << 1); _fill(s, _capacity); } }
+    BSS_FORCEINLINE void _checkSize(T r) { assert(r < (std::numeric_limits<T>::max() - 2)); if(r >= _capacity) { T s = _capacity; BASE::_setCapacity((_capacity > std::numeric_limits<T>::max() / 2) ? std::numeric_limits<T>::max() : (_capacity << 1)); _fill(s, _capacity); } }
     T _init(T len, PAIR const* str, T cnt, T level)
     {
       T r = cnt - 1;
-- 
2.43.0


From 48bd2c73d02a29ad6db2bb425a1d0bc1f9e27b05 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:21:47 +0000
Subject: [PATCH 029/191] fix: GreedyAlloc passed aligned_alloc a size that is
 not a multiple of the alignment

---
 include/bss-util/GreedyAlloc.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/GreedyAlloc.h b/include/bss-util/GreedyAlloc.h
index f5bf9c9..fba638a 100644
--- a/include/bss-util/GreedyAlloc.h
+++ b/include/bss-util/GreedyAlloc.h
@@ -136,6 +136,7 @@ namespace bss {
   protected:
     BSS_FORCEINLINE void _allocChunk(size_t nsize) noexcept
     {
+      nsize = AlignSize(nsize, _align); // aligned_alloc requires a size that is a multiple of the alignment
       Node* retval = reinterpret_cast<Node*>(ALIGNEDALLOC(_alignsize + nsize, _align));
       assert(retval != 0);
       retval->next = _root.load(std::memory_order_acquire);
-- 
2.43.0


From 161772659024487f3c2bd24743d83b2339f71c51 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:28:03 +0000
Subject: [PATCH 030/191] fix: asmbts and asmbtr on 8-byte words used a 4-byte
 instruction whenever the bit index was a compile-time constant, so RWLock set
 the wrong bit in optimized builds and deadlocked

---
 include/bss-util/lockless.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/lockless.h b/include/bss-util/lockless.h
index bc6b735..4eb098d 100644
--- a/include/bss-util/lockless.h
+++ b/include/bss-util/lockless.h
@@ -211,7 +211,7 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock bts %[bit], %[x]\n\t"
+          "lock btsl %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
           : [bit] "ri" (bit));
@@ -223,7 +223,7 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock bts %[bit], %[x]\n\t"
+          "lock btsq %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
           : [bit] "ri" (bit));
@@ -248,7 +248,7 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock btr %[bit], %[x]\n\t"
+          "lock btrl %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
           : [bit] "ri" (bit));
@@ -260,7 +260,7 @@ namespace bss {
       {
         uint8_t retval;
         __asm__ __volatile__(
-          "lock btr %[bit], %[x]\n\t"
+          "lock btrq %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
           : [bit] "ri" (bit));
-- 
2.43.0


From 457678b9a7bd3818f40e6e05a0638c3f3019e295 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:28:03 +0000
Subject: [PATCH 031/191] fix: asmbts and asmbtr did not tell the compiler that
 they order memory, so protected accesses could move out of a write lock

---
 include/bss-util/lockless.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/lockless.h b/include/bss-util/lockless.h
index 4eb098d..db35964 100644
--- a/include/bss-util/lockless.h
+++ b/include/bss-util/lockless.h
@@ -214,7 +214,7 @@ namespace bss {
           "lock btsl %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "ri" (bit) : "memory");
         return retval != 0;
       }
     };
@@ -226,7 +226,7 @@ namespace bss {
           "lock btsq %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "ri" (bit) : "memory");
         return retval != 0;
       }
     };
@@ -251,7 +251,7 @@ namespace bss {
           "lock btrl %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "ri" (bit) : "memory");
         return retval != 0;
       }
     };
@@ -263,7 +263,7 @@ namespace bss {
           "lock btrq %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "ri" (bit) : "memory");
         return retval != 0;
       }
     };
-- 
2.43.0


From 296cbfe5218f2d6b4489de89dc868027251d201c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:28:20 +0000
Subject: [PATCH 032/191] fix: shrinking an allocation with CachePolicy put the
 old block on the freelist of the smaller size

---
 include/bss-util/CacheAlloc.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index d2f48d5..afb3a96 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -145,9 +145,7 @@ namespace bss {
       if(p)
       {
         assert(old > 0);
-        if(cnt < old)
-          old = cnt;
-        MEMCPY(n, cnt * sizeof(T), p, old * sizeof(T));
+        MEMCPY(n, cnt * sizeof(T), p, bssmin(cnt, old) * sizeof(T));
         CacheAlloc::Dealloc(p, old * sizeof(T));
       }
       return n;
-- 
2.43.0


From d31f92338e6433bd87f7d1cdd4c559d2aacb0b72 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:28:35 +0000
Subject: [PATCH 033/191] fix: moving a CacheAlloc left its freelists behind

---
 include/bss-util/CacheAlloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index afb3a96..4e89d70 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -15,7 +15,7 @@ namespace bss {
     CacheAlloc& operator=(const CacheAlloc& copy) = delete;
     
   public:
-    inline CacheAlloc(CacheAlloc&& mov) : GreedyAlloc(std::move(mov)), _maxsize(mov._maxsize), _debugalign(mov._debugalign) {}
+    inline CacheAlloc(CacheAlloc&& mov) : GreedyAlloc(std::move(mov)), _maxsize(mov._maxsize), _debugalign(mov._debugalign), _cache(std::move(mov._cache)) {}
     inline explicit CacheAlloc(size_t maxsize = 8192, size_t init = 64, size_t align = 1) : GreedyAlloc(init, align), _maxsize(maxsize), _debugalign(bssmax(align, sizeof(size_t))) {}
     inline ~CacheAlloc() {}
 
-- 
2.43.0


From e380a194c99f717e7e89ef0facaad9a29fdaabbf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:28:52 +0000
Subject: [PATCH 034/191] fix: aligned_realloc passed aligned_alloc a size that
 is not a multiple of the alignment

---
 include/bss-util/Alloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Alloc.h b/include/bss-util/Alloc.h
index 5fec64f..04760ee 100644
--- a/include/bss-util/Alloc.h
+++ b/include/bss-util/Alloc.h
@@ -17,7 +17,7 @@ namespace bss {
 #ifdef BSS_PLATFORM_WIN32
     return _aligned_realloc(p, size, align);
 #else
-    void* n = aligned_alloc(align, size);
+    void* n = aligned_alloc(align, ((size + align - 1) / align) * align); // aligned_alloc requires a multiple of the alignment
     if(p)
     {
       size_t old = malloc_usable_size(p);
-- 
2.43.0


From 72fd7acebfff5eb08dd5a0f22ed414c606cb2fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:29:10 +0000
Subject: [PATCH 035/191] fix: move-assigning a LocklessBlockPolicy leaked the
 chunks of its target

---
 include/bss-util/BlockAllocMT.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/bss-util/BlockAllocMT.h b/include/bss-util/BlockAllocMT.h
index 0259175..9c47dcc 100644
--- a/include/bss-util/BlockAllocMT.h
+++ b/include/bss-util/BlockAllocMT.h
@@ -92,6 +92,13 @@ namespace bss {
 
     LocklessBlockPolicy& operator=(LocklessBlockPolicy&& mov) noexcept
     {
+      if(this == &mov)
+        return *this;
+      while(Node* hold = _root) // free the chunks we own
+      {
+        _root = hold->next;
+        free(hold);
+      }
       _root = mov._root;
       _freelist.p = mov._freelist.p;
       _freelist.tag = mov._freelist.tag;
-- 
2.43.0


From 2602627aacc5060dcd567f6ec6a0208fccff7d68 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:29:34 +0000
Subject: [PATCH 036/191] fix: move-assigning a GreedyAlloc leaked the chunks
 of its target

---
 include/bss-util/GreedyAlloc.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/bss-util/GreedyAlloc.h b/include/bss-util/GreedyAlloc.h
index fba638a..3faef21 100644
--- a/include/bss-util/GreedyAlloc.h
+++ b/include/bss-util/GreedyAlloc.h
@@ -124,6 +124,13 @@ namespace bss {
 
     GreedyAlloc& operator=(GreedyAlloc&& mov)
     {
+      if(this == &mov)
+        return *this;
+      while(Node* hold = _root.load(std::memory_order_relaxed)) // free the chunks we own
+      {
+        _root.store(hold->next, std::memory_order_relaxed);
+        ALIGNEDFREE(hold);
+      }
       _root.store(mov._root.load(std::memory_order_relaxed), std::memory_order_relaxed);
       _curpos.store(mov._curpos.load(std::memory_order_relaxed), std::memory_order_relaxed);
       assert(_align == mov._align);
-- 
2.43.0


From c3c72e17bc54de89e422ef4e81d0868acc011dfc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:29:48 +0000
Subject: [PATCH 037/191] fix: a LocklessBlockPolicy with no initial blocks
 wrote past its first chunk

---
 include/bss-util/BlockAllocMT.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/BlockAllocMT.h b/include/bss-util/BlockAllocMT.h
index 9c47dcc..276b57e 100644
--- a/include/bss-util/BlockAllocMT.h
+++ b/include/bss-util/BlockAllocMT.h
@@ -145,7 +145,8 @@ namespace bss {
         hold = memref;
       }
 
-      _setFreeList(hold, (void*)(chunk + 1)); // The target here is different because normally, the first block (at chunk+1) would point to whatever _freelist used to be. However, since we are lockless, _freelist could not be 0 at the time we insert this, so we have to essentially go backwards and set the first one to whatever freelist is NOW, before setting freelist to the one on the end.
+      if(hold) // An empty chunk has nothing to put on the freelist
+        _setFreeList(hold, (void*)(chunk + 1)); // The target here is different because normally, the first block (at chunk+1) would point to whatever _freelist used to be. However, since we are lockless, _freelist could not be 0 at the time we insert this, so we have to essentially go backwards and set the first one to whatever freelist is NOW, before setting freelist to the one on the end.
     }
 
     inline void _setFreeList(void* p, void* target) noexcept
-- 
2.43.0


From 8f6f2fda30e80cea0749d334f9f83bb51343f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:35:18 +0000
Subject: [PATCH 038/191] fix: RingAlloc rolled back failed reservations and
 could hand out the same bytes to two threads

---
 include/bss-util/RingAlloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/RingAlloc.h b/include/bss-util/RingAlloc.h
index ced0f33..0139656 100644
--- a/include/bss-util/RingAlloc.h
+++ b/include/bss-util/RingAlloc.h
@@ -65,7 +65,7 @@ namespace bss {
 
         if(rend > cur->sz) // If we went over the limit, we'll have to grab another bucket
         {
-          cur->reserved.fetch_sub(n, std::memory_order_release);
+          // reserved is deliberately not rolled back: undoing a failed reservation would hand out space twice if another reservation happened in between
           cur->lock.RUnlock();
 
           if(!r) // If r was zero, it's theoretically possible for this bucket to get orphaned, so we send it into the _checkRecycle function
-- 
2.43.0


From 8354a7b4e641629f7927cd96535a2b969b19b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:36:07 +0000
Subject: [PATCH 039/191] fix: two threads adding the same size to a CacheAlloc
 at once dropped its freelist

---
 include/bss-util/CacheAlloc.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index 4e89d70..40a6321 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -40,7 +40,9 @@ namespace bss {
         if(!_cache.ExistsIter(i))
         {
           _cachelock.Upgrade();
-          i = _cache.Insert(sz, { 0, 0 });
+          i = _cache.Iterator(sz);
+          if(!_cache.ExistsIter(i)) // Upgrade() may let another writer through first, which could have added this size already
+            i = _cache.Insert(sz, { 0, 0 });
           _cachelock.Downgrade();
         }
         assert(_cache.ExistsIter(i));
-- 
2.43.0


From bb5ea0f93700d78a7e49e39bef0b4408510ba695 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:39:07 +0000
Subject: [PATCH 040/191] fix: 4-byte asmcas and asmcasr compared and wrote 8
 bytes

---
 include/bss-util/lockless.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/lockless.h b/include/bss-util/lockless.h
index db35964..00a9533 100644
--- a/include/bss-util/lockless.h
+++ b/include/bss-util/lockless.h
@@ -138,7 +138,7 @@ namespace bss {
       BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile short*)dest, *(int16_t*)&oldval, *(int16_t*)&newval) != 0; }
     };
     template<typename T> struct ASMCAS_REGPICK_WRITE<T, 4> {
-      BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile long*)dest, *(int32_t*)&oldval, *(int32_t*)&newval) != 0; }
+      BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile int32_t*)dest, *(int32_t*)&oldval, *(int32_t*)&newval) != 0; }
     };
     template<typename T> struct ASMCAS_REGPICK_WRITE<T, 8> {
       BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile long long*)dest, *(int64_t*)&oldval, *(int64_t*)&newval) != 0; }
@@ -183,7 +183,7 @@ namespace bss {
       BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(short*)&retval = __sync_val_compare_and_swap((volatile short*)dest, *(int16_t*)&oldval, *(int16_t*)&newval); return *(int16_t*)&retval == *(int16_t*)&oldval; }
     };
     template<typename T> struct ASMCAS_REGPICK_READ<T, 4> {
-      BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(long*)&retval = __sync_val_compare_and_swap((volatile long*)dest, *(int32_t*)&oldval, *(int32_t*)&newval); return *(int32_t*)&retval == *(int32_t*)&oldval; }
+      BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(int32_t*)&retval = __sync_val_compare_and_swap((volatile int32_t*)dest, *(int32_t*)&oldval, *(int32_t*)&newval); return *(int32_t*)&retval == *(int32_t*)&oldval; }
     };
     template<typename T> struct ASMCAS_REGPICK_READ<T, 8> {
       BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(long long*)&retval = __sync_val_compare_and_swap((volatile long long*)dest, *(int64_t*)&oldval, *(int64_t*)&newval); return *(int64_t*)&retval == *(int64_t*)&oldval; }
-- 
2.43.0


From 6f40b4f7eeef89f1422f8ba4ccec94f94de01d8f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:42:35 +0000
Subject: [PATCH 041/191] fix: LocklessQueue read elements and recycled nodes
 without acquiring the other thread's writes (data race)

---
 include/bss-util/LocklessQueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/LocklessQueue.h b/include/bss-util/LocklessQueue.h
index 0e0a706..0c0fb24 100644
--- a/include/bss-util/LocklessQueue.h
+++ b/include/bss-util/LocklessQueue.h
@@ -77,7 +77,7 @@ namespace bss {
     {
       QNODE* div = _div.load(std::memory_order_acquire);
 
-      if(div != _last.load(std::memory_order_relaxed))
+      if(div != _last.load(std::memory_order_acquire))
       {
         result = std::move(div->next->item); 	// try to use move semantics if possible
         _div.store(div->next, std::memory_order_release); // publish it
@@ -111,7 +111,7 @@ namespace bss {
       internal::LocklessQueue_Length<LENGTH>::_incLength(); // If we are tracking length, atomically increment it
 
       QNODE* tmp; // collect garbage
-      while(_first != _div.load(std::memory_order_relaxed))
+      while(_first != _div.load(std::memory_order_acquire))
       {
         tmp = _first;
         _first = _first->next;
-- 
2.43.0


From 31b1ed65e403d116f371da5148e7e000c137db08 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:54:53 +0000
Subject: [PATCH 042/191] fix: Thread::join(timeout) used an invalid deadline
 when it crossed a second and never returned

---
 include/bss-util/Thread.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bss-util/Thread.h b/include/bss-util/Thread.h
index 1235749..70e85ca 100644
--- a/include/bss-util/Thread.h
+++ b/include/bss-util/Thread.h
@@ -93,6 +93,11 @@ namespace bss {
         {
           ts.tv_sec += mstimeout / 1000;
           ts.tv_nsec += (mstimeout % 1000) * 1000000;
+          if(ts.tv_nsec >= 1000000000) // tv_nsec must stay below one second
+          {
+            ts.tv_sec += 1;
+            ts.tv_nsec -= 1000000000;
+          }
           if(pthread_timedjoin_np(native_handle(), (void**)&ret, &ts) != 0) // size_t is defined as being big enough to hold a pointer
             return (size_t)~0;
         }
-- 
2.43.0


From 002065335eba76752230f4ab36f1c6fec8095c41 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:12:49 +0000
Subject: [PATCH 043/191] fix: Str::Trim removed trailing characters outside of
 ASCII

---
 include/bss-util/Str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Str.h b/include/bss-util/Str.h
index a235ec3..576ac7b 100644
--- a/include/bss-util/Str.h
+++ b/include/bss-util/Str.h
@@ -308,7 +308,7 @@ namespace bss {
     }
 
     inline static T* _ltrim(T* str) { for(; *str > 0 && *str < 33; ++str); return str; }
-    inline static T* _rtrim(T* str, size_t size) { T* inter = str + size; for(; inter > str && *inter < 33; --inter); *(++inter) = 0; return str; }
+    inline static T* _rtrim(T* str, size_t size) { T* inter = str + size; for(; inter > str && (std::make_unsigned_t<T>)*inter < 33; --inter); *(++inter) = 0; return str; }
 
   };
 #pragma warning(pop)
-- 
2.43.0


From 21cbcc712cfe3efef5980e52dff49aeff6ed24af Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:12:49 +0000
Subject: [PATCH 044/191] fix: building a Str from a counted or invalid string
 of another encoding dropped its last character, or threw if it was empty

---
 include/bss-util/Str.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Str.h b/include/bss-util/Str.h
index 576ac7b..b52e63a 100644
--- a/include/bss-util/Str.h
+++ b/include/bss-util/Str.h
@@ -291,7 +291,7 @@ namespace bss {
       if(r == (size_t)~0)
         return; // If somehow still invalid, bail again
 
-      BASE::resize(r - 1); // resize to actual number of characters instead of simply the maximum (disregard null terminator)
+      BASE::resize((r > 0 && !_internalPtr()[r - 1]) ? r - 1 : r); // resize to actual number of characters instead of simply the maximum (disregard null terminator, if there is one)
     }
     BSS_FORCEINLINE void _convStr2(const OTHER_C2* src, ptrdiff_t len)
     {
@@ -304,7 +304,7 @@ namespace bss {
       if(r == (size_t)~0)
         return; // If somehow still invalid, bail again
 
-      BASE::resize(r - 1); // resize to actual number of characters instead of simply the maximum (disregard null terminator)
+      BASE::resize((r > 0 && !_internalPtr()[r - 1]) ? r - 1 : r); // resize to actual number of characters instead of simply the maximum (disregard null terminator, if there is one)
     }
 
     inline static T* _ltrim(T* str) { for(; *str > 0 && *str < 33; ++str); return str; }
-- 
2.43.0


From 12c4f45b008416f5bc2aea92fcd9837a641d30af Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:12:49 +0000
Subject: [PATCH 045/191] fix: the UTF-8 and UTF-32 conversions read one
 element past the end of a source given by length

---
 bss-util/ConvertUTF.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bss-util/ConvertUTF.c b/bss-util/ConvertUTF.c
index 0c758ce..058c076 100644
--- a/bss-util/ConvertUTF.c
+++ b/bss-util/ConvertUTF.c
@@ -118,7 +118,7 @@ BSS_DLLEXPORT size_t UTF32toUTF16(const char32_t*BSS_RESTRICT input, ptrdiff_t s
   UTF16* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char32_t*)source) < srclen)
+  while((input - (const char32_t*)source) < srclen && *input)
   {
     buflen += 1 + (*input > UNI_MAX_BMP);
     ++input;
@@ -255,7 +255,7 @@ BSS_DLLEXPORT size_t UTF32toUTF8(const char32_t*BSS_RESTRICT input, ptrdiff_t sr
   UTF8* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char32_t*)source) < srclen)
+  while((input - (const char32_t*)source) < srclen && *input)
   {
     if(*input < (UTF32)0x80)
       buflen += 1;
@@ -400,7 +400,7 @@ BSS_DLLEXPORT size_t UTF8toUTF32(const char*BSS_RESTRICT input, ptrdiff_t srclen
   UTF32* targetEnd = target + buflen;
   if(srclen < 0) srclen = PTRDIFF_MAX;
   buflen = 1;
-  while(*input && (input - (const char*)source) < srclen)
+  while((input - (const char*)source) < srclen && *input)
   {
     buflen += (((*input) & 0b11000000) != 0b10000000);
     ++input;
-- 
2.43.0


From 6dd2167705450ab214b91aac3399c3875df31e6d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:12:49 +0000
Subject: [PATCH 046/191] fix: converting between UTF-8 and wchar_t strings
 swapped the two encodings outside of Windows and treated 32-bit wchar_t as
 16-bit

---
 bss-util/bss_util_c.c | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/bss-util/bss_util_c.c b/bss-util/bss_util_c.c
index 10d60e3..1a722f1 100644
--- a/bss-util/bss_util_c.c
+++ b/bss-util/bss_util_c.c
@@ -12,7 +12,6 @@
 #include <intrin.h>
 #include <psapi.h>
 #else
-#include <iconv.h>
 #include <unistd.h> // for sysconf
 #include <cpuid.h>
 #include <stdio.h>
@@ -135,14 +134,7 @@ size_t UTF8toUTF16(const char*BSS_RESTRICT input, ptrdiff_t srclen, wchar_t*BSS_
 #ifdef BSS_PLATFORM_WIN32
   return (size_t)MultiByteToWideChar(CP_UTF8, 0, input, (int)srclen, output, (int)(!output ? 0 : buflen));
 #else
-  static iconv_t iconv_utf8to16 = 0;
-  size_t len = srclen < 0 ? strlen(input) : srclen;
-  char* out = (char*)output;
-  if(!output) return (len * 4) + 1;
-  len += 1; // include null terminator
-  if(!iconv_utf8to16) iconv_utf8to16 = iconv_open("UTF-8", "UTF-16");
-  char* in = (char*)input; // Linux is stupid
-  return iconv(iconv_utf8to16, &in, &len, &out, &buflen);
+  return UTF8toUTF32(input, srclen, (char32_t*)output, buflen); // wchar_t is 32-bit here
 #endif
 }
 
@@ -152,13 +144,7 @@ size_t UTF16toUTF8(const wchar_t*BSS_RESTRICT input, ptrdiff_t srclen, char*BSS_
 #ifdef BSS_PLATFORM_WIN32
   return (size_t)WideCharToMultiByte(CP_UTF8, 0, input, (int)srclen, output, (int)(!output ? 0 : buflen), NULL, NULL);
 #else
-  static iconv_t iconv_utf16to8 = 0;
-  size_t len = (srclen < 0 ? wcslen(input) : srclen) * 2;
-  char* in = (char*)input;
-  if(!output) return (len * 2) + 1;
-  len += 2; // include null terminator (which is 2 bytes wide here)
-  if(!iconv_utf16to8) iconv_utf16to8 = iconv_open("UTF-16", "UTF-8");
-  return iconv(iconv_utf16to8, &in, &len, &output, &buflen);
+  return UTF32toUTF8((const char32_t*)input, srclen, output, buflen); // wchar_t is 32-bit here
 #endif
 }
 
-- 
2.43.0


From 53ef95347934fb1653d0d16dbdb1aee85bcae5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:42:58 +0000
Subject: [PATCH 047/191] fix: converting between UTF-32 and wchar_t strings
 treated 32-bit wchar_t as 16-bit

---
 bss-util/ConvertUTF.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bss-util/ConvertUTF.c b/bss-util/ConvertUTF.c
index 058c076..fd015a3 100644
--- a/bss-util/ConvertUTF.c
+++ b/bss-util/ConvertUTF.c
@@ -45,7 +45,7 @@ See the header file "ConvertUTF.h" for complete documentation.
 static const int halfShift = 10; /* used for shifting by 10 bits */
 
 typedef unsigned int UTF32;
-typedef unsigned short UTF16;
+typedef wchar_t UTF16; /* the unit of the strings converted here, which is 32-bit outside of Windows and then holds whole characters */
 typedef unsigned char UTF8;
 
 static const UTF32 halfBase = 0x0010000UL;
@@ -134,7 +134,7 @@ BSS_DLLEXPORT size_t UTF32toUTF16(const char32_t*BSS_RESTRICT input, ptrdiff_t s
       break;
     }
     ch = *source++;
-    if(ch <= UNI_MAX_BMP)
+    if(ch <= UNI_MAX_BMP || (sizeof(UTF16) > 2 && ch <= UNI_MAX_LEGAL_UTF32))
     { /* Target is a character <= 0xFFFF */
       /* UTF-16 surrogate values are illegal in UTF-32; 0xffff or 0xfffe are both reserved values */
       if(ch >= UNI_SUR_HIGH_START && ch <= UNI_SUR_LOW_END)
-- 
2.43.0


From e9ee69c6bf1743f526eaf38e51e6e722399dea12 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:53:47 +0000
Subject: [PATCH 048/191] fix: BitLimit chose too small a type for 24, 40, 48
 and 56 bits

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 2fda1b3..ceb0a1a 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -71,7 +71,7 @@ namespace bss {
   template<uint8_t BITS>
   struct BitLimit
   {
-    static constexpr uint16_t BYTES = ((T_CHARGETMSB(BITS) >> 3) << (0 + ((BITS % 8) > 0))) + (BITS < 8);
+    static constexpr uint16_t BYTES = (BITS <= 8) ? 1 : ((BITS <= 16) ? 2 : ((BITS <= 32) ? 4 : ((BITS <= 64) ? 8 : 16)));
     typedef typename std::conditional<sizeof(char) == BYTES, char,  //rounds the type up if necessary.
       typename std::conditional<sizeof(short) == BYTES, short,
       typename std::conditional<sizeof(int) == BYTES, int,
-- 
2.43.0


From e51ed0e184a1b02c7af9442257f00b253224686a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:53:47 +0000
Subject: [PATCH 049/191] fix: BitCount was wrong for signed types

---
 include/bss-util/bss_util.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index ceb0a1a..bcd0f09 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -720,10 +720,11 @@ namespace bss {
 
   // Counts the number of bits in v (up to 128-bit types) using the parallel method detailed here: http://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetParallel
   template<typename Tx>
-  inline uint8_t BitCount(Tx v) noexcept
+  inline uint8_t BitCount(Tx x) noexcept
   {
-    typedef typename make_integral<Tx>::type T;
-    static_assert(std::is_integral<T>::value, "T must be integral");
+    static_assert(std::is_integral<typename make_integral<Tx>::type>::value, "T must be integral");
+    typedef typename std::make_unsigned<Tx>::type T; // The bit tricks below only work on unsigned types
+    T v = (T)x;
     v = v - ((v >> 1) & (T)~(T)0 / 3);                           // temp
     v = (v & (T)~(T)0 / 15 * 3) + ((v >> 2) & (T)~(T)0 / 15 * 3);      // temp
     v = (v + (v >> 4)) & (T)~(T)0 / 255 * 15;                      // temp
-- 
2.43.0


From 5fb570db9fe1486687869377f4753aff20516188 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:53:47 +0000
Subject: [PATCH 050/191] fix: bssLog2 of 64-bit values only looked at the low
 32 bits

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index bcd0f09..c9a5da7 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -871,7 +871,7 @@ namespace bss {
     unsigned long r;
     _BitScanReverse64(&r, v);
 #elif defined(BSS_COMPILER_GCC) && defined(BSS_64BIT)
-    uint32_t r = !v ? 0 : ((sizeof(uint64_t) << 3) - 1 - __builtin_clz(v));
+    uint32_t r = !v ? 0 : ((sizeof(uint64_t) << 3) - 1 - __builtin_clzll(v));
 #else
     const uint64_t b[] = { 0x2, 0xC, 0xF0, 0xFF00, 0xFFFF0000, 0xFFFFFFFF00000000 };
     const uint32_t S[] = { 1, 2, 4, 8, 16, 32 };
-- 
2.43.0


From 1d9c8d88405c2c2bb788f1005ecdfa1648a56189 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:53:47 +0000
Subject: [PATCH 051/191] fix: bssGetBit could not see bits above 31 of a
 64-bit word

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index c9a5da7..24ad9a7 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -108,7 +108,7 @@ namespace bss {
   BSS_FORCEINLINE T bssSetBit(T word, T bit, bool v) noexcept { return (((word) & (~(bit))) | ((T)(-(typename std::make_signed<T>::type)v) & (bit))); }
 
   template<class T>
-  BSS_FORCEINLINE constexpr bool bssGetBit(T* p, size_t index) { return (p[index / (sizeof(T) << 3)] & (1 << (index % (sizeof(T) << 3)))) != 0; }
+  BSS_FORCEINLINE constexpr bool bssGetBit(T* p, size_t index) { return (p[index / (sizeof(T) << 3)] & ((T)1 << (index % (sizeof(T) << 3)))) != 0; }
 
   // Replaces one character with another in a string
   template<typename T>
-- 
2.43.0


From 989108a0d5a70c2c11c2b26da1555fed0c20ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:53:48 +0000
Subject: [PATCH 052/191] fix: IntFastSqrt was wrong for 64-bit values from
 2^60 up

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 24ad9a7..1b3cf4c 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -646,7 +646,7 @@ namespace bss {
       if(n >= t)
       {
         n -= t;
-        root |= 2 << (i);
+        root |= ((T)2) << (i);
       }
     }
     return root >> 1;
-- 
2.43.0


From f19214ccb1a92fe3d03a39546de4c52aa36c0533 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:53:48 +0000
Subject: [PATCH 053/191] fix: bssVariance divided by the value instead of the
 number of values

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 1b3cf4c..bcc85cb 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -693,7 +693,7 @@ namespace bss {
     static_assert(std::is_integral<CT_>::value, "CT_ must be integral");
     static_assert(std::is_floating_point<T>::value, "T must be float, double, or long double");
     T delta = nvalue - avg;
-    avg += delta / (T)nvalue;
+    avg += delta / (T)nextnum;
     curvariance += delta*(nvalue - avg);
   }
 
-- 
2.43.0


From b3e19cc2e1a74b2c7c6345c74fc70adb8fe79466 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:53:48 +0000
Subject: [PATCH 054/191] fix: bssAbs overflowed for the most negative value

---
 include/bss-util/bss_util.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index bcc85cb..feff7de 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -911,7 +911,8 @@ namespace bss {
   {
     static_assert(std::is_signed<T>::value, "T must be signed for this to work properly.");
     T const mask = x >> ((sizeof(T) << 3) - 1); // Uses a bit twiddling hack to take absolute value without branching: https://graphics.stanford.edu/~seander/bithacks.html#IntegerAbs
-    return (x + mask) ^ mask;
+    typedef typename std::make_unsigned<T>::type UT; // unsigned, so the most negative value doesn't overflow
+    return ((UT)x + (UT)mask) ^ (UT)mask;
   }
 
   template<class T, bool U = std::is_signed<T>::value>
-- 
2.43.0


From 60abe861efc9ab6c524626fc78194bcfdd0a6a4b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:54:37 +0000
Subject: [PATCH 055/191] fix: fCompare overflowed for values of opposite sign

---
 include/bss-util/bss_util.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index feff7de..acc97fb 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -539,10 +539,10 @@ namespace bss {
     //assert(af!=0.0f && bf!=0.0f); // Use fSmall for this
     int32_t test = (-(int32_t)(((uint32_t)(a.i^b.i)) >> 31));
     assert((0 == test) || (0xFFFFFFFF == (uint32_t)test));
-    int32_t diff = ((a.i + test) ^ (test & 0x7fffffff)) - b.i;
-    int32_t v1 = maxDiff + diff;
-    int32_t v2 = maxDiff - diff;
-    return (v1 | v2) >= 0;
+    uint32_t diff = (((uint32_t)a.i + (uint32_t)test) ^ (uint32_t)(test & 0x7fffffff)) - (uint32_t)b.i; // unsigned, because values of opposite sign wrap around
+    uint32_t v1 = (uint32_t)maxDiff + diff;
+    uint32_t v2 = (uint32_t)maxDiff - diff;
+    return (int32_t)(v1 | v2) >= 0;
   }
 
   inline bool fCompare(double af, double bf, int64_t maxDiff = 1) noexcept
@@ -552,10 +552,10 @@ namespace bss {
     //assert(af!=0.0 && bf!=0.0); // Use fSmall for this
     int64_t test = (-(int64_t)(((uint64_t)(a.i^b.i)) >> 63));
     assert((0 == test) || (0xFFFFFFFFFFFFFFFF == (uint64_t)test));
-    int64_t diff = ((a.i + test) ^ (test & 0x7fffffffffffffff)) - b.i;
-    int64_t v1 = maxDiff + diff;
-    int64_t v2 = maxDiff - diff;
-    return (v1 | v2) >= 0;
+    uint64_t diff = (((uint64_t)a.i + (uint64_t)test) ^ (uint64_t)(test & 0x7fffffffffffffff)) - (uint64_t)b.i; // unsigned, because values of opposite sign wrap around
+    uint64_t v1 = (uint64_t)maxDiff + diff;
+    uint64_t v2 = (uint64_t)maxDiff - diff;
+    return (int64_t)(v1 | v2) >= 0;
   }
 
   // This determines if a float is sufficiently close to 0
-- 
2.43.0


From 639eb50b4de3eff4e0913a7adae91d84ffd20267 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:54:49 +0000
Subject: [PATCH 056/191] fix: portable multiply-extract shifted by the full
 width of its type when the shift is 0

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index acc97fb..242b4b9 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -959,7 +959,7 @@ namespace bss {
       if(shift >= (T)(sizeof(U) << 3))
         return ((T)high) >> (shift - (sizeof(U) << 3));
       low = (low >> shift);
-      high = (high << ((sizeof(T) << 3) - shift)) & (-(shift > 0)); // shifting left by 64 bits is undefined, so we use a bit trick to set high to zero if shift is 0 without branching.
+      high = (shift > 0) ? (high << ((sizeof(T) << 3) - shift)) : 0; // shifting left by 64 bits is undefined, so high is simply dropped if shift is 0.
       return (T)(low | high);
     }
   }
-- 
2.43.0


From a89bc0582561a731b619252755505e23fc3053d7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:55:19 +0000
Subject: [PATCH 057/191] fix: BreadthFirstTree stopped early when its queue
 filled up

---
 include/bss-util/algo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index ecafb3f..3190af4 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -305,7 +305,7 @@ namespace bss {
       return;
     }
 
-    n = (n / 2) + 1;
+    n = ((n + 1) / 2) + 2; // At most half the nodes (rounded up) can be waiting, plus the current node and one slot that tells a full queue from an empty one
     VARARRAY(T*, queue, n);
     queue[0] = root;
     size_t l = 1;
-- 
2.43.0


From f93ce97ee0f30648bb3d543320f4a83f4f44f278 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:57:42 +0000
Subject: [PATCH 058/191] fix: hash64_fnv1a only kept 32 bits and sign extended
 its input

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 242b4b9..2c95158 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -1013,7 +1013,7 @@ namespace bss {
   }
 
   inline constexpr uint64_t hash64_fnv1a(const char* const str, const uint64_t value = 0xcbf29ce484222325) noexcept {
-    return (str[0] == '\0') ? value : hash64_fnv1a(&str[1], uint32_t(uint64_t(value ^ uint64_t(str[0])) * 0x100000001b3ULL));
+    return (str[0] == '\0') ? value : hash64_fnv1a(&str[1], uint64_t(value ^ uint64_t(uint8_t(str[0]))) * 0x100000001b3ULL);
   }
 
   // template helper is_specialization_of, which can check if T is a specialization of any type that takes a variadic number of arguments (variant, tuple, etc.)
-- 
2.43.0


From f1e73f71b30b090a0e500bf22acc41ed6a30e46b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:57:42 +0000
Subject: [PATCH 059/191] fix: hash_fnv1a sign extended its input

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 2c95158..b248b10 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -1009,7 +1009,7 @@ namespace bss {
 
   // post: https://notes.underscorediscovery.com/constexpr-fnv1a/
   inline constexpr uint32_t hash_fnv1a(const char* const str, const uint32_t value = 0x811c9dc5) noexcept {
-    return (str[0] == '\0') ? value : hash_fnv1a(&str[1], uint32_t(uint64_t(value ^ uint32_t(str[0])) * 0x1000193ULL));
+    return (str[0] == '\0') ? value : hash_fnv1a(&str[1], uint32_t(uint64_t(value ^ uint32_t(uint8_t(str[0]))) * 0x1000193ULL));
   }
 
   inline constexpr uint64_t hash64_fnv1a(const char* const str, const uint64_t value = 0xcbf29ce484222325) noexcept {
-- 
2.43.0


From edc30c8ac3d4d08b876930c15e09f6a32ef2029e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:57:42 +0000
Subject: [PATCH 060/191] fix: strrtrim wrote past the end of empty strings,
 kept a blank and cut off non-ASCII characters

---
 include/bss-util/bss_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index b248b10..d6c94f1 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -209,8 +209,8 @@ namespace bss {
     static_assert(std::is_integral<T>::value, "T must be integral");
     T* inter = str + strlen(str);
 
-    for(; inter > str && *inter < 33; --inter);
-    *(++inter) = '\0';
+    for(; inter > str && inter[-1] > 0 && inter[-1] < 33; --inter);
+    *inter = '\0';
     return str;
   }
 
-- 
2.43.0


From 6ed98cf980d987fc4c790983ab265c78c0fac604 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:57:42 +0000
Subject: [PATCH 061/191] fix: strccount with a length read past the terminator

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index d6c94f1..20728fd 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -146,7 +146,7 @@ namespace bss {
   {
     static_assert(std::is_integral<T>::value, "T must be integral");
     size_t ret = 0;
-    for(size_t i = 0; (i < length) && ((*string) != 0); ++i)
+    for(size_t i = 0; (i < length) && (string[i] != 0); ++i)
       if(string[i] == c) ++ret;
     return ret;
   }
-- 
2.43.0


From f81103a0db29c4d4f66229d9ad2f1b993b3fbe5f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:57:42 +0000
Subject: [PATCH 062/191] fix: OutputUnicode dropped U+10FFFF

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 20728fd..3e92bff 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -331,7 +331,7 @@ namespace bss {
     if(c < 0x0080) s += c;
     else if(c < 0x0800) { s += (0xC0 | c >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
     else if(c < 0x10000) { s += (0xE0 | c >> (6 * 2)); s += (0x80 | (c & 0x0FC0) >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
-    else if(c < 0x10FFFF) { s += (0xF0 | c >> (6 * 3)); s += (0x80 | (c & 0x03F000) >> (6 * 2)); s += (0x80 | (c & 0x0FC0) >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
+    else if(c <= 0x10FFFF) { s += (0xF0 | c >> (6 * 3)); s += (0x80 | (c & 0x03F000) >> (6 * 2)); s += (0x80 | (c & 0x0FC0) >> (6 * 1)); s += (0x80 | (c & 0x3F)); }
     // Otherwise this is an illegal codepoint so just ignore it
   }
 
-- 
2.43.0


From 53bd9acd72e07fef53c5e8db1d32c35302f53d85 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:57:42 +0000
Subject: [PATCH 063/191] fix: Base64Decode read outside its table for
 characters that are not base64

---
 include/bss-util/algo.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index 3190af4..80306ed 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -679,19 +679,20 @@ namespace bss {
     uint8_t map[78] = { 62,0,0,52,53,54,55,56,57,58,59,60,61,0,0,0,0,0,0,0,
     0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,0,0,0,0,63,0,
     26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51 };
+    auto get = [&map](char c) -> uint8_t { size_t n = (size_t)((uint8_t)c - '-'); return n < sizeof(map) ? map[n] : 0; }; // characters outside of the table count as 0
     size_t s = cnt & (~0b11);
 
     for(; i < s; i += 4)
     {
-      out[c++] = (map[src[i + 0] - '-'] << 2) | (map[src[i + 1] - '-'] >> 4);
-      out[c++] = (map[src[i + 1] - '-'] << 4) | (map[src[i + 2] - '-'] >> 2);
-      out[c++] = (map[src[i + 2] - '-'] << 6) | (map[src[i + 3] - '-']);
+      out[c++] = (get(src[i + 0]) << 2) | (get(src[i + 1]) >> 4);
+      out[c++] = (get(src[i + 1]) << 4) | (get(src[i + 2]) >> 2);
+      out[c++] = (get(src[i + 2]) << 6) | (get(src[i + 3]));
     }
 
     if(++i < cnt) // we do ++i here even though i was already valid because the first character requires TWO source characters, not 1.
-      out[c++] = (map[src[i - 1] - '-'] << 2) | (map[src[i] - '-'] >> 4); 
+      out[c++] = (get(src[i - 1]) << 2) | (get(src[i]) >> 4); 
     if(++i < cnt)
-      out[c++] = (map[src[i - 1] - '-'] << 4) | (map[src[i] - '-'] >> 2);
+      out[c++] = (get(src[i - 1]) << 4) | (get(src[i]) >> 2);
     return c;
   }
 }
-- 
2.43.0


From 98a483c09b6392acdd687b9b213bfbe9d6bbfc41 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:57:42 +0000
Subject: [PATCH 064/191] fix: itoa_r overflowed for the most negative value

---
 bss-util/bss_util_c.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bss-util/bss_util_c.c b/bss-util/bss_util_c.c
index 1a722f1..c6d8ac8 100644
--- a/bss-util/bss_util_c.c
+++ b/bss-util/bss_util_c.c
@@ -201,6 +201,7 @@ BSS_DLLEXPORT
 extern int itoa_r(int val, char* buf, int size, unsigned int radix)
 {
   int t;
+  unsigned int v = val;
   char tmp;
   char* cur = buf;
   char* p;
@@ -209,7 +210,7 @@ extern int itoa_r(int val, char* buf, int size, unsigned int radix)
   if(val < 0)
   {
     *cur++ = '-'; // This is safe because we've already checked to ensure size > 0, so we have at least one character to work with.
-    val = -val;
+    v = 0 - v; // unsigned, because the most negative value cannot be negated
   }
 
   p = cur;
@@ -217,11 +218,11 @@ extern int itoa_r(int val, char* buf, int size, unsigned int radix)
 
   while((cur - buf) < size)
   {
-    t = (val%radix);
+    t = (v%radix);
     *cur++ = (t > 9) ? (t + '7') : (t + '0'); //This allows radix 16 to work
-    val /= radix;
+    v /= radix;
 
-    if(val <= 0) break;
+    if(!v) break;
   }
 
   *cur-- = 0;
-- 
2.43.0


From a60a5b8e7cc68686a42d3912b0d0a5ee2ff787e0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:04:21 +0000
Subject: [PATCH 065/191] fix: the JSON writer put control characters into
 strings and special characters into member names without escaping them

---
 include/bss-util/JSON.h | 52 +++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 1cb213b..b3803b5 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -122,10 +122,40 @@ namespace bss {
           WriteJSONTabs(s, pretty);
         }
 
-        s << '"' << id << '"' << ": ";
+        WriteJSONString(id, strlen(id), s);
+        s << ": ";
       }
     }
 
+    static inline void WriteJSONString(const char* str, size_t len, std::ostream& s)
+    {
+      static const char* hex = "0123456789abcdef";
+      s << '"';
+
+      for(size_t i = 0; i < len; ++i)
+      {
+        switch(str[i])
+        {
+        case '"': s << "\\\""; break;
+        case '\\': s << "\\\\"; break;
+        case '/': s << "\\/"; break;
+        case '\b': s << "\\b"; break;
+        case '\f': s << "\\f"; break;
+        case '\n': s << "\\n"; break;
+        case '\r': s << "\\r"; break;
+        case '\t': s << "\\t"; break;
+        default:
+          if((unsigned char)str[i] < 0x20)
+            s << "\\u00" << hex[str[i] >> 4] << hex[str[i] & 0xF];
+          else
+            s << str[i];
+          break;
+        }
+      }
+
+      s << '"';
+    }
+
     static inline void WriteJSONComma(std::ostream& s, size_t& pretty)
     {
       if(pretty & JSONEngine::PRETTYFLAG)
@@ -380,25 +410,7 @@ namespace bss {
   {
     JSONEngine::WriteJSONComma(s, e.engine.pretty);
     JSONEngine::WriteJSONId(id, s, e.engine.pretty);
-    s << '"';
-
-    for(size_t i = 0; i < obj.size(); ++i)
-    {
-      switch(obj[i])
-      {
-      case '"': s << "\\\""; break;
-      case '\\': s << "\\\\"; break;
-      case '/': s << "\\/"; break;
-      case '\b': s << "\\b"; break;
-      case '\f': s << "\\f"; break;
-      case '\n': s << "\\n"; break;
-      case '\r': s << "\\r"; break;
-      case '\t': s << "\\t"; break;
-      default: s << obj[i]; break;
-      }
-    }
-
-    s << '"';
+    JSONEngine::WriteJSONString(obj.c_str(), obj.size(), s);
   }
 
   template<>
-- 
2.43.0


From d733b271b75e93226fe7e76ff3f950fbc2d8cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:04:21 +0000
Subject: [PATCH 066/191] fix: the JSON writer rounded floating point numbers
 to six digits

---
 include/bss-util/JSON.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index b3803b5..379a860 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -11,6 +11,7 @@
 #include "Serializer.h"
 #include <sstream>
 #include <istream>
+#include <limits>
 #include <ostream>
 #include <utility>
 
@@ -474,7 +475,14 @@ namespace bss {
   {
     WriteJSONComma(*e.out, e.engine.pretty);
     WriteJSONId(id, *e.out, e.engine.pretty);
-    (*e.out) << obj;
+    if constexpr(std::is_floating_point<T>::value)
+    {
+      std::streamsize precision = e.out->precision(std::numeric_limits<T>::max_digits10);
+      (*e.out) << obj;
+      e.out->precision(precision);
+    }
+    else
+      (*e.out) << obj;
   }
 
   template<typename T>
-- 
2.43.0


From c6464aa2644e35e96347f8179f38ff9375442f33 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:04:21 +0000
Subject: [PATCH 067/191] fix: the JSON engine wrote and read one-byte integers
 as characters

---
 include/bss-util/JSON.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 379a860..e04afeb 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -361,6 +361,14 @@ namespace bss {
     if(s.peek() == ',' || s.peek() == ']' || s.peek() == '}')
       return;
 
+    if constexpr(std::is_integral<T>::value && sizeof(T) == 1) // don't read the number as a character
+    {
+      int num = obj;
+      ParseNumber<int>(e, num, id);
+      obj = (T)num;
+      return;
+    }
+
     if(s.peek() == '"') // if true, we have to attempt to coerce the string to T
     {
       s.get();
@@ -481,6 +489,8 @@ namespace bss {
       (*e.out) << obj;
       e.out->precision(precision);
     }
+    else if constexpr(sizeof(T) == 1)
+      (*e.out) << (int)obj; // don't write the number out as a character
     else
       (*e.out) << obj;
   }
-- 
2.43.0


From b89ca070c3bbdc0159667fbf416bb6f720657f43 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:04:21 +0000
Subject: [PATCH 068/191] fix: reading a number from a JSON string swallowed
 the character after the closing quote

---
 include/bss-util/JSON.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index e04afeb..e98ed81 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -373,8 +373,7 @@ namespace bss {
     {
       s.get();
       s >> obj; // grab whatever we can
-      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string
-      s.get(); // eat the " character
+      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string and the closing " character
     }
     else
       s >> obj;
-- 
2.43.0


From df85aae82f077ba51d63e5f2d34c12eb2a1a82db Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:04:21 +0000
Subject: [PATCH 069/191] fix: the JSON writer left out null values

---
 include/bss-util/JSON.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index e98ed81..efad206 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -445,6 +445,11 @@ namespace bss {
     case JSONValue::Type<JSONValue::JSONObject>::value:
       Serializer<JSONEngine>::template ActionBind<JSONValue::JSONObject>::Serialize(e, obj.get<JSONValue::JSONObject>(), id);
       break;
+    default:
+      JSONEngine::WriteJSONComma(s, e.engine.pretty);
+      JSONEngine::WriteJSONId(id, s, e.engine.pretty);
+      s << "null";
+      break;
     }
   }
   template<typename T>
-- 
2.43.0


From a3b2e060fb3560e2c6771efb301c52b6fde13efe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:04:56 +0000
Subject: [PATCH 070/191] fix: JSON true, false and null followed by whitespace
 were read as strings

---
 include/bss-util/JSON.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index efad206..171b5b7 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -258,6 +258,8 @@ namespace bss {
       target += c;
       while(!!s && s.peek() != ',' && s.peek() != '}' && s.peek() != ']' && s.peek() != -1)
         target += s.get();
+      while(!target.empty() && isspace((unsigned char)target.back())) // whitespace after the value isn't part of it
+        target.pop_back();
       return;
     }
 
-- 
2.43.0


From f665c4e47db1ce49e79bb40b02e535e377b5e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:04:56 +0000
Subject: [PATCH 071/191] fix: JSON numbers with an exponent but no decimal
 point were read as integers and lost the exponent

---
 include/bss-util/JSON.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index 171b5b7..ae1f130 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -305,7 +305,7 @@ namespace bss {
     {
       Str buf;
       ParseJSONBase<Str>(e, buf, s);
-      const char* dot = strchr(buf.c_str(), '.');
+      const char* dot = strpbrk(buf.c_str(), ".eE");
 
       if(dot)
         target = (double)strtod(buf.c_str(), 0);
-- 
2.43.0


From a0cad74d48dee95ce34de14c7dfd33a82471211a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:05:28 +0000
Subject: [PATCH 072/191] fix: JSON surrogate pairs in \u escapes were read as
 two separate surrogates instead of one character

---
 include/bss-util/JSON.h | 43 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index ae1f130..ea3a3e1 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -92,15 +92,44 @@ namespace bss {
       case 'r': str += '\r'; break;
       case 't': str += '\t'; break;
       case 'u':
-        char buf[5];
-
-        for(int i = 0; i < 4; ++i)
-          buf[i] = src.get();
-
-        buf[4] = 0;
-        OutputUnicode(str, strtoul(buf, 0, 16));
+      {
+        int32_t c = ParseJSONHex(src);
+        if(c >= 0xD800 && c <= 0xDBFF && src.peek() == '\\') // A surrogate pair is a single codepoint
+        {
+          src.get();
+          if(src.peek() == 'u')
+          {
+            src.get();
+            int32_t low = ParseJSONHex(src);
+            if(low >= 0xDC00 && low <= 0xDFFF)
+              c = 0x10000 + ((c - 0xD800) << 10) + (low - 0xDC00);
+            else
+            {
+              OutputUnicode(str, c);
+              c = low;
+            }
+          }
+          else // Some other escape sequence follows
+          {
+            OutputUnicode(str, c);
+            src.unget();
+            break;
+          }
+        }
+        OutputUnicode(str, c);
         break;
       }
+      }
+    }
+    static inline int32_t ParseJSONHex(std::istream& src)
+    {
+      char buf[5];
+
+      for(int i = 0; i < 4; ++i)
+        buf[i] = src.get();
+
+      buf[4] = 0;
+      return (int32_t)strtoul(buf, 0, 16);
     }
     template<typename F>
     static inline void ParseJSONObject(Serializer<JSONEngine>& e, F f);
-- 
2.43.0


From 119b232605a03d8d4ac9926dac2479230069b39c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:08:46 +0000
Subject: [PATCH 073/191] fix: skipping a JSON value nobody asked for, or of
 the wrong kind, stopped in the middle of nested values and strings

---
 include/bss-util/JSON.h | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index ea3a3e1..e9acf38 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -60,11 +60,12 @@ namespace bss {
 
       while(!!s && s.peek() != ',' && s.peek() != '}' && s.peek() != ']' && s.peek() != -1 && pos < 4)
       {
-        if(s.get() != val[pos++])
+        if(s.peek() != val[pos++])
         {
           target = false;
           return;
         }
+        s.get();
       }
 
       target = true;
@@ -73,6 +74,29 @@ namespace bss {
     static void ParseMany(Serializer<JSONEngine>& e, F && f);
 
     static inline void ParseJSONEatWhitespace(std::istream& s) { while(!!s && isspace(s.peek())) s.get(); }
+    static inline void ParseJSONSkip(std::istream& s, char end) // Eats everything up to a comma or the given character, but skips over nested values and strings
+    {
+      for(size_t depth = 0; !!s && s.peek() != -1 && (depth > 0 || (s.peek() != ',' && s.peek() != end));)
+      {
+        switch(s.get())
+        {
+        case '{':
+        case '[':
+          ++depth;
+          break;
+        case '}':
+        case ']':
+          depth -= depth > 0;
+          break;
+        case '"':
+          while(!!s && s.peek() != -1 && s.peek() != '"')
+            if(s.get() == '\\')
+              s.get();
+          s.get();
+          break;
+        }
+      }
+    }
     static inline void ParseJSONEatCharacter(std::string& str, std::istream& src)
     {
       char c = src.get();
@@ -232,7 +256,8 @@ namespace bss {
     std::istream& s = *e.in;
     Str buf;
     ParseJSONEatWhitespace(s);
-    if(!s || s.get() != '{') return;
+    if(!s || s.peek() != '{') return;
+    s.get();
     ParseJSONEatWhitespace(s);
     while(!!s && s.peek() != '}' && s.peek() != -1)
     {
@@ -252,8 +277,7 @@ namespace bss {
       ParseJSONEatWhitespace(s);
       f(e, buf.c_str());
 
-      while(!!s && s.peek() != ',' && s.peek() != '}' && s.peek() != -1) // eat everything up to a , or } character
-        s.get();
+      ParseJSONSkip(s, '}'); // eat everything up to a , or } character
       if(!!s && s.peek() == ',') // Only eat comma if it's there.
         s.get();
 
@@ -367,17 +391,17 @@ namespace bss {
     std::istream& s = *e.in;
     ParseJSONEatWhitespace(s);
 
-    if(!s || s.get() != '[')
+    if(!s || s.peek() != '[')
       return;
 
+    s.get();
     ParseJSONEatWhitespace(s);
     int n = 0;
 
     while(!!s && s.peek() != ']' && s.peek() != -1)
     {
       Add(e, obj, n);
-      while(!!s && s.peek() != ',' && s.peek() != ']' && s.peek() != -1) // eat everything up to a , or ] character
-        s.get();
+      ParseJSONSkip(s, ']'); // eat everything up to a , or ] character
       if(!!s && s.peek() == ',' && s.peek() != -1) // Only eat comma if it's there.
         s.get();
       ParseJSONEatWhitespace(s);
-- 
2.43.0


From aeca96e7428d2511e3d5dd9541326b1ac2c95c98 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:09:24 +0000
Subject: [PATCH 074/191] fix: one JSON value that is not a number where a
 number belongs made everything after it unreadable

---
 include/bss-util/JSON.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/JSON.h b/include/bss-util/JSON.h
index e9acf38..1b868a4 100644
--- a/include/bss-util/JSON.h
+++ b/include/bss-util/JSON.h
@@ -428,10 +428,19 @@ namespace bss {
     {
       s.get();
       s >> obj; // grab whatever we can
-      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string and the closing " character
+      if(s.fail() && !s.bad())
+        s.clear(s.rdstate() & ~std::ios_base::failbit);
+      while(!!s && s.peek() != -1 && s.peek() != '"') // eat the rest of the string
+        if(s.get() == '\\')
+          s.get();
+      s.get(); // eat the " character
     }
     else
+    {
       s >> obj;
+      if(s.fail() && !s.bad()) // If this wasn't a number, don't let it stop us from parsing everything else
+        s.clear(s.rdstate() & ~std::ios_base::failbit);
+    }
   }
 
   template<class T>
-- 
2.43.0


From a169587c1a741f33812c591c8fe287526233a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:12:53 +0000
Subject: [PATCH 075/191] fix: strccount with a length counted nothing if the
 first character was zero, and a previous fix made it stop at any zero, which
 StringTable counts

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index 3e92bff..f2d813a 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -146,7 +146,7 @@ namespace bss {
   {
     static_assert(std::is_integral<T>::value, "T must be integral");
     size_t ret = 0;
-    for(size_t i = 0; (i < length) && (string[i] != 0); ++i)
+    for(size_t i = 0; i < length; ++i)
       if(string[i] == c) ++ret;
     return ret;
   }
-- 
2.43.0


From e25d714dc8072524f9849e8409b55e142e8c1bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:17:27 +0000
Subject: [PATCH 076/191] fix: Variant stored its value with an alignment of
 one byte

---
 include/bss-util/Variant.h | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/include/bss-util/Variant.h b/include/bss-util/Variant.h
index 2a59cd3..39cf4d4 100644
--- a/include/bss-util/Variant.h
+++ b/include/bss-util/Variant.h
@@ -36,13 +36,10 @@ namespace bss {
 
     // Compile-time max alignment
     template<typename A, typename... Ax>
-    struct max_alignof {
-      static constexpr size_t value = (max_alignof<Ax...>::value > alignof(A)) ? max_alignof<Ax...>::value : alignof(A);
-      typedef std::conditional<(max_alignof<Ax...>::value > alignof(A)), A, typename max_alignof<Ax...>::type> type;
-    };
+    struct max_alignof { static constexpr size_t value = (max_alignof<Ax...>::value > alignof(A)) ? max_alignof<Ax...>::value : alignof(A); };
 
     template<typename A>
-    struct max_alignof<A> { static constexpr size_t value = alignof(A); typedef A type; };
+    struct max_alignof<A> { static constexpr size_t value = alignof(A); };
 
     template<typename X, typename... Ts> struct getpos;
 
@@ -262,11 +259,7 @@ namespace bss {
     }
 
     int _tag;
-    union
-    {
-      char _store[max_sizeof<Arg, Args...>::value]; // actual storage
-      typename max_alignof<Arg, Args...>::type _align; // simply ensures we have the correct alignment for the type with the largest alignment
-    };
+    alignas(max_alignof<Arg, Args...>::value) char _store[max_sizeof<Arg, Args...>::value]; // actual storage, aligned for the type with the largest alignment
   };
 }
 
-- 
2.43.0


From 252dc17ff0a527a2fa93403f2a094a9e8c87787b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:17:43 +0000
Subject: [PATCH 077/191] fix: assigning an empty Variant to an empty Variant
 failed an assertion

---
 include/bss-util/Variant.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Variant.h b/include/bss-util/Variant.h
index 39cf4d4..919dc98 100644
--- a/include/bss-util/Variant.h
+++ b/include/bss-util/Variant.h
@@ -213,7 +213,7 @@ namespace bss {
         if constexpr(sizeof...(Tx) > 0)
           _assignU<typename std::remove_reference<U>::type, Tx...>(v);
         else
-          assert(false);
+          assert(_tag == -1);
       }
     }
     template<class U, typename T, typename... Tx>
@@ -226,7 +226,7 @@ namespace bss {
         if constexpr(sizeof...(Tx) > 0)
           _assignU<U, Tx...>(std::move(v));
         else
-          assert(false);
+          assert(_tag == -1);
       }
     }
     template<class U, typename T, typename... Tx>
-- 
2.43.0


From 067508618aba4e472124787041b3eba523c62163 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:19:50 +0000
Subject: [PATCH 078/191] fix: ref_ptr let go of its object before taking the
 new one, which destroyed it on self-assignment and when walking a list

---
 include/bss-util/RefCounter.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/RefCounter.h b/include/bss-util/RefCounter.h
index 94ea157..367c5f0 100644
--- a/include/bss-util/RefCounter.h
+++ b/include/bss-util/RefCounter.h
@@ -63,22 +63,23 @@ namespace bss {
     inline ref_ptr& operator=(const ref_ptr& right) { return operator=(right._p); }
     inline ref_ptr& operator=(ref_ptr&& right)
     {
-      if(_p != 0) 
-        _p->Drop();
-
+      T* old = _p;
       _p = right._p;
       right._p = 0; 
+
+      if(old != 0) // Dropping the old object might destroy right, so this has to come last
+        old->Drop();
       return *this; 
     }
     inline ref_ptr& operator=(T* right)
     { 
-      if(_p != 0) 
-        _p->Drop();
-
+      T* old = _p;
       _p = right; 
       if(_p != 0) 
         _p->Grab(); 
 
+      if(old != 0) // Dropping the old object might drop the last reference to right, so this has to come last
+        old->Drop();
       return *this; 
     }
 
-- 
2.43.0


From c926b3bd60459247608c8b0487aa1ecaef8e30e6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:19:50 +0000
Subject: [PATCH 079/191] fix: assigning an OwnerPtr to itself deleted what it
 owns

---
 include/bss-util/SmartPtr.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/SmartPtr.h b/include/bss-util/SmartPtr.h
index d7fe210..291e525 100644
--- a/include/bss-util/SmartPtr.h
+++ b/include/bss-util/SmartPtr.h
@@ -47,6 +47,8 @@ namespace bss {
     }
     inline OwnerPtr& operator=(const OwnerPtr& right)
     {
+      if(this == &right)
+        return *this;
       _disown();
       _p = right._p;
       _owner = false;
-- 
2.43.0


From b03e8decc6312e4c3b7483f7e5f9f3db9c253de3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:19:50 +0000
Subject: [PATCH 080/191] fix: move-assigning an OwnerPtr made it own an object
 its source only referred to

---
 include/bss-util/SmartPtr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/SmartPtr.h b/include/bss-util/SmartPtr.h
index 291e525..f8949e6 100644
--- a/include/bss-util/SmartPtr.h
+++ b/include/bss-util/SmartPtr.h
@@ -65,7 +65,7 @@ namespace bss {
     { 
       _disown(); 
       _p = right._p; 
-      _owner = true; 
+      _owner = right._owner; 
       right._owner = false;
       return *this; 
     }
-- 
2.43.0


From 171073f0c9f93c2b1a0a04b62192a5c5d47fb4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:29:32 +0000
Subject: [PATCH 081/191] fix: copying an XML node asserted or crashed, its
 children being move-only

---
 bss-util/XML.cpp       | 5 +++--
 include/bss-util/XML.h | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 9b74a09..0e1275a 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -55,11 +55,12 @@ void XMLFile::Write(std::ostream& stream, bool pretty) const
     _nodes[i]->_write(stream, pretty, 0);
 }
 
-XMLNode::XMLNode(const XMLNode& copy) : _nodes(copy._nodes), _nodehash(copy._nodehash), _attributes(copy._attributes), _attrhash(copy._attrhash),
-  _value(copy._value), _name(copy._name)
+XMLNode::XMLNode(const XMLNode& copy) : _attributes(copy._attributes), _attrhash(copy._attrhash), _value(copy._value), _name(copy._name)
 {
   next = 0;
   prev = 0;
+  for(size_t i = 0; i < copy._nodes.Length(); ++i)
+    AddNode(*copy._nodes[i].get());
 }
 XMLNode::XMLNode(XMLNode&& mov) : _nodes(std::move(mov._nodes)), _nodehash(std::move(mov._nodehash)), _attributes(std::move(mov._attributes)),
   _attrhash(std::move(mov._attrhash)), _value(std::move(mov._value)), _name(std::move(mov._name))
diff --git a/include/bss-util/XML.h b/include/bss-util/XML.h
index 2dcaf69..63e895d 100644
--- a/include/bss-util/XML.h
+++ b/include/bss-util/XML.h
@@ -107,7 +107,7 @@ namespace bss {
 
     DynArray<std::unique_ptr<XMLNode>, size_t, ARRAY_MOVE> _nodes;
     Hash<Str, size_t, ARRAY_SAFE> _nodehash;
-    DynArray<XMLValue, size_t, ARRAY_MOVE> _attributes;
+    DynArray<XMLValue, size_t, ARRAY_SAFE> _attributes;
     Hash<Str, size_t, ARRAY_SAFE> _attrhash;
     XMLValue _value;
     Str _name;
-- 
2.43.0


From 759c1c4b940045d719fdd38d96a0aa9884dd1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:29:32 +0000
Subject: [PATCH 082/191] fix: assigning an XML node kept the children it had
 before

---
 bss-util/XML.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 0e1275a..a849066 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -76,13 +76,7 @@ XMLNode::XMLNode(std::istream& stream) { Str buf; _parse(stream, buf); next = 0;
 
 XMLNode& XMLNode::operator=(const XMLNode& copy)
 {
-  _attributes = copy._attributes;
-  _attrhash = copy._attrhash;
-  _value = copy._value;
-  _name = copy._name;
-  for(size_t i = 0; i < copy._nodes.Length(); ++i)
-    AddNode(*copy._nodes[i].get());
-  return *this;
+  return *this = XMLNode(copy);
 }
 XMLNode& XMLNode::operator=(XMLNode&& mov)
 {
-- 
2.43.0


From 96f16a23e80cf556924f659cdbb83e530be803d1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:30:09 +0000
Subject: [PATCH 083/191] fix: removing an XML node left the name index and the
 chain of same-named nodes pointing at the wrong or destroyed nodes

---
 bss-util/XML.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index a849066..42251f1 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -97,23 +97,27 @@ bool XMLNode::RemoveNode(size_t index)
 {
   if(index >= _nodes.Length()) 
     return false;
-  khiter_t iter = _nodehash.Iterator(_nodes[index]->_name);
-  if(_nodes[index]->next)
+  XMLNode* node = _nodes[index].get();
+  khiter_t iter = _nodehash.Iterator(node->_name);
+  if(_nodehash.ExistsIter(iter) && _nodehash.GetValue(iter) == index) // The hash refers to the first node in the list of nodes with this name
   {
-    for(size_t i = 0; i < _nodes.Length(); ++i)
+    if(!node->next)
+      _nodehash.RemoveIter(iter);
+    else
     {
-      if(_nodes[i].get() == _nodes[index]->next)
-      {
-        _nodes[i]->prev = 0;
-        if(_nodehash.ExistsIter(iter))
+      for(size_t i = 0; i < _nodes.Length(); ++i)
+        if(_nodes[i].get() == node->next)
           _nodehash.SetValue(iter, i);
-      }
     }
   }
-  else if(_nodehash.ExistsIter(iter))
-    _nodehash.RemoveIter(iter);
 
+  if(node->prev) node->prev->next = node->next;
+  if(node->next) node->next->prev = node->prev;
   _nodes.Remove(index);
+
+  for(auto [name, i] : _nodehash) // Everything past the removed node has moved down by one
+    if(i > index)
+      --i;
   return true;
 }
 bool XMLNode::RemoveNode(const char* name) { return RemoveNode(_nodehash[name]); }
-- 
2.43.0


From 369fd9f8aaff85acfd37c280c5c3da384dacc9ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:30:45 +0000
Subject: [PATCH 084/191] fix: removing an XML attribute removed a child node
 instead

---
 bss-util/XML.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 42251f1..7144d5a 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -123,10 +123,14 @@ bool XMLNode::RemoveNode(size_t index)
 bool XMLNode::RemoveNode(const char* name) { return RemoveNode(_nodehash[name]); }
 bool XMLNode::RemoveAttribute(size_t index)
 {
-  if(index >= _nodes.Length()) 
+  if(index >= _attributes.Length()) 
     return false;
-  _attrhash.Remove(_nodes[index]->_name);
-  _nodes.Remove(index);
+  _attrhash.Remove(_attributes[index].Name);
+  _attributes.Remove(index);
+
+  for(auto [name, i] : _attrhash) // Everything past the removed attribute has moved down by one
+    if(i > index)
+      --i;
   return true;
 }
 bool XMLNode::RemoveAttribute(const char* name) { return RemoveAttribute(_attrhash[name]); }
-- 
2.43.0


From eb42e8319b7174366fd1733457d502509b0655d1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:30:45 +0000
Subject: [PATCH 085/191] fix: special characters in XML attributes were
 written raw and their entities not read back

---
 bss-util/XML.cpp       | 36 +++++++++++++++++++-----------------
 include/bss-util/XML.h |  2 +-
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 7144d5a..463fcd1 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -300,6 +300,15 @@ void XMLNode::_parseAttribute(Str& buf)
           v.String += ss.get();
       }
 
+      std::istringstream raw(v.String.c_str());
+      v.String.clear();
+      while(raw.peek() != -1)
+      {
+        if(raw.peek() == '&')
+          _parseEntity(raw, v.String);
+        else
+          v.String += raw.get();
+      }
       _evalValue(v);
     }
     else
@@ -353,31 +362,24 @@ void XMLNode::_writeAttribute(std::ostream& stream) const
   for(size_t i = 0; i < _attributes.Length(); ++i)
   {
     stream << ' ' << _attributes[i].Name << "=\"";
-    _writeString(stream, _attributes[i].String, true);
+    _writeString(stream, _attributes[i].String);
     stream.put('"');
   }
 }
 
-void XMLNode::_writeString(std::ostream& stream, const char* s, bool attribute)
+void XMLNode::_writeString(std::ostream& stream, const char* s)
 {
   while(*s)
   {
-    if(!attribute)
+    switch(*s)
     {
-      switch(*s)
-      {
-      case '<': stream << "&lt;"; break;
-      case '>': stream << "&gt;"; break;
-      case '&': stream << "&amp;"; break;
-      case '\'': stream << "&apos;"; break;
-      case '"': stream << "&quot;"; break;
-      default: stream.put(*s); break;
-      }
+    case '<': stream << "&lt;"; break;
+    case '>': stream << "&gt;"; break;
+    case '&': stream << "&amp;"; break;
+    case '\'': stream << "&apos;"; break;
+    case '"': stream << "&quot;"; break;
+    default: stream.put(*s); break;
     }
-    else if(*s == '"')
-      stream << "&quot;";
-    else
-      stream.put(*s);
 
     ++s;
   }
@@ -402,7 +404,7 @@ void XMLNode::_write(std::ostream& stream, bool pretty, int depth) const
   }
 
   stream.put('>');
-  if(content) _writeString(stream, _value.String, false);
+  if(content) _writeString(stream, _value.String);
 
   for(size_t i = 0; i < _nodes.Length(); ++i)
     _nodes[i]->_write(stream, pretty, depth + 1);
diff --git a/include/bss-util/XML.h b/include/bss-util/XML.h
index 63e895d..e81d52e 100644
--- a/include/bss-util/XML.h
+++ b/include/bss-util/XML.h
@@ -101,7 +101,7 @@ namespace bss {
     static bool _match(std::istream& stream, Str& out, const char* pattern, bool reset = false);
     static void _parseEntity(std::istream& stream, Str& target);
     static void _evalValue(XMLValue& val);
-    static void _writeString(std::ostream& stream, const char* s, bool attribute);
+    static void _writeString(std::ostream& stream, const char* s);
 
     friend class XMLFile;
 
-- 
2.43.0


From e018bd95d8db71d02c9d752b0d704914d95b8e7b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:31:12 +0000
Subject: [PATCH 086/191] fix: numbers written to XML lost precision

---
 bss-util/XML.cpp       | 9 ++++++++-
 include/bss-util/XML.h | 4 +++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 463fcd1..1835fab 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -134,7 +134,14 @@ bool XMLNode::RemoveAttribute(size_t index)
   return true;
 }
 bool XMLNode::RemoveAttribute(const char* name) { return RemoveAttribute(_attrhash[name]); }
-void XMLNode::SetValue(double value) { _value.Float = value; _value.Integer = (int64_t)value; _value.String = std::to_string(value); }
+void XMLNode::SetValue(double value)
+{
+  std::ostringstream ss(std::ios_base::out);
+  ss << std::setprecision(std::numeric_limits<double>::max_digits10) << value;
+  _value.Float = value;
+  _value.Integer = (int64_t)value;
+  _value.String = ss.str();
+}
 void XMLNode::SetValue(int64_t value) { _value.Integer = value; _value.Float = (double)value; _value.String = std::to_string(value); }
 void XMLNode::SetValue(const char* value) { _value.String = value; _evalValue(_value); }
 void XMLNode::Clear()
diff --git a/include/bss-util/XML.h b/include/bss-util/XML.h
index e81d52e..61d2488 100644
--- a/include/bss-util/XML.h
+++ b/include/bss-util/XML.h
@@ -10,6 +10,8 @@
 #include "Str.h"
 #include "Serializer.h"
 #include <sstream>
+#include <iomanip>
+#include <limits>
 
 namespace bss {
   // Represents an XML value converted to various forms.
@@ -196,7 +198,7 @@ namespace bss {
       std::ostringstream ss(std::ios_base::out);
 
       if constexpr(std::is_floating_point<T>::value)
-        ss << static_cast<double>(t);
+        ss << std::setprecision(std::numeric_limits<T>::max_digits10) << static_cast<double>(t);
       else
         ss << static_cast<int64_t>(t);
       v->String = ss.str();
-- 
2.43.0


From 684af2094d9552b422194a3325daffd98b0b6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:31:40 +0000
Subject: [PATCH 087/191] fix: the integer of an XML value was 0 for true and
 for binary literals

---
 bss-util/XML.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bss-util/XML.cpp b/bss-util/XML.cpp
index 1835fab..776c957 100644
--- a/bss-util/XML.cpp
+++ b/bss-util/XML.cpp
@@ -354,7 +354,9 @@ void XMLNode::_evalValue(XMLValue& val)
     else if(val.String.length() > 1 && val.String[0] == '0' && val.String[1] == 'x')
       val.Integer = (int64_t)strtoull(val.String, &c, 16);
     else if(val.String.length() > 1 && val.String[0] == '0' && val.String[1] == 'b')
-      val.Integer = (int64_t)strtoull(val.String, &c, 2);
+      val.Integer = (int64_t)strtoull(val.String.c_str() + 2, &c, 2);
+    else if(!STRICMP(val.String.c_str(), "true"))
+      val.Integer = 1;
     else
       val.Integer = (int64_t)strtoull(val.String, &c, 10);
 
-- 
2.43.0


From 68a1269f44e8a2a089cdafa563fb53d250f335e5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:41:30 +0000
Subject: [PATCH 088/191] fix: an empty INI key, value or section name was
 terminated one byte outside its buffer

---
 bss-util/INIParser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 9689fd4..2f884e3 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -60,8 +60,8 @@ char* _trimrstr(char* str)
 {
   char* inter = str + strlen(str);
 
-  for(; inter > str && *inter < 33; --inter);
-  *(++inter) = '\0';
+  for(; inter > str && inter[-1] < 33; --inter);
+  *inter = '\0';
   return str;
 }
 
-- 
2.43.0


From 98923dfddf00f7fae5943216ea24bc516faf8772 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:41:30 +0000
Subject: [PATCH 089/191] fix: the last line of an INI file was parsed again
 when it ended in a newline

---
 bss-util/INIParser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 2f884e3..02bc454 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -155,7 +155,8 @@ char bssParseLine(INIParser* parse)
 
   while(!feof(parse->file))
   {
-    fgets(parse->buf, MAXLINELENGTH, parse->file);
+    if(!fgets(parse->buf, MAXLINELENGTH, parse->file)) // Nothing was read, so buf still holds the previous line
+      break;
     switch(_nextkeychar((const char**)&tc, parse->buf))
     {
     //case -1: //Garbage line
-- 
2.43.0


From 687f26d053ae67e1f196c602ad8e0c586ff7d775 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:41:30 +0000
Subject: [PATCH 090/191] fix: non-ASCII characters were trimmed off the end of
 INI keys and values

---
 bss-util/INIParser.c    | 10 +++++-----
 bss-util/INIstorage.cpp |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 02bc454..96f55cd 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -60,7 +60,7 @@ char* _trimrstr(char* str)
 {
   char* inter = str + strlen(str);
 
-  for(; inter > str && inter[-1] < 33; --inter);
+  for(; inter > str && (unsigned char)inter[-1] < 33; --inter);
   *inter = '\0';
   return str;
 }
@@ -93,7 +93,7 @@ char* _validatesection(char* start)
   {
     if(*start == ';') return 0; //a comment started before we found the end
     if(*start == ']') break; //found it, break to end of function
-    if(valid == 0 && *start >= VALIDASCII) valid = 1;
+    if(valid == 0 && (unsigned char)*start >= VALIDASCII) valid = 1;
   }
   return valid == 0 ? 0 : start;
 }
@@ -102,7 +102,7 @@ char* _validatesection(char* start)
 char _validatekey(const char* start, const char* end)
 {
   for(; start < end; ++start)
-    if(*start >= VALIDASCII) return 1; //32 is space and everything below is just crap.
+    if((unsigned char)*start >= VALIDASCII) return 1; //32 is space and everything below is just crap.
   return 0;
 }
 
@@ -206,7 +206,7 @@ const char* _svalidatesection(const char* start, const char* end)
   {
     if(*start == ';') return 0; //a comment started before we found the end
     if(*start == ']') break; //found it, break to end of function
-    if(valid == 0 && *start >= VALIDASCII) valid = 1;
+    if(valid == 0 && (unsigned char)*start >= VALIDASCII) valid = 1;
   }
   return valid == 0 ? 0 : start;
 }
@@ -219,7 +219,7 @@ const char* _svalidatevalue(const char* start, const char* end)
 
 const char* _trimrstralt(const char* end, const char* begin)
 {
-  for(; end > begin && *end < 33; --end);
+  for(; end > begin && (unsigned char)*end < 33; --end);
   return end;
 }
 
diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index 7a6649a..b65d597 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -24,7 +24,7 @@ const T* ltrimstr(const T* str)
 template<typename T>
 const T* rtrimstr(const T* end, const T* begin)
 {
-  for(; end > begin && *end < 33; --end);
+  for(; end > begin && std::make_unsigned_t<T>(*end) < 33; --end);
   return end;
 }
 
-- 
2.43.0


From bb80e7fb0bce84af7b5a49f3bdb0913f0dfc3edd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:42:17 +0000
Subject: [PATCH 091/191] fix: copying an INI section or file with repeated
 names wrote the copies' nodes into the original

---
 bss-util/INIsection.cpp | 5 ++---
 bss-util/INIstorage.cpp | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/bss-util/INIsection.cpp b/bss-util/INIsection.cpp
index 3fd23a8..aa27e82 100644
--- a/bss-util/INIsection.cpp
+++ b/bss-util/INIsection.cpp
@@ -61,11 +61,10 @@ void INIsection::_copy(const INIsection& copy)
     if(t->instances.Capacity()!=0) {
       _entries.Insert(p->val.GetKey(),p);
       p->instances.SetCapacity(c=t->instances.Capacity());
-      last=t;
-      --c;
+      last=p;
     } else if(c>0) {
       assert(last!=0);
-      last->instances[last->instances.Capacity()-(c--)-1]=p; //This never goes negative because c>0 and is therefore at least 1
+      last->instances[last->instances.Capacity()-(c--)]=p; //This never goes out of bounds because c>0 and is therefore at least 1
     } else
       _entries.Insert(p->val.GetKey(),p);
 
diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index b65d597..d5ca893 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -369,13 +369,12 @@ void INIstorage::_copy(const INIstorage& copy)
     {
       _sections.Insert(p->val.GetName(), p);
       p->instances.SetCapacity(c = t->instances.Capacity());
-      last = t;
-      --c;
+      last = p;
     }
     else if(c > 0)
     {
       assert(last != 0);
-      last->instances[last->instances.Capacity() - (c--) - 1] = p; //This never goes negative because c>0 and is therefore at least 1
+      last->instances[last->instances.Capacity() - (c--)] = p; //This never goes out of bounds because c>0 and is therefore at least 1
     }
     else
       _sections.Insert(p->val.GetName(), p);
-- 
2.43.0


From a9151e4c13b120365d2990868c4c231e95d0927e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:42:17 +0000
Subject: [PATCH 092/191] fix: move-assigning an INIstorage destroyed the
 sections it had just taken over

---
 bss-util/INIstorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index d5ca893..746de9a 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -402,6 +402,7 @@ INIstorage& INIstorage::operator=(INIstorage&& mov)
   _path = std::move(mov._path);
   _filename = mov._filename;
   if(_ini != 0) delete _ini;
+  _destroy();
   _ini = mov._ini;
   _root = mov._root;
   _last = mov._last;
@@ -409,7 +410,6 @@ INIstorage& INIstorage::operator=(INIstorage&& mov)
   mov._root = 0;
   mov._last = 0;
   _logger = mov._logger;
-  _destroy();
   _sections = std::move(mov._sections);
   return *this;
 }
-- 
2.43.0


From d04492e254a51c66f7da70528ec5cd7825d5f47f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:42:17 +0000
Subject: [PATCH 093/191] fix: the sections of a copied or moved INIstorage
 still called the original their parent

---
 bss-util/INIstorage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index 746de9a..0c82eb2 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -58,6 +58,8 @@ INIstorage::INIstorage(INIstorage&& mov) : _path(std::move(mov._path)), _filenam
   mov._ini = 0;
   mov._root = 0;
   mov._last = 0;
+  for(_NODE* n = _root; n != 0; n = n->next)
+    n->val._parent = this;
 }
 INIstorage::INIstorage(const char* file, std::ostream* logger) : _ini(0), _logger(logger), _root(0), _last(0)
 {
@@ -360,6 +362,7 @@ void INIstorage::_copy(const INIstorage& copy)
     _NODE* p = _alloc.allocate(1);
     bssFill(*p, 0);
     new (&p->val) INIsection(t->val);
+    p->val._parent = this;
     if(!_root)
       _root = _last = p;
     else
@@ -411,6 +414,8 @@ INIstorage& INIstorage::operator=(INIstorage&& mov)
   mov._last = 0;
   _logger = mov._logger;
   _sections = std::move(mov._sections);
+  for(_NODE* n = _root; n != 0; n = n->next)
+    n->val._parent = this;
   return *this;
 }
 
-- 
2.43.0


From 51e62c11a83d9399cad594c870dd286e969f0460 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:43:24 +0000
Subject: [PATCH 094/191] fix: editing an INI file took a section or key for
 another it is a prefix of

---
 bss-util/INIParser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/INIParser.c b/bss-util/INIParser.c
index 96f55cd..de2b038 100644
--- a/bss-util/INIParser.c
+++ b/bss-util/INIParser.c
@@ -230,7 +230,7 @@ int comparevalues(const char* start, const char* end, const char* comp)
   end = _trimrstralt(end - 1, start);
   a = (end - start) + 1;
   b = strlen(comp);
-  return STRNICMP(start, comp, bssmin(a, b));
+  return a != b || STRNICMP(start, comp, a) != 0;
 }
 INICHUNK bssFindINISection(const void* data, size_t length, const char* section, size_t instance)
 {
-- 
2.43.0


From c7a515e617ad278f585c1dd1dd4ad1ed931d5cdc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:43:24 +0000
Subject: [PATCH 095/191] fix: removing the first of several INI sections or
 entries of one name left a dangling key in the hash

---
 bss-util/INIstorage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index 0c82eb2..f35d606 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -182,8 +182,10 @@ bool INIstorage::RemoveSection(const char* name, size_t instance)
     if(!instance && secnode->instances.Capacity() > 0)
     {
       instance = 1;
+      _sections.RemoveIter(iter); // The hash key points into the value we are replacing
       secnode->val = std::move(secnode->next->val);
       secnode->val._index = 0;
+      _sections.Insert(secnode->val.GetName(), secnode);
       secnode = secnode->next;
     }
 
@@ -257,7 +259,9 @@ char INIstorage::EditEntry(const char* section, const char* key, const char* nva
     if(!keyinstance && entnode->instances.Capacity() > 0)
     {
       keyinstance = 1;
+      psec->_entries.RemoveIter(iter); // The hash key points into the value we are replacing
       entnode->val = std::move(entnode->next->val);
+      psec->_entries.Insert(entnode->val.GetKey(), entnode);
       entnode = entnode->next;
     }
 
-- 
2.43.0


From da4c42baf42d479ec445a1b764fff763c950ed6e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:43:24 +0000
Subject: [PATCH 096/191] fix: move-assigning an INI section leaked the entries
 it had

---
 bss-util/INIsection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bss-util/INIsection.cpp b/bss-util/INIsection.cpp
index aa27e82..19c7eb1 100644
--- a/bss-util/INIsection.cpp
+++ b/bss-util/INIsection.cpp
@@ -113,6 +113,7 @@ INIsection& INIsection::operator=(INIsection&& mov)
   _name=std::move(mov._name);
   _index=mov._index;
   _parent=mov._parent;
+  _destroy();
   _entries=std::move(mov._entries);
   _root=mov._root;
   _last=mov._last;
-- 
2.43.0


From 87ebb578d0c6d31444daa0372700f8508a553bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:43:59 +0000
Subject: [PATCH 097/191] fix: an INIstorage without a file crashed on
 construction or at its first edit

---
 bss-util/INIstorage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bss-util/INIstorage.cpp b/bss-util/INIstorage.cpp
index f35d606..426014f 100644
--- a/bss-util/INIstorage.cpp
+++ b/bss-util/INIstorage.cpp
@@ -32,13 +32,13 @@ void INIstorage::_openINI()
 {
   Str targetpath = _path;
   targetpath += _filename;
+  _ini = new Str(); // If there is no file (yet), we start with an empty one
   FILE* f;
   FOPEN(f, targetpath, "a+b"); //this will create the file if it doesn't already exist
   if(!f) return;
   fseek(f, 0, SEEK_END);
   size_t size = (size_t)ftell(f);
   fseek(f, 0, SEEK_SET);
-  _ini = new Str();
   _ini->resize(size);
   size = fread(_ini->UnsafeString(), sizeof(char), size, f); //reads in the entire file
   _ini->UnsafeString()[size] = '\0';
@@ -63,6 +63,7 @@ INIstorage::INIstorage(INIstorage&& mov) : _path(std::move(mov._path)), _filenam
 }
 INIstorage::INIstorage(const char* file, std::ostream* logger) : _ini(0), _logger(logger), _root(0), _last(0)
 {
+  if(!file) return;
   FILE* f;
   FOPEN(f, file, ("rt"));
   if(f)
-- 
2.43.0


From c2d194eb04d904f6e375342d5d38bca0f87bd147 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:44:56 +0000
Subject: [PATCH 098/191] fix: an INI entry made without a value had
 indeterminate numbers

---
 bss-util/INIentry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/INIentry.cpp b/bss-util/INIentry.cpp
index 4fdff1c..7496f4e 100644
--- a/bss-util/INIentry.cpp
+++ b/bss-util/INIentry.cpp
@@ -14,7 +14,7 @@ INIentry::INIentry() : _ivalue(0), _dvalue(0.0)
 INIentry::INIentry(const char *key, const char *svalue, int64_t ivalue, double dvalue) : _key(key), _svalue(svalue),
 _ivalue(ivalue), _dvalue(dvalue)
 {}
-INIentry::INIentry(const char* key, const char* data) : _key(key) { Set(data); }
+INIentry::INIentry(const char* key, const char* data) : _key(key), _ivalue(0), _dvalue(0.0) { Set(data); }
 
 INIentry::~INIentry()
 {}
-- 
2.43.0


From 16918d1cd01d521b04e77d930758b421150cc2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:00:32 +0000
Subject: [PATCH 099/191] fix: an UBJSON object moved its keys with memcpy when
 it grew

---
 include/bss-util/UBJSON.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 3c87855..0cacb11 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -42,7 +42,7 @@ namespace bss {
       TYPE_COUNT = '#',
     };
     typedef DynArray<UBJSONTuple, size_t, ARRAY_CONSTRUCT> UBJSONArray;
-    typedef DynArray<std::pair<Str, UBJSONTuple>, size_t, ARRAY_CONSTRUCT> UBJSONObject;
+    typedef DynArray<std::pair<Str, UBJSONTuple>, size_t, ARRAY_SAFE> UBJSONObject;
 
     UBJSONTuple(const UBJSONTuple& copy);
     UBJSONTuple(UBJSONTuple&& mov);
-- 
2.43.0


From 06844d99d65d008b6c1adb7db9f79ebfea6ca6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:02:09 +0000
Subject: [PATCH 100/191] fix: UBJSON arrays of unsigned integers, enums,
 vectors and tuples were declared to hold objects

---
 include/bss-util/UBJSON.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 0cacb11..f5a46a2 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -251,7 +251,23 @@ namespace bss {
   };
 
   namespace internal {
-    template<class T> struct WriteUBJSONType { static const UBJSONTuple::TYPE t = internal::serializer::is_serializer_array<T>::value ? UBJSONTuple::TYPE_ARRAY : UBJSONTuple::TYPE_OBJECT; };
+    template<class T> struct WriteUBJSONType
+    {
+      static constexpr UBJSONTuple::TYPE Get()
+      {
+        if constexpr(std::is_enum_v<T>)
+          return WriteUBJSONType<typename make_integral<T>::type>::t;
+        else if constexpr(std::is_integral_v<T>) // There are no unsigned types above 8 bits, so use the next larger one, or let every element specify its own type.
+          return sizeof(T) == 1 ? UBJSONTuple::TYPE_INT8 : (sizeof(T) == 2 ? UBJSONTuple::TYPE_INT32 : (sizeof(T) == 4 ? UBJSONTuple::TYPE_INT64 : UBJSONTuple::TYPE_NONE));
+        else
+          return internal::serializer::is_serializer_array<T>::value ? UBJSONTuple::TYPE_ARRAY : UBJSONTuple::TYPE_OBJECT;
+      }
+      static const UBJSONTuple::TYPE t = Get();
+    };
+    template<class T, size_t I> struct WriteUBJSONType<T[I]> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_ARRAY; };
+    template<class T, size_t I> struct WriteUBJSONType<std::array<T, I>> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_ARRAY; };
+    template<class T, typename Alloc> struct WriteUBJSONType<std::vector<T, Alloc>> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_ARRAY; };
+    template<class... Args> struct WriteUBJSONType<std::tuple<Args...>> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_ARRAY; };
     template<> struct WriteUBJSONType<uint8_t> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_UINT8; };
     template<> struct WriteUBJSONType<char> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_INT8; };
     template<> struct WriteUBJSONType<bool> { static const UBJSONTuple::TYPE t = UBJSONTuple::TYPE_NONE; };
-- 
2.43.0


From 7ce31a94fca9c83eca1dd17cd9b4a91e6aa39afb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:02:52 +0000
Subject: [PATCH 101/191] fix: reading a vector of bytes from UBJSON doubled
 it, and bytes were read in bulk into wider elements

---
 include/bss-util/Serializer.h | 11 +++++++++--
 include/bss-util/UBJSON.h     |  7 ++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Serializer.h b/include/bss-util/Serializer.h
index 98098f8..7b766e3 100644
--- a/include/bss-util/Serializer.h
+++ b/include/bss-util/Serializer.h
@@ -149,8 +149,13 @@ namespace bss {
         }
         static inline bool Read(Serializer<Engine>& e, std::vector<T, Alloc>& obj, int64_t count)
         {
-          obj.resize(count);
-          return e.BulkRead(std::begin(obj), std::end(obj), count);
+          if constexpr(std::is_trivially_constructible_v<T> && !std::is_same_v<T, bool>)
+          {
+            obj.resize(count);
+            return e.BulkRead(obj.data(), obj.data() + obj.size(), count);
+          }
+          else
+            return false;
         }
         static inline void Parse(Serializer<Engine>& e, std::vector<T, Alloc>& obj, const char* id)
         {
@@ -385,6 +390,8 @@ namespace bss {
 
         auto& ref = *begin;
         in->read(reinterpret_cast<char*>(&ref), bssmin(count, end - begin) * sizeof(Element));
+        if(count > end - begin) // Skip any elements that didn't fit
+          in->ignore((count - (end - begin)) * sizeof(Element));
         return true;
       }
       else
diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index f5a46a2..0c28a65 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -344,7 +344,12 @@ namespace bss {
         Add(e, obj, num);
       },
         nullptr,
-        [&](UBJSONTuple::TYPE, int64_t count)->bool { return Read(e, obj, count); });
+        [&](UBJSONTuple::TYPE, int64_t count)->bool
+      {
+        if constexpr(sizeof(E) == 1 && (std::is_arithmetic_v<E> || std::is_enum_v<E>) && !std::is_same_v<E, bool>)
+          return Read(e, obj, count);
+        return false; // The elements can only be read in bulk if they are single bytes in memory, too
+      });
       assert(tuple.Type == UBJSONTuple::TYPE_ARRAY);
     }
     template<typename T>
-- 
2.43.0


From ec3db145684118eccf264f7b2895e62c590d55f6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:03:45 +0000
Subject: [PATCH 102/191] fix: unknown UBJSON members and surplus array
 elements were not skipped

---
 include/bss-util/UBJSON.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 0c28a65..316a455 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -284,13 +284,14 @@ namespace bss {
   class UBJSONEngine
   {
   public:
-    UBJSONEngine() : type(UBJSONTuple::TYPE_NONE) {}
+    UBJSONEngine() : type(UBJSONTuple::TYPE_NONE), parsed(0) {}
     static constexpr bool Ordered() { return false; }
     static void Begin(Serializer<UBJSONEngine>& e) {}
     static void End(Serializer<UBJSONEngine>& e) {}
     template<typename T>
     static void Parse(Serializer<UBJSONEngine>& e, T& obj, const char* id)
     {
+      ++e.engine.parsed;
       if constexpr(std::is_base_of<std::string, T>::value)
       {
         UBJSONTuple tuple;
@@ -324,11 +325,15 @@ namespace bss {
     static void ParseMany(Serializer<UBJSONEngine>& e, F && f)
     {
       UBJSONTuple tuple;
+      ++e.engine.parsed;
       tuple.Parse(*e.in, e.engine.type, nullptr,
         [&](UBJSONTuple::TYPE ty, const char* id, size_t len)
       {
         internal::serializer::PushValue<UBJSONTuple::TYPE> push(e.engine.type, ty);
+        size_t parsed = e.engine.parsed;
         f(e, id);
+        if(parsed == e.engine.parsed) // If nothing was parsed, the member is unknown and must be skipped.
+          UBJSONTuple().Parse(*e.in, ty);
       }, nullptr);
       assert(tuple.Type == UBJSONTuple::TYPE_OBJECT);
     }
@@ -337,11 +342,15 @@ namespace bss {
     {
       int num = 0;
       UBJSONTuple tuple;
+      ++e.engine.parsed;
       tuple.Parse(*e.in, e.engine.type,
         [&](UBJSONTuple::TYPE ty)
       {
         internal::serializer::PushValue<UBJSONTuple::TYPE> push(e.engine.type, ty);
+        size_t parsed = e.engine.parsed;
         Add(e, obj, num);
+        if(parsed == e.engine.parsed) // If nothing was parsed, there was no room for the element and it must be skipped.
+          UBJSONTuple().Parse(*e.in, ty);
       },
         nullptr,
         [&](UBJSONTuple::TYPE, int64_t count)->bool
@@ -356,6 +365,7 @@ namespace bss {
     static void ParseNumber(Serializer<UBJSONEngine>& e, T& obj, const char* id)
     {
       UBJSONTuple tuple;
+      ++e.engine.parsed;
       tuple.Parse(*e.in, e.engine.type);
 
       switch(tuple.Type) // as long as it's any arithmetic type, attempt to shove it into our target, casting if necessary.
@@ -378,6 +388,7 @@ namespace bss {
     static void ParseBool(Serializer<UBJSONEngine>& e, bool& obj, const char* id)
     {
       UBJSONTuple tuple;
+      ++e.engine.parsed;
       tuple.Parse(*e.in, e.engine.type);
 
       switch(tuple.Type)
@@ -485,6 +496,7 @@ namespace bss {
     }
 
     UBJSONTuple::TYPE type;
+    size_t parsed; // Number of values parsed so far
   };
 }
 
-- 
2.43.0


From 3ce9dc75bd5cfb6b6978a3a97b311ec2e2aa6d83 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:03:45 +0000
Subject: [PATCH 103/191] fix: a string read from UBJSON ended at its first
 NUL, and a character became a number

---
 include/bss-util/UBJSON.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index 316a455..f682cb1 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -299,7 +299,7 @@ namespace bss {
         switch(tuple.Type) // we will shove just about anything we possibly can into a string
         {
         case UBJSONTuple::TYPE_NULL: break;
-        case UBJSONTuple::TYPE_CHAR: obj.assign(&tuple.Int8, 1);
+        case UBJSONTuple::TYPE_CHAR: obj.assign(&tuple.Int8, 1); break;
         case UBJSONTuple::TYPE_INT8: obj = std::to_string((int)tuple.Int8); break;
         case UBJSONTuple::TYPE_UINT8: obj = std::to_string(tuple.UInt8); break;
         case UBJSONTuple::TYPE_INT16: obj = std::to_string(tuple.Int16); break;
@@ -309,7 +309,7 @@ namespace bss {
         case UBJSONTuple::TYPE_DOUBLE: obj = std::to_string(tuple.Double); break;
         case UBJSONTuple::TYPE_BIGNUM:
         case UBJSONTuple::TYPE_STRING:
-          obj = tuple.String;
+          obj.assign(tuple.String, (size_t)tuple.Length);
           break;
         }
       }
-- 
2.43.0


From da1f386a0beffeb1815387c579ac607354749624 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:04:16 +0000
Subject: [PATCH 104/191] fix: an integer beyond int64 was written to UBJSON as
 a wild pointer and never read back

---
 include/bss-util/UBJSON.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index f682cb1..c62ee1a 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -69,8 +69,15 @@ namespace bss {
       case TYPE_INT32: Int32 = (int32_t)n; break;
       case TYPE_INT64: Int64 = (int64_t)n; break;
       case TYPE_FLOAT: Float = (float)n; break;
-      case TYPE_BIGNUM:
       case TYPE_DOUBLE: Double = (double)n; break;
+      case TYPE_BIGNUM: // This is stored as a string
+      {
+        std::string num = std::to_string(n);
+        Length = num.size();
+        String = new char[num.size() + 1];
+        memcpy(String, num.c_str(), num.size() + 1);
+        break;
+      }
       default: assert(false); break;
       }
     }
@@ -381,7 +388,12 @@ namespace bss {
       case UBJSONTuple::TYPE_INT64: obj = (T)tuple.Int64; break;
       case UBJSONTuple::TYPE_FLOAT: obj = (T)tuple.Float; break;
       case UBJSONTuple::TYPE_DOUBLE: obj = (T)tuple.Double; break;
-      case UBJSONTuple::TYPE_BIGNUM: break;// we can't deal with bignum
+      case UBJSONTuple::TYPE_BIGNUM: // we can only deal with a bignum that fits into our target
+        if constexpr(std::is_floating_point_v<T>)
+          obj = (T)strtod(tuple.String, nullptr);
+        else
+          obj = tuple.String[0] == '-' ? (T)strtoll(tuple.String, nullptr, 10) : (T)strtoull(tuple.String, nullptr, 10);
+        break;
       default: assert(false); break;
       }
     }
-- 
2.43.0


From 0a3b84b75eacee746709b5beb060da73a3843e75 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:05:56 +0000
Subject: [PATCH 105/191] fix: a malformed UBJSON container destroyed an array
 that was never constructed

---
 include/bss-util/UBJSON.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bss-util/UBJSON.h b/include/bss-util/UBJSON.h
index c62ee1a..9c0c2e5 100644
--- a/include/bss-util/UBJSON.h
+++ b/include/bss-util/UBJSON.h
@@ -122,7 +122,9 @@ namespace bss {
         break;
       case TYPE_ARRAY:
       {
+        Type = TYPE_NONE; // ParseTypeCount can throw before there is an array to destroy
         int64_t count = ParseTypeCount(s, ty);
+        Type = TYPE_ARRAY;
         new (&Array) UBJSONArray(std::is_null_pointer_v<FnAdd> ? bssmax(count, 1) : 0);
 
         if constexpr(!std::is_null_pointer_v<FnBulk>)
@@ -148,7 +150,9 @@ namespace bss {
       }
       case TYPE_OBJECT:
       {
+        Type = TYPE_NONE; // ParseTypeCount can throw before there is an object to destroy
         int64_t count = ParseTypeCount(s, ty);
+        Type = TYPE_OBJECT;
         new (&Object) UBJSONObject(std::is_null_pointer_v<FnInsert> ? bssmax(count, 1) : 0);
         Str buf;
         while(!!s && s.peek() != -1 && (count > 0 || count < 0) && (count > 0 || s.peek() != TYPE_OBJECT_END))
-- 
2.43.0


From a9ad25f16740d997c0f1a9f79ae3f8e63c109341 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:47:12 +0000
Subject: [PATCH 106/191] fix: copying a disjoint set or adding sets to one did
 not compile, copied a fraction of it and miscounted the sets

---
 include/bss-util/DisjointSet.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/DisjointSet.h b/include/bss-util/DisjointSet.h
index ed2930d..32a02c6 100644
--- a/include/bss-util/DisjointSet.h
+++ b/include/bss-util/DisjointSet.h
@@ -20,9 +20,9 @@ namespace bss {
 
   public:
     // Construct a disjoint set with num initial sets
-    inline DisjointSet(const DisjointSet& copy) : ARRAY(copy.Capacity(), copy), _numsets(copy._numsets) 
+    inline DisjointSet(const DisjointSet& copy) : ARRAY(copy._capacity, copy), _numsets(copy._numsets) 
     { 
-      memcpy(_array, copy._array, _capacity); 
+      ARRAY::_copyMove(_array, copy._array, _capacity);
     }
     inline DisjointSet(DisjointSet&& mov) : ARRAY(std::move(mov)), _numsets(mov._numsets) { mov._numsets = 0; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
@@ -100,7 +100,8 @@ namespace bss {
     inline void AddSets(T n)
     {
       T i = _capacity;
-      SetCapacity(_capacity + n);
+      ARRAY::_setCapacity(_capacity + n);
+      _numsets += n;
 
       for(; i < _capacity; ++i)
         _array[i] = -1;
@@ -178,8 +179,10 @@ namespace bss {
 
     inline DisjointSet& operator=(const DisjointSet& copy) 
     {
-      SetCapacityDiscard(copy._capacity);
-      memcpy(_array, copy._array, _capacity * sizeof(T));
+      if(this == &copy)
+        return *this;
+      ARRAY::_setCapacityDiscard(copy._capacity);
+      ARRAY::_copyMove(_array, copy._array, _capacity);
       _numsets = copy._numsets;
       return *this;
     }
@@ -187,6 +190,7 @@ namespace bss {
     {
       ARRAY::operator=(std::move(mov)); 
       _numsets = mov._numsets;
+      mov._numsets = 0;
       return *this;
     }
 
-- 
2.43.0


From a39bbc8e2b53a0e1adc6e3cfaf7e89fe2e7ccccd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:47:12 +0000
Subject: [PATCH 107/191] fix: the union of a set with itself made a cycle in
 which every later Find hangs

---
 include/bss-util/DisjointSet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/DisjointSet.h b/include/bss-util/DisjointSet.h
index 32a02c6..27bae32 100644
--- a/include/bss-util/DisjointSet.h
+++ b/include/bss-util/DisjointSet.h
@@ -36,10 +36,10 @@ namespace bss {
       _capacity = num;
       Reset();
     }
-    // Union (combine) two disjoint sets into one set. Returns false if set1 or set2 aren't set names.
+    // Union (combine) two disjoint sets into one set. Returns false if set1 or set2 aren't set names, or are the same set.
     inline bool Union(T set1, T set2)
     {
-      if(_invalidIndex(set1) || _invalidIndex(set2))
+      if(set1 == set2 || _invalidIndex(set1) || _invalidIndex(set2))
         return false;
 
       Ty w1 = _array[set1];
-- 
2.43.0


From 5a3675cdb3fa8cd4cb30c6d00cab55e77bc84cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:47:12 +0000
Subject: [PATCH 108/191] fix: Graph::ToMatrix wrote the vertices of a graph
 with removed nodes past the end of the array

---
 include/bss-util/Graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index 163c736..1f3c96f 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -141,7 +141,7 @@ namespace bss {
 
       for(CT i = _nodes.Front(); i != (CT)-1; _nodes.Next(i))
       {
-        _setVertex(nodes, i, _nodes[i]);
+        _setVertex(nodes, hash[i], _nodes[i]);
 
         for(cur = _nodes[i].to; cur != 0; cur = cur->next)
           _getData(matrix[(hash[i] * len) + hash[cur->to]], *cur);
-- 
2.43.0


From 67b461e9d4ea21904dab16a1b847f8b57b7c2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:47:32 +0000
Subject: [PATCH 109/191] fix: the breadth-first search visited nodes twice and
 overran its queue

---
 include/bss-util/Graph.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index 1f3c96f..eada251 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -419,11 +419,11 @@ namespace bss {
     VARARRAY(CT, aset, graph.Capacity());
     DisjointSet<CT, NullAllocator<SST>> set(reinterpret_cast<SST*>((CT*)aset), graph.Capacity());
 
-    // Queue up everything next to the root, checking only for edges that connect the root to itself
+    // Queue up everything next to the root. Union fails for the root itself and for anything that was already queued
     size_t l = 0;
     for(E* edge = n[root].to; edge != 0; edge = edge->next)
     {
-      if(edge->to != root)
+      if(set.Union(root, edge->to))
         queue[l++] = edge->to;
     }
 
@@ -432,11 +432,9 @@ namespace bss {
       if(FACTION(queue[i]))
         return;
 
-      set.Union(root, queue[i]);
-
       for(E* edge = n[queue[i]].to; edge != 0; edge = edge->next)
       {
-        if(set.Find(edge->to) != root) //Enqueue the children if they aren't already in the set.
+        if(set.Union(root, edge->to)) //Enqueue the children if they aren't already in the set.
           queue[l++] = edge->to; // Doesn't need to be circular because we can only enqueue n-1 anyway.
       }
     }
-- 
2.43.0


From 0b00596cf4800e2280cf5566af21b6265a694cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:48:36 +0000
Subject: [PATCH 110/191] fix: the maximum-flow solver hung on dead ends, lost
 parallel edges out of the source and started from an uninitialised list

---
 include/bss-util/Graph.h | 75 +++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 44 deletions(-)

diff --git a/include/bss-util/Graph.h b/include/bss-util/Graph.h
index eada251..572a2df 100644
--- a/include/bss-util/Graph.h
+++ b/include/bss-util/Graph.h
@@ -205,11 +205,9 @@ namespace bss {
     CT cap = graph.Capacity();
     VARARRAY(int, excess, cap);
     VARARRAY(CT, height, cap);
-    VARARRAY(PEDGE, seen, cap);
     VARARRAY(PAIR, v, (len - 2)); //integer based singly-linked list.
     bssFillN<int>(excess, cap);
     bssFillN<CT>(height, cap);
-    bssFillN<PEDGE>(seen, cap);
     bssFillN<PAIR>(v, (len - 2), -1);
     PEDGE edge;
     auto& nodes = graph.GetNodes();
@@ -217,14 +215,12 @@ namespace bss {
     height[s] = len;
     excess[s] = (INT_MAX >> 1); //ensures we can't blow stuff up while sending flow backwards
 
-    CT root;
+    CT root = (CT)-1;
     CT* plast = &root;
     CT k = 0; // Build a list of all vertices except s and t
 
     for(CT i = nodes.Front(); i != (CT)-1; nodes.Next(i))
     {
-      seen[k] = nodes[i].to;
-
       if(i != s && i != t)
       {
         *plast = k;
@@ -239,13 +235,12 @@ namespace bss {
     for(edge = nodes[s].to; edge != 0; edge = edge->next)
     {
       edge->data.flow = edge->data.capacity;
-      excess[edge->to] = edge->data.capacity;
+      excess[edge->to] += edge->data.capacity;
     }
 
     int send;
     CT last = -1;
     CT lh;
-    CT target;
 
     for(CT c = root; c != (CT)-1;)
     {
@@ -254,54 +249,46 @@ namespace bss {
 
       while(excess[k] > 0) // Discharge current vertex
       {
-        if(!seen[k]) //If seen is null, we tried all our neighbors so relabel
+        // Push along every residual edge that leads downhill, first forwards and then backwards
+        for(edge = nodes[k].to; edge != 0 && excess[k] > 0; edge = edge->next)
         {
-          send = INT_MAX;
+          send = bssmin(excess[k], edge->data.capacity - edge->data.flow); // send an amount equal to min(excess, capacity - flow)
 
-          for(edge = nodes[k].to; edge != 0; edge = edge->next)
-          { // First we try to send it forward
-            if(edge->data.capacity - edge->data.flow > 0)
-            {
-              if(height[edge->to] < send) send = height[edge->to];
-              height[k] = send + 1; // we have to do this in here because if there is no valid relabel, the height can't change.
-            }
+          if(height[k] > height[edge->to] && send > 0)
+          {
+            edge->data.flow += send;
+            excess[edge->to] += send;
+            excess[k] -= send;
           }
+        }
+
+        for(edge = nodes[k].from; edge != 0 && excess[k] > 0; edge = edge->alt.next)
+        {
+          send = bssmin(excess[k], edge->data.flow);
 
-          if(send == INT_MAX) // If this is true, our forward relabel failed, so that means we need to try to push things backwards
+          if(height[k] > height[edge->from] && send > 0)
           {
-            for(edge = nodes[k].from; edge != 0; edge = edge->alt.next)
-            {
-              if(edge->data.flow > 0)
-              { // Negate the flow and set capacity to 0 because we're going backwards
-                if(height[edge->from] < send)
-                  send = height[edge->from];
-
-                height[k] = send + 1;
-              }
-            }
-            seen[k] = nodes[k].from;
+            edge->data.flow -= send;
+            excess[edge->from] += send;
+            excess[k] -= send;
           }
-          else
-            seen[k] = nodes[k].to;
-
-          continue;
         }
+
         if(excess[k] > 0)
-        {// If possible, do a push. We must check whether our current edge is backwards or not
-          send = (seen[k]->from == k) ? seen[k]->data.capacity - seen[k]->data.flow : seen[k]->data.flow;
-          target = (seen[k]->from == k) ? seen[k]->to : seen[k]->from;
+        { // We tried all our neighbors, so relabel to just above the lowest one we could still send something to
+          send = INT_MAX;
 
-          if(height[k] > height[target] && send > 0)
-          { // If possible, do a push
-            if(excess[k] < send)
-              send = excess[k]; // send an amount equal to min(excess, capacity - flow)
+          for(edge = nodes[k].to; edge != 0; edge = edge->next)
+            if(edge->to != k && edge->data.capacity - edge->data.flow > 0 && height[edge->to] < send)
+              send = height[edge->to];
 
-            seen[k]->data.flow += (seen[k]->from == k) ? send : -send; // Negate if the edge is backwards
-            excess[target] += send;
-            excess[k] -= send;
-          }
+          for(edge = nodes[k].from; edge != 0; edge = edge->alt.next)
+            if(edge->from != k && edge->data.flow > 0 && height[edge->from] < send)
+              send = height[edge->from];
+
+          assert(send != INT_MAX); // whatever arrived here can always be sent back
+          height[k] = send + 1;
         }
-        seen[k] = (seen[k]->from == k) ? seen[k]->next : seen[k]->alt.next;
       }
 
       if(lh != height[k]) // If the height changed...
-- 
2.43.0


From 6c2e2cebf255dbc19a8452ca62a0a5f4cff19626 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:48:54 +0000
Subject: [PATCH 111/191] fix: a LinkedArray could not be move-constructed, and
 kept its old list after being moved from by assignment

---
 include/bss-util/LinkedArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/LinkedArray.h b/include/bss-util/LinkedArray.h
index 3d8865b..b8a2da9 100644
--- a/include/bss-util/LinkedArray.h
+++ b/include/bss-util/LinkedArray.h
@@ -29,7 +29,7 @@ namespace bss {
 
     inline LinkedArray() : _ref(1), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
     inline LinkedArray(const LinkedArray& copy) : _ref(copy._ref), _length(copy._length), _start(copy._start), _end(copy._end), _freelist(copy._freelist) {}
-    inline LinkedArray(LinkedArray&& mov) : _ref(std::move(mov._ref)), _length(mov._length), _start(mov._start), _end(mov._end), _freelist(mov._freelist) { mov._ref = 1; mov._length = 0; mov._start = mov._end = -1 = mov._freelist = -1; }
+    inline LinkedArray(LinkedArray&& mov) : _ref(std::move(mov._ref)), _length(mov._length), _start(mov._start), _end(mov._end), _freelist(mov._freelist) { mov._length = 0; mov._start = mov._end = mov._freelist = -1; }
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline LinkedArray(CT_ size, typename Alloc::policy_type* policy) : _ref(size, policy), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
     inline explicit LinkedArray(CT_ size) : _ref(size), _length(0), _start(-1), _end(-1), _freelist(-1) { _setupChunk(0); }
@@ -78,7 +78,7 @@ namespace bss {
     //inline LinkedArray& operator +=(const LinkedArray& right);
     //inline LinkedArray operator +(const LinkedArray& right) const { LinkedArray retval(*this); retval+=right; return retval; }
     inline LinkedArray& operator =(const LinkedArray& right) { _ref = right._ref; _length = right._length; _start = right._start; _end = right._end; _freelist = right._freelist; return *this; }
-    inline LinkedArray& operator =(LinkedArray&& mov) { _ref = std::move(mov._ref); _length = mov._length; _start = mov._start; _end = mov._end; _freelist = mov._freelist; return *this; }
+    inline LinkedArray& operator =(LinkedArray&& mov) { _ref = std::move(mov._ref); _length = mov._length; _start = mov._start; _end = mov._end; _freelist = mov._freelist; mov._length = 0; mov._start = mov._end = mov._freelist = -1; return *this; }
     BSS_FORCEINLINE T& GetItem(CT_ index) { return _ref[index].val; }
     BSS_FORCEINLINE const T& GetItem(CT_ index) const { return _ref[index].val; }
     BSS_FORCEINLINE T* GetItemPtr(CT_ index) { return &_ref[index].val; }
-- 
2.43.0


From 8af86ed83f32b56012db16c1263bde0b8f35dc59 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:53:18 +0000
Subject: [PATCH 112/191] fix: rebalancing a KD-tree left items on the wrong
 side of a moved divider, where queries miss them

---
 include/bss-util/KDTree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index 91be8af..186ecee 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -240,9 +240,9 @@ namespace bss {
         itemr = FRECT(item);
 
         if(itemr[0] < r[0]) i = 0; // Check for a violation. We don't bother checking to see if there are multiple violations, because 
-        if(itemr[1] < r[1]) i = 1; // if that happens, we'll catch it on our way back up the stack.
-        if(itemr[2] > r[2]) i = 2;
-        if(itemr[3] > r[3]) i = 3;
+        else if(itemr[1] < r[1]) i = 1; // if that happens, we'll catch it on our way back up the stack.
+        else if(itemr[2] > r[2]) i = 2;
+        else if(itemr[3] > r[3]) i = 3;
         else continue;
 
         node->total[0] -= itemr[0] + itemr[2]; // Remove image from us
-- 
2.43.0


From f3551355e2f6e66ab4095ff98e78bcd6a0b610f7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:53:18 +0000
Subject: [PATCH 113/191] fix: move-assigning a KD-tree dropped its rebalancing
 threshold

---
 include/bss-util/KDTree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index 186ecee..46a737f 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -126,6 +126,7 @@ namespace bss {
       Clear();
       Alloc::operator=(std::move(mov));
       _root = mov._root;
+      _rbthreshold = mov._rbthreshold;
       mov._root = 0;
       return *this;
     }
-- 
2.43.0


From 3ffab4c2ab174ca9850b752199e9fa8324d09e66 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:54:24 +0000
Subject: [PATCH 114/191] fix: solving a KD-tree that already had branches
 moved the dividers but not the items below them

---
 include/bss-util/KDTree.h | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index 46a737f..a53ae7f 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -149,7 +149,16 @@ namespace bss {
       ++_root->num;
       _insertItem(_root, item);
     }
-    inline void Solve() { if(_root) _solve(&_root); }
+    inline void Solve()
+    {
+      if(!_root)
+        return;
+
+      _gather(_root, _root->left); // Everything is sorted again from scratch, because all the dividers are about to move
+      _gather(_root, _root->right);
+      _root->balance = 0;
+      _solve(&_root);
+    }
     inline KDNode<T>* GetRoot() { return _root; }
     inline uint32_t GetRBThreshold() const { return _rbthreshold; }
     inline void SetRBThreshold(uint32_t rbthreshold) { _rbthreshold = rbthreshold; }
@@ -157,6 +166,23 @@ namespace bss {
     const static uint32_t RBTHRESHOLD = 20; //default threshold
 
   protected:
+    // Moves all items below (and including) node to root, and destroys node
+    void _gather(KDNode<T>* root, KDNode<T>*& node)
+    {
+      if(!node)
+        return;
+
+      _gather(root, node->left);
+      _gather(root, node->right);
+
+      while(T* item = node->items)
+      {
+        _removeItem(node, item);
+        _insertItem(root, item);
+      }
+      _destroyNode(node);
+      node = 0;
+    }
     void _solve(KDNode<T>** pnode)
     {
       KDNode<T>* node = *pnode;
-- 
2.43.0


From 98bcef76688e6140a03369abc6e33c8a0de6bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:55:37 +0000
Subject: [PATCH 115/191] fix: solving a KD-tree of coincident items recursed
 until the stack overflowed

---
 include/bss-util/KDTree.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index a53ae7f..a51239d 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -200,6 +200,15 @@ namespace bss {
       const float* r;
       T* item;
       T* next = node->items;
+      float bounds[2] = { FLT_MAX, -FLT_MAX };
+
+      for(item = next; item != 0; item = FLIST(item).next)
+      {
+        r = FRECT(item);
+        bounds[0] = bssmin(bounds[0], r[node->axis]);
+        bounds[1] = bssmax(bounds[1], r[node->axis + 2]);
+      }
+      node->div = bssmax(bounds[0], bssmin(bounds[1], node->div)); // If rounding errors put the divider outside, everything would end up on one side of it forever
 
       while((item = next))
       {
-- 
2.43.0


From b4a4437b5c566815ff8eedf3bf80fa5e54e95090 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 10:55:37 +0000
Subject: [PATCH 116/191] fix: rebalancing a KD-tree forgot an ancestor's
 divider when the divider below it was further out

---
 include/bss-util/KDTree.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/KDTree.h b/include/bss-util/KDTree.h
index a51239d..29f30d5 100644
--- a/include/bss-util/KDTree.h
+++ b/include/bss-util/KDTree.h
@@ -246,19 +246,26 @@ namespace bss {
       if(node->left)
       {
         node->num -= node->left->num;
-        rect[axis + 2] = node->div;
-        parents[axis + 2] = node;
+        if(node->div < r[axis + 2]) // Our divider can lie outside the space left to us by our parents, in which case theirs still apply
+        {
+          rect[axis + 2] = node->div;
+          parents[axis + 2] = node;
+        }
         _rebalance(node->left, rect, parents, node->total);
         node->num += node->left->num;
         _checkDestroy(node->left);
         rect[axis + 2] = r[axis + 2]; // Reset so we don't mess up node below
+        parents[axis + 2] = p[axis + 2];
       }
 
       if(node->right)
       {
         node->num -= node->right->num;
-        rect[axis] = node->div;
-        parents[axis] = node;
+        if(node->div > r[axis])
+        {
+          rect[axis] = node->div;
+          parents[axis] = node;
+        }
         _rebalance(node->right, rect, parents, node->total);
         node->num += node->right->num;
         _checkDestroy(node->right);
-- 
2.43.0


From a4e23a47aa1e57a8752c9031317b54460a22cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:00:21 +0000
Subject: [PATCH 117/191] fix: a byte above 127 could not be put back into an
 array stream

---
 include/bss-util/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index d37b299..d4948e1 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -93,7 +93,7 @@ namespace bss {
     inline virtual int_type underflow() override { return (_cur == _end) ? traits_type::eof() : traits_type::to_int_type(*_cur); }
     inline virtual int_type pbackfail(int_type ch) override
     {
-      if(_cur == _begin || (ch != traits_type::eof() && ch != _cur[-1]))
+      if(_cur == _begin || (ch != traits_type::eof() && ch != traits_type::to_int_type(_cur[-1])))
         return traits_type::eof();
       return traits_type::to_int_type(*--_cur);
     }
-- 
2.43.0


From 1ec4a7178a4b96c3fd8844a4bbeea9b4502dd6ff Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:00:21 +0000
Subject: [PATCH 118/191] fix: seeking an array stream outside the array
 succeeded and later reads left the array

---
 include/bss-util/stream.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index d4948e1..484dde1 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -114,17 +114,19 @@ namespace bss {
       switch(way)
       {
       case std::ios_base::cur:
-        _cur += off;
+        off += _cur - _begin;
         break;
       case std::ios_base::end:
-        _cur = _end + off;
+        off += _end - _begin;
         break;
       case std::ios_base::beg:
-        _cur = _begin + off;
         break;
       }
 
-      return _cur - _begin;
+      if(off < 0 || off > _end - _begin)
+        return pos_type(off_type(-1));
+      _cur = _begin + off;
+      return pos_type(off);
     }
 
     const char* _begin;
@@ -155,17 +157,19 @@ namespace bss {
       switch(way)
       {
       case std::ios_base::cur:
-        setg(eback(), gptr() + off, egptr());
+        off += gptr() - eback();
         break;
       case std::ios_base::end:
-        setg(eback(), egptr() + off, egptr());
+        off += egptr() - eback();
         break;
       case std::ios_base::beg:
-        setg(eback(), eback() + off, egptr());
         break;
       }
 
-      return gptr() - eback();
+      if(off < 0 || off > egptr() - eback())
+        return pos_type(off_type(-1));
+      setg(eback(), eback() + off, egptr());
+      return pos_type(off);
     }
     inline virtual int_type underflow() override { return gptr() == egptr() ? traits_type::eof() : traits_type::to_int_type(*gptr()); }
     inline virtual std::streamsize xsgetn(char* s, std::streamsize n) override
-- 
2.43.0


From 52d8ab9c4d6ae397f8fe9bce932902c23283c2dd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:00:21 +0000
Subject: [PATCH 119/191] fix: writing to an array through a stream lost single
 characters, failed when the array grew and misplaced the read position

---
 include/bss-util/stream.h | 44 +++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index 484dde1..d1c03e0 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -147,7 +147,7 @@ namespace bss {
     StreamBufDynArray(D& ref, CType begin = 0) : _ref(ref)
     {
       setg(reinterpret_cast<char*>(_ref.begin() + begin), reinterpret_cast<char*>(_ref.begin() + begin), reinterpret_cast<char*>(_ref.end()));
-      setp(reinterpret_cast<char*>(_ref.end()), reinterpret_cast<char*>(_ref.begin() + _ref.Capacity()));
+      setp(reinterpret_cast<char*>(_ref.end()), reinterpret_cast<char*>(_ref.end()));
     }
 
   protected:
@@ -185,46 +185,40 @@ namespace bss {
 
     void _fixlength()
     {
-      _ref._length = (pptr() - eback()) / sizeof(T); // Only set length to the number of fully written indexes
+      _ref._length = (pptr() - reinterpret_cast<char*>(_ref.begin())) / sizeof(T); // Only set length to the number of fully written indexes
       setg(eback(), gptr(), reinterpret_cast<char*>(_ref.end())); // We cast back from end() because we might not have finished writing through all the bytes in T
     }
-    void _expand(CType sz)
+    void _expand(std::streamsize sz)
     {
-      ptrdiff_t goff = gptr() - eback();
-      _ref.SetCapacity(std::max<CType>(fbnext(_ref._length), (sz / sizeof(T)) + _ref._length + 1));
-      setg(reinterpret_cast<char*>(_ref.begin()), reinterpret_cast<char*>(_ref.begin() + goff), reinterpret_cast<char*>(_ref.end()));
-      setp(reinterpret_cast<char*>(_ref.end()), reinterpret_cast<char*>(_ref.begin() + _ref.Capacity()));
+      char* base = reinterpret_cast<char*>(_ref.begin());
+      ptrdiff_t eoff = eback() - base;
+      ptrdiff_t goff = gptr() - base;
+      ptrdiff_t poff = pptr() - base;
+      _ref.SetCapacity(std::max<CType>(fbnext(_ref._length), ((poff + sz) / sizeof(T)) + 1));
+      base = reinterpret_cast<char*>(_ref.begin());
+      setg(base + eoff, base + goff, reinterpret_cast<char*>(_ref.end()));
+      setp(base + poff, base + poff);
     }
     inline virtual int_type overflow(int_type ch) override
     {
       if(ch != traits_type::eof())
       {
-        if(pptr() == epptr())
-          _expand(0);
-        assert(pptr() < epptr());
-        *pptr() = ch;
-        pbump(1);
-        _fixlength();
+        char c = traits_type::to_char_type(ch);
+        xsputn(&c, 1);
         return ch;
       }
       return traits_type::eof();
     }
     inline virtual std::streamsize xsputn(const char* s, std::streamsize n) override
     {
-      if(pptr() == epptr())
+      if(n <= 0)
+        return 0;
+      if(reinterpret_cast<char*>(_ref.begin() + _ref.Capacity()) - pptr() < n)
         _expand(n);
-      std::streamsize r = epptr() - pptr();
-      if(r > n)
-        r = n;
-      if(r > 0)
-        MEMCPY(pptr(), r, s, r);
-      pbump(r);
+      MEMCPY(pptr(), n, s, n);
+      setp(pptr() + n, pptr() + n); // The put area is always empty, so every character goes through here and the length of the array stays correct
       _fixlength();
-      n -= r;
-      s += r;
-      if(n)
-        return xsputn(s, n);
-      return r;
+      return n;
     }
 
     D& _ref;
-- 
2.43.0


From 676a295e904196c52c9044a23b5e4e377dc94621 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:00:21 +0000
Subject: [PATCH 120/191] fix: a filtering stream buffer reported a short
 transfer for data larger than its buffer

---
 include/bss-util/stream.h | 52 ++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/include/bss-util/stream.h b/include/bss-util/stream.h
index d1c03e0..af48c7a 100644
--- a/include/bss-util/stream.h
+++ b/include/bss-util/stream.h
@@ -263,15 +263,21 @@ namespace bss {
     }
     inline virtual std::streamsize xsgetn(char* s, std::streamsize n) override
     {
-      if(gptr() == egptr())
-        _onread();
-      std::streamsize r = egptr() - gptr();
-      if(r > n)
-        r = n;
-      if(r > 0)
-        MEMCPY(s, n, gptr(), r);
-      setg(eback(), gptr() + r, egptr());
-      return r;
+      std::streamsize total = 0;
+      while(total < n)
+      {
+        if(gptr() == egptr())
+          _onread();
+        std::streamsize r = egptr() - gptr();
+        if(r > n - total)
+          r = n - total;
+        if(r <= 0)
+          break;
+        MEMCPY(s + total, n - total, gptr(), r);
+        setg(eback(), gptr() + r, egptr());
+        total += r;
+      }
+      return total;
     }
     inline virtual int_type overflow(int_type ch) override
     {
@@ -290,19 +296,21 @@ namespace bss {
     }
     inline virtual std::streamsize xsputn(const char* s, std::streamsize n) override
     {
-      if(pptr() == epptr())
-        _onwrite();
-      std::streamsize r = epptr() - pptr();
-      if(r > n)
-        r = n;
-      if(r > 0)
-        MEMCPY(pptr(), r, s, r);
-      pbump(r);
-      n -= r;
-      s += r;
-      if(n)
-        return xsputn(s, n);
-      return r;
+      std::streamsize total = 0;
+      while(total < n)
+      {
+        if(pptr() == epptr())
+          _onwrite();
+        std::streamsize r = epptr() - pptr();
+        if(r > n - total)
+          r = n - total;
+        if(r <= 0)
+          break;
+        MEMCPY(pptr(), r, s + total, r);
+        pbump(r);
+        total += r;
+      }
+      return total;
     }
     virtual void _onwrite() = 0; // should read input from _in when appropriate.
     virtual void _onread() = 0; // should write output to _out when appropriate.
-- 
2.43.0


From 28e7486eaf52f443d2f2035db0333526ce7253d9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:01:55 +0000
Subject: [PATCH 121/191] fix: a string table read from a stream that ran short
 wrote before its buffer or kept uninitialised strings

---
 include/bss-util/StringTable.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/StringTable.h b/include/bss-util/StringTable.h
index 6ca7859..5873a04 100644
--- a/include/bss-util/StringTable.h
+++ b/include/bss-util/StringTable.h
@@ -34,7 +34,10 @@ namespace bss {
 
       _strings.SetCapacity(bytes / sizeof(T));
       stream->read((char*)(T*)_strings, _strings.Capacity() * sizeof(T));
-      _strings[(stream->gcount() / sizeof(T)) - 1] = '\0'; //make sure the end is a null terminator
+      _strings.SetCapacity((CT_)(stream->gcount() / sizeof(T))); // Only keep what was actually read
+      if(!_strings.Capacity())
+        return;
+      _strings[_strings.Capacity() - 1] = '\0'; //make sure the end is a null terminator
 
       _indices.SetCapacity(strccount<T>(_strings, 0, _strings.Capacity()));
       bssFillN<CT_>(_indices, _indices.Capacity(), 0);
-- 
2.43.0


From 09773cd3ed8dc81f955e41cf91e8263c957efeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:01:55 +0000
Subject: [PATCH 122/191] fix: appending to an empty string table read outside
 it, and wide string tables could not be appended to or dumped

---
 include/bss-util/StringTable.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/StringTable.h b/include/bss-util/StringTable.h
index 5873a04..3322e8a 100644
--- a/include/bss-util/StringTable.h
+++ b/include/bss-util/StringTable.h
@@ -62,21 +62,20 @@ namespace bss {
     inline CT_ TotalWordCapacity() const { return _strings.Capacity(); }
     // Returns string with the corresponding index. Strings are returned null-terminated, but the index bound is not checked.
     inline const T* GetString(CT_ index) const { assert(index < _indices.Capacity()); return _strings + _indices[index]; }
-    inline void AppendString(const char* s)
+    inline void AppendString(const T* s)
     {
-      CT_ last = internal::STR_CT<T>::SLEN(_strings + _indices[_indices.Capacity() - 1]) + 1 + _indices[_indices.Capacity() - 1];
+      CT_ last = _strings.Capacity();
       CT_ sz = internal::STR_CT<T>::SLEN(s) + 1;
 
       _indices.SetCapacity(_indices.Capacity() + 1);
       _indices[_indices.Capacity() - 1] = last; // Add another indice and set its value appropriately
-      last = _strings.Capacity();
       _strings.SetCapacity(_strings.Capacity() + sz); // Allocate more space in string buffer
-      memcpy(_strings + last, s, sz); // Copy over new string (including null terminator)
+      memcpy(_strings + last, s, sz * sizeof(T)); // Copy over new string (including null terminator)
     };
     // Returns index array
     inline const CT_* GetIndices() const { return _indices; }
     // Dumps table to stream
-    inline void DumpToStream(std::ostream* stream) { stream->write((const char*)_strings, _strings.Capacity() * sizeof(T)); }
+    inline void DumpToStream(std::ostream* stream) { stream->write((const char*)(const T*)_strings, _strings.Capacity() * sizeof(T)); }
 
     inline const T* operator[](CT_ index) { return GetString(index); }
     inline StringTable& operator=(const StringTable& right)
@@ -105,7 +104,7 @@ namespace bss {
       return *this;
     }
     inline StringTable operator+(const StringTable& right) { StringTable retval(*this); return retval += right; }
-    inline StringTable& operator+=(const char* right) { AppendString(right); return *this; }
+    inline StringTable& operator+=(const T* right) { AppendString(right); return *this; }
 
   protected:
     void _construct(const T* const* strings, CT_ size)
-- 
2.43.0


From 68f3b75a4880742aca9eef54e851e271c1d250a6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:02:17 +0000
Subject: [PATCH 123/191] fix: naming a log level forgot every level above it,
 and naming a new level wrote outside the level table

---
 bss-util/Logger.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 4b7e255..3c4b931 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -103,8 +103,13 @@ void Logger::SetNullFormat(const char* format)
 
 void Logger::SetLevel(uint8_t level, const char* str)
 {
-  if(_levels.Capacity() >= level)
+  if(_levels.Capacity() <= level)
+  {
+    size_t i = _levels.Capacity();
     _levels.SetCapacity(level + 1);
+    for(; i < level; ++i) // Any levels we skipped have an empty name
+      _levels[i] = "";
+  }
   _levels[level] = str;
 }
 void Logger::SetMaxLevel(uint8_t level)
-- 
2.43.0


From 818ad03b27ad08bf01d9cb8154a854b09ffb7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:02:17 +0000
Subject: [PATCH 124/191] fix: logging without a source through a format that
 shows it put the log in a failed state for good

---
 bss-util/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 3c4b931..619008f 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -189,7 +189,7 @@ void Logger::_header(std::ostream& o, int n, const char* source, const char* fil
 {
   switch(n)
   {
-  case 0: o << source; break;
+  case 0: if(source) o << source; break;
   case 1: o << file; break;
   case 2: o << line; break;
   case 3: o << level; break;
-- 
2.43.0


From eeca89a02219a4a31f6cf8392a81010f6f4e1f30 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:02:30 +0000
Subject: [PATCH 125/191] fix: assigning a logger leaked its buffer, left
 assimilated streams pointing at it and kept the old levels and formats

---
 bss-util/Logger.cpp       | 11 +++++++++++
 include/bss-util/Logger.h |  1 +
 2 files changed, 12 insertions(+)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 619008f..35f6b50 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -44,6 +44,10 @@ Logger::Logger(const wchar_t* logfile, std::ostream* log) : _levels(6), _split(n
 }
 #endif
 Logger::~Logger()
+{
+  _destroy();
+}
+void Logger::_destroy()
 {
   ClearTargets();
   for(size_t i = 0; i < _backup.size(); ++i) //restore stream buffer backups so we don't blow up someone else's stream when destroying ourselves
@@ -146,7 +150,14 @@ bool Logger::_writeDateTime(long timez, std::ostream& log, bool timeonly)
 }
 Logger& Logger::operator=(Logger&& right)
 {
+  if(this == &right)
+    return *this;
+  _destroy();
   _tz = GetTimeZoneMinutes();
+  _levels = std::move(right._levels);
+  _maxlevel = right._maxlevel;
+  _format = right._format;
+  _nullformat = right._nullformat;
   _files = std::move(right._files);
   _backup = std::move(right._backup);
   _split = right._split;
diff --git a/include/bss-util/Logger.h b/include/bss-util/Logger.h
index b9989a4..319d051 100644
--- a/include/bss-util/Logger.h
+++ b/include/bss-util/Logger.h
@@ -102,6 +102,7 @@ namespace bss {
     static void _header(std::ostream& o, int n, const char* source, const char* file, size_t line, const char* level, long tz);
     static bool _writeDateTime(long timezone, std::ostream& log, bool timeonly);
     void _levelDefaults();
+    void _destroy();
 
     Array<const char*, uint8_t> _levels;
     int8_t _maxlevel;
-- 
2.43.0


From 60b077de92c7e379045f6dfb1104c339309d488d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:09:38 +0000
Subject: [PATCH 126/191] fix: updating a scheduler with no events left called
 a destroyed event, an event that scheduled another one was used after it
 moved, and a negative interval was rescheduled for ever

---
 include/bss-util/Scheduler.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/bss-util/Scheduler.h b/include/bss-util/Scheduler.h
index 37914a7..1b2200a 100644
--- a/include/bss-util/Scheduler.h
+++ b/include/bss-util/Scheduler.h
@@ -33,14 +33,13 @@ namespace bss {
     {
       HighPrecisionTimer::Update();
 
-      while(BASE::Peek().first <= _time)
+      while(!BASE::Empty() && BASE::Peek().first <= _time)
       {
-        double r = BASE::Peek().second();
+        std::pair<double, F> event = BASE::Pop(); // The event may add other events, so it can't stay in the heap while it runs
+        double r = event.second();
 
-        if(r == 0.0)
-          BASE::Remove(0);
-        else
-          BASE::Set(0, std::pair<double, F>(r + _time, BASE::Peek().second)); // This is why we don't use the actual priority queue data structure
+        if(r > 0.0)
+          Add(r, std::move(event.second));
       }
     }
   };
-- 
2.43.0


From 8cf70d97691bddf4f1c4ed6ca16e50fc0a7975e1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:09:38 +0000
Subject: [PATCH 127/191] fix: warping a timer scaled the elapsed time the
 opposite way from the delta

---
 bss-util/HighPrecisionTimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/HighPrecisionTimer.cpp b/bss-util/HighPrecisionTimer.cpp
index 75e1b84..b8605fb 100644
--- a/bss-util/HighPrecisionTimer.cpp
+++ b/bss-util/HighPrecisionTimer.cpp
@@ -48,7 +48,7 @@ double HighPrecisionTimer::Update(double timewarp)
   _nsDelta = ((newTime - _curTime) * 1000000000) / warpfreq;
 #else
   _delta = (newTime - _curTime) / (1000000 * timewarp);
-  _nsDelta = (uint64_t)((newTime - _curTime)*timewarp);
+  _nsDelta = (uint64_t)((newTime - _curTime) / timewarp);
 #endif
   _curTime = newTime;
   _nsTime += _nsDelta;
-- 
2.43.0


From 2bb330b46cf5d43caa4205cf876fc868ce375f85 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:09:38 +0000
Subject: [PATCH 128/191] fix: an alias table could not be copied, copied too
 few or too many probabilities when assigned and could not show its
 probabilities

---
 include/bss-util/AliasTable.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/AliasTable.h b/include/bss-util/AliasTable.h
index a8a088a..84ac664 100644
--- a/include/bss-util/AliasTable.h
+++ b/include/bss-util/AliasTable.h
@@ -15,8 +15,8 @@ namespace bss {
     AliasTable(const AliasTable& copy) : _alias(new UINT[copy._count]), _prob(new F[copy._count]), _count(copy._count),
       _dist(copy._dist), _fdist(copy._fdist)
     {
-      memcpy(_alias, copy._alias, sizeof(UINT)*copy._count);
-      memcpy(_prob, copy._prob, sizeof(UINT)*copy._count);
+      memcpy(_alias.get(), copy._alias.get(), sizeof(UINT)*copy._count);
+      memcpy(_prob.get(), copy._prob.get(), sizeof(F)*copy._count);
     }
     AliasTable(AliasTable&& mov) : _prob(std::move(mov._prob)), _alias(std::move(mov._alias)),
       _dist(std::move(mov._dist)), _fdist(std::move(mov._fdist)), _count(mov._count)
@@ -101,19 +101,20 @@ namespace bss {
     template<typename ENGINE>
     BSS_FORCEINLINE UINT operator()(ENGINE& e) const { return Get<ENGINE>(e); }
     BSS_FORCEINLINE UINT operator()(void) const { return Get(); }
-    inline F* GetProbabilities() const { return _prob; }
-    inline UINT* GetAliases() const { return _alias; }
+    inline F* GetProbabilities() const { return _prob.get(); }
+    inline UINT* GetAliases() const { return _alias.get(); }
     inline UINT GetCount() const { return _count; }
 
     inline AliasTable& operator=(const AliasTable& copy)
     {
+      if(this == &copy) return *this;
       _count = copy._count;
       _dist = copy._dist;
       _fdist = copy._fdist;
       _alias.reset(new UINT[copy._count]);
       _prob.reset(new F[copy._count]);
       memcpy(_alias.get(), copy._alias.get(), sizeof(UINT)*copy._count);
-      memcpy(_prob.get(), copy._prob.get(), sizeof(UINT)*copy._count);
+      memcpy(_prob.get(), copy._prob.get(), sizeof(F)*copy._count);
       return *this;
     }
     inline AliasTable& operator=(AliasTable&& mov)
-- 
2.43.0


From 974d6c2f6ea9d274b0189baadf9a3026ce511106 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:09:38 +0000
Subject: [PATCH 129/191] fix: removing from or clearing a random queue never
 destroyed the elements

---
 include/bss-util/RandomQueue.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/RandomQueue.h b/include/bss-util/RandomQueue.h
index 200e692..9cc5b56 100644
--- a/include/bss-util/RandomQueue.h
+++ b/include/bss-util/RandomQueue.h
@@ -35,9 +35,14 @@ namespace bss {
       return r;
     }
     BSS_FORCEINLINE T Pop() { return Pop(bss_getdefaultengine()); }
-    inline void Remove(CT index) { _array[index] = std::move(_array[--_length]); }
+    inline void Remove(CT index)
+    {
+      if(index < _length - 1)
+        _array[index] = std::move(_array[_length - 1]);
+      BASE::RemoveLast();
+    }
     inline bool Empty() const { return !_length; }
-    inline void Clear() { _length = 0; }
+    inline void Clear() { BASE::Clear(); }
     BSS_FORCEINLINE void SetLength(CT length) { BASE::SetLength(length); }
     inline CT Length() const { return _length; }
     inline const T* begin() const { return _array; }
-- 
2.43.0


From 32323deb7834e064b456787b28cd442ce5bd657d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:09:38 +0000
Subject: [PATCH 130/191] fix: Poisson disk sampling in double precision looked
 at the wrong grid cells and put points too close together

---
 include/bss-util/RandomQueue.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/bss-util/RandomQueue.h b/include/bss-util/RandomQueue.h
index 9cc5b56..0604798 100644
--- a/include/bss-util/RandomQueue.h
+++ b/include/bss-util/RandomQueue.h
@@ -82,9 +82,9 @@ namespace bss {
     size_t gw = ((size_t)ceil(w / cell)) + 4; //gives us buffer room so we don't have to worry about going outside the grid
     size_t gh = ((size_t)ceil(h / cell)) + 4;
     VARARRAY(GRID, grid, (gw*gh));    //grid height
-    uint64_t* ig = reinterpret_cast<uint64_t*>((GRID*)grid);
-    bssFillN<GRID>(grid, gw*gh, 0xFF);
-    assert(!(~ig[0]));
+    bssFillN<GRID>(grid, gw*gh, 0xFF); // fills the grid with NaN
+    auto used = [&](size_t i)->bool { return grid[i][0] == grid[i][0]; };
+    assert(!used(0));
 
     RandomQueue<std::array<T, 2>> list;
     std::array<T, 2> pt = { (T)bssRandReal(rect[0], rect[2]), (T)bssRandReal(rect[1], rect[3]) };
@@ -114,20 +114,20 @@ namespace bss {
           center = internal::_PDS_imageToGrid<T>(pt, cell, gw, rect); // If another point is in the neighborhood, abort this point.
           edge = center - gw - gw;
           assert(edge > 0);
-#define POISSONSAMPLE_CHECK(edge) if((~ig[edge])!=0 && DistSqr(grid[edge][0],grid[edge][1],pt[0],pt[1])<mindistsq) continue
+#define POISSONSAMPLE_CHECK(edge) if(used(edge) && DistSqr(grid[edge][0],grid[edge][1],pt[0],pt[1])<mindistsq) continue
           POISSONSAMPLE_CHECK(edge - 1);
           POISSONSAMPLE_CHECK(edge);
           POISSONSAMPLE_CHECK(edge + 1);
           edge += gw;
-          if(~(ig[edge - 1] & ig[edge] & ig[edge + 1])) continue;
+          if(used(edge - 1) || used(edge) || used(edge + 1)) continue;
           POISSONSAMPLE_CHECK(edge - 2);
           POISSONSAMPLE_CHECK(edge + 2);
           edge += gw;
-          if(~(ig[edge - 1] & ig[edge] & ig[edge + 1])) continue;
+          if(used(edge - 1) || used(edge) || used(edge + 1)) continue;
           POISSONSAMPLE_CHECK(edge - 2);
           POISSONSAMPLE_CHECK(edge + 2);
           edge += gw;
-          if(~(ig[edge - 1] & ig[edge] & ig[edge + 1])) continue;
+          if(used(edge - 1) || used(edge) || used(edge + 1)) continue;
           POISSONSAMPLE_CHECK(edge - 2);
           POISSONSAMPLE_CHECK(edge + 2);
           edge += gw;
-- 
2.43.0


From 33d06013f4f9f3dbf54aa573f7549bce5bd9c644 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:09:59 +0000
Subject: [PATCH 131/191] fix: seeding the random number generator with zero
 made it return zero for ever

---
 include/bss-util/XorshiftEngine.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/XorshiftEngine.h b/include/bss-util/XorshiftEngine.h
index d1460eb..5f169f2 100644
--- a/include/bss-util/XorshiftEngine.h
+++ b/include/bss-util/XorshiftEngine.h
@@ -33,6 +33,8 @@ namespace bss {
   // Generates a seed for xorshift1024star from a 64-bit value
   inline void GenXor1024Seed(uint64_t x, uint64_t(&seed)[17])
   {
+    if(!x) // xorshift cannot leave an all-zero state
+      x = UINT64_C(0x9E3779B97F4A7C15);
     xorshift64star(x);
     for(uint8_t i = 0; i < 16; ++i)
       seed[i] = xorshift64star(x);
-- 
2.43.0


From 2b9b5c31267edcc6c4336b55e7c74495db0ac74b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:19:00 +0000
Subject: [PATCH 132/191] fix: converting between fixed point formats shifted
 the wrong way and cut wide values off first

---
 include/bss-util/FixedPt.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/FixedPt.h b/include/bss-util/FixedPt.h
index b487c14..ee64991 100644
--- a/include/bss-util/FixedPt.h
+++ b/include/bss-util/FixedPt.h
@@ -62,7 +62,7 @@ namespace bss {
   public:
     inline constexpr Fixed(const Fixed& copy) : _bits(copy._bits) {}
     template<uint8_t B, typename U, bool S>
-    inline Fixed(const Fixed<B, U, S>& copy) : _bits((T)SafeShift<T, B - D>(copy.Bits())) {}
+    inline Fixed(const Fixed<B, U, S>& copy) : _bits(_convert<B, U>(copy.Bits())) {}
     inline constexpr explicit Fixed(const T v) : _bits(v << D) {}
     inline constexpr Fixed(BITS bits) : _bits(bits.bits) {}
     inline explicit Fixed(const float f) : _bits(FixedPtConv<T, D, float>(f)) {}
@@ -75,7 +75,7 @@ namespace bss {
 
     inline Fixed& operator=(const Fixed& right) { _bits = right._bits; return *this; }
     template<uint8_t B, typename U, bool S>
-    inline Fixed& operator=(const Fixed<B, U, S>& right) { _bits = (T)SafeShift<T, B - D>(right.Bits()); return *this; }
+    inline Fixed& operator=(const Fixed<B, U, S>& right) { _bits = _convert<B, U>(right.Bits()); return *this; }
 
     inline Fixed<(sizeof(T) << 3) - D, T, SATURATE> Reciprocal() const
     { 
@@ -135,6 +135,13 @@ namespace bss {
     BSS_FORCEINLINE bool operator <(const Fixed& r) const { return _bits < r._bits; }
 
   protected:
+    template<uint8_t B, typename U>
+    inline static T _convert(U bits)
+    {
+      typedef std::conditional_t<(sizeof(U) > sizeof(T)), U, T> W; // shift in the wider of the two types
+      return (T)SafeShift<W, (int)D - (int)B>((W)bits);
+    }
+
     T _bits;
   };
 
-- 
2.43.0


From 236d625e1185b7caae9c12a14ba72efec4ec5559 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:29:46 +0000
Subject: [PATCH 133/191] fix: negating and ordering vectors, transposing,
 converting and in-place multiplying matrices did not compile

---
 include/bss-util/vector.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 8e9bf5c..3c05a77 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -8,6 +8,8 @@
 #include "sseVec.h"
 #include <initializer_list>
 #include <array>
+#include <tuple>
+#include "compare.h"
 
 namespace bss {
   template<class Engine>
@@ -806,19 +808,19 @@ namespace bss {
     static const int MIN = M < N ? M : N;
 
     template<typename U>
-    inline Matrix(const Matrix<U, M, N>& copy) { T* p = v; U* cp = copy.v; for(int i = 0; i < M*N; ++i) p[i] = (T)cp[i]; }
+    inline Matrix(const Matrix<U, M, N>& copy) { T* p = (T*)v; const U* cp = (const U*)copy.v; for(int i = 0; i < M*N; ++i) p[i] = (T)cp[i]; }
     inline Matrix(const std::initializer_list<T>& l) { assert(l.size() == (M*N)); T* p = (T*)v; int k = 0; for(const T* i = l.begin(); i != l.end() && k < M*N; ++i) p[k++] = *i; }
     inline explicit Matrix(const T(&m)[M][N]) { memcpy(v, m, sizeof(T)*M*N); }
     inline constexpr Matrix() {}
     inline void Transpose(T(&out)[N][M]) const { Transpose(v, out); }
-    inline void Transpose(Matrix& mat) const { Transpose(v, mat.v); }
-    [[nodiscard]] inline Matrix<T, M, N> Transpose() const { Matrix<T, M, N> m; Transpose(v, m.v); return m; }
+    inline void Transpose(Matrix<T, N, M>& mat) const { Transpose(v, mat.v); }
+    [[nodiscard]] inline Matrix<T, N, M> Transpose() const { Matrix<T, N, M> m; Transpose(v, m.v); return m; }
 
     inline Matrix<T, M, N>& operator=(const Matrix<T, M, N>& r) { memcpy(v, r.v, sizeof(T)*M*N); return *this; }
-    template<typename U> inline Matrix<T, M, N>& operator=(const Matrix<U, M, N>& r) { T* p = v; U* cp = r.v; for(int i = 0; i < M*N; ++i) p[i] = (T)cp[i]; return *this; }
+    template<typename U> inline Matrix<T, M, N>& operator=(const Matrix<U, M, N>& r) { T* p = (T*)v; const U* cp = (const U*)r.v; for(int i = 0; i < M*N; ++i) p[i] = (T)cp[i]; return *this; }
 
     BSS_FORCEINLINE static void Diagonal(const Vector<T, MIN>& d, Matrix& mat) { Diagonal(d.v, mat.v); }
-    BSS_FORCEINLINE static void Diagonal(const T(&d)[MIN], Matrix& mat) { Diagonal(d.v, mat.v); }
+    BSS_FORCEINLINE static void Diagonal(const T(&d)[MIN], Matrix& mat) { Diagonal(d, mat.v); }
     BSS_FORCEINLINE static void Diagonal(const Vector<T, MIN>& d, T(&out)[M][N]) { Diagonal(d.v, out); }
     BSS_FORCEINLINE static void Diagonal(const T(&d)[MIN], T(&out)[M][N])
     {
@@ -1091,7 +1093,7 @@ namespace bss {
   template<typename T, int N> inline Vector<T, N>& operator *=(Vector<T, N>& l, const T scalar) { for(int i = 0; i < N; ++i) l.v[i] *= scalar; return l; }
   template<typename T, int N> inline Vector<T, N>& operator /=(Vector<T, N>& l, const T scalar) { for(int i = 0; i < N; ++i) l.v[i] /= scalar; return l; }
 
-  template<typename T, int N> inline Vector<T, N> operator -(const Vector<T, N>& l) { for(int i = 0; i < N; ++i) l.v[i] = -l.v[i]; return l; }
+  template<typename T, int N> inline Vector<T, N> operator -(const Vector<T, N>& l) { Vector<T, N> n(l); for(int i = 0; i < N; ++i) n.v[i] = -l.v[i]; return n; }
 
   template<typename T, int N> inline bool operator !=(const Vector<T, N>& l, const Vector<T, N>& r) { bool ret = false; for(int i = 0; i < N; ++i) ret = ret || (l.v[i] != r.v[i]); return ret; }
   template<typename T, int N> inline bool operator ==(const Vector<T, N>& l, const Vector<T, N>& r) { bool ret = true; for(int i = 0; i < N; ++i) ret = ret && (l.v[i] == r.v[i]); return ret; }
@@ -1149,7 +1151,7 @@ namespace bss {
   template<typename T, int M, int N> inline bool operator !=(const Matrix<T, M, N>& l, const T scalar) { return !operator==(l, scalar); }
 
   template<typename T, int M, int N> inline Matrix<T, M, N> operator -(const Matrix<T, M, N>& l) { return l*((T)-1); }
-  template<typename T, int M, int N> inline Matrix<T, M, N> operator ~(const Matrix<T, M, N>& l) { Matrix<T, M, N> m; return l.Transpose(m.v); return m; }
+  template<typename T, int M, int N> inline Matrix<T, N, M> operator ~(const Matrix<T, M, N>& l) { Matrix<T, N, M> m; l.Transpose(m.v); return m; }
 
   template<typename T, int M, int N>
   inline const Vector<T, N> operator *(const Vector<T, M>& v, const Matrix<T, M, N>& m) // Does v * M and assumes v is a row vector
@@ -1166,7 +1168,7 @@ namespace bss {
     return out;
   }
   template<typename T, int N>
-  inline Matrix<T, N, N>& operator *=(Vector<T, N>& l, const Matrix<T, N, N>& r) // Does v *= M and assumes v is a row vector
+  inline Vector<T, N>& operator *=(Vector<T, N>& l, const Matrix<T, N, N>& r) // Does v *= M and assumes v is a row vector
   {
     MatrixMultiply<T, 1, N, N>(l.v_row, r.v, l.v_row);
     return l;
-- 
2.43.0


From 708d5df9ba8060dfb73b0a79a5ce69203eb09ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:29:46 +0000
Subject: [PATCH 134/191] fix: multiplying a matrix that is not 4x4 by a 4x4
 matrix failed an alignment assertion or crashed

---
 include/bss-util/vector.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 3c05a77..5df4afc 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -389,9 +389,8 @@ namespace bss {
     if constexpr(N == 4 && P == 4 && (std::is_same_v<T, float> || std::is_same_v<T, int32_t>))
     {
       typedef sseVecT<T> SSE;
-      assert(!(((size_t)l) % 16));
       assert(!(((size_t)r) % 16));
-      assert(!(((size_t)out) % 16));
+      assert((M != 1 && M != 4) || !(((size_t)out) % 16));
       SSE a(r[0]);
       SSE b(r[1]);
       SSE c(r[2]);
@@ -409,7 +408,7 @@ namespace bss {
       else
       {
         for(int i = 0; i < M; ++i) // Note: It's ok if l, r, and out are all the same matrix because of the order they're accessed in.
-          ((a*SSE(l[i][0])) + (b*SSE(l[i][1])) + (c*SSE(l[i][2])) + (d*SSE(l[i][3]))).Set(out[i]);
+          ((a*SSE(l[i][0])) + (b*SSE(l[i][1])) + (c*SSE(l[i][2])) + (d*SSE(l[i][3]))).Set(BSS_UNALIGNED<T>(out[i])); // Only 4x4 matrices are aligned
       }
     }
     else
-- 
2.43.0


From ccbcbfe60f765af0a860e120470cac6053de8e3b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:29:46 +0000
Subject: [PATCH 135/191] fix: the matrix of a quaternion did not compile, and
 for 4x4 floats was not a rotation

---
 include/bss-util/vector.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 5df4afc..62172c5 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -542,7 +542,7 @@ namespace bss {
     T yy = y*y, yz = y*z, yw = y*w;
     T zz = z*z, zw = z*w;
 
-    SetSubMatrix<T, 3, 3>::MM(out,
+    SetSubMatrix<T, N, N>::M3x3(out,
       1 - 2 * (yy + zz), 2 * (xy - zw), 2 * (xz + yw),
       2 * (xy + zw), 1 - 2 * (xx + zz), 2 * (yz - xw),
       2 * (xz - yw), 2 * (yz + xw), 1 - 2 * (xx + yy));
@@ -561,12 +561,11 @@ namespace bss {
     const sseVec n100(-1, 1, 1, 0);
     const sseVec n001(1, 1, -1, 0);
 
-    (y*yxw + z*zwx*n010).Set(out[0]);
-    (x*yxw + z*wzy*n001).Set(out[1]);
-    (x*zwx + y*wzy*n100).Set(out[2]);
+    (sseVec(1, 0, 0, 0) + (y*yxw + z*zwx*n010)*sseVec(-2, 2, 2, 0)).Set(out[0]);
+    (sseVec(0, 1, 0, 0) + (x*yxw + z*wzy*n001)*sseVec(2, -2, -2, 0)).Set(out[1]);
+    (sseVec(0, 0, 1, 0) + (x*zwx + y*wzy*n100)*sseVec(2, 2, -2, 0)).Set(out[2]);
     sseVec::ZeroVector().Set(out[3]);
     out[3][3] = 1;
-    out[1][2] = -out[1][2];
 
     /*
     y y + z z
-- 
2.43.0


From ae41411dd62bec62fc5b11a0438b157241cea5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:29:46 +0000
Subject: [PATCH 136/191] fix: a spline evaluated by matrix only used its first
 control point

---
 include/bss-util/vector.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 62172c5..409544b 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -1200,11 +1200,7 @@ namespace bss {
     float a[4] = { t*t*t, t*t, t, 1 };
     sseVec r = MatrixMultiply1x4<float>(a, m);
     r *= sseVec(p);
-    sseVec r2 = r;
-    sseVec::Shuffle<0xB1>(r2);
-    r += r2;
-    sseVec::Shuffle<0x1B>(r2);
-    return BSS_SSE_SS_F32(r + r2);
+    return r.Sum();
   }
 }
 
-- 
2.43.0


From 345a77c93644d1c3517db62b0181b7258c257160 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:34:36 +0000
Subject: [PATCH 137/191] fix: swizzling a vector of five or more components
 did not compile

---
 include/bss-util/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/vector.h b/include/bss-util/vector.h
index 409544b..f84deae 100644
--- a/include/bss-util/vector.h
+++ b/include/bss-util/vector.h
@@ -609,7 +609,7 @@ namespace bss {
     template<int... K> BSS_FORCEINLINE Vector<T, sizeof...(K)> Swizzle() const
     {
       static_assert(sizeof...(K) <= N, "Too many swizzles!");
-      return std::array<T, sizeof...(K)>{ v[K]... };
+      return Vector<T, sizeof...(K)>(std::array<T, sizeof...(K)>{ v[K]... });
     }
 
     typedef T SerializerArray;
-- 
2.43.0


From ef2941e2447434fcb9d655afa8271a62a4fdc699 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:53:40 +0000
Subject: [PATCH 138/191] fix: the points where a circle meets another circle
 or a line were relative to its centre, and so was the nearest point of a
 circle or an ellipse

---
 include/bss-util/Collision.h |  8 +++++++-
 include/bss-util/Geometry.h  | 26 +++++++++++++++++++-------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 655b9cc..ca05d18 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -64,7 +64,13 @@ namespace bss {
   template<class T>
   BSS_FORCEINLINE int CircleCircleIntersect(T X1, T Y1, T R1, T X2, T Y2, T R2, Vector<T, 2>(&out)[2])
   {
-    return CircleRadiusIntersect<T>(R1, X2 - X1, Y2 - Y1, R2, out);
+    int n = CircleRadiusIntersect<T>(R1, X2 - X1, Y2 - Y1, R2, out);
+    for(int i = 0; i < n; ++i)
+    {
+      out[i].x += X1;
+      out[i].y += Y1;
+    }
+    return n;
   }
   template<class T>
   inline bool RadiusContainsPoint(T r, T X, T Y)
diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 6b28f9e..ef3b677 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -62,17 +62,17 @@ namespace bss {
     BSS_FORCEINLINE bool ContainsCircle(const NSphere<T, 2>& s) const { return ContainsCircle(s.x, s.y, s.r); }
     BSS_FORCEINLINE bool ContainsCircle(const Vector<T, 2>& C, T R) const { return ContainsCircle(C.x, C.y, R); }
     BSS_FORCEINLINE bool ContainsCircle(T X, T Y, T R) const { if(r <= R) return false; return RadiusContainsPoint(r - R, X - x, Y - y); }
-    BSS_FORCEINLINE void NearestPoint(const Vector<T, 2>& p, T& outX, T& outY) const { RadiusNearestPoint(r, p.x - x, p.y - y, outX, outY); }
-    BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { RadiusNearestPoint(r, X - x, Y - y, outX, outY); }
-    BSS_FORCEINLINE int CircleIntersect(T X, T Y, T R, Vector<T, 2>(&out)[2]) const { return CircleRadiusIntersect<T>(r, X - x, Y - y, R, out); }
+    BSS_FORCEINLINE void NearestPoint(const Vector<T, 2>& p, T& outX, T& outY) const { CircleNearestPoint(x, y, r, p.x, p.y, outX, outY); }
+    BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { CircleNearestPoint(x, y, r, X, Y, outX, outY); }
+    BSS_FORCEINLINE int CircleIntersect(T X, T Y, T R, Vector<T, 2>(&out)[2]) const { return CircleCircleIntersect<T>(x, y, r, X, Y, R, out); }
     BSS_FORCEINLINE bool CircleCollide(T X, T Y, T R) const { return RadiusContainsPoint(r + R, X - x, Y - y); }
     BSS_FORCEINLINE bool CircleCollide(const Vector<T, 2>& C, T R) const { return RadiusContainsPoint(r + R, C.x - x, C.x - y); }
     BSS_FORCEINLINE bool LineCollide(T X1, T Y1, T X2, T Y2) const { return LineRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
     BSS_FORCEINLINE bool RayCollide(T X1, T Y1, T X2, T Y2) const { return RayRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
     BSS_FORCEINLINE bool LineSegmentCollide(T X1, T Y1, T X2, T Y2) const { return LineSegmentRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
-    BSS_FORCEINLINE bool LineIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return LineRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out); }
-    BSS_FORCEINLINE bool RayIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return RayRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out); }
-    BSS_FORCEINLINE bool LineSegmentIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return LineSegmentRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out); }
+    BSS_FORCEINLINE int LineIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return _fromCenter(LineRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out), out); }
+    BSS_FORCEINLINE int RayIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return _fromCenter(RayRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out), out); }
+    BSS_FORCEINLINE int LineSegmentIntersect(T X1, T Y1, T X2, T Y2, Vector<T, 2>(&out)[2]) const { return _fromCenter(LineSegmentRadiusIntersect(X1 - x, Y1 - y, X2 - x, Y2 - y, r, out), out); }
     BSS_FORCEINLINE bool RectCollide(T left, T top, T right, T bottom) const { return RectCircleCollide<T>(left, top, right, bottom, x, y, r); }
     BSS_FORCEINLINE bool EllipseCollide(T X, T Y, T A, T B) const { return EllipseCircleCollide(X, Y, A, B, x, y, r); }
 
@@ -96,6 +96,18 @@ namespace bss {
       };
       T v[3];
     };
+
+  protected:
+    // Moves points that are relative to the center of the circle to where they really are
+    BSS_FORCEINLINE int _fromCenter(int n, Vector<T, 2>(&out)[2]) const
+    {
+      for(int i = 0; i < n; ++i)
+      {
+        out[i].x += x;
+        out[i].y += y;
+      }
+      return n;
+    }
   };
 
   // Traditional 3 dimensional sphere
@@ -410,7 +422,7 @@ namespace bss {
     inline constexpr Ellipse(const V& Pos, const V& Axes) : pos(Pos), axes(Axes) {}
     inline T Area() const { return (T)(PI*a*b); }
     BSS_FORCEINLINE bool ContainsPoint(T X, T Y) const { return EllipseContainsPoint(x, y, a, b, X, Y); }
-    BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { return EllipseNearestPoint(a, b, X - x, Y - y, outX, outY); }
+    BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { EllipseNearestPoint(a, b, X - x, Y - y, outX, outY); outX += x; outY += y; }
     BSS_FORCEINLINE bool RectCollide(T left, T top, T right, T bottom) const { return EllipseRectCollide(x, y, a, b, left, top, right, bottom); }
     BSS_FORCEINLINE bool RectCollide(const Rect<T>& r) const { return EllipseRectCollide(x, y, a, b, r.left, r.top, r.right, r.bottom); }
     BSS_FORCEINLINE bool CircleCollide(T X, T Y, T R) const { return EllipseCircleCollide(x, y, a, b, X, Y, R); }
-- 
2.43.0


From eb8476670fd2aa4d0164c71e2c07bce5cf8b77d9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:53:40 +0000
Subject: [PATCH 139/191] fix: colliding a circle with a circle given as a
 vector used its x coordinate as y

---
 include/bss-util/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index ef3b677..67e3a69 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -66,7 +66,7 @@ namespace bss {
     BSS_FORCEINLINE void NearestPoint(T X, T Y, T& outX, T& outY) const { CircleNearestPoint(x, y, r, X, Y, outX, outY); }
     BSS_FORCEINLINE int CircleIntersect(T X, T Y, T R, Vector<T, 2>(&out)[2]) const { return CircleCircleIntersect<T>(x, y, r, X, Y, R, out); }
     BSS_FORCEINLINE bool CircleCollide(T X, T Y, T R) const { return RadiusContainsPoint(r + R, X - x, Y - y); }
-    BSS_FORCEINLINE bool CircleCollide(const Vector<T, 2>& C, T R) const { return RadiusContainsPoint(r + R, C.x - x, C.x - y); }
+    BSS_FORCEINLINE bool CircleCollide(const Vector<T, 2>& C, T R) const { return RadiusContainsPoint(r + R, C.x - x, C.y - y); }
     BSS_FORCEINLINE bool LineCollide(T X1, T Y1, T X2, T Y2) const { return LineRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
     BSS_FORCEINLINE bool RayCollide(T X1, T Y1, T X2, T Y2) const { return RayRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
     BSS_FORCEINLINE bool LineSegmentCollide(T X1, T Y1, T X2, T Y2) const { return LineSegmentRadiusCollide(X1 - x, Y1 - y, X2 - x, Y2 - y, r); }
-- 
2.43.0


From 2485829e301cfa56cd1234ba60a1cdd17df82db4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:53:40 +0000
Subject: [PATCH 140/191] fix: the distance from a point to a line or line
 segment was not the distance

---
 include/bss-util/Collision.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index ca05d18..a5286b5 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -290,7 +290,7 @@ namespace bss {
     T tx = X2 - X1;
     T ty = Y2 - Y1;
     T det = (tx*(Y1 - pY)) - ((X1 - pX)*ty);
-    return (det*det) / bss::FastSqrt<T>((tx*tx) + (ty*ty));
+    return fabs(det) / bss::FastSqrt<T>((tx*tx) + (ty*ty));
   }
   template<typename T>
   inline T LineSegmentPointDistanceSqr(T X1, T Y1, T X2, T Y2, T pX, T pY)
@@ -315,7 +315,7 @@ namespace bss {
   template<typename T>
   BSS_FORCEINLINE T LineSegmentPointDistance(T X1, T Y1, T X2, T Y2, T pX, T pY)
   {
-    return LineSegmentPointDistanceSqr(X1, Y1, X2, Y2, pX, pY);
+    return bss::FastSqrt<T>(LineSegmentPointDistanceSqr(X1, Y1, X2, Y2, pX, pY));
   }
   template<typename T>
   inline bool LineSegmentLineSegmentIntersect(T x1, T y1, T x2, T y2, T X1, T Y1, T X2, T Y2, Vector<T, 2>& retpoint)
-- 
2.43.0


From 8f8eb43dfac319f5a48ca04e35b71976d28f64c3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:53:40 +0000
Subject: [PATCH 141/191] fix: lines and line segments were intersected at the
 mirror image of the real point, and some lines that are not parallel were
 taken to be

---
 include/bss-util/Collision.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index a5286b5..bafd192 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -326,10 +326,11 @@ namespace bss {
     Vector<T, 2> s(X2 - X1, Y2 - Y1);
     T rCrossS = r.Cross(s);
 
-    if(rCrossS <= 0 && rCrossS >= -1)
+    if(rCrossS == 0)
       return false;
-    T t = s.Cross(q -= p) / rCrossS;
-    T u = r.Cross(q) / rCrossS;
+    q -= p;
+    T t = q.Cross(s) / rCrossS;
+    T u = q.Cross(r) / rCrossS;
     if(0 <= u && u <= 1 && 0 <= t && t <= 1)
     {
       retpoint = (p += (r *= t));
@@ -346,9 +347,10 @@ namespace bss {
     Vector<T, 2> s(X2 - X1, Y2 - Y1);
     T rCrossS = r.Cross(s);
 
-    if(rCrossS <= 0 && rCrossS >= -1)
+    if(rCrossS == 0)
       return false;
-    T t = s.Cross(q -= p) / rCrossS;
+    q -= p;
+    T t = q.Cross(s) / rCrossS;
     retpoint = (p += (r *= t));
     return true;
   }
-- 
2.43.0


From 7ff9fe4787c60a3cd1e7779ca893f8dcfbb897a7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:53:40 +0000
Subject: [PATCH 142/191] fix: a rectangle never collided with a horizontal
 line and collided with vertical lines below it

---
 include/bss-util/Collision.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index bafd192..8bd8dd0 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -412,7 +412,11 @@ namespace bss {
     T m = X2 - X1;
     if(m == (T)0) //this is a special case
     {
-      return !(X1 < left || X2 > right || (Y1 < top && Y2 < top) || (Y1 > bottom && Y2 < bottom));
+      return !(X1 < left || X2 > right || (Y1 < top && Y2 < top) || (Y1 > bottom && Y2 > bottom));
+    }
+    if(Y1 == Y2) // So is this
+    {
+      return !(Y1 < top || Y1 > bottom || (X1 < left && X2 < left) || (X1 > right && X2 > right));
     }
     m = (Y2 - Y1) / m; //this is a precaution to prevent divide by zero
                        //T m = (Y2-Y1) / (X2-X1);
-- 
2.43.0


From 7d5557565ae97d687a1eb9cbe96d4ab5bd8a69d3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:53:40 +0000
Subject: [PATCH 143/191] fix: checking if a triangle contains a point, turning
 a circle into an ellipse and converting polygons did not compile

---
 include/bss-util/Collision.h | 12 ++++++------
 include/bss-util/Geometry.h  |  4 +++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 8bd8dd0..fc864a5 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -472,7 +472,7 @@ namespace bss {
   /**************** Triangle ****************/
 
   template<typename T> //Uses the standard barycentric method to figure out point inclusion
-  inline bool TriangleContainsPoint(Vector<T, 2>(&p)[3], T X, T Y) 
+  inline bool TriangleContainsPoint(const Vector<T, 2>(&p)[3], T X, T Y) 
   {
     Vector<T, 2> v0(p[2]);
     Vector<T, 2> v1(p[1]);
@@ -482,11 +482,11 @@ namespace bss {
     v2 -= p[0];
 
     // Compute dot products
-    T dot00 = v0.DotProduct(v0);
-    T dot01 = v0.DotProduct(v1);
-    v0.x = v0.DotProduct(v2);
-    v0.y = v1.DotProduct(v1);
-    v1.x = v1.DotProduct(v2);
+    T dot00 = v0.Dot(v0);
+    T dot01 = v0.Dot(v1);
+    v0.x = v0.Dot(v2);
+    v0.y = v1.Dot(v1);
+    v1.x = v1.Dot(v2);
 
     // Compute barycentric coordinates
     v1.y = 1 / (dot00 * v0.y - dot01 * dot01);
diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 67e3a69..e1fb331 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -416,7 +416,7 @@ namespace bss {
     template<class U>
     inline constexpr Ellipse(const Ellipse<U>& other) : pos(other.pos), axes(other.axes) {}
     template<class U>
-    inline explicit constexpr Ellipse(const Circle<U>& other) : pos(other.pos), axes(other.r) {}
+    inline explicit constexpr Ellipse(const Circle<U>& other) : pos(other.c), axes((T)other.r) {}
     inline constexpr Ellipse(T X, T Y, T A, T B) : pos(X, Y), axes(A, B) {}
     inline constexpr Ellipse(const V& Pos, T A, T B) : pos(Pos), axes(A, B) {}
     inline constexpr Ellipse(const V& Pos, const V& Axes) : pos(Pos), axes(Axes) {}
@@ -758,6 +758,8 @@ namespace bss {
     void Serialize(Serializer<Engine>& s, const char* id) { _verts.Serialize(s, id); }
 
   protected:
+    template<class U> friend struct Polygon;
+
     Array<V> _verts;
   };
 }
-- 
2.43.0


From b3fa08c2b312c975295493bcace2452ade489e1f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:53:40 +0000
Subject: [PATCH 144/191] fix: two circle sectors were intersected with the
 inner circle of the second one in the place of the first, and sectors with
 the same centre ignored angles that wrap around

---
 include/bss-util/Geometry.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index e1fb331..4020127 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -563,7 +563,7 @@ namespace bss {
 
       // It is possible for coincidental circles to reach this point if they have a nonzero inner radius.
       if(fSmall(X) && fSmall(Y)) // If this true, both the angle range and radius range must intersect for the segments to intersect
-        return inner <= Outer && Inner <= outer && min <= (Min + Range) && Min <= (min + range);
+        return inner <= Outer && Inner <= outer && (range + Range >= (T)PI_DOUBLE || bss::AngleDist<T>(min + range*(T)0.5, Min + Range*(T)0.5) <= (range + Range)*(T)0.5);
 
       Vector<T, 2> out[2];
       if(_checkBothAngles(X, Y, CircleRadiusIntersect<T>(outer, X, Y, Outer, out), out, min, range, Min, Range))
@@ -572,7 +572,7 @@ namespace bss {
       if(inner > 0 && _checkBothAngles(X, Y, CircleRadiusIntersect<T>(inner, X, Y, Outer, out), out, min, range, Min, Range))
         return true; // inner <-> Outer intersection
 
-      if(Inner > 0 && _checkBothAngles(X, Y, CircleRadiusIntersect<T>(Inner, X, Y, outer, out), out, min, range, Min, Range))
+      if(Inner > 0 && _checkBothAngles(X, Y, CircleRadiusIntersect<T>(outer, X, Y, Inner, out), out, min, range, Min, Range))
         return true; // Inner <-> outer intersection
 
       if(inner > 0 && Inner > 0 && _checkBothAngles(X, Y, CircleRadiusIntersect<T>(inner, X, Y, Inner, out), out, min, range, Min, Range))
-- 
2.43.0


From b04ba114111acb2e2146fdaa840f5aa4c21e4388 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:53:40 +0000
Subject: [PATCH 145/191] fix: a convex polygon did not contain most of the
 points inside it

---
 include/bss-util/Collision.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index fc864a5..9e4151a 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -626,12 +626,13 @@ namespace bss {
     assert(PolygonIsConvex<T>(verts, num));
 
     //(y - y0)*(x1 - x0) - (x - x0)*(y1 - y0) where x,y is the point being tested and 0 and 1 are vertices on the polygon, returns negative if on the right, 0 if its on the line, and positive if its on the left
-    T last = ((point.y - verts[0].y)*(verts[num - 1].x - verts[0].x)) - ((point.x - verts[0].x)*(verts[num - 1].y - verts[0].y));
+    T last = ((point.y - verts[num - 1].y)*(verts[0].x - verts[num - 1].x)) - ((point.x - verts[num - 1].x)*(verts[0].y - verts[num - 1].y));
     T cur;
     for(size_t i = 1; i< num; ++i)
     {
       cur = ((point.y - verts[i - 1].y)*(verts[i].x - verts[i - 1].x)) - ((point.x - verts[i - 1].x)*(verts[i].y - verts[i - 1].y));
       if(cur<0 && last>0 || cur>0 && last<0) return false;//This is written so that being on the line counts as an intersection.
+      if(cur != 0) last = cur;
     }
 
     return true;
-- 
2.43.0


From 3c33c3500eb1fb85b9dbcf93daa04d9bb44529e5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:53:40 +0000
Subject: [PATCH 146/191] fix: the centroid of a polygon was added to an
 uninitialised vector

---
 include/bss-util/Collision.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 9e4151a..838472a 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -653,7 +653,7 @@ namespace bss {
   template<class T>
   inline Vector<T, 2> PolygonCentroid(const Vector<T, 2>* verts, size_t num)
   {
-    Vector<T, 2> c;
+    Vector<T, 2> c((T)0, (T)0);
 
     for(size_t i = 0, j = num - 1; i<num; j = i++) //for loop trick for iterating each edge taken from pnpoly
     {
-- 
2.43.0


From db269db157173d61929da77cbb4f6e8b8d849f84 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:53:40 +0000
Subject: [PATCH 147/191] fix: assigning a line of another type returned
 nothing

---
 include/bss-util/Geometry.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 4020127..335045a 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -170,7 +170,7 @@ namespace bss {
     inline V ParametricPoint(T s) const { return p1 + (p2 - p1)*s; }
 
     template<class U>
-    inline LineN& operator=(const LineN<U, N>& other) { p1 = other.p1; p2 = other.p2; }
+    inline LineN& operator=(const LineN<U, N>& other) { p1 = other.p1; p2 = other.p2; return *this; }
 
     typedef T SerializerArray;
     template<typename Engine>
@@ -202,7 +202,7 @@ namespace bss {
     BSS_FORCEINLINE LineN Rotate(T r, T x, T y) const { return LineN(p1.Rotate(r, x, y), p2.Rotate(r, x, y)); }
 
     template<class U>
-    inline LineN& operator=(const LineN<U, 2>& other) { p1 = other.p1; p2 = other.p2; }
+    inline LineN& operator=(const LineN<U, 2>& other) { p1 = other.p1; p2 = other.p2; return *this; }
 
     typedef T SerializerArray;
     template<typename Engine>
@@ -238,7 +238,7 @@ namespace bss {
     inline V ParametricPoint(T s) const { return p1 + (p2 - p1)*s; }
 
     template<class U>
-    inline LineN& operator=(const LineN<U, 3>& other) { p1 = other.p1; p2 = other.p2; }
+    inline LineN& operator=(const LineN<U, 3>& other) { p1 = other.p1; p2 = other.p2; return *this; }
 
     typedef T SerializerArray;
     template<typename Engine>
-- 
2.43.0


From 8895894c24b51a874d3375a4f64337d9e265d83b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:53:40 +0000
Subject: [PATCH 148/191] fix: a rectangle was read from and written to a
 vector register as if it were aligned

---
 include/bss-util/Geometry.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 335045a..82f3d0c 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -277,7 +277,7 @@ namespace bss {
     inline constexpr Rect(T X, T Y, const V& dim) : left(X), top(Y), right(X + dim.x), bottom(Y + dim.y) {}
     inline constexpr Rect(const V& pos, const V& dim) : left(pos.x), top(pos.y), right(pos.x + dim.x), bottom(pos.y + dim.y) {}
     inline explicit Rect(const V& v) : left(v.x), top(v.y), right(v.x), bottom(v.y) {}
-    inline explicit Rect(const sseVecT<T>& v) { v.Set(ltrb); }
+    inline explicit Rect(const sseVecT<T>& v) { v.Set(BSS_UNALIGNED<T>(ltrb)); }
     inline explicit Rect(const T(&rectarray)[4]) : left(rectarray[0]), top(rectarray[1]), right(rectarray[2]), bottom(rectarray[3]) {}
     inline explicit Rect(const std::array<T, 4>& rectarray) : left(rectarray[0]), top(rectarray[1]), right(rectarray[2]), bottom(rectarray[3]) {}
     inline T Area() const { return (right - left)*(bottom - top); }
@@ -287,7 +287,7 @@ namespace bss {
     BSS_FORCEINLINE V Dim() const { return V(right - left, bottom - top); }
     BSS_FORCEINLINE Rect Inflate(T amount) const { return Rect(left - amount, top - amount, right + amount, bottom + amount); }
     BSS_FORCEINLINE Rect Project(T Z) const { return Rect(*this) / (Z + 1); }
-    BSS_FORCEINLINE sseVecT<T> ToSSE() const { return sseVecT<T>(ltrb); }
+    BSS_FORCEINLINE sseVecT<T> ToSSE() const { return sseVecT<T>(BSS_UNALIGNED<const T>(ltrb)); }
     // Returns true if left <= right and top <= bottom
     BSS_FORCEINLINE bool IsCanonical() const { return left <= right && top <= bottom; }
     // Returns a rectangle with a proper LTRB description, such that left < right and top < bottom.
@@ -356,7 +356,7 @@ namespace bss {
     BSS_FORCEINLINE bool operator >=(const Rect &other) const { return !operator<(other); }
     BSS_FORCEINLINE bool operator <=(const Rect &other) const { return !operator>(other); }
 
-    inline Rect& operator =(const sseVecT<T>& _right) { _right.Set(ltrb); return *this; }
+    inline Rect& operator =(const sseVecT<T>& _right) { _right.Set(BSS_UNALIGNED<T>(ltrb)); return *this; }
     inline Rect& operator =(const Rect& _right) { left = _right.left; top = _right.top; right = _right.right;  bottom = _right.bottom; return *this; }
     template<class U>
     inline Rect& operator =(const Rect<U>& _right) { left = (T)_right.left; top = (T)_right.top; right = (T)_right.right; bottom = (T)_right.bottom; return *this; }
-- 
2.43.0


From 4ea4c3a1b5a02177627d2dac13d59256550e923c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:58:24 +0000
Subject: [PATCH 149/191] fix: a line could not be made from a point and the
 coordinates of another

---
 include/bss-util/Geometry.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 82f3d0c..330471f 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -195,7 +195,7 @@ namespace bss {
     inline constexpr LineN(const LineN<U, 2>& other) : p1(other.p1), p2(other.p2) {}
     inline constexpr LineN(const V& P1, const V& P2) : p1(P1), p2(P2) {}
     inline constexpr LineN(T X1, T Y1, T X2, T Y2) : x1(X1), y1(Y1), x2(X2), y2(Y2) {}
-    inline constexpr LineN(const V& P1, T X2, T Y2) : p1(P1), x2(X2), y2(Y2) {}
+    inline constexpr LineN(const V& P1, T X2, T Y2) : p1(P1), p2(X2, Y2) {}
     BSS_FORCEINLINE T Length() const { return Dist<T>(x1, y1, x2, y2); }
     BSS_FORCEINLINE V ParametricPoint(T s) const { return p1 + (p2 - p1)*s; }
     BSS_FORCEINLINE LineN Rotate(T r, const V& center) const { return Rotate(r, center.x, center.y); }
@@ -233,7 +233,7 @@ namespace bss {
     inline constexpr LineN(const LineN<U, 3>& other) : p1(other.p1), p2(other.p2) {}
     inline constexpr LineN(const V& P1, const V& P2) : p1(P1), p2(P2) {}
     inline constexpr LineN(T X1, T Y1, T Z1, T X2, T Y2, T Z2) : x1(X1), y1(Y1), z1(Z1), x2(X2), y2(Y2), z2(Z2) {}
-    inline constexpr LineN(const V& P1, T X2, T Y2, T Z2) : p1(P1), x2(X2), y2(Y2), z2(Z2) {}
+    inline constexpr LineN(const V& P1, T X2, T Y2, T Z2) : p1(P1), p2(X2, Y2, Z2) {}
     inline T Length() const { return p1.Distance(p2); }
     inline V ParametricPoint(T s) const { return p1 + (p2 - p1)*s; }
 
-- 
2.43.0


From 3730377c7dc1b1457494766b225853b66de2c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:58:45 +0000
Subject: [PATCH 150/191] fix: circle sectors of floats did not compile

---
 include/bss-util/Geometry.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 330471f..036eddc 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -556,9 +556,9 @@ namespace bss {
       T tr = Outer + outer;
       if(D2 > tr*tr) // If the two circles don't intersect, bail out immediately
         return false;
-      if(RadiusSectorContainsPoint(X + cos(Min)*Inner, Y - sin(Min)*Inner, inner, outer, min, range))
+      if(RadiusSectorContainsPoint<T>(X + cos(Min)*Inner, Y - sin(Min)*Inner, inner, outer, min, range))
         return true;
-      if(RadiusSectorContainsPoint(-X + cos(min)*inner, -Y - sin(min)*inner, Inner, Outer, Min, Range))
+      if(RadiusSectorContainsPoint<T>(-X + cos(min)*inner, -Y - sin(min)*inner, Inner, Outer, Min, Range))
         return true;
 
       // It is possible for coincidental circles to reach this point if they have a nonzero inner radius.
@@ -620,7 +620,7 @@ namespace bss {
     // Constructs a line segment for the given circle segment angle and checks if it collides with the given line segment
     BSS_FORCEINLINE static bool _lineRayIntersect(T X1, T Y1, T X2, T Y2, T inner, T outer, T angle)
     {
-      return LineSegmentLineSegmentCollide(cos(angle)*inner, -sin(angle)*inner, cos(angle)*outer, -sin(angle)*outer, X1, Y1, X2, Y2);
+      return LineSegmentLineSegmentCollide<T>(cos(angle)*inner, -sin(angle)*inner, cos(angle)*outer, -sin(angle)*outer, X1, Y1, X2, Y2);
     }
     BSS_FORCEINLINE static bool _rayRayIntersect(T X, T Y, T Inner, T Outer, T Angle, T inner, T outer, T angle)
     {
-- 
2.43.0


From 35bf10f7d9681a6cb9ca9276fd7a79de260bc104 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:10:41 +0000
Subject: [PATCH 151/191] fix: two circles that touch took the square root of a
 negative number

---
 include/bss-util/Collision.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/Collision.h b/include/bss-util/Collision.h
index 838472a..7eb8745 100644
--- a/include/bss-util/Collision.h
+++ b/include/bss-util/Collision.h
@@ -48,7 +48,8 @@ namespace bss {
 
     T id = ((T)1) / bss::FastSqrt(dsq);
     T a = (r*r - (R*R) + dsq)*(id / 2);
-    T h = bss::FastSqrt(r*r - (a*a));
+    T h = r*r - (a*a);
+    h = (h > 0) ? bss::FastSqrt(h) : (T)0; // rounding can make this negative if the circles touch
 
     T x2 = X*a*id;
     T y2 = Y*a*id;
-- 
2.43.0


From c5d7931bb861610c9e13ee98e6f94c49ff383b75 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:20:59 +0000
Subject: [PATCH 152/191] fix: Animation::Set did not compile

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index f2a50f1..dea98b5 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -504,7 +504,7 @@ namespace bss {
     inline void Set(const typename T::FRAME* src, size_t len)
     {
       static_assert(std::disjunction<std::is_same<T, Args>...>::value, "T is not in this Animation type!");
-      std::get<T>().Set(src, len);
+      std::get<T>(*this).Set(src, len);
       _calc = _calclength(std::index_sequence_for<Args...>{});
     }
 
-- 
2.43.0


From 084aec7793c4ee1af3e47249f959017696b6306e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:21:24 +0000
Subject: [PATCH 153/191] fix: an animation interval ended at its duration
 instead of its start plus its duration

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index dea98b5..79e885c 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -242,7 +242,7 @@ namespace bss {
     }
 
   protected:
-    inline void _addToQueue(T* dest, const FRAME& v) { _queue.Push(v.data, (dest->*FN)(v.value)); }
+    inline void _addToQueue(T* dest, const FRAME& v) { _queue.Push(v.time + v.data, (dest->*FN)(v.value)); }
 
     void _clearQueue(T* dest)
     {
-- 
2.43.0


From 8aab65a94313a99fbc5ef73b15af3ee60e5a7c7f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:21:45 +0000
Subject: [PATCH 154/191] fix: an animation interval was not removed while one
 that ends later was open

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index 79e885c..e1ee695 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -250,7 +250,7 @@ namespace bss {
         (dest->*REMOVE)(_queue.Pop().second);
     }
 
-    PriorityQueue<double, AUX, CompT<double>, size_t, ARRAY_SIMPLE, QUEUEALLOC> _queue;
+    PriorityQueue<double, AUX, CompTInv<double>, size_t, ARRAY_SIMPLE, QUEUEALLOC> _queue; // the interval that ends first comes first
     size_t _cur;
   };
 
-- 
2.43.0


From 3779985bdd211c23919420bcd859d3a5db975672 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:21:59 +0000
Subject: [PATCH 155/191] fix: an interval track made from keyframes did not
 know where it ends

---
 include/bss-util/Animation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index e1ee695..586536e 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -355,7 +355,7 @@ namespace bss {
     AniDataInterval() : _end(0.0) {}
     AniDataInterval(AniDataInterval&& mov) : BASE(std::move(mov)), _end(mov._end) { mov._end = 0.0f; }
     AniDataInterval(const AniDataInterval& copy) : BASE(copy), _end(copy._end) {}
-    AniDataInterval(const FRAME* src, size_t len) : BASE(src, len) {}
+    AniDataInterval(const FRAME* src, size_t len) : BASE(src, len) { _recalcLength(); }
     BSS_FORCEINLINE double End() const { return _end; }
     BSS_FORCEINLINE Slice<const FRAME> Frames() const { return _frames.GetSlice(); }
     BSS_FORCEINLINE size_t Add(const FRAME& frame)
-- 
2.43.0


From f04fd17a7e4c94e78ecebee22e0fcc93010ef818 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:23:59 +0000
Subject: [PATCH 156/191] fix: Gaussian quadrature could not be instantiated
 for any number of points

---
 include/bss-util/algo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index 80306ed..55fd66c 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -573,7 +573,7 @@ namespace bss {
   inline T GaussianQuadrature(T a, T b, T(*f)(T, D...), D... args)
   {
     static_assert(N <= 5, "Too many points for Guassian Quadrature!");
-    static_assert(N < 1, "Too few points for Guassian Quadrature!");
+    static_assert(N >= 1, "Too few points for Guassian Quadrature!");
 
     static const T points[5][5] = {
       0, 0, 0, 0, 0,
-- 
2.43.0


From 12d004ad1e2a56a70d48e406d3f01f5500216f1c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 157/191] fix: Gaussian quadrature with five points ignored the
 middle one

---
 include/bss-util/algo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/algo.h b/include/bss-util/algo.h
index 55fd66c..531859e 100644
--- a/include/bss-util/algo.h
+++ b/include/bss-util/algo.h
@@ -588,7 +588,7 @@ namespace bss {
       1.0, 1.0, 0, 0, 0,
       8.0 / 9.0, 5.0 / 9.0, 5.0 / 9.0, 0, 0,
       (18 + sqrt(30)) / 36, (18 + sqrt(30)) / 36, (18 - sqrt(30)) / 36, (18 - sqrt(30)) / 36, 0,
-      128 / 225, (322 + 13 * sqrt(70)) / 900, (322 + 13 * sqrt(70)) / 900, (322 - 13 * sqrt(70)) / 900, (322 - 13 * sqrt(70)) / 900,
+      128.0 / 225, (322 + 13 * sqrt(70)) / 900, (322 + 13 * sqrt(70)) / 900, (322 - 13 * sqrt(70)) / 900, (322 - 13 * sqrt(70)) / 900,
     };
 
     T scale = (b - a) / 2.0;
-- 
2.43.0


From ac4833dc67cc71e4f95fb06f866cf8d9e691c17e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:28:48 +0000
Subject: [PATCH 158/191] fix: sorted arrays could not be serialized

---
 include/bss-util/ArraySort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/ArraySort.h b/include/bss-util/ArraySort.h
index 3fa9178..2b9190f 100644
--- a/include/bss-util/ArraySort.h
+++ b/include/bss-util/ArraySort.h
@@ -118,7 +118,7 @@ namespace bss {
     {
       T x;
       Serializer<Engine>::template ActionBind<T>::Parse(e, x, 0);
-      Insert(x);
+      obj.Insert(std::move(x));
     }
     template<typename U>
     CT _insert(U && item)
-- 
2.43.0


From 72399be9354dd63c51d95a00cbb6aa87298d22fe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:28:48 +0000
Subject: [PATCH 159/191] fix: hash sets could not be serialized

---
 include/bss-util/Hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index 88e02dc..44189c9 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -400,7 +400,7 @@ namespace bss {
     static inline void _serializeAdd(Serializer<Engine>& e, Hash& obj, int& n)
     {
       Key key;
-      Serializer<Engine>::template ActionBind<Engine, Key>::Parse(e, key, 0);
+      Serializer<Engine>::template ActionBind<Key>::Parse(e, key, 0);
       obj.Insert(std::move(key));
     }
     BSS_FORCEINLINE bool _exists(khiter_t iterator) const { return !__ac_iseither(flags, iterator); }
-- 
2.43.0


From 331fac1399083753b66e23e7fb8000f35cd82bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:28:48 +0000
Subject: [PATCH 160/191] fix: circular arrays and queues could not be
 serialized

---
 include/bss-util/ArrayCircular.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/ArrayCircular.h b/include/bss-util/ArrayCircular.h
index 00bcd74..b8b69ed 100644
--- a/include/bss-util/ArrayCircular.h
+++ b/include/bss-util/ArrayCircular.h
@@ -183,7 +183,11 @@ namespace bss {
     {
       T x;
       Serializer<Engine>::template ActionBind<T>::Parse(e, x, 0);
-      Push(x);
+      if(obj._length >= obj._capacity)
+        obj.SetCapacity(T_FBNEXT(obj._length));
+      if(!obj._length)
+        obj._cur = 0;
+      new(obj._array + obj._modIndex(obj._length++)) T(std::move(x)); // The newest item is written first, so each item that is read is older than the last one
     }
 
     template<typename U> // Note that _cur+1 can never be negative so we don't need to use bssMod
-- 
2.43.0


From a0df62eca2d6947c99fcb0681d5a156761ee0eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:29:32 +0000
Subject: [PATCH 161/191] fix: arrays of pairs, maps and priority queues with
 keys that are numbers could not be serialized

---
 include/bss-util/Array.h         | 9 ++++++++-
 include/bss-util/ArrayCircular.h | 2 +-
 include/bss-util/ArraySort.h     | 2 +-
 include/bss-util/DynArray.h      | 2 +-
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index fcadb85..85c6bc9 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -13,6 +13,13 @@ namespace bss {
   template<class Engine>
   class Serializer;
 
+  namespace internal {
+    namespace serializer {
+      template<class T>
+      T FromString(const char* id);
+    }
+  }
+
   // Represents an array slice, similar to span<T>.
   template<class T, typename CType = size_t>
   struct BSS_COMPILER_DLLEXPORT Slice
@@ -385,7 +392,7 @@ namespace bss {
     inline std::enable_if_t<U> _serializeInsert(Serializer<Engine>& e, const char* name)
     {
       T pair;
-      std::get<0>(pair) = name;
+      std::get<0>(pair) = internal::serializer::FromString<remove_cvref_t<std::tuple_element_t<0, T>>>(name);
       Serializer<Engine>::template ActionBind<remove_cvref_t<std::tuple_element_t<1, T>>>::Parse(e, std::get<1>(pair), name);
       Add(pair);
     }
diff --git a/include/bss-util/ArrayCircular.h b/include/bss-util/ArrayCircular.h
index b8b69ed..c8dfb74 100644
--- a/include/bss-util/ArrayCircular.h
+++ b/include/bss-util/ArrayCircular.h
@@ -174,7 +174,7 @@ namespace bss {
     inline std::enable_if_t<U> _serializeInsert(Serializer<Engine>& e, const char* name)
     {
       T pair;
-      std::get<0>(pair) = name;
+      std::get<0>(pair) = internal::serializer::FromString<remove_cvref_t<std::tuple_element_t<0, T>>>(name);
       Serializer<Engine>::template ActionBind<remove_cvref_t<std::tuple_element_t<1, T>>>::Parse(e, std::get<1>(pair), name);
       Push(pair);
     }
diff --git a/include/bss-util/ArraySort.h b/include/bss-util/ArraySort.h
index 2b9190f..a31e382 100644
--- a/include/bss-util/ArraySort.h
+++ b/include/bss-util/ArraySort.h
@@ -109,7 +109,7 @@ namespace bss {
     inline std::enable_if_t<U> _serializeInsert(Serializer<Engine>& e, const char* name)
     {
       T pair;
-      std::get<0>(pair) = name;
+      std::get<0>(pair) = internal::serializer::FromString<remove_cvref_t<std::tuple_element_t<0, T>>>(name);
       Serializer<Engine>::template ActionBind<remove_cvref_t<std::tuple_element_t<1, T>>>::Parse(e, std::get<1>(pair), name);
       Insert(pair);
     }
diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index 728f192..9080535 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -138,7 +138,7 @@ namespace bss {
     inline std::enable_if_t<U> _serializeInsert(Serializer<Engine>& e, const char* name)
     {
       T pair;
-      std::get<0>(pair) = name;
+      std::get<0>(pair) = internal::serializer::FromString<remove_cvref_t<std::tuple_element_t<0, T>>>(name);
       Serializer<Engine>::template ActionBind<remove_cvref_t<std::tuple_element_t<1, T>>>::Parse(e, std::get<1>(pair), name);
       Add(pair);
     }
-- 
2.43.0


From 7c1dc25e2abcd42f3fdda21ba5a65c0338781bff Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:32:26 +0000
Subject: [PATCH 162/191] fix: stacks could not be copied or moved

---
 include/bss-util/Stack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Stack.h b/include/bss-util/Stack.h
index 9d853d6..8b8a822 100644
--- a/include/bss-util/Stack.h
+++ b/include/bss-util/Stack.h
@@ -12,8 +12,8 @@ namespace bss {
   class BSS_COMPILER_DLLEXPORT Stack
   {
   public:
-    inline Stack(const Stack& copy) : _array(copy) {}
-    inline Stack(Stack&& mov) : _array(std::move(mov)) {}
+    inline Stack(const Stack& copy) : _array(copy._array) {}
+    inline Stack(Stack&& mov) : _array(std::move(mov._array)) {}
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline Stack(CType init, typename Alloc::policy_type* policy) : _array(init, policy) {}
     inline explicit Stack(CType init = 0) : _array(init) {}
-- 
2.43.0


From 2859e03b9b052f635348b1f199759bbdf0560fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:34:02 +0000
Subject: [PATCH 163/191] fix: an interval track that was read back did not
 know where it ends

---
 include/bss-util/Animation.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/bss-util/Animation.h b/include/bss-util/Animation.h
index 586536e..21eba45 100644
--- a/include/bss-util/Animation.h
+++ b/include/bss-util/Animation.h
@@ -401,6 +401,14 @@ namespace bss {
       return *this;
     }
 
+    template<typename Engine>
+    void Serialize(Serializer<Engine>& e, const char* id)
+    {
+      BASE::template Serialize<Engine>(e, id);
+      if(e.in)
+        _recalcLength();
+    }
+
   protected:
     void _recalcLength()
     {
-- 
2.43.0


From 45fe8c687d5e54013a00efcc3f6a952ec1b96b36 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:43:46 +0000
Subject: [PATCH 164/191] fix: real numbers lost digits when they were written
 to TOML

---
 include/bss-util/TOML.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index c6d9f6b..b596013 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -693,7 +693,11 @@ namespace bss {
       return;
     std::ostream& s = *e.out;
     WriteTOMLId(e, id, s);
+    std::streamsize precision = s.precision();
+    if constexpr(std::is_floating_point<T>::value)
+      s.precision(std::numeric_limits<T>::max_digits10);
     s << (typename std::conditional<sizeof(T) <= 2, int, T>::type)obj; // Converts all smaller numbers to integers to avoid character insertion bullshit
+    s.precision(precision);
     if(e.engine.state != STATE_INLINE_TABLE && id)
       s << std::endl;
   }
-- 
2.43.0


From 057d5e5c1935701e51deca80869cf90cbeba7268 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:43:46 +0000
Subject: [PATCH 165/191] fix: an array inside of a TOML array ended the outer
 array

---
 include/bss-util/TOML.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index b596013..4420a36 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -588,6 +588,7 @@ namespace bss {
         if(!!s && s.peek() == ',' && s.peek() != -1) s.get(); // Only eat comma if it's there.
         ParseTOMLEatAllspace(s);
       }
+      if(!!s && s.peek() == ']') s.get(); // An array that this one is an element of must not mistake this for its own end
     }
   }
 
-- 
2.43.0


From 5acf88815e45c790b241dc3d28642dca8f6b9b8e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:44:18 +0000
Subject: [PATCH 166/191] fix: a comment after an element of a TOML array was
 read as part of the array

---
 include/bss-util/TOML.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 4420a36..f8a9228 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -584,6 +584,7 @@ namespace bss {
       while(!!s && s.peek() != ']' && s.peek() != -1)
       {
         Add(e, obj, n);
+        ParseTOMLEatAllspace(s);
         while(!!s && s.peek() != ',' && s.peek() != ']' && s.peek() != -1) s.get(); // eat everything up to a , or ] character
         if(!!s && s.peek() == ',' && s.peek() != -1) s.get(); // Only eat comma if it's there.
         ParseTOMLEatAllspace(s);
-- 
2.43.0


From b716a6eff4b7574feb8c40253cae9d9ee4a95b1c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:44:53 +0000
Subject: [PATCH 167/191] fix: reading a false from TOML left the rest of the
 word in the document

---
 include/bss-util/TOML.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index f8a9228..8b4ce54 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -47,6 +47,8 @@ namespace bss {
         if(s.get() != val[pos++])
         {
           target = false;
+          while(!!s && isalpha(s.peek())) // Don't leave half of the value behind
+            s.get();
           return;
         }
       }
-- 
2.43.0


From 65a12e03874bc33aaa9f37c1032cd023dd409230 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:46:09 +0000
Subject: [PATCH 168/191] fix: a generic TOML value kept only the last table of
 an array of tables, and lost tables below an array or below a missing table

---
 include/bss-util/TOML.h | 38 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 8b4ce54..ba133ad 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -465,37 +465,21 @@ namespace bss {
       Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, target.get<TOMLValue::TOMLTable>(), 0);
       return;
     case TOMLEngine::STATE_TABLE:
-      if(e.in->peek() == '.')
-      {
-        e.in->get();
-        Str buf;
-        TOMLEngine::ParseTOMLString<false, '.', ']'>(buf, *e.in);
-        TOMLValue* v = target.get<TOMLValue::TOMLTable>()[buf];
-        if(v)
-          ParseTOMLBase<TOMLValue>(e, *v, *e.in);
-      }
-      else if(e.in->peek() == ']')
-      {
-        target = TOMLValue::TOMLTable();
-        Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, target.get<TOMLValue::TOMLTable>(), 0);
-      }
-      else
-        assert(false);
-      return;
     case TOMLEngine::STATE_INLINE_TABLE:
-      if(e.in->peek() == '.')
+      if(e.in->peek() == ']' && e.engine.state == TOMLEngine::STATE_INLINE_TABLE) // This is the next table of an array
       {
-        e.in->get();
-        Str buf;
-        TOMLEngine::ParseTOMLString<false, '.', ']'>(buf, *e.in);
-        TOMLValue* v = target.get<TOMLValue::TOMLTable>()[buf];
-        if(v)
-          ParseTOMLBase<TOMLValue>(e, *v, *e.in);
+        if(!target.is<TOMLValue::TOMLArray>())
+          target = TOMLValue::TOMLArray();
+        target.get<TOMLValue::TOMLArray>().Add(TOMLValue(TOMLValue::TOMLTable()));
       }
-      else if(e.in->peek() == ']')
+      if(e.in->peek() == '.' || e.in->peek() == ']')
       {
-        target = TOMLValue::TOMLTable();
-        Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, target.get<TOMLValue::TOMLTable>(), 0);
+        TOMLValue* table = &target; // A path that leads through an array means the last table in it
+        if(target.is<TOMLValue::TOMLArray>() && target.get<TOMLValue::TOMLArray>().Length() > 0)
+          table = &target.get<TOMLValue::TOMLArray>().Back();
+        if(!table->is<TOMLValue::TOMLTable>())
+          *table = TOMLValue::TOMLTable();
+        Serializer<TOMLEngine>::ActionBind<TOMLValue::TOMLTable>::Parse(e, table->get<TOMLValue::TOMLTable>(), 0);
       }
       else
         assert(false);
-- 
2.43.0


From fee5d2682d10c98ff3d090d36aa1479b21fc99f5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:46:09 +0000
Subject: [PATCH 169/191] fix: a generic TOML value rounded integers with more
 than 53 bits

---
 include/bss-util/TOML.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index ba133ad..a77838f 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -517,13 +517,19 @@ namespace bss {
     case '.':
     case '-':
     case '+':
-      target = 0.0;
-      TOMLEngine::ParseNumber<double>(e, target.get<double>(), 0);
+    {
+      std::string number;
+      while(!!s && (isalnum(s.peek()) || s.peek() == '+' || s.peek() == '-' || s.peek() == '.')) number += (char)s.get();
+      double value = strtod(number.c_str(), 0);
       double ipart;
 
-      if(modf(target.get<double>(), &ipart) == 0.0)
+      if(number.find_first_of(".eE") == std::string::npos)
+        target = (int64_t)strtoll(number.c_str(), 0, 10);
+      else if(modf(value, &ipart) == 0.0 && ipart >= -9223372036854775808.0 && ipart < 9223372036854775808.0)
         target = (int64_t)ipart;
-
+      else
+        target = value;
+    }
       break;
     case 't':
     case 'f':
-- 
2.43.0


From 36173298c6ee9cb0d3590d527ef6086f6d10524b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:47:50 +0000
Subject: [PATCH 170/191] fix: keys with special characters were written to
 TOML without quotes

---
 include/bss-util/TOML.h | 65 ++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index a77838f..0d4834a 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -107,6 +107,38 @@ namespace bss {
     template<typename F>
     static void ParseTOMLRoot(Serializer<TOMLEngine>& e, std::istream& s, F && f);
 
+    static void WriteTOMLString(std::ostream& s, const char* str, size_t length)
+    {
+      s << '"';
+
+      for(size_t i = 0; i < length; ++i)
+      {
+        switch(str[i])
+        {
+        case '"': s << "\\\""; break;
+        case '\\': s << "\\\\"; break;
+        case '\b': s << "\\b"; break;
+        case '\f': s << "\\f"; break;
+        case '\n': s << "\\n"; break;
+        case '\r': s << "\\r"; break;
+        case '\t': s << "\\t"; break;
+        default: s << str[i]; break;
+        }
+      }
+
+      s << '"';
+    }
+    static void WriteTOMLKey(std::ostream& s, const char* id) // Only letters, digits, underscores and dashes can be written without quotes
+    {
+      size_t length = strlen(id);
+      bool bare = length > 0;
+      for(size_t i = 0; i < length; ++i)
+        bare = bare && ((id[i] >= 'a' && id[i] <= 'z') || (id[i] >= 'A' && id[i] <= 'Z') || (id[i] >= '0' && id[i] <= '9') || id[i] == '_' || id[i] == '-');
+      if(bare)
+        s << id;
+      else
+        WriteTOMLString(s, id, length);
+    }
     static void WriteTOMLId(Serializer<TOMLEngine>& e, const char* id, std::ostream& s)
     {
       if(!id || e.engine.state == STATE_INLINE_TABLE)
@@ -116,7 +148,11 @@ namespace bss {
         else
           s << ", ";
       }
-      if(id) s << id << " = ";
+      if(id)
+      {
+        WriteTOMLKey(s, id);
+        s << " = ";
+      }
     }
     template<typename T>
     static void WriteTOMLTables(Serializer<TOMLEngine>& e, const char* id, const T& obj, std::ostream& s);
@@ -703,7 +739,10 @@ namespace bss {
 
     if(e.engine.lastid.size())
       e.engine.lastid += '.';
-    e.engine.lastid += id;
+    std::ostringstream key;
+    if(id)
+      WriteTOMLKey(key, id);
+    e.engine.lastid += key.str().c_str();
     static_assert(internal::serializer::is_serializable<TOMLEngine, T>::value, "object missing Serialize<Engine>(Serializer<Engine>&, const char*) function!");
     const_cast<T&>(obj).template Serialize<TOMLEngine>(e, id);
     e.engine.lastid = last;
@@ -722,7 +761,8 @@ namespace bss {
       s << '[';
       if(e.engine.lastid.size())
         s << e.engine.lastid << '.';
-      s << id << ']' << std::endl;
+      WriteTOMLKey(s, id);
+      s << ']' << std::endl;
     }
 
     e.engine.first = true;
@@ -751,24 +791,7 @@ namespace bss {
         return;
 
       TOMLEngine::WriteTOMLId(e, id, s);
-      s << '"';
-
-      for(size_t i = 0; i < obj.size(); ++i)
-      {
-        switch(obj[i])
-        {
-        case '"': s << "\\\""; break;
-        case '\\': s << "\\\\"; break;
-        case '\b': s << "\\b"; break;
-        case '\f': s << "\\f"; break;
-        case '\n': s << "\\n"; break;
-        case '\r': s << "\\r"; break;
-        case '\t': s << "\\t"; break;
-        default: s << obj[i]; break;
-        }
-      }
-
-      s << '"';
+      WriteTOMLString(s, obj.data(), obj.size());
       if(e.engine.state != STATE_INLINE_TABLE && id)
         s << std::endl;
     }
-- 
2.43.0


From 133d870329111dffef483fe176f178c82dc21b15 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:50:32 +0000
Subject: [PATCH 171/191] fix: a TOML table inside of an array that has no
 elements was read into memory before the array

---
 include/bss-util/TOML.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 0d4834a..a5fab3d 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -107,6 +107,10 @@ namespace bss {
     template<typename F>
     static void ParseTOMLRoot(Serializer<TOMLEngine>& e, std::istream& s, F && f);
 
+    template<typename T>
+    static auto IsEmpty(const T& obj, int) -> decltype(std::begin(obj) == std::end(obj)) { return std::begin(obj) == std::end(obj); }
+    template<typename T>
+    static bool IsEmpty(const T& obj, long) { return true; } // A tuple never has a last table
     static void WriteTOMLString(std::ostream& s, const char* str, size_t length)
     {
       s << '"';
@@ -599,6 +603,8 @@ namespace bss {
     std::istream& s = *e.in;
     if(e.engine.state > STATE_NORMAL && e.in->peek() == '.') // If this happens, we are attempting to access an array
     {
+      if(IsEmpty(obj, 0))
+        return;
       auto end = std::end(obj);
       return Serializer<TOMLEngine>::ActionBind<E>::Parse(e, *--end, id);
     }
-- 
2.43.0


From c2eca67ff3c4e166119e6107ff97ebcc2d22384e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:53:23 +0000
Subject: [PATCH 172/191] fix: the profiler's flat report gave the times of the
 zones to the wrong zones

---
 bss-util/profiler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index 45766ba..3137d85 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -41,6 +41,7 @@ namespace bss {
       double avg;
       double var;
       uint64_t total;
+      Profiler::ProfilerInt id;
     };
   }
 }
@@ -86,11 +87,14 @@ void Profiler::WriteToStream(std::ostream& stream, uint8_t output)
     stream << "BSS Profiler Flat Output: " << std::endl;
     PROF_FLATOUT* avg = (PROF_FLATOUT*)calloc(_data.Capacity(), sizeof(PROF_FLATOUT));
     if(!avg) return;
+    for(ProfilerInt i = 0; i < _data.Capacity(); ++i)
+      avg[i].id = i; // Sorting must not separate a time from its zone
     _flatOut(avg, _trie, 0, 0);
     std::sort(avg + 1, avg + _data.Capacity(), [](const PROF_FLATOUT& l, const PROF_FLATOUT& r) -> bool { return l.avg > r.avg; });
     for(ProfilerInt i = 1; i < _data.Capacity(); ++i)
     {
-      stream << '[' << _trimPath(_data[i]->file) << ':' << _data[i]->line << "] " << _data[i]->name << ": ";
+      const ProfilerData* data = _data[avg[i].id];
+      stream << '[' << _trimPath(data->file) << ':' << data->line << "] " << data->name << ": ";
       _timeFormat(stream, avg[i].avg, avg[i].var, avg[i].total);
       stream << std::endl;
     }
-- 
2.43.0


From 48809150e576a2e3f7b201eb20a290d6d903c516 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:53:23 +0000
Subject: [PATCH 173/191] fix: the profiler mixed up zone 17 with zone 1 inside
 of zone 1, and so on for every larger id

---
 bss-util/profiler.cpp       | 8 ++++----
 include/bss-util/Profiler.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index 3137d85..7ad7df3 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -123,7 +123,7 @@ void Profiler::_treeOut(std::ostream& stream, PROF_TRIENODE* node, ProfilerInt i
     idlevel = 0;
   }
   for(ProfilerInt i = 0; i < 16; ++i)
-    _treeOut(stream, node->_children[i], id | (i << (4 * idlevel)), level + !id, idlevel + 1);
+    _treeOut(stream, node->_children[i], id | ((i & 7) << (3 * idlevel)), level + !id, idlevel + 1);
 }
 void Profiler::_heatOut(PROF_HEATNODE& heat, PROF_TRIENODE* node, ProfilerInt id, ProfilerInt idlevel)
 {
@@ -136,7 +136,7 @@ void Profiler::_heatOut(PROF_HEATNODE& heat, PROF_TRIENODE* node, ProfilerInt id
     idlevel = 0;
 
     for(ProfilerInt i = 0; i < 16; ++i)
-      _heatOut(nheat, node->_children[i], id | (i << (4 * idlevel)), 0);
+      _heatOut(nheat, node->_children[i], id | ((i & 7) << (3 * idlevel)), 0);
 
     double t = 0.0; // Create the [code] node
     for(ProfilerInt i = 0; i < nheat._children.Length(); ++i)
@@ -148,7 +148,7 @@ void Profiler::_heatOut(PROF_HEATNODE& heat, PROF_TRIENODE* node, ProfilerInt id
   }
   else
     for(ProfilerInt i = 0; i < 16; ++i)
-      _heatOut(heat, node->_children[i], id | (i << (4 * idlevel)), idlevel + 1);
+      _heatOut(heat, node->_children[i], id | ((i & 7) << (3 * idlevel)), idlevel + 1);
 }
 double Profiler::_heatFindMax(PROF_HEATNODE& heat)
 {
@@ -210,7 +210,7 @@ void Profiler::_flatOut(PROF_FLATOUT* avg, PROF_TRIENODE* node, ProfilerInt id,
     idlevel = 0;
   }
   for(ProfilerInt i = 0; i < 16; ++i)
-    _flatOut(avg, node->_children[i], id | (i << (4 * idlevel)), idlevel + 1);
+    _flatOut(avg, node->_children[i], id | ((i & 7) << (3 * idlevel)), idlevel + 1);
 
 }
 const char* Profiler::_trimPath(const char* path)
diff --git a/include/bss-util/Profiler.h b/include/bss-util/Profiler.h
index 875cad0..deeabe5 100644
--- a/include/bss-util/Profiler.h
+++ b/include/bss-util/Profiler.h
@@ -62,13 +62,13 @@ namespace bss {
     {
       PROF_TRIENODE** r = &_cur;
 
-      while(id > 0)
+      do // Three bits at a time. The fourth one says whether more follow, otherwise zone 17 couldn't be told from zone 1 inside of zone 1
       {
-        r = &(*r)->_children[id % 16];
-        id = (id >> 4);
+        r = &(*r)->_children[(id & 7) | ((id > 7) << 3)];
+        id = (id >> 3);
         if(!*r)
           *r = _allocNode();
-      }
+      } while(id > 0);
 
       _cur = *r;
       if(_cur->total == (uint64_t)-1)
-- 
2.43.0


From 697a67ec67c64f2d5b4d0cf8a6626c1510cae9dd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:53:23 +0000
Subject: [PATCH 174/191] fix: the profiler's tree indented a zone too far when
 the last digit of its id was zero

---
 bss-util/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index 7ad7df3..9d80c5e 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -123,7 +123,7 @@ void Profiler::_treeOut(std::ostream& stream, PROF_TRIENODE* node, ProfilerInt i
     idlevel = 0;
   }
   for(ProfilerInt i = 0; i < 16; ++i)
-    _treeOut(stream, node->_children[i], id | ((i & 7) << (3 * idlevel)), level + !id, idlevel + 1);
+    _treeOut(stream, node->_children[i], id | ((i & 7) << (3 * idlevel)), level + !idlevel, idlevel + 1);
 }
 void Profiler::_heatOut(PROF_HEATNODE& heat, PROF_TRIENODE* node, ProfilerInt id, ProfilerInt idlevel)
 {
-- 
2.43.0


From bfd1388a41427c64586f47b38a8b4cf703027bcc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:53:23 +0000
Subject: [PATCH 175/191] fix: the profiler's heat map took nested zones with
 large ids for others, or for zones that do not exist

---
 bss-util/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index 9d80c5e..549854a 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -136,7 +136,7 @@ void Profiler::_heatOut(PROF_HEATNODE& heat, PROF_TRIENODE* node, ProfilerInt id
     idlevel = 0;
 
     for(ProfilerInt i = 0; i < 16; ++i)
-      _heatOut(nheat, node->_children[i], id | ((i & 7) << (3 * idlevel)), 0);
+      _heatOut(nheat, node->_children[i], id | ((i & 7) << (3 * idlevel)), 1);
 
     double t = 0.0; // Create the [code] node
     for(ProfilerInt i = 0; i < nheat._children.Length(); ++i)
-- 
2.43.0


From 10c6f23c8caf1bd3be1d97a38adc77575b12a339 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:53:23 +0000
Subject: [PATCH 176/191] fix: the profiler's heat map never ended when no zone
 had taken any time

---
 bss-util/profiler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index 549854a..a09fd07 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -173,9 +173,13 @@ void Profiler::_heatWrite(std::ostream& stream, PROF_HEATNODE& node, size_t leve
     double mag1 = pow(max, 1.0 / 4.0);
     double mag2 = pow(max, 2.0 / 4.0);
     double mag3 = pow(max, 3.0 / 4.0);
-    size_t num = fFastTruncate(std::min(node.avg / mag1, 10.0));
-    num += fFastTruncate(std::min(node.avg / mag2, 10.0));
-    num += fFastTruncate(std::min(node.avg / mag3, 10.0));
+    size_t num = 0;
+    if(max > 0.0) // Otherwise this would divide by zero
+    {
+      num += fFastTruncate(std::min(node.avg / mag1, 10.0));
+      num += fFastTruncate(std::min(node.avg / mag2, 10.0));
+      num += fFastTruncate(std::min(node.avg / mag3, 10.0));
+    }
     char bar[BARLENGTH + 1] = {};
     bssFillN<char>(bar, BARLENGTH, ' ');
     for(size_t i = 0; i < num; ++i)
-- 
2.43.0


From 3e04f7bcef4254c4565d2ce1051c97412be7c801 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:53:45 +0000
Subject: [PATCH 177/191] fix: the profiler wrote an address instead of the
 unit of microseconds

---
 bss-util/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bss-util/profiler.cpp b/bss-util/profiler.cpp
index a09fd07..6b7865e 100644
--- a/bss-util/profiler.cpp
+++ b/bss-util/profiler.cpp
@@ -232,7 +232,7 @@ void Profiler::_timeFormat(std::ostream& stream, double avg, double variance, ui
   else if(avg >= 1000000000.0)
     stream << (avg / 1000000.0) << " ms";
   else if(avg >= 1000000.0)
-    stream << (avg / 1000.0) << L" \x039Cs";
+    stream << (avg / 1000.0) << " \xCE\x9Cs"; // in UTF-8
   else
     stream << avg << " ns";
 }
-- 
2.43.0


From 9c46212ebc0b34520498e79896d37fbfd44dea0d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:55:43 +0000
Subject: [PATCH 178/191] fix: the time zone was always said to be UTC outside
 of Windows, so log entries had the wrong time

---
 bss-util/bss_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bss-util/bss_util.cpp b/bss-util/bss_util.cpp
index bf41998..ee163c3 100644
--- a/bss-util/bss_util.cpp
+++ b/bss-util/bss_util.cpp
@@ -173,9 +173,9 @@ long GetTimeZoneMinutes()
   time_t rawtime;
   TIME64(&rawtime);
   tm stm;
-  if(GMTIMEFUNC(&rawtime, &stm) != 0)
+  if(!localtime_r(&rawtime, &stm))
     return 0;
-  return stm.tm_gmtoff;
+  return stm.tm_gmtoff / 60; // this is in seconds
 #endif
 }
 
-- 
2.43.0


From bec76a72410fcadca7f16e42c919054b432451a6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:55:43 +0000
Subject: [PATCH 179/191] fix: a log entry had the date of UTC next to the time
 of the local time zone

---
 bss-util/Logger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bss-util/Logger.cpp b/bss-util/Logger.cpp
index 35f6b50..91f0827 100644
--- a/bss-util/Logger.cpp
+++ b/bss-util/Logger.cpp
@@ -125,14 +125,14 @@ bool Logger::_writeDateTime(long timez, std::ostream& log, bool timeonly)
 {
   time_t rawtime;
   TIME64(&rawtime);
+  rawtime += timez * 60; // The date has to be in the same time zone as the time
   tm stm;
   tm* ptm = &stm;
   if(GMTIMEFUNC(&rawtime, ptm) != 0)
     return false;
 
-  long m = ptm->tm_hour * 60 + ptm->tm_min + 1440 + timez; //+1440 ensures this is never negative because % does not properly respond to negative numbers.
-  long h = ((m / 60) % 24);
-  m %= 60;
+  long h = ptm->tm_hour;
+  long m = ptm->tm_min;
 
   char logchar = log.fill();
   std::streamsize logwidth = log.width();
-- 
2.43.0


From 2a03f7a1a5f107f309455c07b4d9410f4c3e937d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:57:05 +0000
Subject: [PATCH 180/191] fix: the path of a font was not terminated outside of
 Windows

---
 bss-util/bss_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bss-util/bss_util.cpp b/bss-util/bss_util.cpp
index ee163c3..ea47437 100644
--- a/bss-util/bss_util.cpp
+++ b/bss-util/bss_util.cpp
@@ -494,8 +494,8 @@ std::unique_ptr<char[], bss::bssDLLDelete<char[]>> bss::GetFontPath(const char*
     if(FcPatternGetString(font, FC_FILE, 0, &file) == FcResultMatch)
     {
       size_t len = strlen((char*)file);
-      p.reset(new char[len]);
-      memcpy(p.get(), file, len);
+      p.reset(new char[len + 1]);
+      memcpy(p.get(), file, len + 1); // Include the null terminator
     }
     FcPatternDestroy(font);
   }
-- 
2.43.0


From 51e72bc32691e3230dbef145ecbfa754a9dbbee8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:57:05 +0000
Subject: [PATCH 181/191] fix: looking for a font ignored the weight and the
 slant outside of Windows

---
 bss-util/bss_util.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bss-util/bss_util.cpp b/bss-util/bss_util.cpp
index ea47437..73ca5dc 100644
--- a/bss-util/bss_util.cpp
+++ b/bss-util/bss_util.cpp
@@ -482,6 +482,8 @@ std::unique_ptr<char[], bss::bssDLLDelete<char[]>> bss::GetFontPath(const char*
   std::unique_ptr<char[], bss::bssDLLDelete<char[]>> p(nullptr);
 
   FcPattern* pat = FcNameParse((const FcChar8*)family);
+  FcPatternAddInteger(pat, FC_WEIGHT, FcWeightFromOpenType(weight));
+  FcPatternAddInteger(pat, FC_SLANT, italic ? FC_SLANT_ITALIC : FC_SLANT_ROMAN);
   FcConfigSubstitute(config, pat, FcMatchPattern);
   FcDefaultSubstitute(pat);
 
-- 
2.43.0


From a5aef909e97b0c1e367dee1f23d74e8b6fb542e8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 13:57:05 +0000
Subject: [PATCH 182/191] fix: looking for a font leaked the font configuration
 outside of Windows

---
 bss-util/bss_util.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bss-util/bss_util.cpp b/bss-util/bss_util.cpp
index 73ca5dc..1b74f1a 100644
--- a/bss-util/bss_util.cpp
+++ b/bss-util/bss_util.cpp
@@ -503,6 +503,7 @@ std::unique_ptr<char[], bss::bssDLLDelete<char[]>> bss::GetFontPath(const char*
   }
 
   FcPatternDestroy(pat);
+  FcConfigDestroy(config);
   return std::move(p);
 }
 
-- 
2.43.0


From bd875d9220518b7a22b972f31b3c29980c9d3bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 14:05:54 +0000
Subject: [PATCH 183/191] fix: a number given as a string in a TOML document
 took the character after the closing quote with it

---
 include/bss-util/TOML.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index a5fab3d..b0cab5f 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -421,8 +421,7 @@ namespace bss {
     {
       s.get();
       s >> o; // grab whatever we can
-      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string
-      s.get(); // eat the " character
+      while(!!s && s.peek() != -1 && s.get() != '"'); // eat the rest of the string, including the closing " character
     }
     else
       s >> o;
-- 
2.43.0


From 774987230169ebded8eec4ec3a422ae789086804 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 14:07:01 +0000
Subject: [PATCH 184/191] fix: a number given as a string after a space in a
 TOML document was not read, nor anything after it

---
 include/bss-util/TOML.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index b0cab5f..f2e9f88 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -414,6 +414,7 @@ namespace bss {
   void TOMLEngine::ParseNumber(Serializer<TOMLEngine>& e, T& obj, const char* id)
   {
     std::istream& s = *e.in;
+    ParseTOMLEatWhitespace(s);
     if(s.peek() == '\n' || s.peek() == '\r' || s.peek() == ',')
       return;
     typename std::conditional<sizeof(T) <= 2, int, T>::type o; // Prevent the stream from trying to read a number as an actual character
-- 
2.43.0


From 241d6cb312631d05b192cc41c48e2ecdac1a0d20 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 14:10:00 +0000
Subject: [PATCH 185/191] fix: reading TOML skipped a value that nobody asked
 for only up to the first comma or line break, even inside of a string, array
 or table, and lost what came after it

---
 include/bss-util/TOML.h | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index f2e9f88..447ec4e 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -100,6 +100,7 @@ namespace bss {
     static void ParseTOMLCharacter(std::string& out, std::istream& s);
     template<bool MULTILINE, char END, char END2>
     static void ParseTOMLString(std::string& buf, std::istream& s);
+    static void ParseTOMLSkip(std::istream& s, const char* end); // Skips whatever wasn't parsed, up to one of the given characters outside of any string, array or inline table.
     template<typename F>
     static void ParseTOMLTable(Serializer<TOMLEngine>& e, std::istream& s, F && f);
     template<typename F>
@@ -313,6 +314,30 @@ namespace bss {
     }
   }
 
+  inline void TOMLEngine::ParseTOMLSkip(std::istream& s, const char* end)
+  {
+    size_t depth = 0;
+    std::string buf;
+    while(!!s && s.peek() != -1 && (depth > 0 || !s.peek() || !strchr(end, s.peek())))
+    {
+      switch(s.peek())
+      {
+      case '"':
+      case '\'': ParseTOMLString<true, 0, 0>(buf, s); continue;
+      case '#':
+        while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != -1) s.get();
+        continue;
+      case '[':
+      case '{': ++depth; break;
+      case ']':
+      case '}':
+        if(depth > 0) --depth;
+        break;
+      }
+      s.get();
+    }
+  }
+
   template<typename F>
   void TOMLEngine::ParseTOMLTable(Serializer<TOMLEngine>& e, std::istream& s, F && f)
   {
@@ -328,7 +353,7 @@ namespace bss {
         internal::serializer::PushValue<decltype(e.engine.state)> push(e.engine.state, STATE_NORMAL);
         f(e, buf.c_str()); // This will call FindParse by default, or a special function for TOMLValue types
       }
-      while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != ',' && s.peek() != '}' && s.peek() != -1) s.get(); // Eat everything until the next comma or the end of the table
+      ParseTOMLSkip(s, "\n\r,}"); // Eat everything until the next comma or the end of the table
       if(s.peek() == ',') s.get();
       ParseTOMLEatWhitespace(s);
     }
@@ -349,7 +374,7 @@ namespace bss {
         s.get();
         internal::serializer::PushValue<decltype(e.engine.state)> push(e.engine.state, STATE_NORMAL);
         f(e, buf.c_str()); // This will call ParseTOMLBase on the appropriate value.
-        while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != -1) s.get(); // Eat all remaining characters on this line that weren't parsed.
+        ParseTOMLSkip(s, "\n\r"); // Eat everything on this line that weren't parsed.
       }
       ParseTOMLEatAllspace(s);
     }
@@ -373,11 +398,11 @@ namespace bss {
       ParseTOMLEatWhitespace(s);
       if(!!s && (s.peek() == ']' || s.peek() == '.'))
         f(e, buf.c_str());
-      while(!!s && s.peek() != '[' && s.peek() != -1) // eat lines until we find one that starts with [
+      if(!!s && s.peek() != '[' && s.peek() != -1) // This table wasn't parsed, so eat everything in it
       {
         while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != -1)
           s.get();
-        ParseTOMLEatNewline(s);
+        ParseTOMLPairs(e, s, [](Serializer<TOMLEngine>&, const char*) {});
       }
       ParseTOMLEatAllspace(s);
     }
@@ -619,7 +644,7 @@ namespace bss {
       {
         Add(e, obj, n);
         ParseTOMLEatAllspace(s);
-        while(!!s && s.peek() != ',' && s.peek() != ']' && s.peek() != -1) s.get(); // eat everything up to a , or ] character
+        ParseTOMLSkip(s, ",]"); // eat everything up to a , or ] character
         if(!!s && s.peek() == ',' && s.peek() != -1) s.get(); // Only eat comma if it's there.
         ParseTOMLEatAllspace(s);
       }
-- 
2.43.0


From cacba4762c0a89d560c6bc36dae7417613b79d60 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 14:45:52 +0000
Subject: [PATCH 186/191] fix: a TOML date and time without an offset, with
 fractional seconds or with the offset Z was read as midnight, and a date at
 the end of the document was not read

---
 include/bss-util/TOML.h | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 447ec4e..e1f1b27 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -480,36 +480,46 @@ namespace bss {
     TOMLEngine::ParseTOMLEatWhitespace(s);
     tg.get(s, 0, s, err, &t, DATE, std::end(DATE) - 1);
 
-    if(err == std::ios_base::goodbit)
+    if(!(err & std::ios_base::failbit))
     {
       if(s.peek() == 'T')
       {
         s.get();
+        err = std::ios_base::goodbit;
         tg.get(s, 0, s, err, &t, TIME, std::end(TIME) - 1);
 
-        if(err == std::ios_base::goodbit)
+        if(!(err & std::ios_base::failbit))
         {
-          char sign = s.peek();
+          std::chrono::nanoseconds fraction(0);
+          std::chrono::minutes offset(0);
+          if(s.peek() == '.')
+          {
+            s.get();
+            for(int64_t digit = 100000000; !!s && isdigit(s.peek()); digit /= 10)
+              fraction += std::chrono::nanoseconds((s.get() - '0') * digit);
+          }
+          int sign = s.peek();
 
           if(sign == '+' || sign == '-')
           {
             s.get();
             std::tm tz = { 0 };
+            err = std::ios_base::goodbit;
             tg.get(s, 0, s, err, &tz, ZONE, std::end(ZONE) - 1);
-            std::chrono::minutes offset(0);
 
-            if(err == std::ios_base::goodbit)
+            if(!(err & std::ios_base::failbit))
               offset = (sign == '+' ? 1 : -1) * (std::chrono::hours{ tz.tm_hour } +std::chrono::minutes{ tz.tm_min });
 
-            target = std::chrono::system_clock::time_point{
-              days { DaysFromCivil(t.tm_year + 1900, t.tm_mon + 1, t.tm_mday) } +
-              std::chrono::hours { t.tm_hour } +std::chrono::minutes { t.tm_min } +std::chrono::seconds { t.tm_sec } -
-              offset };
-
-            return;
           }
           else if(sign == 'Z')
             s.get();
+
+          target = std::chrono::system_clock::time_point{
+            std::chrono::duration_cast<std::chrono::system_clock::duration>(days { DaysFromCivil(t.tm_year + 1900, t.tm_mon + 1, t.tm_mday) } +
+            std::chrono::hours { t.tm_hour } +std::chrono::minutes { t.tm_min } +std::chrono::seconds { t.tm_sec } + fraction -
+            offset) };
+
+          return;
         }
       }
 
-- 
2.43.0


From e7752fa9b08b74a923c515eb24f2e01dad974600 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 14:47:04 +0000
Subject: [PATCH 187/191] fix: reading a TOML date into the generic value gave
 the integer of its year

---
 include/bss-util/TOML.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index e1f1b27..3e34b26 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -594,7 +594,17 @@ namespace bss {
     case '+':
     {
       std::string number;
-      while(!!s && (isalnum(s.peek()) || s.peek() == '+' || s.peek() == '-' || s.peek() == '.')) number += (char)s.get();
+      while(!!s && (isalnum(s.peek()) || s.peek() == '+' || s.peek() == '-' || s.peek() == '.' || s.peek() == ':')) number += (char)s.get();
+#ifdef BSS_COMPILER_HAS_TIME_GET
+      if(number.length() >= 10 && number[4] == '-' && number[7] == '-') // date
+      {
+        std::istringstream ss(number);
+        std::chrono::system_clock::time_point time;
+        ParseTOMLBase<std::chrono::system_clock::time_point>(e, time, ss);
+        target = time;
+        break;
+      }
+#endif
       double value = strtod(number.c_str(), 0);
       double ipart;
 
-- 
2.43.0


From e96445333c438a4ccfebc3c620c9fa31fdd29040 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:00:23 +0000
Subject: [PATCH 188/191] fix: assigning a polygon of another type with more
 than 65535 vertices never ended, and setting more than 65535 vertices dropped
 the rest

---
 include/bss-util/Geometry.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Geometry.h b/include/bss-util/Geometry.h
index 036eddc..c90d9fe 100644
--- a/include/bss-util/Geometry.h
+++ b/include/bss-util/Geometry.h
@@ -728,7 +728,7 @@ namespace bss {
     inline Polygon<T>& operator =(const Polygon<U>& right)
     {
       _verts.SetCapacityDiscard(right._verts.Capacity());
-      for(uint16_t i = 0; i < _verts.Capacity(); ++i)
+      for(size_t i = 0; i < _verts.Capacity(); ++i)
         _verts[i] = right._verts[i];
       return *this;
     }
@@ -743,7 +743,7 @@ namespace bss {
     inline const V* end() const { return _verts.end(); }
     inline V* begin() { return _verts.begin(); }
     inline V* end() { return _verts.end(); }
-    inline void SetVertices(const V* vertices, uint16_t num)
+    inline void SetVertices(const V* vertices, size_t num)
     {
       assert(vertices != _verts.begin());
       _verts.SetCapacityDiscard(num);
-- 
2.43.0


From a0dbdbb6bbddf66744c9b2def8da98942652b9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:03:08 +0000
Subject: [PATCH 189/191] fix: the mask of a range of bits was computed in 32
 bits, so a 64-bit mask lost every bit beyond them

---
 include/bss-util/defines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/defines.h b/include/bss-util/defines.h
index cb8dd98..6a96a1a 100644
--- a/include/bss-util/defines.h
+++ b/include/bss-util/defines.h
@@ -46,7 +46,7 @@
 #define T_GETBIT(type, bit) ((type)(((type)1)<<(((type)bit)%(sizeof(type)<<3)))) // Gets a bitmask using its 0-based index.
 //#define T_GETBITRANGE(type, low, high) ((type)((((2<<((high)-(low)))-1)<<(low))|(((2<<((high)-(low)))-1)>>(-(low)))|(((2<<((high)-(low)))-1)<<((low)%(sizeof(type)<<3)))))
 // Gets a bitmask for a range of bits. This range can be negative to start from the left end instead of the right.
-#define T_GETBITRANGE(type, low, high) ((type)(SAFESHIFT(((2<<((high)-(low)))-1),low)|(((2<<((high)-(low)))-1)<<((low)%(sizeof(type)<<3))))) 
+#define T_GETBITRANGE(type, low, high) ((type)(SAFESHIFT(((((type)2)<<((high)-(low)))-1),low)|(((((type)2)<<((high)-(low)))-1)<<((low)%(sizeof(type)<<3))))) 
 #define MAKEVERSIONINT(major,minor,revision) ((major) + ((minor)<<8) + ((revision)<<16)) // Packs version information into a 32-bit integer
 // This calculates the most significant bit in an 8-bit integer (CHAR) at compile time. It's really just a basterdized version of
 // i |= i >> 1; i |= i >> 2; i |= i >> 4; i -= i >> 1; so that it happens during compile time.
-- 
2.43.0


From 6e36ad1ad277226d132485fdea6e601d3abd3af7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 190/191] fix: reading a TOML date that the clock cannot
 represent overflowed

---
 include/bss-util/TOML.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index 3e34b26..0800306 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -479,8 +479,10 @@ namespace bss {
     std::ios_base::iostate err = std::ios_base::goodbit;
     TOMLEngine::ParseTOMLEatWhitespace(s);
     tg.get(s, 0, s, err, &t, DATE, std::end(DATE) - 1);
+    const days limit = std::chrono::duration_cast<days>(std::chrono::system_clock::duration::max()) - days { 2 }; // leaves room for the time and the offset
+    const days day { DaysFromCivil(t.tm_year + 1900, t.tm_mon + 1, t.tm_mday) };
 
-    if(!(err & std::ios_base::failbit))
+    if(!(err & std::ios_base::failbit) && day >= -limit && day <= limit)
     {
       if(s.peek() == 'T')
       {
@@ -515,7 +517,7 @@ namespace bss {
             s.get();
 
           target = std::chrono::system_clock::time_point{
-            std::chrono::duration_cast<std::chrono::system_clock::duration>(days { DaysFromCivil(t.tm_year + 1900, t.tm_mon + 1, t.tm_mday) } +
+            std::chrono::duration_cast<std::chrono::system_clock::duration>(day +
             std::chrono::hours { t.tm_hour } +std::chrono::minutes { t.tm_min } +std::chrono::seconds { t.tm_sec } + fraction -
             offset) };
 
@@ -523,7 +525,7 @@ namespace bss {
         }
       }
 
-      target = std::chrono::system_clock::time_point{ days { DaysFromCivil(t.tm_year + 1900, t.tm_mon + 1, t.tm_mday) } };
+      target = std::chrono::system_clock::time_point{ day };
     }
   }
 #endif
-- 
2.43.0


From 7175ce4b6d51d0dd433cde1834aee7b2f6cb9e92 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 16:29:34 +0000
Subject: [PATCH 191/191] fix: a std::array was not recognised as one, so that
 it could not be a hash key

---
 include/bss-util/bss_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/bss_util.h b/include/bss-util/bss_util.h
index f2d813a..55484b7 100644
--- a/include/bss-util/bss_util.h
+++ b/include/bss-util/bss_util.h
@@ -1024,7 +1024,7 @@ namespace bss {
   
   template <typename T>
   struct is_specialization_of_array : std::false_type {};
-  template <typename T, int N>
+  template <typename T, size_t N>
   struct is_specialization_of_array<std::array<T, N>> : std::true_type {};
 
   // Implements remove_cvref from the C++20 standard
-- 
2.43.0

