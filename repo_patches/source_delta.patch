From 1f2d09cc582dd86f77cbeb8b20dc43ee146cb572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:19 +0000
Subject: [PATCH 01/28] fix: parallel erase/erase_if report 0 when the key
 vanished during the lock upgrade

erase_if_impl() looks the key up under the shared lock, upgrades (unlock + lock)
and looks it up again. When the second lookup fails nothing is erased (another
thread did it), but 1 was returned, so two concurrent erase(key) both claimed to
have erased the element.
---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 649dab0..08567ac 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3924,7 +3924,7 @@ public:
             // we did an unlock/lock, need to call `find()` again
             it = set.find(key, hashval);
             if (it == set.end())
-                return 1;
+                return 0;
         }
         if (std::forward<F>(f)(const_cast<value_type&>(*it))) {
             set._erase(it);
-- 
2.43.0


From 0a633082958036bab012974a7adea24ff14a9e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:19 +0000
Subject: [PATCH 02/28] fix: WriteLock/ReadLock constructed with try_to_lock
 own the lock they acquired

The result of try_lock() was dropped, so a successful attempt left the mutex
locked for ever with owns_lock() == false.
---
 include/gtl/phmap.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 08567ac..cf2d607 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -218,9 +218,7 @@ public:
 
         WriteLock(mutex_type& m, try_to_lock_t)
             : m_(&m)
-            , locked_(false) {
-            m_->try_lock();
-        }
+            , locked_(m_->try_lock()) {}
 
         WriteLock(WriteLock&& o) noexcept
             : m_(std::move(o.m_))
@@ -302,9 +300,7 @@ public:
 
         ReadLock(mutex_type& m, try_to_lock_t)
             : m_(&m)
-            , locked_(false) {
-            m_->try_lock_shared();
-        }
+            , locked_(m_->try_lock_shared()) {}
 
         ReadLock(ReadLock&& o) noexcept
             : m_(std::move(o.m_))
@@ -572,10 +568,10 @@ public:
 struct AbslMutex : protected absl::Mutex {
     void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { this->Lock(); }
     void unlock() ABSL_UNLOCK_FUNCTION() { this->Unlock(); }
-    void try_lock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { this->TryLock(); }
+    bool try_lock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return this->TryLock(); }
     void lock_shared() ABSL_SHARED_LOCK_FUNCTION() { this->ReaderLock(); }
     void unlock_shared() ABSL_UNLOCK_FUNCTION() { this->ReaderUnlock(); }
-    void try_lock_shared() ABSL_SHARED_TRYLOCK_FUNCTION(true) { this->ReaderTryLock(); }
+    bool try_lock_shared() ABSL_SHARED_TRYLOCK_FUNCTION(true) { return this->ReaderTryLock(); }
 };
 
 template<>
-- 
2.43.0


From e77e508c3c9762b3a077c4ee79fe16027c3cf3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:01 +0000
Subject: [PATCH 03/28] fix: parallel swap cannot deadlock

a.swap(b) locked a's submap and then waited for b's, so a concurrent b.swap(a)
deadlocked, and a.swap(a) locked the same mutex twice.
---
 include/gtl/phmap.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index cf2d607..3bfe246 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4126,10 +4126,23 @@ public:
         using std::swap;
         using Lockable2 = LockableImpl<Mtx2_>;
 
+        if (static_cast<const void*>(this) == static_cast<const void*>(&that))
+            return; // nothing to do, and we must not lock the same mutex twice
+
         for (size_t i = 0; i < num_tables; ++i) {
-            UniqueLock                     l(sets_[i]);
-            typename Lockable2::UniqueLock l2(that.get_inner(i));
-            swap(sets_[i].set_, that.get_inner(i).set_);
+            auto& inner  = sets_[i];
+            auto& inner2 = that.get_inner(i);
+            if constexpr (std::is_same_v<Mtx_, NullMutex> || std::is_same_v<Mtx2_, NullMutex>) {
+                UniqueLock                     l(inner);
+                typename Lockable2::UniqueLock l2(inner2);
+                swap(inner.set_, inner2.set_);
+            } else {
+                // lock both together, another thread may be swapping the same containers the other way round
+                std::lock(inner, inner2);
+                std::lock_guard l(inner, std::adopt_lock);
+                std::lock_guard l2(inner2, std::adopt_lock);
+                swap(inner.set_, inner2.set_);
+            }
         }
     }
 
-- 
2.43.0


From 166e8b8ee1ea67389e275392a5073a6e02d68108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:01 +0000
Subject: [PATCH 04/28] fix: parallel operator== cannot deadlock

Comparing a container with itself locked each submap mutex twice, and with a
reader-writer mutex the two shared locks were taken one after the other, which
deadlocks with a writer that waits for the locks in the other order (a == b
against b == a with writers queued, or against merge()).
---
 include/gtl/phmap.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 3bfe246..1bee6ab 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -492,8 +492,11 @@ public:
         explicit ReadLocks(mutex_type& m1, mutex_type& m2)
             : _m1(m1)
             , _m2(m2) {
-            _m1.lock_shared();
-            _m2.lock_shared();
+            std::shared_lock<mutex_type> l1(m1, std::defer_lock);
+            std::shared_lock<mutex_type> l2(m2, std::defer_lock);
+            std::lock(l1, l2); // avoids deadlock, same as WriteLocks
+            l1.release();
+            l2.release();
         }
 
         ReadLocks(adopt_lock_t, mutex_type& m1, mutex_type& m2)
@@ -3242,6 +3245,10 @@ protected:
             : set_(p.bucket_cnt, p.hashfn, p.eq, p.alloc) {}
 
         bool operator==(const Inner& o) const {
+            if (this == &o) { // do not lock the same mutex twice
+                SharedLock l(const_cast<Inner&>(*this));
+                return set_ == o.set_;
+            }
             typename Lockable::SharedLocks l(const_cast<Inner&>(*this), const_cast<Inner&>(o));
             return set_ == o.set_;
         }
-- 
2.43.0


From 10a5d67e6183c0b51e770f79dfac06089b39b152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:01 +0000
Subject: [PATCH 05/28] fix: parallel extract(key) holds the submap lock while
 extracting

The lookup was done under a shared lock which was released before the element
was moved out and its slot marked free.
---
 include/gtl/phmap.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 1bee6ab..a8a68e3 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4122,8 +4122,12 @@ public:
 
     template<class K = key_type, typename std::enable_if_t<!std::is_same_v<K, iterator>, int> = 0>
     node_type extract(const key_arg<K>& key) {
-        auto it = find(key);
-        return it == end() ? node_type() : extract(const_iterator{ it });
+        size_t     hashval = this->hash(key);
+        Inner&     inner   = sets_[subidx(hashval)];
+        auto&      set     = inner.set_;
+        UniqueLock m(inner);
+        auto       it = set.find(key, hashval);
+        return it == set.end() ? node_type() : set.extract(EmbeddedConstIterator(it));
     }
 
     template<class Mtx2_>
-- 
2.43.0


From e4054eeed0ecaaaade62983e9eed4765e15e15e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:01 +0000
Subject: [PATCH 06/28] fix: parallel at() and operator[] find the element
 under the submap lock

Both dereferenced an iterator after the lock was released. In the node based
containers that reads the slot array, which a concurrent insertion may have
reallocated, although references to elements are documented as stable.
---
 include/gtl/phmap.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index a8a68e3..3e62082 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4590,18 +4590,16 @@ public:
 
     template<class K = key_type, class P = Policy>
     MappedReference<P> at(const key_arg<K>& key) {
-        auto it = this->find(key);
-        if (it == this->end())
+        typename Base::SharedLock m;
+        auto ptr = this->template find_ptr<K>(key, this->hash(key), m).second;
+        if (ptr == nullptr)
             ThrowStdOutOfRange("phmap at(): lookup non-existent key");
-        return Policy::value(&*it);
+        return Policy::value(ptr);
     }
 
     template<class K = key_type, class P = Policy>
     MappedConstReference<P> at(const key_arg<K>& key) const {
-        auto it = this->find(key);
-        if (it == this->end())
-            ThrowStdOutOfRange("phmap at(): lookup non-existent key");
-        return Policy::value(&*it);
+        return const_cast<parallel_hash_map*>(this)->template at<K, P>(key);
     }
 
     // ----------- phmap extensions --------------------------
@@ -4682,12 +4680,12 @@ public:
 
     template<class K = key_type, class P = Policy, K* = nullptr>
     MappedReference<P> operator[](key_arg<K>&& key) {
-        return Policy::value(&*try_emplace(std::forward<K>(key)).first);
+        return Policy::value(try_emplace_p(std::forward<K>(key)).first);
     }
 
     template<class K = key_type, class P = Policy>
     MappedReference<P> operator[](const key_arg<K>& key) {
-        return Policy::value(&*try_emplace(key).first);
+        return Policy::value(try_emplace_p(key).first);
     }
 
 private:
-- 
2.43.0


From 84eb76f75d16811da164bcd91fde55258d1101d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:01 +0000
Subject: [PATCH 07/28] fix: parallel clear() with an auxiliary container
 compiles

inner is a reference, so lru_cache::clear() and memoize_lru::clear() did not
compile.
---
 include/gtl/phmap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 3e62082..7452071 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3581,7 +3581,7 @@ public:
             UniqueLock m(inner);
             inner.set_.clear();
             if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-                inner->aux_.clear();
+                inner.aux_.clear();
         }
     }
 
@@ -3592,7 +3592,7 @@ public:
         UniqueLock m(inner);
         inner.set_.clear();
         if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
-            inner->aux_.clear();
+            inner.aux_.clear();
     }
 
     // This overload kicks in when the argument is an rvalue of insertable and
-- 
2.43.0


From a70a11d506d413028af4c1418dd00c3616119fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:01 +0000
Subject: [PATCH 08/28] fix: lru_cache::get() reorders its list under the
 exclusive lock

if_contains() takes only a shared lock with a reader-writer mutex, while get()
splices the recency list.
---
 include/gtl/lru_cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/lru_cache.hpp b/include/gtl/lru_cache.hpp
index bf9e4a1..3557551 100644
--- a/include/gtl/lru_cache.hpp
+++ b/include/gtl/lru_cache.hpp
@@ -61,7 +61,7 @@ public:
     }
 
     std::optional<result_type> get(const K& k) {
-        if (result_type res; _cache.if_contains(k, [&](const auto& v, list_type& l) {
+        if (result_type res; _cache.modify_if(k, [&](const auto& v, list_type& l) {
                 res = v.second->second;
                 l.splice(l.begin(), l, v.second);
             }))
-- 
2.43.0


From 7d732931d0af879793135ded24ede25cdc91b98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:33 +0000
Subject: [PATCH 09/28] fix: hash tables count a new element only after it was
 constructed

prepare_insert() updated size_ and growth_left() before the element was
constructed: when the constructor (or the lazy_emplace callback, or the
allocator of a node) threw, size() counted an element that does not exist.
---
 include/gtl/phmap.hpp | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 7452071..104d108 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2188,7 +2188,7 @@ public:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             lazy_emplace_at(offset, std::forward<F>(f));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
         }
         return iterator_at(offset);
     }
@@ -2212,7 +2212,7 @@ public:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             lazy_emplace_at(offset, std::forward<F>(f));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
         } else
             _erase(iterator_at(offset));
     }
@@ -2544,7 +2544,7 @@ private:
         if (offset == (size_t)-1) {
             offset = prepare_insert(hashval);
             emplace_at(offset, std::forward<Args>(args)...);
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { iterator_at(offset), true };
         }
         return { iterator_at(offset), false };
@@ -2575,7 +2575,7 @@ private:
             auto   res     = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
-                s.set_ctrl(res.first, H2(hashval));
+                s.commit_insert(res.first, hashval);
             } else if (do_destroy) {
                 PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
@@ -2593,7 +2593,7 @@ private:
             auto res = s.find_or_prepare_insert(key, hashval);
             if (res.second) {
                 PolicyTraits::transfer(&s.alloc_ref(), s.slots_ + res.first, &slot);
-                s.set_ctrl(res.first, H2(hashval));
+                s.commit_insert(res.first, hashval);
             } else if (do_destroy) {
                 PolicyTraits::destroy(&s.alloc_ref(), &slot);
             }
@@ -2874,11 +2874,19 @@ protected:
             rehash_and_grow_if_necessary();
             target = find_first_non_full(hashval);
         }
-        ++size_;
-        growth_left() -= IsEmpty(ctrl_[target.offset]);
         return target.offset;
     }
 
+    // Completes an insertion started with prepare_insert(): accounts for the element
+    // just constructed at `i` and marks its slot as full. Nothing is recorded before the
+    // construction succeeded, so an exception leaves the table as it was.
+    // --------------------------------------------------------------------------
+    void commit_insert(size_t i, size_t hashval) {
+        ++size_;
+        growth_left() -= IsEmpty(ctrl_[i]);
+        set_ctrl(i, H2(hashval));
+    }
+
     // Constructs the value in the space pointed by the iterator. This only works
     // after an unsuccessful find_or_prepare_insert() and before any other
     // modifications happen in the raw_hash_set.
@@ -3142,7 +3150,7 @@ private:
         if (offset == (size_t)-1) {
             offset = this->prepare_insert(hashval);
             this->emplace_at(offset, std::forward<K>(k), std::forward<V>(v));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { this->iterator_at(offset), true };
         }
         Policy::value(&*this->iterator_at(offset)) = std::forward<V>(v);
@@ -3159,7 +3167,7 @@ private:
                              std::piecewise_construct,
                              std::forward_as_tuple(std::forward<K>(k)),
                              std::forward_as_tuple(std::forward<Args>(args)...));
-            this->set_ctrl(offset, H2(hashval));
+            this->commit_insert(offset, hashval);
             return { this->iterator_at(offset), true };
         }
         return { this->iterator_at(offset), false };
@@ -3753,7 +3761,7 @@ public:
         if (offset == (size_t)-1) {
             offset = set.prepare_insert(hashval);
             set.emplace_at(offset, std::forward<Args>(args)...);
-            set.set_ctrl(offset, H2(hashval));
+            set.commit_insert(offset, hashval);
             return make_rv(&inner, { set.iterator_at(offset), true });
         }
         return make_rv(&inner, { set.iterator_at(offset), false });
@@ -3833,7 +3841,7 @@ public:
         if (offset == (size_t)-1) {
             offset = set.prepare_insert(hashval);
             set.lazy_emplace_at(offset, std::forward<F>(f));
-            set.set_ctrl(offset, H2(hashval));
+            set.commit_insert(offset, hashval);
         }
         return make_iterator(&inner, set.iterator_at(offset));
     }
@@ -3952,10 +3960,10 @@ public:
             // key not found. call fEmplace lambda which should invoke passed constructor
             if constexpr (std::is_same_v<gtl::priv::empty, aux_type>) {
                 inner->set_.lazy_emplace_at(std::get<1>(res), std::forward<FEmplace>(fEmplace));
-                inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+                inner->set_.commit_insert(std::get<1>(res), hashval);
             } else {
                 auto del = inner->set_.lazy_emplace_at(std::get<1>(res), std::forward<FEmplace>(fEmplace), inner->aux_);
-                inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+                inner->set_.commit_insert(std::get<1>(res), hashval);
                 if (del)
                     inner->set_.erase(*del);
             }
@@ -4647,7 +4655,7 @@ public:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         } else {
             auto it = this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res)));
             // call lambda. in case of the set, non "key" part of value_type can be changed
@@ -4670,7 +4678,7 @@ public:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         }
         auto it = this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res)));
         return { &*it, std::get<2>(res) };
@@ -4697,7 +4705,7 @@ private:
         typename Base::Inner* inner = std::get<0>(res);
         if (std::get<2>(res)) {
             inner->set_.emplace_at(std::get<1>(res), std::forward<K>(k), std::forward<V>(v));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         } else
             Policy::value(&*inner->set_.iterator_at(std::get<1>(res))) = std::forward<V>(v);
         return { this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res))), std::get<2>(res) };
@@ -4718,7 +4726,7 @@ private:
                                    std::piecewise_construct,
                                    std::forward_as_tuple(std::forward<K>(k)),
                                    std::forward_as_tuple(std::forward<Args>(args)...));
-            inner->set_.set_ctrl(std::get<1>(res), H2(hashval));
+            inner->set_.commit_insert(std::get<1>(res), hashval);
         }
         return { this->iterator_at(inner, inner->set_.iterator_at(std::get<1>(res))), std::get<2>(res) };
     }
-- 
2.43.0


From 7bdca2d392fa338b769ba730c8405a6afb542e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:33 +0000
Subject: [PATCH 10/28] fix: hash table copy constructor marks a slot full only
 after copying the element

If copying an element threw, the slot was already marked full and the
destructor destroyed an element that was never constructed.
---
 include/gtl/phmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 104d108..47712e6 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -1821,8 +1821,8 @@ public:
         for (const auto& v : that) {
             const size_t hashval = PolicyTraits::apply(HashElement{ hash_ref() }, v);
             auto         target  = find_first_non_full(hashval);
-            set_ctrl(target.offset, H2(hashval));
             emplace_at(target.offset, v);
+            set_ctrl(target.offset, H2(hashval));
         }
         size_ = that.size();
         growth_left() -= that.size();
-- 
2.43.0


From 0a7e9f309b45701318a7bef6e0b9b19bb35970d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:33 +0000
Subject: [PATCH 11/28] fix: node hash tables release the node memory when its
 element fails to construct

new_element() leaked the allocated node when the element constructor threw.
---
 include/gtl/phmap.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 47712e6..7d58569 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -4825,6 +4825,17 @@ struct FlatHashMapPolicy {
     static const V& value(const std::pair<const K, V>* kv) { return kv->second; }
 };
 
+// Gives the memory of a node back to the allocator if constructing its element throws.
+template<class Alloc>
+struct node_alloc_guard {
+    Alloc&                                         alloc_;
+    typename std::allocator_traits<Alloc>::pointer ptr_;
+    ~node_alloc_guard() {
+        if (ptr_)
+            std::allocator_traits<Alloc>::deallocate(alloc_, ptr_, 1);
+    }
+};
+
 template<class Reference, class Policy>
 struct node_hash_policy {
     static_assert(std::is_lvalue_reference_v<Reference>, "");
@@ -4879,7 +4890,9 @@ struct NodeHashSetPolicy : gtl::priv::node_hash_policy<T&, NodeHashSetPolicy<T>>
         using ValueAlloc = typename std::allocator_traits<Allocator>::template rebind_alloc<T>;
         ValueAlloc value_alloc(*alloc);
         T*         res = std::allocator_traits<ValueAlloc>::allocate(value_alloc, 1);
+        node_alloc_guard<ValueAlloc> guard{ value_alloc, res };
         std::allocator_traits<ValueAlloc>::construct(value_alloc, res, std::forward<Args>(args)...);
+        guard.ptr_ = nullptr;
         return res;
     }
 
@@ -4918,7 +4931,9 @@ public:
         using PairAlloc = typename std::allocator_traits<Allocator>::template rebind_alloc<value_type>;
         PairAlloc   pair_alloc(*alloc);
         value_type* res = std::allocator_traits<PairAlloc>::allocate(pair_alloc, 1);
+        node_alloc_guard<PairAlloc> guard{ pair_alloc, res };
         std::allocator_traits<PairAlloc>::construct(pair_alloc, res, std::forward<Args>(args)...);
+        guard.ptr_ = nullptr;
         return res;
     }
 
-- 
2.43.0


From 52bc249ad3db89b496ac0350c942dfef3e22837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 12/28] fix: emplace() destroys the temporary element when
 hashing, comparing or growing throws

The emplace() overloads that cannot deduce the key build the element in
a local slot first; that element was leaked when the insertion threw.
---
 include/gtl/phmap.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 7d58569..f1ebdfc 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -2086,8 +2086,11 @@ public:
         slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
+        SlotGuard   guard{ alloc_ref(), slot };
         const auto& elem = PolicyTraits::element(slot);
-        return PolicyTraits::apply(InsertSlot<true>{ *this, std::move(*slot) }, elem);
+        auto        res  = PolicyTraits::apply(InsertSlot<true>{ *this, std::move(*slot) }, elem);
+        guard.slot_      = nullptr;
+        return res;
     }
 
     template<class... Args, typename std::enable_if_t<!IsDecomposable<Args...>::value, int> = 0>
@@ -2096,8 +2099,11 @@ public:
         slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
         PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
+        SlotGuard   guard{ alloc_ref(), slot };
         const auto& elem = PolicyTraits::element(slot);
-        return PolicyTraits::apply(InsertSlotWithHash<true>{ *this, std::move(*slot), hashval }, elem);
+        auto        res  = PolicyTraits::apply(InsertSlotWithHash<true>{ *this, std::move(*slot), hashval }, elem);
+        guard.slot_      = nullptr;
+        return res;
     }
 
     template<class... Args>
@@ -2567,6 +2573,16 @@ private:
         size_t        hashval;
     };
 
+    // Destroys the element of a slot that is not part of the table, unless released.
+    struct SlotGuard {
+        allocator_type& alloc_;
+        slot_type*      slot_;
+        ~SlotGuard() {
+            if (slot_)
+                PolicyTraits::destroy(&alloc_, slot_);
+        }
+    };
+
     template<bool do_destroy>
     struct InsertSlot {
         template<class K, class... Args>
-- 
2.43.0


From 5cee5452dde02c2b3705d22ee3aaf49653fcaef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:35 +0000
Subject: [PATCH 13/28] fix: parallel emplace() hashes the element after
 constructing it

The emplace() overloads of the parallel containers that cannot deduce the
key hashed an uninitialised slot, did not compile when instantiated and
leaked the temporary element when hashing, comparing or growing threw.
---
 include/gtl/phmap.hpp | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index f1ebdfc..70b9ca3 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3749,13 +3749,18 @@ public:
         typename gtl::aligned_storage_t<sizeof(slot_type), alignof(slot_type)> raw;
         slot_type* slot = reinterpret_cast<slot_type*>(&raw);
 
-        PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
-        const auto&                                             elem  = PolicyTraits::element(slot);
-        Inner&                                                  inner = sets_[subidx(hashval)];
-        auto&                                                   set   = inner.set_;
-        UniqueLock                                              m(inner);
-        typename EmbeddedSet::template InsertSlotWithHash<true> f{ inner, std::move(*slot), hashval };
-        return make_rv(PolicyTraits::apply(f, elem));
+        auto a = get_allocator();
+        PolicyTraits::construct(&a, slot, std::forward<Args>(args)...);
+        typename EmbeddedSet::SlotGuard guard{ a, slot };
+
+        const auto& elem  = PolicyTraits::element(slot);
+        Inner&      inner = sets_[subidx(hashval)];
+        UniqueLock  m(inner);
+
+        using Insert = typename EmbeddedSet::template InsertSlotWithHash<true>;
+        auto res     = PolicyTraits::apply(Insert{ inner.set_, std::move(*slot), hashval }, elem);
+        guard.slot_  = nullptr;
+        return make_rv(&inner, res);
     }
 
     template<class... Args>
@@ -3818,17 +3823,21 @@ public:
     template<class... Args, typename std::enable_if_t<!IsDecomposable<Args...>::value, int> = 0>
     std::pair<iterator, bool> emplace(Args&&... args) {
         typename gtl::aligned_storage_t<sizeof(slot_type), alignof(slot_type)> raw;
-        slot_type* slot    = reinterpret_cast<slot_type*>(&raw);
-        size_t     hashval = this->hash(PolicyTraits::key(slot));
+        slot_type* slot = reinterpret_cast<slot_type*>(&raw);
+        auto       a    = get_allocator();
 
-        PolicyTraits::construct(&alloc_ref(), slot, std::forward<Args>(args)...);
-        const auto& elem  = PolicyTraits::element(slot);
-        Inner&      inner = sets_[subidx(hashval)];
-        auto&       set   = inner.set_;
+        PolicyTraits::construct(&a, slot, std::forward<Args>(args)...);
+        typename EmbeddedSet::SlotGuard guard{ a, slot };
+
+        const auto& elem    = PolicyTraits::element(slot);
+        size_t      hashval = PolicyTraits::apply(HashElement{ hash_ref() }, elem);
+        Inner&      inner   = sets_[subidx(hashval)];
         UniqueLock  m(inner);
 
-        typename EmbeddedSet::template InsertSlotWithHash<true> f{ inner, std::move(*slot), hashval };
-        return make_rv(PolicyTraits::apply(f, elem));
+        using Insert = typename EmbeddedSet::template InsertSlotWithHash<true>;
+        auto res     = PolicyTraits::apply(Insert{ inner.set_, std::move(*slot), hashval }, elem);
+        guard.slot_  = nullptr;
+        return make_rv(&inner, res);
     }
 
     template<class... Args>
-- 
2.43.0


From 2f503c1e345026aceae2c9e0ddb642b1c0d18464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:51 +0000
Subject: [PATCH 14/28] fix: btree: do not lose the root node when the first
 insertion throws

---
 include/gtl/btree.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index f01ac2b..49a3137 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -2361,7 +2361,7 @@ btree<P>::btree(const btree& x)
 template<typename P>
 template<typename... Args>
 auto btree<P>::insert_unique(const key_type& key, Args&&... args) -> std::pair<iterator, bool> {
-    if (empty()) {
+    if (root() == EmptyNode()) { // not `empty()`: a throwing insertion may have left an empty root node
         mutable_root() = rightmost_ = new_leaf_root_node(1);
     }
 
@@ -2423,7 +2423,7 @@ void btree<P>::insert_iterator_unique(InputIterator b, InputIterator e) {
 template<typename P>
 template<typename ValueType>
 auto btree<P>::insert_multi(const key_type& key, ValueType&& v) -> iterator {
-    if (empty()) {
+    if (root() == EmptyNode()) { // not `empty()`: a throwing insertion may have left an empty root node
         mutable_root() = rightmost_ = new_leaf_root_node(1);
     }
 
@@ -2701,7 +2701,7 @@ auto btree<P>::erase_multi(const K& key) -> size_type {
 
 template<typename P>
 void btree<P>::clear() {
-    if (!empty()) {
+    if (root() != EmptyNode()) {
         internal_clear(root());
     }
     mutable_root() = EmptyNode();
-- 
2.43.0


From faff1d18e0ba211b4ee665664ddfd97726d43d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:08 +0000
Subject: [PATCH 15/28] fix: vector::emplace() into spare capacity builds the
 element before moving the elements its arguments may refer to

---
 include/gtl/vector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/gtl/vector.hpp b/include/gtl/vector.hpp
index 7c9c9de..48b0d8d 100644
--- a/include/gtl/vector.hpp
+++ b/include/gtl/vector.hpp
@@ -1465,8 +1465,9 @@ public:
         return do_real_insert(
             cpos,
             1,
-            [&] { return false; },
-            [&] { return iterator{}; },
+            // the arguments may refer to elements of this vector, so build the new element before moving any of them
+            [&] { return true; },
+            [&] { return insert(cpos, T(std::forward<Args>(args)...)); },
             [&](iterator start) { M_construct(start, std::forward<Args>(args)...); },
             [&](iterator start) { M_destroy(start); });
     }
-- 
2.43.0


From 07ce5cffaa16c34ea6ade4f0ce1f39e958cfe36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:25 +0000
Subject: [PATCH 16/28] fix: bit_vector: countr_zero() is inline, so that the
 header can be used in more than one translation unit

---
 include/gtl/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/bit_vector.hpp b/include/gtl/bit_vector.hpp
index e435943..8bfd944 100644
--- a/include/gtl/bit_vector.hpp
+++ b/include/gtl/bit_vector.hpp
@@ -49,7 +49,7 @@ static constexpr size_t _popcount64(uint64_t y) {
 }
 
 // De Bruijn Multiplication With separated LS1B - author Kim Walisch (2012)
-unsigned countr_zero(uint64_t bb) {
+inline unsigned countr_zero(uint64_t bb) {
     const unsigned index64[64] = { 0,  47, 1,  56, 48, 27, 2,  60, 57, 49, 41, 37, 28, 16, 3,  61,
                                    54, 58, 35, 52, 50, 42, 21, 44, 38, 32, 29, 23, 17, 11, 4,  62,
                                    46, 55, 26, 59, 40, 36, 15, 53, 34, 51, 20, 43, 31, 22, 10, 45,
-- 
2.43.0


From 8138dac913c9b2d010e5d106010145837d94680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:25 +0000
Subject: [PATCH 17/28] fix: intrusive_ptr: assignment from a pointer to
 another type compiles

---
 include/gtl/intrusive.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gtl/intrusive.hpp b/include/gtl/intrusive.hpp
index 1d777a1..a45c25b 100644
--- a/include/gtl/intrusive.hpp
+++ b/include/gtl/intrusive.hpp
@@ -101,8 +101,7 @@ public:
 
     template<class U>
     intrusive_ptr& operator=(intrusive_ptr<U> const& rhs) {
-        if (this != &rhs)
-            this_type(rhs).swap(*this);
+        this_type(rhs).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From 34fcb1acd0489b02bee60b46faacf9c7f788d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:25 +0000
Subject: [PATCH 18/28] fix: combinators: missing # of the include guard

---
 include/gtl/combinators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gtl/combinators.hpp b/include/gtl/combinators.hpp
index 9400c76..199cfe2 100644
--- a/include/gtl/combinators.hpp
+++ b/include/gtl/combinators.hpp
@@ -1,4 +1,4 @@
-pragma once
+#pragma once
 
 /*
  * from https://github.com/codereport/blackbird  - Copyright (c) 2022 Conor Hoekstra
-- 
2.43.0


From 5f9ed1cdfc3fe35dea79789b3efb733139908eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:25 +0000
Subject: [PATCH 19/28] fix: adv_utils: include <cassert>

---
 include/gtl/adv_utils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/gtl/adv_utils.hpp b/include/gtl/adv_utils.hpp
index c414bbe..fc2d6d2 100644
--- a/include/gtl/adv_utils.hpp
+++ b/include/gtl/adv_utils.hpp
@@ -11,6 +11,7 @@
 //      https://www.apache.org/licenses/LICENSE-2.0
 // ---------------------------------------------------------------------------
 
+#include <cassert>
 #include <concepts>
 #include <cstdint>
 #include <numeric>
-- 
2.43.0


From 8147013388a0b8f674996d1be69634e49cb7979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:25 +0000
Subject: [PATCH 20/28] fix: parallel containers: hinted insertion of a node
 handle compiles

---
 include/gtl/phmap.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 70b9ca3..3aa959c 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3702,7 +3702,11 @@ public:
         return { make_iterator(&inner, res.position), res.inserted, res.inserted ? node_type() : std::move(res.node) };
     }
 
-    iterator insert(const_iterator, node_type&& node) { return insert(std::move(node)).first; }
+    iterator insert(const_iterator, node_type&& node) {
+        auto res = insert(std::move(node));
+        node     = std::move(res.node);
+        return res.position;
+    }
 
     struct ReturnKey_ {
         template<class Key, class... Args>
-- 
2.43.0


From bf515852b3aaaf6d470c7cd402b59f6bc85ef13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:36 +0000
Subject: [PATCH 21/28] fix: meminfo: functions defined in the header are
 inline

---
 include/gtl/meminfo.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gtl/meminfo.hpp b/include/gtl/meminfo.hpp
index 68170f0..35d3b52 100644
--- a/include/gtl/meminfo.hpp
+++ b/include/gtl/meminfo.hpp
@@ -41,10 +41,10 @@
 #endif
 
 namespace gtl {
-uint64_t GetSystemMemory();
-uint64_t GetTotalMemoryUsed();
-uint64_t GetProcessMemoryUsed();
-uint64_t GetPhysicalMemory();
+inline uint64_t GetSystemMemory();
+inline uint64_t GetTotalMemoryUsed();
+inline uint64_t GetProcessMemoryUsed();
+inline uint64_t GetPhysicalMemory();
 
 uint64_t GetSystemMemory() {
 #ifdef GTL_WIN
-- 
2.43.0


From 05869d1d62b941914d6b12d5b755631f27684863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:36 +0000
Subject: [PATCH 22/28] fix: combinators: namespace-scope objects of the header
 are inline

---
 include/gtl/combinators.hpp | 56 ++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/gtl/combinators.hpp b/include/gtl/combinators.hpp
index 199cfe2..c39962d 100644
--- a/include/gtl/combinators.hpp
+++ b/include/gtl/combinators.hpp
@@ -15,50 +15,50 @@
     /////////////////
 
     // B (The Bluebird)
-    auto _b = [](auto f, auto g) { return [=](auto x) { return f(g(x)); }; };
+    inline auto _b = [](auto f, auto g) { return [=](auto x) { return f(g(x)); }; };
 
     // C (The Cardinal) aka `flip` in Haskell
-    auto _c = [](auto f) { return [=](auto x, auto y) { return f(y, x); }; };
+    inline auto _c = [](auto f) { return [=](auto x, auto y) { return f(y, x); }; };
 
     // K (Kestrel)
-    auto _l_ = [](auto x, auto y) { return x; };
+    inline auto _l_ = [](auto x, auto y) { return x; };
 
     // KI
-    auto _r_ = [](auto x, auto y) { return y; };
+    inline auto _r_ = [](auto x, auto y) { return y; };
 
     // Phi (The Phoenix)
-    auto _phi = [](auto f, auto g, auto h) { return [=](auto x) { return g(f(x), h(x)); }; };
+    inline auto _phi = [](auto f, auto g, auto h) { return [=](auto x) { return g(f(x), h(x)); }; };
 
     // Phi1 (The Pheasant)
-    auto _phi1_ = [](auto f, auto g, auto h) { return [=](auto x, auto y) { return g(f(x, y), h(x, y)); }; };
+    inline auto _phi1_ = [](auto f, auto g, auto h) { return [=](auto x, auto y) { return g(f(x, y), h(x, y)); }; };
 
     // Psi (The Psi Bird)
-    auto _psi = [](auto f, auto g) { return [=](auto x, auto y) { return f(g(x), g(y)); }; };
+    inline auto _psi = [](auto f, auto g) { return [=](auto x, auto y) { return f(g(x), g(y)); }; };
 
     /////////////////////////////////////////////
     // more convenient binary/unary operations //
     /////////////////////////////////////////////
 
-    auto _eq    = [](auto x) { return [x](auto y) { return x == y; }; };
-    auto _eq_   = std::equal_to{};
-    auto _neq_  = std::not_equal_to{};
-    auto _lt    = [](auto x) { return [x](auto y) { return x > y; }; };
-    auto lt_    = [](auto x) { return [x](auto y) { return y < x; }; };
-    auto _lt_   = std::less{};
-    auto _gte   = [](auto x) { return [x](auto y) { return x >= y; }; };
-    auto _plus  = [](auto x) { return [x](auto y) { return x + y; }; };
-    auto _plus_ = std::plus{};
-    auto _mul   = [](auto x) { return [x](auto y) { return x * y; }; };
-    auto _mul_  = std::multiplies{};
-    auto _sub   = [](auto x) { return [x](auto y) { return x - y; }; };
-    auto sub_   = [](auto x) { return [x](auto y) { return y - x; }; };
-    auto _sub_  = std::minus{};
-    auto _or_   = std::logical_or{};
-    auto _and_  = std::logical_and{};
-    auto _not   = std::logical_not{};
-    auto _min_  = [](auto a, auto b) { return std::min(a, b); };
-    auto _max_  = [](auto a, auto b) { return std::max(a, b); };
-    auto _fst   = [](auto t) { return std::get<0>(t); };
-    auto _snd   = [](auto t) { return std::get<1>(t); };
+    inline auto _eq    = [](auto x) { return [x](auto y) { return x == y; }; };
+    inline auto _eq_   = std::equal_to{};
+    inline auto _neq_  = std::not_equal_to{};
+    inline auto _lt    = [](auto x) { return [x](auto y) { return x > y; }; };
+    inline auto lt_    = [](auto x) { return [x](auto y) { return y < x; }; };
+    inline auto _lt_   = std::less{};
+    inline auto _gte   = [](auto x) { return [x](auto y) { return x >= y; }; };
+    inline auto _plus  = [](auto x) { return [x](auto y) { return x + y; }; };
+    inline auto _plus_ = std::plus{};
+    inline auto _mul   = [](auto x) { return [x](auto y) { return x * y; }; };
+    inline auto _mul_  = std::multiplies{};
+    inline auto _sub   = [](auto x) { return [x](auto y) { return x - y; }; };
+    inline auto sub_   = [](auto x) { return [x](auto y) { return y - x; }; };
+    inline auto _sub_  = std::minus{};
+    inline auto _or_   = std::logical_or{};
+    inline auto _and_  = std::logical_and{};
+    inline auto _not   = std::logical_not{};
+    inline auto _min_  = [](auto a, auto b) { return std::min(a, b); };
+    inline auto _max_  = [](auto a, auto b) { return std::max(a, b); };
+    inline auto _fst   = [](auto t) { return std::get<0>(t); };
+    inline auto _snd   = [](auto t) { return std::get<1>(t); };
 
 } // namespace combinators
-- 
2.43.0


From e1517509ec545269205513c91c4508d78567de98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:15 +0000
Subject: [PATCH 23/28] fix: parallel if_contains hands the element to the
 callback as const

---
 include/gtl/phmap.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 3aa959c..1f6d917 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3901,7 +3901,8 @@ public:
     // -----------------------------------------------------------------------------------------
     template<class K = key_type, class F>
     bool if_contains(const key_arg<K>& key, F&& f) const {
-        return const_cast<parallel_hash_set*>(this)->template modify_if_impl<K, F, SharedLock>(key, std::forward<F>(f));
+        return const_cast<parallel_hash_set*>(this)->template modify_if_impl<K, F, SharedLock, const value_type&>(
+            key, std::forward<F>(f));
     }
 
     // if set contains key, lambda is called with the value_type  without read lock protection,
@@ -3912,7 +3913,8 @@ public:
     template<class K = key_type, class F>
     bool if_contains_unsafe(const key_arg<K>& key, F&& f) const {
         return const_cast<parallel_hash_set*>(this)
-            ->template modify_if_impl<K, F, LockableBaseImpl<gtl::NullMutex>::DoNothing>(key, std::forward<F>(f));
+            ->template modify_if_impl<K, F, LockableBaseImpl<gtl::NullMutex>::DoNothing, const value_type&>(
+                key, std::forward<F>(f));
     }
 
     // if map contains key, lambda is called with the value_type  (under write lock protection),
@@ -3925,17 +3927,17 @@ public:
     }
 
     // -----------------------------------------------------------------------------------------
-    template<class K = key_type, class F, class L>
+    template<class K = key_type, class F, class L, class Ref = value_type&>
     bool modify_if_impl(const key_arg<K>& key, F&& f) {
         L m;
         auto [inner, ptr] = this->template find_ptr<K, L>(key, this->hash(key), m);
         if (ptr == nullptr)
             return false;
         if constexpr (std::is_same_v<gtl::priv::empty, aux_type>) {
-            static_assert(std::is_invocable_v<F, value_type&>);
-            std::forward<F>(f)(*ptr);
+            static_assert(std::is_invocable_v<F, Ref>);
+            std::forward<F>(f)(static_cast<Ref>(*ptr));
         } else {
-            std::forward<F>(f)(*ptr, inner.aux_);
+            std::forward<F>(f)(static_cast<Ref>(*ptr), inner.aux_);
         }
         return true;
     }
-- 
2.43.0


From 3940189f997fb7f402920615935e5ff21db19aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 24/28] fix: b-tree set iterators give no write access to the
 elements

---
 include/gtl/btree.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/gtl/btree.hpp b/include/gtl/btree.hpp
index 49a3137..cbe2bb0 100644
--- a/include/gtl/btree.hpp
+++ b/include/gtl/btree.hpp
@@ -751,6 +751,8 @@ struct set_slot_policy {
 template<typename Key, typename Compare, typename Alloc, int TargetNodeSize, bool Multi>
 struct set_params : common_params<Key, Compare, Alloc, TargetNodeSize, Multi, set_slot_policy<Key>> {
     using value_type       = Key;
+    using pointer          = const value_type*; // the elements of a set are immutable
+    using reference        = const value_type&;
     using slot_type        = typename set_params::common_params::slot_type;
     using value_compare    = typename set_params::common_params::key_compare;
     using is_map_container = std::false_type;
@@ -1479,7 +1481,7 @@ private:
     // For use in copy_or_move_values_in_order.
     // ----------------------------------------
     const value_type& maybe_move_from_iterator(const_iterator x) { return *x; }
-    value_type&&      maybe_move_from_iterator(iterator x) { return std::move(*x); }
+    value_type&&      maybe_move_from_iterator(iterator x) { return std::move(params_type::element(x.slot())); }
 
     // Copies or moves (depending on the template parameter) the values in
     // x into this btree in their order in x. This btree must be empty before this
@@ -3417,7 +3419,7 @@ public:
                                        int> = 0>
     void merge(btree_container<T>& src) { // NOLINT
         for (auto src_it = src.begin(); src_it != src.end();) {
-            if (insert(std::move(*src_it)).second) {
+            if (insert(std::move(params_type::element(src_it.slot()))).second) {
                 src_it = src.erase(src_it);
             } else {
                 ++src_it;
@@ -3644,7 +3646,8 @@ public:
                                                                        typename T::params_type::is_map_container>>,
                                        int> = 0>
     void merge(btree_container<T>& src) { // NOLINT
-        insert(std::make_move_iterator(src.begin()), std::make_move_iterator(src.end()));
+        for (auto src_it = src.begin(); src_it != src.end(); ++src_it)
+            insert(std::move(params_type::element(src_it.slot())));
         src.clear();
     }
 
-- 
2.43.0


From 24e17f88307749dee12ff6637f2f1780ff582614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:00 +0000
Subject: [PATCH 25/28] fix: phmap_load records size and capacity only once the
 storage is allocated

---
 include/gtl/phmap_dump.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/gtl/phmap_dump.hpp b/include/gtl/phmap_dump.hpp
index e6193d8..6006a56 100644
--- a/include/gtl/phmap_dump.hpp
+++ b/include/gtl/phmap_dump.hpp
@@ -75,23 +75,27 @@ bool raw_hash_set<Policy, Hash, Eq, Alloc>::phmap_load(InputArchive& ar) {
     static_assert(type_traits_internal::IsTriviallyCopyable<value_type>::value,
                   "value_type should be trivially copyable");
     raw_hash_set<Policy, Hash, Eq, Alloc>().swap(*this); // clear any existing content
-    size_t version = 0;
+    size_t version      = 0;
+    size_t new_size     = 0;
+    size_t new_capacity = 0;
     ar.loadBinary(&version, sizeof(size_t));
     if (version <= s_version_base) {
         // we didn't store the version, version actually contains the size
         // we didn't store growth_left either
-        size_   = version;
-        version = 0;
+        new_size = version;
+        version  = 0;
     } else {
-        ar.loadBinary(&size_, sizeof(size_t));
+        ar.loadBinary(&new_size, sizeof(size_t));
         version -= s_version_base;
     }
-    ar.loadBinary(&capacity_, sizeof(size_t));
+    ar.loadBinary(&new_capacity, sizeof(size_t));
 
-    if (capacity_) {
-        // allocate memory for ctrl_ and slots_
-        initialize_slots(capacity_);
+    if (new_capacity) {
+        // allocate memory for ctrl_ and slots_. This may throw, so `capacity_` and `size_` are only set afterwards.
+        initialize_slots(new_capacity);
+        capacity_ = new_capacity;
     }
+    size_ = new_size;
     if (size_ == 0)
         return true;
     if (version > 0) {
-- 
2.43.0


From 96c7377c7b84cbed8533535482369114a21b0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:19 +0000
Subject: [PATCH 26/28] fix: parallel containers move and swap the auxiliary
 container together with the elements

---
 include/gtl/phmap.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/gtl/phmap.hpp b/include/gtl/phmap.hpp
index 1f6d917..bb19c9e 100644
--- a/include/gtl/phmap.hpp
+++ b/include/gtl/phmap.hpp
@@ -3550,8 +3550,11 @@ public:
         : parallel_hash_set(std::move(that), that.alloc_ref()) {}
 
     parallel_hash_set(parallel_hash_set&& that, const allocator_type& a) {
-        for (size_t i = 0; i < num_tables; ++i)
+        for (size_t i = 0; i < num_tables; ++i) {
             sets_[i].set_ = { std::move(that.sets_[i]).set_, a };
+            if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
+                sets_[i].aux_ = std::move(that.sets_[i].aux_);
+        }
     }
 
     parallel_hash_set& operator=(const parallel_hash_set& that) {
@@ -3563,8 +3566,13 @@ public:
     parallel_hash_set& operator=(parallel_hash_set&& that) noexcept(
         std::allocator_traits<allocator_type>::is_always_equal::value && std::is_nothrow_move_assignable_v<hasher> &&
         std::is_nothrow_move_assignable_v<key_equal>) {
-        for (size_t i = 0; i < num_tables; ++i)
+        for (size_t i = 0; i < num_tables; ++i) {
             sets_[i].set_ = std::move(that.sets_[i].set_);
+            if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>) {
+                if (this != &that)
+                    sets_[i].aux_ = std::move(that.sets_[i].aux_);
+            }
+        }
         return *this;
     }
 
@@ -4186,12 +4194,16 @@ public:
                 UniqueLock                     l(inner);
                 typename Lockable2::UniqueLock l2(inner2);
                 swap(inner.set_, inner2.set_);
+                if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
+                    swap(inner.aux_, inner2.aux_);
             } else {
                 // lock both together, another thread may be swapping the same containers the other way round
                 std::lock(inner, inner2);
                 std::lock_guard l(inner, std::adopt_lock);
                 std::lock_guard l2(inner2, std::adopt_lock);
                 swap(inner.set_, inner2.set_);
+                if constexpr (!std::is_same_v<gtl::priv::empty, aux_type>)
+                    swap(inner.aux_, inner2.aux_);
             }
         }
     }
-- 
2.43.0


From 051bba21fbf1da69be35dc16a53a06f2d7e3fe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:48 +0000
Subject: [PATCH 27/28] fix: LRU caches keep index and list consistent when
 copying a key throws

---
 include/gtl/lru_cache.hpp | 20 ++++++++++----------
 include/gtl/memoize.hpp   | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/gtl/lru_cache.hpp b/include/gtl/lru_cache.hpp
index 3557551..2a66f7c 100644
--- a/include/gtl/lru_cache.hpp
+++ b/include/gtl/lru_cache.hpp
@@ -80,17 +80,17 @@ public:
             },
             [&](const typename map_type::constructor& ctor, list_type& l) {
                 // construct value_type in place when key not present
-                l.push_front(value_type(key, std::forward<Val>(value)));
-                ctor(key, l.begin());
-                if (l.size() > _max_size) {
-                    // remove oldest
-                    auto last = l.end();
-                    last--;
-                    auto to_delete = std::move(last->first);
+                // (the list changes only when nothing can throw anymore)
+                list_type entry;
+                entry.push_front(value_type(key, std::forward<Val>(value)));
+                std::optional<key_type> to_delete;
+                if (l.size() + 1 > _max_size)
+                    to_delete.emplace(l.empty() ? key : l.back().first); // remove oldest
+                ctor(key, entry.begin());
+                l.splice(l.begin(), entry);
+                if (to_delete)
                     l.pop_back();
-                    return std::optional<key_type>{ to_delete };
-                }
-                return std::optional<key_type>{};
+                return to_delete;
             });
     }
 
diff --git a/include/gtl/memoize.hpp b/include/gtl/memoize.hpp
index 8076f92..2ab7ea0 100644
--- a/include/gtl/memoize.hpp
+++ b/include/gtl/memoize.hpp
@@ -229,17 +229,17 @@ public:
             [&](const typename map_type::constructor& ctor, list_type& l) {
                 // construct value_type in place when key not present
                 res = _f(args...);
-                l.push_front(value_type(key, res));
-                ctor(key, l.begin());
-                if (l.size() >= _max_size) {
-                    // remove oldest
-                    auto last = l.end();
-                    last--;
-                    auto to_delete = std::move(last->first);
+                // (the list changes only when nothing can throw anymore)
+                list_type entry;
+                entry.push_front(value_type(key, res));
+                std::optional<key_type> to_delete;
+                if (l.size() + 1 >= _max_size)
+                    to_delete.emplace(l.empty() ? key : l.back().first); // remove oldest
+                ctor(key, entry.begin());
+                l.splice(l.begin(), entry);
+                if (to_delete)
                     l.pop_back();
-                    return std::optional<key_type>{ to_delete };
-                }
-                return std::optional<key_type>{};
+                return to_delete;
             });
         return res;
     }
-- 
2.43.0


From 7047866897a7118db5ff7c0efd613fa0f49cbc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:43 +0000
Subject: [PATCH 28/28] fix: soa keeps its columns equally long when inserting
 or resizing throws

---
 include/gtl/soa.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/gtl/soa.hpp b/include/gtl/soa.hpp
index 0e9fe57..4b1f3ed 100644
--- a/include/gtl/soa.hpp
+++ b/include/gtl/soa.hpp
@@ -95,7 +95,9 @@ public:
     }
 
     void resize(size_t sz) {
+        row_guard guard{ data_, size() };
         std::apply([=](auto&... x) { (x.resize(sz), ...); }, data_);
+        guard.armed = false;
     }
 
     void reserve(size_t sz) {
@@ -138,6 +140,24 @@ public:
     }
 
 private:
+    // when an operation on one of the columns throws, drops the rows that the other columns got already
+    struct row_guard {
+        storage_type& data;
+        size_t        num_rows;
+        bool          armed = true;
+
+        ~row_guard() {
+            if (armed)
+                std::apply([this](auto&... x) { (truncate(x), ...); }, data);
+        }
+
+        template<class C>
+        void truncate(C& c) {
+            while (c.size() > num_rows)
+                c.pop_back();
+        }
+    };
+
     struct sort_data {
         std::vector<size_t> o; // sort order
         bit_vector          done;
@@ -155,7 +175,9 @@ private:
 
     template<typename T, size_t... I>
     void insert_impl(std::integer_sequence<size_t, I...>, T t) {
+        row_guard guard{ data_, size() };
         ((get_column<I>().push_back(std::get<I>(t))), ...);
+        guard.armed = false;
     }
 
     template<size_t... I>
-- 
2.43.0

