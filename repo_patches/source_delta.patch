From 6da5e97695a93a43644d0f7144b0c5d1af54bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 01/20] fix: re-point order iterators and drop the last
 accessed entry after copying a cache

The copied information objects kept the queue iterators of the source cache and
the copied last-accessed object kept pointing at an entry of the source, so
using a copy modified, or read freed memory of, the cache it was copied from.
---
 include/lru/internal/base-cache.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index fe49a72..073da7e 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1528,9 +1528,14 @@ class BaseCache {
   /// After a copy, the reference (wrappers) in the order queue point
   /// to the keys of the other cache's map. Thus we need to re-assign them.
   void _reassign_references() noexcept {
-    for (auto& key_reference : _order) {
-      key_reference = std::ref(_map.find(key_reference)->first);
+    for (auto iterator = _order.begin(); iterator != _order.end(); ++iterator) {
+      auto map_iterator = _map.find(*iterator);
+      *iterator = std::ref(map_iterator->first);
+      map_iterator->second.order = iterator;
     }
+
+    // This may still refer to an entry of the cache we copied from.
+    _last_accessed.invalidate();
   }
 
   /// Inserts a new key into the queue.
-- 
2.43.0


From 284b5a68b6001b504bbcd41b34115a0d3f07d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 02/20] fix: copy from lvalue ranges and caches when assigning
 them

A non-const lvalue range bound to the Range&& overload, which moves the elements
out of the range. A non-const lvalue cache did so too, instead of being copied.
---
 include/lru/internal/base-cache.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 073da7e..d671278 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -30,6 +30,7 @@
 #include <list>
 #include <memory>
 #include <tuple>
+#include <type_traits>
 #include <unordered_map>
 #include <utility>
 
@@ -550,10 +551,13 @@ class BaseCache {
   ///
   /// \param range A range of pairs to assign to the cache.
   /// \returns The cache instance.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_range<Range>,
+            typename = std::enable_if_t<
+                !std::is_base_of<BaseCache, std::decay_t<Range>>::value>>
   BaseCache& operator=(Range&& range) {
     _clear_and_increase_capacity(range);
-    insert(std::move(range));
+    insert(std::forward<Range>(range));
     return *this;
   }
 
-- 
2.43.0


From b246acbcc84ab0cbf0c9d224b19cf8902dabda9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 03/20] fix: copy construct a cache from a non-const cache

Cache b(a) with a non-const cache a picked the range constructor, losing the
order and the capacity of a.
---
 include/lru/cache.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index 7150bfc..d60362b 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -29,6 +29,7 @@
 #include <iterator>
 #include <list>
 #include <stdexcept>
+#include <type_traits>
 #include <unordered_map>
 
 #include <lru/cache-tags.hpp>
@@ -124,7 +125,10 @@ class Cache
   /// \param range A range to construct the cache with.
   /// \param hash The hash function to use for the internal map.
   /// \param key_equal The key equality function to use for the internal map.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_range<Range>,
+            typename = std::enable_if_t<
+                !std::is_base_of<Cache, std::decay_t<Range>>::value>>
   explicit Cache(Range&& range,
                  const HashFunction& hash = HashFunction(),
                  const KeyEqual& equal = KeyEqual())
-- 
2.43.0


From ee600beb7aeace57844d21a99cf30f23b3597c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 04/20] fix: leave a moved-from cache with a defined capacity
 and its functions

The move constructor swapped an uninitialized capacity, and a default
constructed hash function and key equality, into the moved-from cache.
---
 include/lru/internal/base-cache.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index d671278..1208f54 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -499,7 +499,8 @@ class BaseCache {
   }
 
   /// Move constructor.
-  BaseCache(BaseCache&& other) {
+  BaseCache(BaseCache&& other)
+  : BaseCache(other._capacity, other.hash_function(), other.key_equal()) {
     // Following the copy-swap idiom.
     swap(other);
   }
-- 
2.43.0


From d1cfc77dba19f0411bdd5e27394e56a7694ea419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 05/20] fix: let front() and back() throw

Both throw EmptyCache on an empty cache, so noexcept turned that into a call to
std::terminate.
---
 include/lru/cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index d60362b..9d9ca74 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -181,7 +181,7 @@ class Cache
   }
 
   /// \returns The most-recently inserted element.
-  const Key& front() const noexcept {
+  const Key& front() const {
     if (is_empty()) {
       throw LRU::Error::EmptyCache("front");
     } else {
@@ -191,7 +191,7 @@ class Cache
   }
 
   /// \returns The least-recently inserted element.
-  const Key& back() const noexcept {
+  const Key& back() const {
     if (is_empty()) {
       throw LRU::Error::EmptyCache("back");
     } else {
-- 
2.43.0


From 0e55bf8d71fcb018d1a6e71f15b9ce2c8de4784c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 06/20] fix: restart the lifetime of an entry when its value is
 updated

Inserting or emplacing an existing key into a timed cache replaced the value but
kept the insertion time, so a freshly stored value could expire at once.
---
 include/lru/internal/base-cache.hpp        |  1 +
 include/lru/internal/information.hpp       |  4 ++++
 include/lru/internal/timed-information.hpp | 10 ++++++++--
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 1208f54..24fb8b8 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1415,6 +1415,7 @@ class BaseCache {
     // position (which is still the same node).
     _move_to_front(iterator->second.order);
     iterator->second.value = new_value;
+    iterator->second.refresh();
   }
 
   /// Erases the element most recently inserted into the cache.
diff --git a/include/lru/internal/information.hpp b/include/lru/internal/information.hpp
index 4a28a98..e29d22c 100644
--- a/include/lru/internal/information.hpp
+++ b/include/lru/internal/information.hpp
@@ -117,6 +117,10 @@ struct Information {
     return !(*this == other);
   }
 
+  /// Called when the value of the information was replaced by a new one.
+  void refresh() noexcept {
+  }
+
   /// The value of the information.
   Value value;
 
diff --git a/include/lru/internal/timed-information.hpp b/include/lru/internal/timed-information.hpp
index 72865a6..90e684b 100644
--- a/include/lru/internal/timed-information.hpp
+++ b/include/lru/internal/timed-information.hpp
@@ -106,8 +106,14 @@ struct TimedInformation : public Information<Key, Value> {
     return !(*this == other);
   }
 
-  /// The time at which the key of the information was insterted into a cache.
-  const Timestamp insertion_time;
+  /// Restarts the lifetime of the information, because its value was replaced
+  /// by a new one.
+  void refresh() noexcept {
+    insertion_time = Internal::Clock::now();
+  }
+
+  /// The time at which the value of the information was inserted into a cache.
+  Timestamp insertion_time;
 };
 
 }  // namespace Internal
-- 
2.43.0


From 1c43bcaf6eb2e30cb14bc674337e8d9eccce1cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 07/20] fix: consider every entry in all_expired() and
 clear_expired()

Both took the order of access for the order of insertion, and so missed expired
entries, or took fresh ones for expired, once an entry had been looked up.
---
 include/lru/timed-cache.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 0038932..591478a 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -236,8 +236,11 @@ class TimedCache
     if (is_empty()) return true;
 
     /// If the most-recently inserted key has expired, all others must have too.
-    auto latest = _map.find(_order.back());
-    return _has_expired(latest->second);
+    // The queue is ordered by the time of last access, not of insertion, so
+    // any entry may be the one that was inserted last.
+    return std::all_of(_map.begin(), _map.end(), [this](const auto& pair) {
+      return this->_has_expired(pair.second);
+    });
   }
 
   /// Erases all expired elements from the cache.
@@ -258,13 +261,13 @@ class TimedCache
     while (iterator != _order.end()) {
       auto map_iterator = _map.find(*iterator);
 
-      // If the current element hasn't expired, also all elements inserted
-      // after will not have, so we can stop.
-      if (!_has_expired(map_iterator->second)) break;
+      // The queue is ordered by the time of last access, not of insertion, so
+      // elements after one that hasn't expired may still have. Advance before
+      // a possible erasure, which invalidates the iterator.
+      ++iterator;
+      if (!_has_expired(map_iterator->second)) continue;
 
       _erase(map_iterator);
-
-      iterator = _order.begin();
       number_of_erasures += 1;
     }
 
-- 
2.43.0


From 3db913a794226863af32de4db9572025cac34b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 08/20] fix: register a miss when the last accessed key has
 expired

contains() and lookup() of the last accessed key counted nothing and called no
callback when that key had expired.
---
 include/lru/internal/base-cache.hpp | 12 +++++++-----
 include/lru/timed-cache.hpp         |  6 ++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 24fb8b8..433d48c 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -795,6 +795,7 @@ class BaseCache {
         // If this is the last accessed key, it's at the front anyway
         return true;
       } else {
+        _register_miss(key);
         return false;
       }
     }
@@ -815,7 +816,7 @@ class BaseCache {
   /// \see contains()
   virtual const Value& lookup(const Key& key) const {
     if (key == _last_accessed) {
-      auto& value = _value_for_last_accessed();
+      auto& value = _value_for_last_accessed(key);
       _register_hit(key, value);
       // If this is the last accessed key, it's at the front anyway
       return value;
@@ -842,7 +843,7 @@ class BaseCache {
   /// \see contains()
   virtual Value& lookup(const Key& key) {
     if (key == _last_accessed) {
-      auto& value = _value_for_last_accessed();
+      auto& value = _value_for_last_accessed(key);
       _register_hit(key, value);
       // If this is the last accessed key, it's at the front anyway
       return value;
@@ -1476,18 +1477,19 @@ class BaseCache {
     return true;
   }
 
-  /// \copydoc _value_for_last_accessed() const
-  virtual Value& _value_for_last_accessed() {
+  /// \copydoc _value_for_last_accessed(const Key&) const
+  virtual Value& _value_for_last_accessed(const Key& key) {
     return _last_accessed.value();
   }
 
   /// Attempts to access the last accessed key's value.
+  /// \param key The key that was looked up (equal to the last accessed key).
   /// \returns The value of the last accessed object.
   /// \details This method exists so that derived classes may perform
   /// additional
   /// checks (and possibly throw exceptions) or perform other operations to
   /// retrieve the value.
-  virtual const Value& _value_for_last_accessed() const {
+  virtual const Value& _value_for_last_accessed(const Key& key) const {
     return _last_accessed.value();
   }
 
diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 591478a..18338b8 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -350,9 +350,10 @@ class TimedCache
   }
 
   /// \copydoc _value_for_last_accessed() const
-  Value& _value_for_last_accessed() override {
+  Value& _value_for_last_accessed(const Key& key) override {
     auto& information = _last_accessed.information();
     if (_has_expired(information)) {
+      _register_miss(key);
       throw LRU::Error::KeyExpired();
     } else {
       return information.value;
@@ -362,9 +363,10 @@ class TimedCache
   /// Attempts to access the last accessed key's value.
   /// \throws LRU::Error::KeyExpired if the key has expired.
   /// \returns The value of the last accessed key.
-  const Value& _value_for_last_accessed() const override {
+  const Value& _value_for_last_accessed(const Key& key) const override {
     const auto& information = _last_accessed.information();
     if (_has_expired(information)) {
+      _register_miss(key);
       throw LRU::Error::KeyExpired();
     } else {
       return information.value;
-- 
2.43.0


From 15443b81603fa7f7b1ee84e291605f8d2ad9ac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 09/20] fix: read the clock once per lookup

lookup() checked the entry that find() had just found and counted as a hit for
expiration once more, and threw KeyExpired if it expired in between.
---
 include/lru/internal/base-cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 433d48c..8229c30 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -826,7 +826,7 @@ class BaseCache {
     if (iterator == end()) {
       throw LRU::Error::KeyNotFound();
     } else {
-      return iterator.value();
+      return iterator._iterator->second.value;
     }
   }
 
@@ -853,7 +853,7 @@ class BaseCache {
     if (iterator == end()) {
       throw LRU::Error::KeyNotFound();
     } else {
-      return iterator.value();
+      return iterator._iterator->second.value;
     }
   }
 
-- 
2.43.0


From fb88bab2b81f90d765ee4d42cb9954d5d37085b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 10/20] fix: make Statistics::reset_all() compile

---
 include/lru/statistics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/statistics.hpp b/include/lru/statistics.hpp
index 0c97016..29b9ce4 100644
--- a/include/lru/statistics.hpp
+++ b/include/lru/statistics.hpp
@@ -208,7 +208,7 @@ class Statistics {
   /// Clears the statistics of all keys, but keeps on monitoring it them.
   void reset_all() {
     for (auto& pair : _key_map) {
-      _key_map.second.reset();
+      pair.second.reset();
     }
   }
 
-- 
2.43.0


From 78bab13206f3c9fa88a3e1d07981dd003e3a07ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 11/20] fix: erase expired entries through ordered iterators

erase() asked the iterator for its key, which throws KeyExpired if the entry has
expired.
---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 8229c30..fb07e34 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1140,7 +1140,7 @@ class BaseCache {
     if (iterator == ordered_cend()) {
       throw LRU::Error::InvalidIterator();
     } else {
-      _erase(_map.find(iterator.key()));
+      _erase(_map.find(*iterator._iterator));
     }
   }
 
-- 
2.43.0


From 210b0ee917c4fc0de5e6893f9d30ef36d6e32a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 12/20] fix: check an unordered iterator before dereferencing
 it in entry()

entry(), key() and value() of an end iterator read a non-existent node before
throwing InvalidIterator.
---
 include/lru/internal/base-unordered-iterator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-unordered-iterator.hpp b/include/lru/internal/base-unordered-iterator.hpp
index f294b13..017194e 100644
--- a/include/lru/internal/base-unordered-iterator.hpp
+++ b/include/lru/internal/base-unordered-iterator.hpp
@@ -179,11 +179,12 @@ class BaseUnorderedIterator
   /// \throws LRU::Error::KeyExpired if the key pointed to by the iterator has
   /// expired.
   Entry& entry() override {
+    _cache->throw_if_invalid(*this);
+
     if (!_entry.has_value()) {
       _entry.emplace(_iterator->first, _iterator->second.value);
     }
 
-    _cache->throw_if_invalid(*this);
     return *_entry;
   }
 
-- 
2.43.0


From 612f1c94e8ec46f56ac47cf9e3baf06271cbb29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 13/20] fix: drop a new entry whose queue node cannot be
 allocated

Otherwise the map kept an entry that had no position in the queue.
---
 include/lru/internal/base-cache.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index fb07e34..c13a261 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1556,7 +1556,13 @@ class BaseCache {
     if (_is_too_full()) {
       _evict_lru_for(key);
     } else {
-      _order.emplace_back(key);
+      try {
+        _order.emplace_back(key);
+      } catch (...) {
+        // Without a position in the queue, the entry must not stay in the map.
+        _map.erase(key);
+        throw;
+      }
     }
 
     return std::prev(_order.end());
-- 
2.43.0


From d9de24ff20836658e4cebc8203a7101f635bcc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 14/20] fix: give every wrapped function a cache of its own

The cache was a static variable of the lambda's call operator, so it was shared
by all wrapped functions of the same type, whatever they computed. It was
built, at the first call, from references to the arguments of wrap(), which
dangle by then if they were temporaries.
---
 include/lru/wrap.hpp | 58 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 4 deletions(-)

diff --git a/include/lru/wrap.hpp b/include/lru/wrap.hpp
index e384968..728739e 100644
--- a/include/lru/wrap.hpp
+++ b/include/lru/wrap.hpp
@@ -23,8 +23,12 @@
 #define LRU_WRAP_HPP
 
 #include <cstddef>
+#include <memory>
 #include <tuple>
 #include <type_traits>
+#include <typeindex>
+#include <typeinfo>
+#include <unordered_map>
 #include <utility>
 
 #include <lru/cache.hpp>
@@ -32,6 +36,48 @@
 #include <lru/internal/utility.hpp>
 
 namespace LRU {
+namespace Internal {
+
+/// The caches of one wrapped function.
+///
+/// A wrapped function may be called with different argument types, each of
+/// which requires a cache type of its own. The caches are created when they are
+/// first needed.
+///
+/// \tparam Args The types of the arguments to construct caches from.
+template <typename... Args>
+class WrappedCaches {
+ public:
+  /// Constructor.
+  ///
+  /// \param args The arguments to construct caches from.
+  template <typename... AnyArgs>
+  explicit WrappedCaches(std::piecewise_construct_t, AnyArgs&&... args)
+  : _args(std::forward<AnyArgs>(args)...) {
+  }
+
+  /// \tparam CacheType The type of the cache to return.
+  /// \returns The cache of the given type.
+  template <typename CacheType>
+  CacheType& get() {
+    auto& cache = _caches[typeid(CacheType)];
+    if (!cache) cache = _make<CacheType>(tuple_indices(_args));
+    return *static_cast<CacheType*>(cache.get());
+  }
+
+ private:
+  template <typename CacheType, std::size_t... Indices>
+  std::shared_ptr<void> _make(std::index_sequence<Indices...>) const {
+    return std::make_shared<CacheType>(std::get<Indices>(_args)...);
+  }
+
+  /// The arguments to construct caches from.
+  const std::tuple<Args...> _args;
+
+  /// The caches created so far.
+  std::unordered_map<std::type_index, std::shared_ptr<void>> _caches;
+};
+}  // namespace Internal
 
 /// Wraps a function with a "shallow" LRU cache.
 ///
@@ -40,6 +86,9 @@ namespace LRU {
 /// that recursive calls to the same function are not cached, since those
 /// will call the original function symbol, not the wrapped one.
 ///
+/// Every call to this function creates a new cache, which is shared by all
+/// copies of the returned function.
+///
 /// \tparam CacheType The cache template class to use.
 /// \param original_function The function to wrap.
 /// \param args Any arguments to forward to the cache.
@@ -48,9 +97,12 @@ template <typename Function,
           template <typename...> class CacheType = Cache,
           typename... Args>
 auto wrap(Function original_function, Args&&... args) {
+  using Caches = Internal::WrappedCaches<std::decay_t<Args>...>;
+
   return [
     original_function,
-    cache_args = std::forward_as_tuple(std::forward<Args>(args)...)
+    caches = std::make_shared<Caches>(std::piecewise_construct,
+                                      std::forward<Args>(args)...)
   ](auto&&... arguments) mutable {
     using Arguments = std::tuple<std::decay_t<decltype(arguments)>...>;
     using ReturnType = decltype(
@@ -59,9 +111,7 @@ auto wrap(Function original_function, Args&&... args) {
     static_assert(!std::is_void<ReturnType>::value,
                   "Return type of wrapped function must not be void");
 
-    static auto cache =
-        Internal::construct_from_tuple<CacheType<Arguments, ReturnType>>(
-            cache_args);
+    auto& cache = caches->template get<CacheType<Arguments, ReturnType>>();
 
     auto key = std::make_tuple(arguments...);
     auto iterator = cache.find(key);
-- 
2.43.0


From e0ec15e7241336af9e334a9c71d31456f8caf931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 15/20] fix: let ordered iterators be initialised from the
 result of ++ and --

---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index c13a261..82b344c 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -253,7 +253,7 @@ class BaseCache {
     /// Constructs a new OrderedIterator from an unordered base iterator.
     ///
     /// \param iterator The iterator to initialize this one from.
-    OrderedIterator(BaseOrderedIterator<Key, Value, BaseCache>
+    OrderedIterator(BaseOrderedIterator<const Key, Value, BaseCache>
                         iterator)  // NOLINT(runtime/explicit)
         : super(std::move(iterator)) {
       // Note that this only works because these derived iterator
-- 
2.43.0


From b2f952089e4e57e91353472b92bc3d823ff4a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:03 +0000
Subject: [PATCH 16/20] fix: let const and non-const unordered iterators be
 compared

---
 include/lru/internal/base-unordered-iterator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lru/internal/base-unordered-iterator.hpp b/include/lru/internal/base-unordered-iterator.hpp
index 017194e..8c0aa4d 100644
--- a/include/lru/internal/base-unordered-iterator.hpp
+++ b/include/lru/internal/base-unordered-iterator.hpp
@@ -205,6 +205,9 @@ class BaseUnorderedIterator
   }
 
  protected:
+  template <typename, typename>
+  friend class BaseUnorderedIterator;
+
   template <typename, typename, typename>
   friend class BaseOrderedIterator;
 
-- 
2.43.0


From 225ae44d9d380a9c6f6eae4f7922ac950758d026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:36 +0000
Subject: [PATCH 17/20] fix: keep the order when assigning the value of an
 existing key throws

---
 include/lru/internal/base-cache.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 82b344c..d15521d 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1411,12 +1411,15 @@ class BaseCache {
   /// \param iterator The iterator pointing to the key to move.
   /// \param new_value The updated value to move the key with.
   virtual void _move_to_front(MapIterator iterator, const Value& new_value) {
+    // Assigning the value may throw, in which case the order must not have
+    // changed: the key would be at the front without being the last accessed.
+    iterator->second.value = new_value;
+    iterator->second.refresh();
+
     // Extract the current linked-list node and insert (splice it) at the end
     // The original iterator is not invalidated and now points to the new
     // position (which is still the same node).
     _move_to_front(iterator->second.order);
-    iterator->second.value = new_value;
-    iterator->second.refresh();
   }
 
   /// Erases the element most recently inserted into the cache.
-- 
2.43.0


From 3cebf09ba63a0c76b175406a4ead9b597640639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:28 +0000
Subject: [PATCH 18/20] fix: monitoring keys that are themselves ranges or
 pairs of iterators compiles

monitor("a", "b") with string keys took two string literals for the begin
and end of a range of keys, and monitor(key) with a const std::string took
the key for a range of keys; neither compiled.
---
 include/lru/internal/utility.hpp | 18 ++++++++++++++++++
 include/lru/statistics.hpp       |  5 +++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/utility.hpp b/include/lru/internal/utility.hpp
index 2be5a8d..7bbe1de 100644
--- a/include/lru/internal/utility.hpp
+++ b/include/lru/internal/utility.hpp
@@ -74,6 +74,15 @@ constexpr T construct_from_tuple(std::tuple<Args...>&& args) {
 template <typename T>
 using enable_if_iterator = typename std::iterator_traits<T>::value_type;
 
+/// A type trait that disables a template overload if a type is not an iterator
+/// whose elements can be converted to a certain type.
+///
+/// \tparam Iterator the iterator type to check.
+/// \tparam T the type the elements should be convertible to.
+template <typename Iterator, typename T>
+using enable_if_iterator_over = std::enable_if_t<std::is_convertible<
+    typename std::iterator_traits<Iterator>::reference, T>::value>;
+
 /// A type trait that disables a template overload if a type is not a range.
 ///
 /// \tparam T the type to check.
@@ -81,6 +90,15 @@ template <typename T>
 using enable_if_range = std::pair<decltype(std::declval<T>().begin()),
                                   decltype(std::declval<T>().end())>;
 
+/// A type trait that disables a template overload if a type is not a range whose
+/// elements can be converted to a certain type.
+///
+/// \tparam Range the range type to check.
+/// \tparam T the type the elements should be convertible to.
+template <typename Range, typename T>
+using enable_if_range_over =
+    enable_if_iterator_over<decltype(std::declval<const Range&>().begin()), T>;
+
 /// A type trait that disables a template overload if a type is not an iterator
 /// over a pair.
 ///
diff --git a/include/lru/statistics.hpp b/include/lru/statistics.hpp
index 29b9ce4..14ccd04 100644
--- a/include/lru/statistics.hpp
+++ b/include/lru/statistics.hpp
@@ -76,7 +76,8 @@ class Statistics {
   /// Constructor.
   ///
   /// \param range A range of keys to monitor.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_range_over<Range, Key>>
   explicit Statistics(const Range& range)
   : Statistics(std::begin(range), std::end(range)) {
   }
@@ -86,7 +87,7 @@ class Statistics {
   /// \param begin The start iterator of a range of keys to monitor.
   /// \param end The end iterator of a range of keys to monitor.
   template <typename Iterator,
-            typename = Internal::enable_if_iterator<Iterator>>
+            typename = Internal::enable_if_iterator_over<Iterator, Key>>
   Statistics(Iterator begin, Iterator end) : Statistics() {
     for (; begin != end; ++begin) {
       monitor(*begin);
-- 
2.43.0


From 4ba4a01a2f67ec4fc40a4b3dd3ab048fc9bb8869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:14 +0000
Subject: [PATCH 19/20] fix: comparing two entries compiles

entry == entry was ambiguous: each entry was both the entry and the pair of
the two mirrored operators.
---
 include/lru/entry.hpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/lru/entry.hpp b/include/lru/entry.hpp
index 425d7eb..811e066 100644
--- a/include/lru/entry.hpp
+++ b/include/lru/entry.hpp
@@ -27,6 +27,25 @@
 #include <utility>
 
 namespace LRU {
+template <typename, typename>
+struct Entry;
+
+namespace Internal {
+/// A type trait to check if a type is an `Entry`.
+///
+/// \tparam T the type to check.
+template <typename T>
+struct is_entry : std::false_type {};
+
+template <typename Key, typename Value>
+struct is_entry<LRU::Entry<Key, Value>> : std::true_type {};
+
+/// A type trait that disables a template overload if a type is an `Entry`.
+///
+/// \tparam T the type to check.
+template <typename T>
+using disable_if_entry = std::enable_if_t<!is_entry<T>::value>;
+}  // namespace Internal
 
 /// A entry of references to the key and value of an entry in a cache.
 ///
@@ -77,7 +96,9 @@ struct Entry final {
   /// \param first The first entry to compare.
   /// \param second The second entry to compare.
   /// \returns True if the first entry equals the second, else false.
-  template <typename Pair, typename = typename Pair::first_type>
+  template <typename Pair,
+            typename = typename Pair::first_type,
+            typename = Internal::disable_if_entry<Pair>>
   friend bool operator==(const Pair& first, const Entry& second) noexcept {
     return second == first;
   }
@@ -97,7 +118,9 @@ struct Entry final {
   /// \param first The first entry to compare.
   /// \param second The second entry to compare.fdas
   /// \returns True if the first entry does not equal the second, else false.
-  template <typename Pair, typename = typename Pair::first_type>
+  template <typename Pair,
+            typename = typename Pair::first_type,
+            typename = Internal::disable_if_entry<Pair>>
   friend bool operator!=(const Pair& first, const Entry& second) noexcept {
     return second != first;
   }
-- 
2.43.0


From b866cf08ab39b04afd3d8ff4696dd637e884d659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:16 +0000
Subject: [PATCH 20/20] fix: constructing a cache from single-pass iterators
 keeps all elements

---
 include/lru/internal/base-cache.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index d15521d..2c6b9de 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -374,7 +374,6 @@ class BaseCache {
   /// The capacity is inferred from the distance between the two iterators and
   /// lower-bounded by an internal constant $c_0$, usually 128 (i.e. the actual
   /// capacity will be $\max(\text{distance}, c_0)$).
-  /// This may be expensive for iterators that are not random-access.
   ///
   /// \param begin The start of a range to construct the cache with.
   /// \param end The end of a range to construct the cache with.
@@ -385,13 +384,13 @@ class BaseCache {
             Iterator end,
             const HashFunction& hash,
             const KeyEqual& key_equal)
-      // This may be expensive
-      : BaseCache(std::max<size_t>(std::distance(begin, end),
-                                   Internal::DEFAULT_CAPACITY),
-                  begin,
-                  end,
-                  hash,
-                  key_equal) {
+  : BaseCache(Internal::DEFAULT_CAPACITY, hash, key_equal) {
+    // The distance is counted along the way, because the range may be one that
+    // can be traversed only once.
+    for (size_t distance = 1; begin != end; ++begin, ++distance) {
+      _capacity = std::max(_capacity, distance);
+      insert(begin->first, begin->second);
+    }
   }
 
   /// Constructor.
-- 
2.43.0

