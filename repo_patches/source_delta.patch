From 46db4342c03a3a0a1b6db5f687322c296e6b83e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 01/12] fix: take key and value before shifting in dense_map
 insertions

insert, insert_hint, insert_or_assign, try_emplace and operator[] shifted
the elements before reading key and value, so arguments referring to an
element of the same map were read after it had moved. try_emplace also
constructed its value over the live object in the slot, leaking whatever
that object owned.
---
 include/fast_containers/dense_map.hpp |  4 +--
 include/fast_containers/dense_map.ipp | 48 ++++++++++++---------------
 2 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index af04266..74adae8 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -442,10 +442,10 @@ class dense_map {
    * Common implementation for all insert operations.
    * Handles key existence check, shifting, and insertion logic.
    */
-  template <typename OnExists, typename OnInsert>
+  template <typename OnExists, typename MakeValue>
   std::pair<iterator, bool> insert_impl(size_type idx, const Key& key,
                                         OnExists&& on_exists,
-                                        OnInsert&& on_insert);
+                                        MakeValue&& make_value);
 
 #ifdef __AVX2__
   /**
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index 1d96e72..ee1944d 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -145,10 +145,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert(
         // Key exists - don't modify, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &value](size_type idx) {
-        // Insert value via assignment
-        values_[idx] = value;
-      });
+      [&value]() { return Value(value); });
 }
 
 /**
@@ -190,14 +187,11 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_hint(
         // Key exists - don't modify, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &value](size_type idx) {
-        // Insert value via assignment
-        values_[idx] = value;
-      });
+      [&value]() { return Value(value); });
 }
 
 /**
- * try_emplace - constructs value in-place if key doesn't exist.
+ * try_emplace - constructs value if key doesn't exist.
  * Key advantage: avoids value construction when key already exists.
  */
 template <typename Key, typename Value, std::size_t Length, typename Compare,
@@ -223,11 +217,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::try_emplace(
         // Key exists - CRITICAL: don't construct value, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &args...](size_type idx) {
-        // Construct value IN-PLACE using provided arguments
-        // This is the key difference from insert() - no temporary value!
-        std::construct_at(&values_[idx], std::forward<Args>(args)...);
-      });
+      [&args...]() { return Value(std::forward<Args>(args)...); });
 }
 
 /**
@@ -254,10 +244,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_or_assign(
         values_[idx] = std::forward<M>(value);
         return std::pair{iterator(this, idx), false};  // false = assignment
       },
-      [this, &value](size_type idx) {
-        // Insert new value
-        values_[idx] = std::forward<M>(value);
-      });
+      [&value]() { return Value(std::forward<M>(value)); });
 }
 
 /**
@@ -335,6 +322,9 @@ Value& dense_map<Key, Value, Length, Compare, SearchModeT>::operator[](
   const auto pos = lower_bound_key(key);
   size_type idx = pos - keys_.begin();
 
+  // The key may refer to an element about to be shifted
+  Key new_key(key);
+
   // Shift elements to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
                      keys_.data() + size_ + 1);
@@ -342,7 +332,7 @@ Value& dense_map<Key, Value, Length, Compare, SearchModeT>::operator[](
                      values_.data() + size_ + 1);
 
   // Insert with default-constructed value
-  keys_[idx] = key;
+  keys_[idx] = std::move(new_key);
   values_[idx] = Value{};
   ++size_;
 
@@ -683,19 +673,21 @@ void dense_map<Key, Value, Length, Compare, SearchModeT>::transfer_suffix_from(
  * @param key Key to insert
  * @param on_exists Callback for when key exists: (size_type) -> pair<iterator,
  * bool> Can modify the existing value (insert_or_assign) or just return
- * @param on_insert Callback to insert value: (size_type) -> void
- *                  Uses assignment (insert) or construct_at (try_emplace)
+ * @param make_value Callback building the value to insert: () -> Value. Only
+ *                   called if the key is inserted, and before any element is
+ *                   shifted, as key and value may refer into this array
  * @return Pair of iterator to element and bool indicating insertion success
  */
 template <typename Key, typename Value, std::size_t Length, typename Compare,
           SearchMode SearchModeT>
   requires ComparatorCompatible<Key, Compare>
-template <typename OnExists, typename OnInsert>
+template <typename OnExists, typename MakeValue>
 std::pair<
     typename dense_map<Key, Value, Length, Compare, SearchModeT>::iterator,
     bool>
 dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
-    size_type idx, const Key& key, OnExists&& on_exists, OnInsert&& on_insert) {
+    size_type idx, const Key& key, OnExists&& on_exists,
+    MakeValue&& make_value) {
   // Check if key exists at this position
   if (idx < size_ && keys_[idx] == key) {
     return std::forward<OnExists>(on_exists)(
@@ -707,6 +699,10 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     throw std::runtime_error("Cannot insert: array is full");
   }
 
+  // Take key and value first: they may refer to elements about to be shifted
+  Key new_key(key);
+  Value new_value(std::forward<MakeValue>(make_value)());
+
   // Shift elements to the right to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
                      keys_.data() + size_ + 1);
@@ -714,10 +710,10 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
                      values_.data() + size_ + 1);
 
   // Insert the key
-  keys_[idx] = key;
+  keys_[idx] = std::move(new_key);
 
-  // Let caller insert the value (assignment vs construct_at)
-  std::forward<OnInsert>(on_insert)(idx);
+  // Insert the value
+  values_[idx] = std::move(new_value);
 
   ++size_;
 
-- 
2.43.0


From 03df503e72149ce697ab5820212dd1082f50ec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 02/12] fix: take key and value before splitting a leaf in
 btree insertions

Arguments that refer to elements of the tree were read after the split had
moved the elements.
---
 include/fast_containers/btree.ipp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 74975f6..f4867e6 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -846,6 +846,12 @@ std::pair<typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::split_leaf_and_insert(leaf_node* leaf, const Key& key,
                                         GetValue&& get_value) {
+  // Take the key and value before anything moves: both may refer to elements of
+  // this leaf. The key is known to be absent, so the value is going to be used
+  // (try_emplace's optimization is preserved).
+  const Key new_key = key;
+  auto value = std::forward<GetValue>(get_value)();
+
   // Create new leaf for right half
   leaf_node* new_leaf = allocate_leaf_node();
 
@@ -874,14 +880,11 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   const Key& promoted_key = new_leaf->data.begin()->first;
 
   // Determine target leaf
-  leaf_node* target_leaf = comp_(key, promoted_key) ? leaf : new_leaf;
-
-  // Get value on-demand after determining target leaf
-  // This preserves try_emplace's optimization
-  auto value = std::forward<GetValue>(get_value)();
+  leaf_node* target_leaf = comp_(new_key, promoted_key) ? leaf : new_leaf;
 
   // Insert the new key-value pair into appropriate leaf
-  auto [leaf_it, inserted] = target_leaf->data.insert(key, std::move(value));
+  auto [leaf_it, inserted] =
+      target_leaf->data.insert(new_key, std::move(value));
 
   // Key is guaranteed not to exist (checked by insert_impl before calling)
   assert(inserted && "split_leaf_and_insert: key should not exist in tree");
@@ -946,8 +949,9 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   size_++;
 
   // If we inserted at the beginning and leaf has a parent, update parent key
+  // (from the stored copy: key may refer to an element that has just moved)
   if (leaf_it == leaf->data.begin() && leaf->parent != nullptr) {
-    update_parent_key_recursive(leaf, key);
+    update_parent_key_recursive(leaf, leaf_it->first);
   }
 
   return {iterator(leaf, leaf_it), true};
-- 
2.43.0


From 978dc8c16d5f48006c9438d88a406c9ce3f0d61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 03/12] fix: move and swap btree allocators together with the
 nodes

Move assignment and swap exchanged nodes but not allocators, so nodes were
returned to the wrong pool and could outlive their own.
---
 include/fast_containers/btree.ipp                        | 9 ++++++++-
 .../fast_containers/policy_based_hugepage_allocator.hpp  | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index f4867e6..a7a4dc0 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -125,7 +125,10 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     // Deallocate existing tree (including root)
     deallocate_tree();
 
-    // Move other's resources to this
+    // Move other's resources to this; the allocators go with the nodes they
+    // have to deallocate
+    leaf_alloc_ = std::move(other.leaf_alloc_);
+    internal_alloc_ = std::move(other.internal_alloc_);
     root_is_leaf_ = other.root_is_leaf_;
     if (root_is_leaf_) {
       leaf_root_ = other.leaf_root_;
@@ -199,6 +202,10 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     }
   }
 
+  // Swap allocators: they have to deallocate the nodes
+  std::swap(leaf_alloc_, other.leaf_alloc_);
+  std::swap(internal_alloc_, other.internal_alloc_);
+
   // Swap other members
   std::swap(root_is_leaf_, other.root_is_leaf_);
   std::swap(size_, other.size_);
diff --git a/include/fast_containers/policy_based_hugepage_allocator.hpp b/include/fast_containers/policy_based_hugepage_allocator.hpp
index 055cdcf..416bcc6 100644
--- a/include/fast_containers/policy_based_hugepage_allocator.hpp
+++ b/include/fast_containers/policy_based_hugepage_allocator.hpp
@@ -264,7 +264,7 @@ class PolicyBasedHugePageAllocator {
   [[nodiscard]] const PoolPolicy& get_policy() const { return policy_; }
 
  private:
-  const PoolPolicy policy_;  // NOLINT(readability-identifier-naming)
+  PoolPolicy policy_;  // NOLINT(readability-identifier-naming)
 
   // Allow rebind to access policy_
   template <typename, typename>
-- 
2.43.0


From 16098083bd401ba87880c1e231017fec2c5588cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 04/12] fix: keep the pool of a moved-from
 MultiSizeHugePageAllocator

The implicit move left the source without a pool, so allocating from it (or
from a tree that had been moved from) dereferenced a null pointer.
---
 .../fast_containers/multi_size_hugepage_allocator.hpp  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index c6cfb0e..6bda96c 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -72,6 +72,16 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
       std::shared_ptr<MultiSizeHugePagePool> pool)
       : pool_(std::move(pool)) {}
 
+  /**
+   * Copy operations (share the pool). Declaring them leaves the class without
+   * move operations: a moved-from allocator keeps its pool, as the allocator
+   * requirements demand.
+   */
+  MultiSizeHugePageAllocator(const MultiSizeHugePageAllocator& other) = default;
+  MultiSizeHugePageAllocator& operator=(
+      const MultiSizeHugePageAllocator& other) = default;
+  ~MultiSizeHugePageAllocator() = default;
+
   /**
    * Copy constructor (different type).
    *
-- 
2.43.0


From 6978c9c3fb680533af058aadab8848405b327bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 05/12] fix: decide key equivalence with the comparator

Lookups, insertions and range erasure compared keys with ==, so containers
whose comparator is coarser than == held several equivalent keys and missed
stored ones.
---
 include/fast_containers/btree.ipp     |  8 ++++----
 include/fast_containers/dense_map.ipp | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index a7a4dc0..fdecca3 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -373,7 +373,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     auto it = node->internal_children.lower_bound(key);
 
     if (it != node->internal_children.begin() &&
-        (it == node->internal_children.end() || it->first != key)) {
+        (it == node->internal_children.end() || comp_(key, it->first))) {
       --it;
     }
 
@@ -384,7 +384,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto it = node->leaf_children.lower_bound(key);
 
   if (it != node->leaf_children.begin() &&
-      (it == node->leaf_children.end() || it->first != key)) {
+      (it == node->leaf_children.end() || comp_(key, it->first))) {
     --it;
   }
 
@@ -696,7 +696,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Erase elements one by one until we reach 'last'
   while (first != end()) {
     // Check if we've reached the 'last' position by comparing keys
-    if (last_key.has_value() && (*first).first == *last_key) {
+    if (last_key.has_value() && !comp_((*first).first, *last_key)) {
       break;
     }
     first = erase(first);
@@ -937,7 +937,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto pos = leaf->data.lower_bound(key);
 
   // Check if key already exists - delegate to on_exists callback
-  if (pos != leaf->data.end() && pos->first == key) {
+  if (pos != leaf->data.end() && !comp_(key, pos->first)) {
     return std::forward<OnExists>(on_exists)(leaf, pos);
   }
 
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index ee1944d..88692c1 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -357,7 +357,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::find(const Key& key) {
   const auto pos = lower_bound_key(key);
   const size_type idx = pos - keys_.begin();
 
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return iterator(this, idx);
   }
   return end();
@@ -378,7 +378,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::find(
   const auto pos = lower_bound_key(key);
   const size_type idx = pos - keys_.begin();
 
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return const_iterator(this, idx);
   }
   return end();
@@ -432,7 +432,7 @@ typename dense_map<Key, Value, Length, Compare, SearchModeT>::iterator
 dense_map<Key, Value, Length, Compare, SearchModeT>::upper_bound(
     const Key& key) {
   auto it = lower_bound(key);
-  if (it != end() && it->first == key) {
+  if (it != end() && !comp_(key, it->first)) {
     ++it;
   }
   return it;
@@ -452,7 +452,7 @@ typename dense_map<Key, Value, Length, Compare, SearchModeT>::const_iterator
 dense_map<Key, Value, Length, Compare, SearchModeT>::upper_bound(
     const Key& key) const {
   auto it = lower_bound(key);
-  if (it != end() && it->first == key) {
+  if (it != end() && !comp_(key, it->first)) {
     ++it;
   }
   return it;
@@ -689,7 +689,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     size_type idx, const Key& key, OnExists&& on_exists,
     MakeValue&& make_value) {
   // Check if key exists at this position
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return std::forward<OnExists>(on_exists)(
         idx);  // Let caller decide what to do (return or assign)
   }
-- 
2.43.0


From 8f0c7d41bbba40ffc89a422d4ca28da2d625cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:56 +0000
Subject: [PATCH 06/12] fix: allocate every node of a btree split before
 changing the tree

When the allocation of an internal node failed in the middle of a split, the
new element was in the tree but its leaf was not linked to a parent.
---
 include/fast_containers/btree.hpp | 20 ++++++--
 include/fast_containers/btree.ipp | 84 ++++++++++++++++++++++++++-----
 2 files changed, 89 insertions(+), 15 deletions(-)

diff --git a/include/fast_containers/btree.hpp b/include/fast_containers/btree.hpp
index 1618cd6..638a215 100644
--- a/include/fast_containers/btree.hpp
+++ b/include/fast_containers/btree.hpp
@@ -923,6 +923,18 @@ class btree {
    */
   internal_node* allocate_internal_node(bool leaf_children);
 
+  /**
+   * Allocate every internal node that splitting the given full leaf is going
+   * to need (one per full ancestor, and a new root if there is no other), in
+   * order of use and linked through their parent pointers.
+   */
+  internal_node* allocate_nodes_for_split(const leaf_node* leaf);
+
+  /**
+   * Take the first node off a list made by allocate_nodes_for_split().
+   */
+  static internal_node* take_node(internal_node*& nodes);
+
   /**
    * Deallocate a leaf node.
    */
@@ -1038,20 +1050,22 @@ class btree {
    * Insert a promoted key and child pointer into a parent node.
    * If parent is full, splits it recursively.
    * If node has no parent, creates a new root.
+   * New nodes are taken from the given list.
    *
    * Templated to handle both leaf_node and internal_node children.
    */
   template <typename NodeType>
   void insert_into_parent(NodeType* left_child, const Key& key,
-                          NodeType* right_child);
+                          NodeType* right_child, internal_node*& new_nodes);
 
   /**
    * Split a full internal node.
-   * Creates a new internal node and moves half the children to it.
+   * Moves half the children to the given new internal node.
    * Returns a reference to the promoted key and pointer to the new node.
    * The key reference points to the first key in the new node's children.
    */
-  std::pair<const Key&, internal_node*> split_internal(internal_node* node);
+  std::pair<const Key&, internal_node*> split_internal(
+      internal_node* node, internal_node* new_node);
 
   /**
    * Update parent's key for a child node to match its current minimum.
diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index fdecca3..96834a4 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -741,6 +741,56 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   return node;
 }
 
+// allocate_nodes_for_split
+template <typename Key, typename Value, std::size_t LeafNodeSize,
+          std::size_t InternalNodeSize, typename Compare,
+          SearchMode SearchModeT, typename Allocator>
+  requires ComparatorCompatible<Key, Compare>
+typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+               Allocator>::internal_node*
+btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+      Allocator>::allocate_nodes_for_split(const leaf_node* leaf) {
+  internal_node* first = nullptr;
+  internal_node** last = &first;
+  try {
+    internal_node* ancestor = leaf->parent;
+    bool children_are_leaves = true;
+    while (ancestor == nullptr ||
+           (children_are_leaves ? ancestor->leaf_children.size()
+                                : ancestor->internal_children.size()) >=
+               InternalNodeSize) {
+      *last = allocate_internal_node(children_are_leaves);
+      last = &(*last)->parent;
+      if (ancestor == nullptr) {
+        break;  // That one becomes the new root
+      }
+      ancestor = ancestor->parent;
+      children_are_leaves = false;
+    }
+  } catch (...) {
+    while (first != nullptr) {
+      deallocate_internal_node(take_node(first));
+    }
+    throw;
+  }
+  return first;
+}
+
+// take_node
+template <typename Key, typename Value, std::size_t LeafNodeSize,
+          std::size_t InternalNodeSize, typename Compare,
+          SearchMode SearchModeT, typename Allocator>
+  requires ComparatorCompatible<Key, Compare>
+typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+               Allocator>::internal_node*
+btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+      Allocator>::take_node(internal_node*& nodes) {
+  internal_node* node = nodes;
+  nodes = node->parent;
+  node->parent = nullptr;
+  return node;
+}
+
 // deallocate_leaf_node
 template <typename Key, typename Value, std::size_t LeafNodeSize,
           std::size_t InternalNodeSize, typename Compare,
@@ -859,8 +909,18 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   const Key new_key = key;
   auto value = std::forward<GetValue>(get_value)();
 
-  // Create new leaf for right half
-  leaf_node* new_leaf = allocate_leaf_node();
+  // Create new leaf for right half, and first of all the internal nodes the
+  // split needs: a failing allocation must not find the tree half changed
+  internal_node* new_nodes = allocate_nodes_for_split(leaf);
+  leaf_node* new_leaf = nullptr;
+  try {
+    new_leaf = allocate_leaf_node();
+  } catch (...) {
+    while (new_nodes != nullptr) {
+      deallocate_internal_node(take_node(new_nodes));
+    }
+    throw;
+  }
 
   // Calculate split point (ceil(LeafNodeSize / 2))
   const size_type split_point = (LeafNodeSize + 1) / 2;
@@ -899,7 +959,8 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   size_++;
 
   // Insert promoted key into parent
-  insert_into_parent(leaf, promoted_key, new_leaf);
+  insert_into_parent(leaf, promoted_key, new_leaf, new_nodes);
+  assert(new_nodes == nullptr);
 
   // If we inserted into the left half, update parent key if necessary
   if (target_leaf == leaf) {
@@ -972,7 +1033,8 @@ template <typename Key, typename Value, std::size_t LeafNodeSize,
 template <typename NodeType>
 void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
            Allocator>::insert_into_parent(NodeType* left_child, const Key& key,
-                                          NodeType* right_child) {
+                                          NodeType* right_child,
+                                          internal_node*& new_nodes) {
   // Helper lambda to get appropriate children array reference
   auto get_children = [](internal_node* node) -> auto& {
     if constexpr (std::is_same_v<NodeType, leaf_node>) {
@@ -996,8 +1058,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   // Case 1: left_child is root - create new root
   if (left_child->parent == nullptr) {
-    constexpr bool children_are_leaves = std::is_same_v<NodeType, leaf_node>;
-    internal_node* new_root = allocate_internal_node(children_are_leaves);
+    internal_node* new_root = take_node(new_nodes);
 
     auto& children = get_children(new_root);
     auto [it, inserted] = children.insert(get_left_key(left_child), left_child);
@@ -1020,7 +1081,8 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Check if parent is full
   if (parent_children.size() >= InternalNodeSize) {
     // Need to split parent
-    auto [promoted_key, new_parent] = split_internal(parent);
+    auto [promoted_key, new_parent] =
+        split_internal(parent, take_node(new_nodes));
 
     // Determine which parent to insert into
     internal_node* target_parent =
@@ -1032,7 +1094,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     assert(inserted && "Insert into non-full parent should succeed");
 
     // Recursively insert promoted key into grandparent
-    insert_into_parent(parent, promoted_key, new_parent);
+    insert_into_parent(parent, promoted_key, new_parent, new_nodes);
   } else {
     // Parent has space - insert normally
     right_child->parent = parent;
@@ -1050,10 +1112,8 @@ std::pair<const Key&,
           typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
                          SearchModeT, Allocator>::internal_node*>
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
-      Allocator>::split_internal(internal_node* node) {
-  // Create new internal node
-  internal_node* new_node = allocate_internal_node(node->children_are_leaves);
-
+      Allocator>::split_internal(internal_node* node,
+                                 internal_node* new_node) {
   // Calculate split point
   const size_type split_point = (InternalNodeSize + 1) / 2;
 
-- 
2.43.0


From 5428397f1b048587f9c31596b58a5d8840756c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 07/12] fix: leak nothing and stay valid when copying or
 clearing a btree fails

A failing copy construction leaked the nodes made so far; a failing clear()
left the tree with a deallocated root.
---
 include/fast_containers/btree.ipp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 96834a4..5e231f7 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -58,8 +58,13 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Always allocate an empty root leaf, then copy all elements
 
   // Copy all elements using insert (use const iterators)
-  for (const_iterator it = other.begin(); it != other.end(); ++it) {
-    insert(it->first, it->second);
+  try {
+    for (const_iterator it = other.begin(); it != other.end(); ++it) {
+      insert(it->first, it->second);
+    }
+  } catch (...) {
+    deallocate_tree();  // The destructor does not run
+    throw;
   }
 }
 
@@ -831,11 +836,12 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     // Just clear the root leaf's data
     leaf_root_->data.clear();
   } else {
+    // Allocate new empty leaf root (first, as it may fail)
+    leaf_node* new_root = allocate_leaf_node();
+
     // Deallocate internal tree and reset to empty leaf root
     deallocate_internal_subtree(internal_root_);
-
-    // Allocate new empty leaf root
-    leaf_root_ = allocate_leaf_node();
+    leaf_root_ = new_root;
     root_is_leaf_ = true;
     leftmost_leaf_ = leaf_root_;
     rightmost_leaf_ = leaf_root_;
-- 
2.43.0


From 87810facaa07ae6a544a3f2856c7d37f05cd834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:57 +0000
Subject: [PATCH 08/12] fix: HugePagePool: serve large requests only from
 regions that can hold them

The fit test overflowed for requests near SIZE_MAX, and grow() obtained a
region of growth_size_ even when the request needed more, so that blocks
reached past the end of the mapping. A pool with growth size 0 now throws
std::bad_alloc when exhausted.
---
 include/fast_containers/hugepage_pool.hpp | 28 ++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index ff35ce7..9323a9c 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -6,6 +6,7 @@
 
 #include <sys/mman.h>
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <stdexcept>
@@ -52,6 +53,7 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
 
  private:
   static constexpr size_type hugepage_size = 2UL * 1024 * 1024;  // 2MB
+  static constexpr size_type page_size = 4096;  // smallest page size
 
   struct memory_region {
     std::byte* base = nullptr;
@@ -192,8 +194,8 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     size_type padding = aligned - current;
 
     // Grow pool if needed
-    if (bytes_remaining_ < bytes + padding) {
-      grow();
+    if (bytes_remaining_ < padding || bytes_remaining_ - padding < bytes) {
+      grow(bytes, alignment);
       // After growth, recalculate alignment from new next_free_
       current = reinterpret_cast<uintptr_t>(next_free_);
       aligned =
@@ -302,20 +304,30 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
 
  private:
   /**
-   * Grow the pool by allocating a new region of growth_size_.
-   * Called when current region is exhausted.
+   * Grow the pool by allocating a new region of growth_size_, or more if the
+   * request that exhausted the current region needs more.
+   *
+   * @param bytes Size of that request
+   * @param alignment Alignment of that request
    */
-  void grow() {
+  void grow(size_type bytes, size_type alignment) {
+    // Regions start on a page boundary, larger alignments may need padding
+    const size_type padding = alignment > page_size ? alignment - page_size : 0;
+    if (growth_size_ == 0 || bytes > SIZE_MAX - padding) {
+      throw std::bad_alloc();
+    }
+    const size_type size = std::max(growth_size_, bytes + padding);
+
     memory_region new_region;
 
     if (using_hugepages_) {
-      new_region = allocate_hugepages_region(growth_size_);
+      new_region = allocate_hugepages_region(size);
       if (new_region.base == nullptr) {
         // Hugepages no longer available, fall back to regular
-        new_region = allocate_regular_region(growth_size_);
+        new_region = allocate_regular_region(size);
       }
     } else {
-      new_region = allocate_regular_region(growth_size_);
+      new_region = allocate_regular_region(size);
     }
 
     regions_.push_back(new_region);
-- 
2.43.0


From 8c68066701324870dcce0cf5b16db137025cbac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 09/12] fix: HugePagePool: reuse freed blocks only for requests
 they can serve

The pool kept freed blocks of all sizes in one list and handed out the first
one for any later request, so a request larger than the freed block overlapped
its neighbours, and one with a stricter alignment got a misaligned block. Keep
one list per block size and take the first block aligned as requested.
---
 include/fast_containers/hugepage_pool.hpp | 44 ++++++++++++++++++-----
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index 9323a9c..e435ce7 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -43,7 +43,8 @@ inline constexpr bool allocator_stats_enabled = false;
  *
  * Implementation notes:
  * - Not thread-safe (add locking if needed for concurrent use)
- * - Intrusive free list: freed blocks store next pointer in-place
+ * - Intrusive free lists, one per size: freed blocks store next pointer
+ *   in-place
  * - Requires allocated size >= sizeof(void*) for free list
  * - Memory is allocated on NUMA node via first-touch policy during pre-faulting
  */
@@ -60,6 +61,11 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     size_type size = 0;
   };
 
+  struct free_list {
+    size_type block_size = 0;
+    void* head = nullptr;
+  };
+
   /**
    * Statistics tracked by the pool.
    * Only populated when allocator_stats_enabled is true.
@@ -106,7 +112,7 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
   const size_type initial_size_;  // NOLINT(readability-identifier-naming)
   const size_type growth_size_;   // NOLINT(readability-identifier-naming)
   bool using_hugepages_ = false;
-  void* free_list_head_ = nullptr;  // Head of intrusive free list
+  std::vector<free_list> free_lists_;  // One intrusive list per block size
   stats stats_;
 
  public:
@@ -174,10 +180,15 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
-    // Try to allocate from free list first
-    if (free_list_head_ != nullptr) {
-      void* ptr = free_list_head_;
-      free_list_head_ = *reinterpret_cast<void**>(ptr);
+    // Try to allocate from the free list first: a freed block serves requests
+    // of the same size if it is aligned as requested
+    for (void** link = &get_free_list(bytes).head; *link != nullptr;
+         link = reinterpret_cast<void**>(*link)) {
+      void* ptr = *link;
+      if ((reinterpret_cast<uintptr_t>(ptr) & (alignment - 1)) != 0) {
+        continue;
+      }
+      *link = *reinterpret_cast<void**>(ptr);
 
       stats_.record_allocation(bytes);
 
@@ -219,7 +230,7 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
    * Deallocate raw memory.
    *
    * @param ptr Pointer to memory to deallocate
-   * @param bytes Number of bytes (for statistics tracking)
+   * @param bytes Number of bytes, as passed to allocate
    */
   void deallocate(void* ptr, size_type bytes) {
     if (ptr == nullptr || bytes == 0) {
@@ -227,8 +238,9 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     }
 
     // Add to intrusive free list
-    *reinterpret_cast<void**>(ptr) = free_list_head_;
-    free_list_head_ = ptr;
+    free_list& list = get_free_list(bytes);
+    *reinterpret_cast<void**>(ptr) = list.head;
+    list.head = ptr;
 
     stats_.record_deallocation(bytes);
   }
@@ -303,6 +315,20 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
   [[nodiscard]] size_type get_peak_usage() const { return stats_.peak_usage; }
 
  private:
+  /**
+   * Get the free list for blocks of a size. Created by allocate, so that
+   * deallocate finds it without allocating memory.
+   */
+  free_list& get_free_list(size_type block_size) {
+    for (auto& list : free_lists_) {
+      if (list.block_size == block_size) {
+        return list;
+      }
+    }
+    free_lists_.push_back({.block_size = block_size, .head = nullptr});
+    return free_lists_.back();
+  }
+
   /**
    * Grow the pool by allocating a new region of growth_size_, or more if the
    * request that exhausted the current region needs more.
-- 
2.43.0


From f412047b4d308e81b5cb30fec85bc15f7fec42fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:44 +0000
Subject: [PATCH 10/12] fix: HugePagePool: do not leak a region when recording
 it fails

regions_.push_back could throw after the region was mapped, and nothing then
ever unmapped it. Make room for the record first.
---
 include/fast_containers/hugepage_pool.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index e435ce7..465e066 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -132,6 +132,8 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
                         bool use_hugepages = true,
                         size_type growth_size = 64UL * 1024 * 1024)
       : initial_size_(initial_size), growth_size_(growth_size) {
+    regions_.reserve(1);  // recording the region must not fail once it exists
+
     // Allocate initial region
     memory_region initial_region;
 
@@ -344,6 +346,11 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     }
     const size_type size = std::max(growth_size_, bytes + padding);
 
+    // Recording the new region must not fail once it exists
+    if (regions_.size() == regions_.capacity()) {
+      regions_.reserve(2 * regions_.size());
+    }
+
     memory_region new_region;
 
     if (using_hugepages_) {
-- 
2.43.0


From 460c1104f084523baa94c9f914ca33f333dbfd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:49 +0000
Subject: [PATCH 11/12] fix: MultiSizeHugePagePool: keep no empty entry when
 creating a pool fails

operator[] inserted a null pool before its construction, which stayed in
get_pools() and active_size_classes() when the construction threw.
---
 .../fast_containers/multi_size_hugepage_pool.hpp    | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/fast_containers/multi_size_hugepage_pool.hpp b/include/fast_containers/multi_size_hugepage_pool.hpp
index c8cde2a..7e690a2 100644
--- a/include/fast_containers/multi_size_hugepage_pool.hpp
+++ b/include/fast_containers/multi_size_hugepage_pool.hpp
@@ -125,15 +125,18 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
     const size_type size_class = get_size_class(bytes);
 
     // Get or create pool for this size class
-    auto& pool = pools_[size_class];
-    if (!pool) {
-      pool = std::make_unique<HugePagePool>(
-          initial_size_per_pool_, use_hugepages_, growth_size_per_pool_);
+    auto it = pools_.find(size_class);
+    if (it == pools_.end()) {
+      it = pools_
+               .emplace(size_class, std::make_unique<HugePagePool>(
+                                        initial_size_per_pool_, use_hugepages_,
+                                        growth_size_per_pool_))
+               .first;
     }
 
     // Allocate from size-specific pool
     // Each pool only handles uniform-sized blocks, so free list works!
-    return pool->allocate(size_class, alignment);
+    return it->second->allocate(size_class, alignment);
   }
 
   /**
-- 
2.43.0


From 8195448557015750f7fa761ff440402bb3aa2b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:55 +0000
Subject: [PATCH 12/12] fix: refuse multi-size requests that no size class can
 hold

n * sizeof(T) wrapped around for large counts, handing out a block far smaller
than requested, and std::bit_ceil has undefined behaviour above 2^63. Throw
std::bad_array_new_length and std::bad_alloc instead.
---
 .../fast_containers/multi_size_hugepage_allocator.hpp    | 5 +++++
 include/fast_containers/multi_size_hugepage_pool.hpp     | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index 6bda96c..fb66cdf 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -6,6 +6,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <new>
 
 #include "multi_size_hugepage_pool.hpp"
 
@@ -106,6 +107,10 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
+    if (n > static_cast<size_type>(-1) / sizeof(T)) {
+      throw std::bad_array_new_length();
+    }
+
     const size_type bytes = n * sizeof(T);
     void* ptr = pool_->allocate(bytes, alignof(T));
 
diff --git a/include/fast_containers/multi_size_hugepage_pool.hpp b/include/fast_containers/multi_size_hugepage_pool.hpp
index 7e690a2..4f70b33 100644
--- a/include/fast_containers/multi_size_hugepage_pool.hpp
+++ b/include/fast_containers/multi_size_hugepage_pool.hpp
@@ -7,6 +7,7 @@
 #include <bit>
 #include <cstddef>
 #include <memory>
+#include <new>
 #include <unordered_map>
 
 #include "hugepage_pool.hpp"
@@ -57,6 +58,9 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
  public:
   using size_type = std::size_t;
 
+  // Largest request that has a size class (the largest power of 2)
+  static constexpr size_type max_size = ~(~size_type{0} >> 1);
+
   /**
    * Construct multi-size pool with specified configuration.
    *
@@ -87,7 +91,7 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
    * - 513-2048 bytes: Round up to nearest 256 bytes
    * - 2049+ bytes: Round up to next power of 2
    *
-   * @param bytes Requested allocation size
+   * @param bytes Requested allocation size (at most max_size)
    * @return Size class (rounded up size)
    */
   [[nodiscard]] static constexpr size_type get_size_class(size_type bytes) {
@@ -121,6 +125,9 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
     if (bytes == 0) {
       return nullptr;
     }
+    if (bytes > max_size) {
+      throw std::bad_alloc();
+    }
 
     const size_type size_class = get_size_class(bytes);
 
-- 
2.43.0

