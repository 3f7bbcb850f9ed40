From ac39c0f5b2b8bceb6a5527633ebe6273578fe077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 01/16] fix: copying a mutable tree gives an independent tree

The copy shared its nodes with the original while neither of them was marked
copy-on-write, so an edit of one showed up in (or corrupted) the other.
---
 include/bpptree/bpptree.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index c15c013..419b0b7 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -74,6 +74,26 @@ public:
 
         Shared(RootType&& root_variant, size_t size) : Parent(), root_variant(std::move(root_variant)), tree_size(size) {}
 
+        // a copy shares all of its nodes with the original, so from then on neither of them may edit those in place
+        Shared(Shared const& other) : Parent(other), root_variant(other.root_variant), tree_size(other.tree_size) {
+            make_persistent();
+        }
+
+        Shared(Shared&& other) = default;
+
+        Shared& operator=(Shared const& rhs) {
+            root_variant = rhs.root_variant;
+            tree_size = rhs.tree_size;
+            make_persistent();
+            return *this;
+        }
+
+        Shared& operator=(Shared&& rhs) = default;
+
+        void make_persistent() {
+            std::visit([](auto& root) { root->make_persistent(); }, root_variant);
+        }
+
         using Modifiers = ModifyTypes<LeafNode, InternalNode, max_depth_v>;
 
         friend Modifiers;
-- 
2.43.0


From c208350724bb71178bf1f4c30fe6e4e9d5c2e9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 02/16] fix: do not write to leaves that are already persistent

make_persistent stored to the flag unconditionally, a data race when two threads
derive immutable trees from a shared one.
---
 include/bpptree/detail/leafnodebase.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index 45d659a..d8d1a5e 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -273,7 +273,10 @@ struct LeafNodeBase : public Parent {
     }
 
     void make_persistent() {
-        this->persistent = true;
+        // leaves that are already persistent may be shared with other threads and must not be written to
+        if (!this->persistent) {
+            this->persistent = true;
+        }
     }
 
     void seek_first(uint64_t& it) const {
-- 
2.43.0


From 3c137338ef6652e2fae28d273243840eb24f90cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 03/16] fix: a reverse iterator does not order before itself

---
 include/bpptree/detail/iterator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/iterator.hpp b/include/bpptree/detail/iterator.hpp
index 694ddf9..fa4ecc0 100644
--- a/include/bpptree/detail/iterator.hpp
+++ b/include/bpptree/detail/iterator.hpp
@@ -264,7 +264,11 @@ struct IteratorDetail : public IteratorBase<Tree, is_const> {
             throw std::logic_error("cannot compare iterators from different trees");
         }
 #endif
-        return reverse ^ (iter + 1 < rhs.iter + 1);
+        if constexpr (reverse) {
+            return rhs.iter + 1 < iter + 1;
+        } else {
+            return iter + 1 < rhs.iter + 1;
+        }
     }
 
     template <typename RHS>
-- 
2.43.0


From 793f86cb8789af5b323b1103c12297e2e58bb2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 04/16] fix: inserting at a reverse iterator of an immutable
 tree

The element went to a different position than on a mutable tree, and inserting at
rend accessed a node out of bounds.
---
 include/bpptree/bpptree.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index 419b0b7..b7b9ea1 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -382,7 +382,11 @@ public:
         template <typename It, typename... Args>
         [[nodiscard]] Persistent insert(It const& it, Args&&... args) const {
             auto transient = this->self().transient();
-            transient.insert2(it.iter, std::forward<Args>(args)...);
+            It pos(it);
+            if constexpr (It::is_reversed) {
+                --pos;
+            }
+            transient.insert2(pos.iter, std::forward<Args>(args)...);
             return std::move(transient).persistent();
         }
 
-- 
2.43.0


From 9fca62809c192b51d18d7c3786417b9d13fb72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 05/16] fix: exceeding the depth limit leaves the tree
 unchanged

The exception was thrown after nodes had been split, which lost elements and left a
wrong size.
---
 include/bpptree/detail/internalnodebase.hpp |  6 ++++++
 include/bpptree/detail/leafnodebase.hpp     |  4 ++++
 include/bpptree/detail/modify.hpp           | 12 ++++++++----
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/bpptree/detail/internalnodebase.hpp b/include/bpptree/detail/internalnodebase.hpp
index 56ec30a..d22c320 100644
--- a/include/bpptree/detail/internalnodebase.hpp
+++ b/include/bpptree/detail/internalnodebase.hpp
@@ -306,6 +306,12 @@ struct InternalNodeBase : public Parent {
         DoSplit(typename Parent::SelfType& self, IndexType index, R& do_replace, S& do_split, uint64_t& iter, bool right_most) :
                 self(self), index(index), do_replace(do_replace), do_split(do_split), iter(iter), right_most(right_most) {}
 
+        void check_depth() const {
+            if (self.length == internal_size) {
+                do_split.check_depth();
+            }
+        }
+
         template <typename T>
         void operator()(T&& split) {
             self.insert_split(index, split, do_replace, do_split, iter, right_most);
diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index d8d1a5e..d0f138a 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -148,6 +148,10 @@ struct LeafNodeBase : public Parent {
 
     template <typename R, typename S, typename... Args>
     void insert_index(IndexType index, R&& do_replace, S&& do_split, size_t& size, uint64_t& iter, bool right_most, Args&&... args) noexcept(disable_exceptions) {
+        if (this->length == leaf_size) {
+            // has to fail before anything has been changed
+            do_split.check_depth();
+        }
         ++size;
         if (this->length != leaf_size) {
             set_index(iter, index);
diff --git a/include/bpptree/detail/modify.hpp b/include/bpptree/detail/modify.hpp
index c43b772..d49580c 100644
--- a/include/bpptree/detail/modify.hpp
+++ b/include/bpptree/detail/modify.hpp
@@ -67,6 +67,14 @@ struct ModifyTypes {
 
         DoSplit(TreeType& tree, NodePtr<NodeType>& root, uint64_t& iter) : tree(tree), root(root), iter(iter) {}
 
+        void check_depth() const {
+#ifdef BPPTREE_SAFETY_CHECKS
+            if constexpr (NodeType::depth >= max_depth) {
+                throw std::logic_error("maximum depth exceeded");
+            }
+#endif
+        }
+
         template <typename SplitType>
         void operator()([[maybe_unused]] SplitType&& split) {
             if constexpr (NodeType::depth < max_depth) {
@@ -81,10 +89,6 @@ struct ModifyTypes {
                 root_node->length = 2;
                 root_node->set_index(iter, split.new_element_left ? 0 : 1);
                 tree.root_variant = std::move(root_node);
-            } else {
-#ifdef BPPTREE_SAFETY_CHECKS
-                throw std::logic_error("maximum depth exceeded");
-#endif
             }
         }
     };
-- 
2.43.0


From 45d0f6eb1fd01920a919fb612616e739c1a506cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 06/16] fix: arguments may refer to elements of the tree being
 edited

Inserting an element of the same leaf, or assigning an element from its own key, read
the argument after it had been moved or destroyed.
---
 include/bpptree/detail/leafnodebase.hpp        | 17 ++++++++++++++---
 include/bpptree/detail/uninitialized_array.hpp |  4 +++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index d0f138a..ca9e31a 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -152,7 +152,6 @@ struct LeafNodeBase : public Parent {
             // has to fail before anything has been changed
             do_split.check_depth();
         }
-        ++size;
         if (this->length != leaf_size) {
             set_index(iter, index);
             ReplaceType replace{};
@@ -161,9 +160,16 @@ struct LeafNodeBase : public Parent {
                 replace.delta.ptr = make_ptr<NodeType>();
                 replace.delta.ptr_changed = true;
                 insert_no_split(*replace.delta.ptr, index, std::forward<Args>(args)...);
+                ++size;
                 do_replace(replace);
             } else {
-                insert_no_split(this->self(), index, std::forward<Args>(args)...);
+                if (index < this->length) {
+                    // args may refer to elements which are about to be moved
+                    insert_no_split(this->self(), index, Value(std::forward<Args>(args)...));
+                } else {
+                    insert_no_split(this->self(), index, std::forward<Args>(args)...);
+                }
+                ++size;
                 do_replace(replace);
             }
         } else {
@@ -171,9 +177,14 @@ struct LeafNodeBase : public Parent {
             if (this->persistent) {
                 NodePtr<NodeType> left = make_ptr<NodeType>();
                 bool new_element_left = insert_split(*left, *right, index, iter, right_most, std::forward<Args>(args)...);
+                ++size;
                 do_split(SplitType(std::move(left), std::move(right), true, new_element_left));
             } else {
-                bool new_element_left = insert_split(this->self(), *right, index, iter, right_most, std::forward<Args>(args)...);
+                // args may refer to elements which are about to be moved
+                bool new_element_left = index < this->length ?
+                    insert_split(this->self(), *right, index, iter, right_most, Value(std::forward<Args>(args)...)) :
+                    insert_split(this->self(), *right, index, iter, right_most, std::forward<Args>(args)...);
+                ++size;
                 do_split(SplitType(&(this->self()), std::move(right), false, new_element_left));
             }
         }
diff --git a/include/bpptree/detail/uninitialized_array.hpp b/include/bpptree/detail/uninitialized_array.hpp
index 01f3a94..59876a8 100644
--- a/include/bpptree/detail/uninitialized_array.hpp
+++ b/include/bpptree/detail/uninitialized_array.hpp
@@ -127,8 +127,10 @@ public:
             (*this)[index] = (..., std::forward<Us>(us));
             return (*this)[index];
         }
+        // us may refer to parts of the element which is being replaced
+        T value(std::forward<Us>(us)...);
         (*this)[index].~T();
-        return *new(un.data + index) T(std::forward<Us>(us)...);
+        return *new(un.data + index) T(std::move(value));
     }
 
     T* begin() {
-- 
2.43.0


From da0157b3cbc49046addaaf0506d914dd840af7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 07/16] fix: inverted index example: empty and immutable index

insert dereferenced the end position when a term sorted after all others, and the
immutable form and lookup by term did not compile.
---
 examples/inverted_index.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/examples/inverted_index.hpp b/examples/inverted_index.hpp
index 6d9843c..dd81c9c 100644
--- a/examples/inverted_index.hpp
+++ b/examples/inverted_index.hpp
@@ -44,7 +44,7 @@ struct InvertedIndex {
 
         [[nodiscard]] auto term_doc_iterator(Term const& term) const {
             auto it = self().term_list().find(term);
-            return term_doc_iterator2(it);
+            return term_doc_iterator(it);
         }
     };
 
@@ -52,6 +52,7 @@ struct InvertedIndex {
 
     class Transient : public Shared<Transient> {
         friend struct Shared<Transient>;
+        friend class Persistent;
 
         typename TermList::Transient term_list_{};
         typename DocList::Transient doc_list_{};
@@ -81,7 +82,7 @@ struct InvertedIndex {
         template <typename T>
         void insert(T&& term, uint32_t doc_id) {
             auto it = term_list_.lower_bound(term);
-            if (it->first != term) {
+            if (it == term_list_.end() || it->first != term) {
                 term_list_.insert(it, std::forward<T>(term), 0u);
             }
             auto [begin, end] = this->term_doc_iterator(it);
@@ -95,7 +96,8 @@ struct InvertedIndex {
 
     class Persistent : public Shared<Persistent> {
         friend struct Shared<Persistent>;
-        
+        friend class Transient;
+
         typename TermList::Persistent term_list_{};
         typename DocList::Persistent doc_list_{};
     public:
@@ -123,7 +125,7 @@ struct InvertedIndex {
 
         template <typename T>
         [[nodiscard]] Persistent insert(T&& term, uint32_t doc_id) const {
-            Transient transient(transient());
+            Transient transient(this->transient());
             transient.insert(std::forward<T>(term), doc_id);
             return std::move(transient).persistent();
         }
-- 
2.43.0


From eab939b5bcfb1c4dc23ab9408f30ad1155395ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:45 +0000
Subject: [PATCH 08/16] fix: pop_back erases the last element, not the position
 after it

With aggregates it subtracted an element that does not exist; on a persistent
leaf it copied the removed element into the new leaf and never destroyed it.
---
 include/bpptree/bpptree.hpp           | 2 +-
 include/bpptree/detail/operations.hpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index b7b9ea1..2b6670b 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -342,7 +342,7 @@ public:
 
         Value pop_back() {
             Value ret = this->self().back();
-            this->self().dispatch(Modify<Erase>(), find_last, Empty::empty);
+            this->self().dispatch(Modify<Erase>(), find_last_element, Empty::empty);
             return ret;
         }
 
diff --git a/include/bpptree/detail/operations.hpp b/include/bpptree/detail/operations.hpp
index c817d28..d70479e 100644
--- a/include/bpptree/detail/operations.hpp
+++ b/include/bpptree/detail/operations.hpp
@@ -71,6 +71,11 @@ inline constexpr auto find_last = [](auto const& node, Empty const&) {
     }
 };
 
+// unlike find_last, which finds the position after the last element, this finds the last element itself
+inline constexpr auto find_last_element = [](auto const& node, Empty const&) {
+    return std::tuple<int32_t, Empty>(node.length - 1, Empty::empty);
+};
+
 inline constexpr auto find_iterator = [](auto const& node, uint64_t const& it) {
     return std::tuple<int32_t, uint64_t>(node.get_index(it), it);
 };
-- 
2.43.0


From a46d65610fb848e612951b4fdb808a9d7af5c358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:12 +0000
Subject: [PATCH 09/16] Revert "fix: inverted index example: empty and
 immutable index"

examples/ may not be changed; the defects are recorded as known findings instead.
---
 examples/inverted_index.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/examples/inverted_index.hpp b/examples/inverted_index.hpp
index dd81c9c..6d9843c 100644
--- a/examples/inverted_index.hpp
+++ b/examples/inverted_index.hpp
@@ -44,7 +44,7 @@ struct InvertedIndex {
 
         [[nodiscard]] auto term_doc_iterator(Term const& term) const {
             auto it = self().term_list().find(term);
-            return term_doc_iterator(it);
+            return term_doc_iterator2(it);
         }
     };
 
@@ -52,7 +52,6 @@ struct InvertedIndex {
 
     class Transient : public Shared<Transient> {
         friend struct Shared<Transient>;
-        friend class Persistent;
 
         typename TermList::Transient term_list_{};
         typename DocList::Transient doc_list_{};
@@ -82,7 +81,7 @@ struct InvertedIndex {
         template <typename T>
         void insert(T&& term, uint32_t doc_id) {
             auto it = term_list_.lower_bound(term);
-            if (it == term_list_.end() || it->first != term) {
+            if (it->first != term) {
                 term_list_.insert(it, std::forward<T>(term), 0u);
             }
             auto [begin, end] = this->term_doc_iterator(it);
@@ -96,8 +95,7 @@ struct InvertedIndex {
 
     class Persistent : public Shared<Persistent> {
         friend struct Shared<Persistent>;
-        friend class Transient;
-
+        
         typename TermList::Persistent term_list_{};
         typename DocList::Persistent doc_list_{};
     public:
@@ -125,7 +123,7 @@ struct InvertedIndex {
 
         template <typename T>
         [[nodiscard]] Persistent insert(T&& term, uint32_t doc_id) const {
-            Transient transient(this->transient());
+            Transient transient(transient());
             transient.insert(std::forward<T>(term), doc_id);
             return std::move(transient).persistent();
         }
-- 
2.43.0


From 3144dd79bd10651f27eb8a9a4a142ec006db3b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:11 +0000
Subject: [PATCH 10/16] fix: an allocation failure while creating a node
 terminated the program

---
 include/bpptree/detail/nodeptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bpptree/detail/nodeptr.hpp b/include/bpptree/detail/nodeptr.hpp
index e28a9db..53ac3c7 100644
--- a/include/bpptree/detail/nodeptr.hpp
+++ b/include/bpptree/detail/nodeptr.hpp
@@ -108,7 +108,7 @@ public:
 };
 
 template <typename PtrType, typename... Ts>
-NodePtr<PtrType> make_ptr(Ts&&... ts) noexcept(std::is_nothrow_constructible_v<PtrType, Ts&&...>) {
+NodePtr<PtrType> make_ptr(Ts&&... ts) {
     if constexpr (count_allocations) {
         ++allocations;
         ++increments;
-- 
2.43.0


From 1ababc6551c012cbe01a69eab9d471b8b5d2a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:11 +0000
Subject: [PATCH 11/16] fix: sums, minima and maxima were computed from the
 arguments and not from the element made of them

---
 include/bpptree/detail/leafnodebase.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index ca9e31a..f8e1096 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -146,8 +146,21 @@ struct LeafNodeBase : public Parent {
         return true;
     }
 
+    template <typename... Args>
+    static constexpr bool is_value() {
+        if constexpr (sizeof...(Args) == 1) {
+            return (std::is_same_v<std::decay_t<Args>, Value> && ...);
+        }
+        return false;
+    }
+
     template <typename R, typename S, typename... Args>
     void insert_index(IndexType index, R&& do_replace, S&& do_split, size_t& size, uint64_t& iter, bool right_most, Args&&... args) noexcept(disable_exceptions) {
+        if constexpr (!is_value<Args...>()) {
+            // has to be converted first, because the delta is computed from the element and not from what it is made of
+            insert_index(index, do_replace, do_split, size, iter, right_most, Value(std::forward<Args>(args)...));
+            return;
+        }
         if (this->length == leaf_size) {
             // has to fail before anything has been changed
             do_split.check_depth();
@@ -198,6 +211,11 @@ struct LeafNodeBase : public Parent {
 
     template <typename R, typename... Args>
     void assign2(IndexType index, R&& do_replace, uint64_t& iter, Args&&... args) {
+        if constexpr (!is_value<Args...>()) {
+            // has to be converted first, because the delta is computed from the element and not from what it is made of
+            assign2(index, do_replace, iter, Value(std::forward<Args>(args)...));
+            return;
+        }
         set_index(iter, index);
         ReplaceType replace{};
         compute_delta_set(index, replace.delta, args...);
-- 
2.43.0


From d7c4e3dc18a412a3d80b92ec370c3b6f0f1cedae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:11 +0000
Subject: [PATCH 12/16] fix: the reference returned by subscripting kept a
 reference to the index or key it was called with

---
 include/bpptree/indexed.hpp | 9 ++++++---
 include/bpptree/ordered.hpp | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/bpptree/indexed.hpp b/include/bpptree/indexed.hpp
index 6f1b971..5e4989d 100644
--- a/include/bpptree/indexed.hpp
+++ b/include/bpptree/indexed.hpp
@@ -179,12 +179,10 @@ struct Indexed {
             friend struct ProxyOperators<ProxyRef>;
 
             Transient& tree;
-            SizeType const& index;
+            SizeType index;
 
             ProxyRef(const ProxyRef& other) = default;
             ProxyRef(ProxyRef&& other) = default; //NOLINT
-            ProxyRef& operator=(const ProxyRef& other) = default;
-            ProxyRef& operator=(ProxyRef&& other) = default; //NOLINT
 
             template <typename F>
             ProxyRef& invoke_compound_assignment(F&& f) {
@@ -216,6 +214,11 @@ struct Indexed {
             ProxyRef(Transient& tree, SizeType const& index) : tree(tree), index(index) {}
             ~ProxyRef() = default;
 
+            ProxyRef& operator=(ProxyRef const& other) { //NOLINT
+                tree.assign_index(index, other.get());
+                return *this;
+            }
+
             ProxyRef& operator=(Value const& value) {
                 tree.assign_index(index, value);
                 return *this;
diff --git a/include/bpptree/ordered.hpp b/include/bpptree/ordered.hpp
index e905b32..c87ca17 100644
--- a/include/bpptree/ordered.hpp
+++ b/include/bpptree/ordered.hpp
@@ -256,7 +256,7 @@ public:
             friend struct ProxyOperators<ProxyRef>;
 
             Transient& tree;
-            Key const& key;
+            Key key;
 
             ProxyRef(const ProxyRef& other) = default;
             ProxyRef(ProxyRef&& other) = default; //NOLINT
-- 
2.43.0


From 5753f20c9810211fea421959284e74455e162283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:16 +0000
Subject: [PATCH 13/16] fix: inserting through a reverse iterator moved it
 before its element was read and even when the insertion was refused

---
 include/bpptree/bpptree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index 2b6670b..e611769 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -296,9 +296,13 @@ public:
         template <typename It, typename... Args>
         void insert(It&& it, Args&&... args) {
             if constexpr (std::decay_t<It>::is_reversed) {
-                --it;
+                // it must not move before the insertion is done, because args may refer to it and because it may fail
+                std::decay_t<It> pos(it);
+                --pos;
+                it.iter = insert2(pos.iter, std::forward<Args>(args)...);
+            } else {
+                it.iter = insert2(it.iter, std::forward<Args>(args)...);
             }
-            it.iter = insert2(it.iter, std::forward<Args>(args)...);
         }
 
         template <typename It>
-- 
2.43.0


From b7b7053aa42a6edcb49217b8ee7952e18e6d6374 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:29:44 +0000
Subject: [PATCH 14/16] fix: a copy of an element or key that throws neither
 terminates nor leaks

emplace and emplace_unchecked were noexcept although they run constructors
which can throw (a std::string element, for example), so that a bad_alloc
in an edit ended the process. Nodes that are copied while they are edited
are now filled in order with their length kept up to date (leaves) or
copied before they are edited (internal nodes): if a copy throws, what was
copied so far is released and the tree the edit was made on is unharmed.
---
 include/bpptree/detail/internalnodebase.hpp   | 13 +--
 include/bpptree/detail/leafnodebase.hpp       | 83 ++++++++++---------
 .../bpptree/detail/uninitialized_array.hpp    |  7 +-
 3 files changed, 57 insertions(+), 46 deletions(-)

diff --git a/include/bpptree/detail/internalnodebase.hpp b/include/bpptree/detail/internalnodebase.hpp
index d22c320..6b74098 100644
--- a/include/bpptree/detail/internalnodebase.hpp
+++ b/include/bpptree/detail/internalnodebase.hpp
@@ -257,8 +257,9 @@ struct InternalNodeBase : public Parent {
             ReplaceType<NodeType> replace{};
             compute_delta_split(split, replace.delta, index);
             if (this->persistent) {
-                replace.delta.ptr = make_ptr<NodeType>();
-                insert_split_replace(*replace.delta.ptr, index, split);
+                // the copy is complete before it is edited, so nothing leaks if copying a key throws
+                replace.delta.ptr = make_ptr<NodeType>(this->self());
+                replace.delta.ptr->insert_split_replace(*replace.delta.ptr, index, split);
                 replace.delta.ptr_changed = true;
                 do_replace(replace);
             } else {
@@ -268,8 +269,8 @@ struct InternalNodeBase : public Parent {
         } else {
             auto right = make_ptr<NodeType>();
             if (this->persistent) {
-                auto left = make_ptr<NodeType>();
-                bool new_element_left = insert_split_split(*left, *right, index, split, iter, right_most);
+                auto left = make_ptr<NodeType>(this->self());
+                bool new_element_left = left->insert_split_split(*left, *right, index, split, iter, right_most);
                 do_split(SplitType<NodeType>(std::move(left), std::move(right), true, new_element_left));
             } else {
                 bool new_element_left = insert_split_split(this->self(), *right, index, split, iter, right_most);
@@ -376,9 +377,9 @@ struct InternalNodeBase : public Parent {
             ReplaceType<NodeType> replace{};
             compute_delta_erase(index, replace.delta);
             if (this->persistent) {
-                replace.delta.ptr = make_ptr<NodeType>();
+                replace.delta.ptr = make_ptr<NodeType>(this->self());
                 replace.delta.ptr_changed = true;
-                replace.carry = erase(*replace.delta.ptr, index, iter, right_most);
+                replace.carry = replace.delta.ptr->erase(*replace.delta.ptr, index, iter, right_most);
                 do_replace(replace);
             } else {
                 replace.carry = erase(this->self(), index, iter, right_most);
diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index f8e1096..b37d7fc 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -86,19 +86,22 @@ struct LeafNodeBase : public Parent {
 
     template <typename... Args>
     void insert_no_split(LeafNodeBase& node, IndexType index, Args&&... args) noexcept(disable_exceptions) {
-        for (IndexType i = this->length; i > index; --i) {
-            if (this->persistent) {
-                node.values.set(i, node.length, values[i - 1]);
-            } else {
-                node.values.set(i, node.length, values.move(i - 1));
-            }
-        }
-        node.values.emplace(index, node.length, std::forward<Args>(args)...);
         if (this->persistent) {
-            for (IndexType i = 0; i < index; ++i) {
-                node.values.set(i, node.length, values[i]);
+            // node is filled in order and its length is kept up to date, so that nothing leaks if a copy throws
+            for (IndexType i = 0; i < index; ++i, ++node.length) {
+                node.values.initialize(i, values[i]);
+            }
+            node.values.initialize(index, std::forward<Args>(args)...);
+            ++node.length;
+            for (IndexType i = index; i < this->length; ++i, ++node.length) {
+                node.values.initialize(i + 1, values[i]);
             }
+            return;
         }
+        for (IndexType i = this->length; i > index; --i) {
+            node.values.set(i, node.length, values.move(i - 1));
+        }
+        node.values.emplace(index, node.length, std::forward<Args>(args)...);
         node.length = this->length + 1;
     }
 
@@ -114,30 +117,35 @@ struct LeafNodeBase : public Parent {
     template <typename... Args>
     bool insert_split(LeafNodeBase& left, LeafNodeBase& right, IndexType index, uint64_t& iter, bool right_most, Args&&... args) noexcept(disable_exceptions) {
         IndexType split_point = right_most && index == leaf_size ? index : (leaf_size + 1) / 2;
-        for (IndexType i = this->length; i > index; --i) {
-            if (this->persistent) {
-                set_element(left, right, i, split_point, values[i - 1]);
-            } else {
-                set_element(left, right, i, split_point, std::move(values[i - 1]));
+        if (this->persistent) {
+            // the nodes are filled in order and their lengths are kept up to date, so that nothing leaks if a copy throws
+            for (IndexType i = 0; i <= leaf_size; ++i) {
+                LeafNodeBase& node = i < split_point ? left : right;
+                if (i == index) {
+                    node.values.initialize(node.length, std::forward<Args>(args)...);
+                } else {
+                    node.values.initialize(node.length, values[i < index ? i : i - 1]);
+                }
+                ++node.length;
             }
-        }
-        if (index < split_point) {
-            left.values.emplace(index, left.length, std::forward<Args>(args)...);
         } else {
-            right.values.emplace(index - split_point, right.length, std::forward<Args>(args)...);
-        }
-        for (IndexType i = this->persistent ? 0 : split_point; i < index; ++i) {
-            if (this->persistent) {
-                set_element(left, right, i, split_point, values[i]);
+            for (IndexType i = this->length; i > index; --i) {
+                set_element(left, right, i, split_point, std::move(values[i - 1]));
+            }
+            if (index < split_point) {
+                left.values.emplace(index, left.length, std::forward<Args>(args)...);
             } else {
+                right.values.emplace(index - split_point, right.length, std::forward<Args>(args)...);
+            }
+            for (IndexType i = split_point; i < index; ++i) {
                 set_element(left, right, i, split_point, std::move(values[i]));
             }
+            for (IndexType i = split_point; i < left.length; ++i) {
+                left.values.destruct(i);
+            }
+            left.length = static_cast<uint16_t>(split_point);
+            right.length = static_cast<uint16_t>(leaf_size + 1 - split_point);
         }
-        for (IndexType i = split_point; i < left.length; ++i) {
-            left.values.destruct(i);
-        }
-        left.length = static_cast<uint16_t>(split_point);
-        right.length = static_cast<uint16_t>(leaf_size + 1 - split_point);
         if (index >= split_point) {
             set_index(iter, index - split_point);
             return false;
@@ -238,21 +246,20 @@ struct LeafNodeBase : public Parent {
 
     bool erase(LeafNodeBase& node, IndexType index, uint64_t& iter, bool right_most) {
         if (this->persistent) {
-            for (IndexType i = 0; i < index; ++i) {
-                node.values.set(i, node.length, values[i]);
+            // node is filled in order and its length is kept up to date, so that nothing leaks if a copy throws
+            for (IndexType i = 0; i < this->length; ++i) {
+                if (i != index) {
+                    node.values.initialize(node.length, values[i]);
+                    ++node.length;
+                }
             }
-        }
-        for (IndexType i = index + 1; i < this->length; ++i) {
-            if (this->persistent) {
-                node.values.set(i - 1, node.length, values[i]);
-            } else {
+        } else {
+            for (IndexType i = index + 1; i < this->length; ++i) {
                 node.values.set(i - 1, node.length, values.move(i));
             }
-        }
-        if (node.length == this->length) {
             node.values.destruct(this->length - 1);
+            node.length = this->length - 1;
         }
-        node.length = this->length - 1;
         bool carry = index == node.length && !right_most;
         set_index(iter, carry ? 0 : index);
         return carry;
diff --git a/include/bpptree/detail/uninitialized_array.hpp b/include/bpptree/detail/uninitialized_array.hpp
index 59876a8..b82e1f6 100644
--- a/include/bpptree/detail/uninitialized_array.hpp
+++ b/include/bpptree/detail/uninitialized_array.hpp
@@ -102,7 +102,7 @@ public:
             std::enable_if_t<std::is_integral_v<I>, bool> = true,
             std::enable_if_t<std::is_integral_v<L>, bool> = true,
             typename... Us>
-    T& emplace(I const index, L const length, Us&&... us) noexcept {
+    T& emplace(I const index, L const length, Us&&... us) {
         // can only assign to uninitialized memory if the type is trivial, otherwise the lifetime of the object has
         // not yet begun and a constructor must be called
         if constexpr (is_assignable_from<Us&&...>() && std::is_trivial_v<T>) {
@@ -116,13 +116,16 @@ public:
                 (*this)[index] = (..., std::forward<Us>(us));
                 return (*this)[index];
             }
+            // the element which is being replaced has to stay if constructing the new one throws
+            T value(std::forward<Us>(us)...);
             (*this)[index].~T();
+            return *new(un.data + index) T(std::move(value));
         }
         return *new(un.data + index) T(std::forward<Us>(us)...);
     }
 
     template <typename I, std::enable_if_t<std::is_integral_v<I>, bool> = true, typename... Us>
-    T& emplace_unchecked(I const index, Us&&... us) noexcept {
+    T& emplace_unchecked(I const index, Us&&... us) {
         if constexpr (is_assignable_from<Us&&...>()) {
             (*this)[index] = (..., std::forward<Us>(us));
             return (*this)[index];
-- 
2.43.0


From cbceb749b1181974d7e9508cfbfb1be865100c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:07 +0000
Subject: [PATCH 15/16] fix: an iterator jump by a very large distance must not
 overflow

Adding the distance to the index within the leaf overflowed for distances near
the limits: the iterator ended before the beginning instead of at the end.
---
 include/bpptree/detail/indexed_detail.hpp |  2 +-
 include/bpptree/detail/leafnodebase.hpp   | 15 ++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/bpptree/detail/indexed_detail.hpp b/include/bpptree/detail/indexed_detail.hpp
index 073d9c9..302a492 100644
--- a/include/bpptree/detail/indexed_detail.hpp
+++ b/include/bpptree/detail/indexed_detail.hpp
@@ -192,7 +192,7 @@ struct IndexedInternalNode : public Parent {
         if (n < 0) {
             while (this->get_index(it) > 0) {
                 this->dec_index(it);
-                if (static_cast<ssize>(child_counts[this->get_index(it)]) < -n) {
+                if (-static_cast<ssize>(child_counts[this->get_index(it)]) > n) {
                     n += static_cast<ssize>(child_counts[this->get_index(it)]);
                 } else {
                     this->pointers[this->get_index(it)]->seek_last(it);
diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index b37d7fc..9f47831 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -355,18 +355,19 @@ struct LeafNodeBase : public Parent {
             leaf = &this->self();
             return 0;
         }
-        auto sum = get_index(it) + n;
-        if (sum >= this->length) {
-            auto ret = sum - (this->length - 1);
+        //n can be anything, so it must not be added to before it is known to be small
+        ssize const index = get_index(it);
+        ssize const last = static_cast<ssize>(this->length) - 1;
+        if (n > last - index) {
             set_index(it, this->length - 1);
-            return ret;
+            return index < last ? n - (last - index) : n;
         }
-        if (sum < 0) {
+        if (n < -index) {
             clear_index(it);
-            return sum;
+            return n + index;
         }
         leaf = &this->self();
-        set_index(it, sum);
+        set_index(it, index + n);
         return 0;
     }
 };
-- 
2.43.0


From b87b5ac2bc375b670af0d51e68fbcfdec5222d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:43 +0000
Subject: [PATCH 16/16] fix: builder options must keep disable_exceptions

Every option given to BppTreeMap, BppTreeSet or BppTreeVector after
disable_exceptions reset it to its default.
---
 include/bpptree/indexed.hpp |  8 ++++----
 include/bpptree/ordered.hpp | 20 ++++++++++----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/bpptree/indexed.hpp b/include/bpptree/indexed.hpp
index 5e4989d..8799def 100644
--- a/include/bpptree/indexed.hpp
+++ b/include/bpptree/indexed.hpp
@@ -326,16 +326,16 @@ template <
 struct BppTreeVector {
 
     template <typename T>
-    using size_type = BppTreeVector<Value, T, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using size_type = BppTreeVector<Value, T, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int l>
-    using leaf_node_bytes = BppTreeVector<Value, SizeType, l, internal_node_bytes_v, depth_limit_v>;
+    using leaf_node_bytes = BppTreeVector<Value, SizeType, l, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int i>
-    using internal_node_bytes = BppTreeVector<Value, SizeType, leaf_node_bytes_v, i, depth_limit_v>;
+    using internal_node_bytes = BppTreeVector<Value, SizeType, leaf_node_bytes_v, i, depth_limit_v, disable_exceptions_v>;
 
     template <int d>
-    using depth_limit = BppTreeVector<Value, SizeType, leaf_node_bytes_v, internal_node_bytes_v, d>;
+    using depth_limit = BppTreeVector<Value, SizeType, leaf_node_bytes_v, internal_node_bytes_v, d, disable_exceptions_v>;
 
     template <bool b>
     using disable_exceptions = BppTreeVector<Value, SizeType, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, b>;
diff --git a/include/bpptree/ordered.hpp b/include/bpptree/ordered.hpp
index c87ca17..b044311 100644
--- a/include/bpptree/ordered.hpp
+++ b/include/bpptree/ordered.hpp
@@ -421,19 +421,19 @@ template <
 struct BppTreeMap {
 
     template <typename T>
-    using compare = BppTreeMap<Key, Value, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using compare = BppTreeMap<Key, Value, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <bool b>
-    using binary_search = BppTreeMap<Key, Value, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using binary_search = BppTreeMap<Key, Value, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int l>
-    using leaf_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v>;
+    using leaf_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int i>
-    using internal_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v>;
+    using internal_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v, disable_exceptions_v>;
 
     template <int d>
-    using depth_limit = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d>;
+    using depth_limit = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d, disable_exceptions_v>;
 
     template <bool b>
     using disable_exceptions = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, b>;
@@ -467,19 +467,19 @@ template <
 struct BppTreeSet {
 
     template <typename T>
-    using compare = BppTreeSet<Key, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using compare = BppTreeSet<Key, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <bool b>
-    using binary_search = BppTreeSet<Key, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using binary_search = BppTreeSet<Key, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int l>
-    using leaf_node_bytes = BppTreeSet<Key, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v>;
+    using leaf_node_bytes = BppTreeSet<Key, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int i>
-    using internal_node_bytes = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v>;
+    using internal_node_bytes = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v, disable_exceptions_v>;
 
     template <int d>
-    using depth_limit = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d>;
+    using depth_limit = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d, disable_exceptions_v>;
 
     template <bool b>
     using disable_exceptions = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, b>;
-- 
2.43.0

