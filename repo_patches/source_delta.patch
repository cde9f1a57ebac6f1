From 7f28e9aae6589ba1233010b37f928dc6be4f7828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:17 +0000
Subject: [PATCH 1/9] fix: count a term that is added twice only once

SortedDawg::add accepts a term equal to the previous one (the terms are
still sorted) but counted it again, so size() exceeded the number of
distinct terms and iterating over the dictionary repeated its last term.
---
 src/liblevenshtein/collection/sorted_dawg.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/liblevenshtein/collection/sorted_dawg.cpp b/src/liblevenshtein/collection/sorted_dawg.cpp
index 7d8afa6..e4edf16 100644
--- a/src/liblevenshtein/collection/sorted_dawg.cpp
+++ b/src/liblevenshtein/collection/sorted_dawg.cpp
@@ -18,9 +18,14 @@ auto SortedDawg::add(const std::string &term) -> bool {
   }
 
   if (term.empty()) {
-    _root->is_final(true);
-    _prev_term = term;
-    _size += 1;
+    if (!_root->is_final()) {
+      _root->is_final(true);
+      _size += 1;
+    }
+    return true;
+  }
+
+  if (term == _prev_term) { // already added
     return true;
   }
 
-- 
2.43.0


From ec194e470ef0b7c39c25eb779a580c2e7456ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:17 +0000
Subject: [PATCH 2/9] fix: report failure when the serialized bytes cannot be
 flushed

serialize_protobuf(dawg, path) computed its result before closing the
file, so a failed flush (e.g. on a full disk) was reported as success.
---
 src/liblevenshtein/serialization/serializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 80bdeee..02849a6 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -30,8 +30,8 @@ auto serialize_protobuf(Dawg *dawg, const char *path) -> bool {
   std::fstream output(path, std::fstream::out | std::fstream::trunc |
                                 std::fstream::binary);
   bool serialized = serialize_protobuf(dawg, output);
-  output.close();
-  return serialized;
+  output.close(); // flushes the buffered bytes, which may fail
+  return serialized && !output.fail();
 }
 
 auto serialize_protobuf(Dawg *dawg, std::ostream &output) -> bool {
-- 
2.43.0


From e03bcd01d481eba0ce2bf03139b680e4602284f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:17 +0000
Subject: [PATCH 3/9] fix: do not deserialize a truncated dictionary

A file that was cut off between two protobuf fields (an empty one in
particular) still parses. deserialize_protobuf then returned a Dawg whose
root was null, which crashes as soon as it is used or deleted, or one whose
size was 0, over which nothing is iterated. It returns nullptr now.
---
 .../serialization/serializer.cpp              | 26 +++++++++++++++++++
 src/liblevenshtein/serialization/serializer.h |  3 ++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/liblevenshtein/serialization/serializer.cpp b/src/liblevenshtein/serialization/serializer.cpp
index 02849a6..e929662 100644
--- a/src/liblevenshtein/serialization/serializer.cpp
+++ b/src/liblevenshtein/serialization/serializer.cpp
@@ -125,7 +125,33 @@ auto to_protobuf(Dawg *dawg) -> llp::Dictionary * {
   return dict_proto;
 }
 
+/**
+ * Determines whether the protobuf describes a complete dictionary. It does not
+ * when it has been truncated, e.g. because the process that wrote it died.
+ *
+ * @param dict_proto Protobuf containing the serialized information necessary
+ * for reconstructing the Dawg.
+ * @return Whether the Dawg can be reconstructed from the protobuf.
+ */
+static auto is_complete(const llp::Dictionary &dict_proto) -> bool {
+  std::set<uint64_t> node_ids(dict_proto.node_id().begin(),
+                              dict_proto.node_id().end());
+  for (const llp::Dictionary_Edge &edge_proto : dict_proto.edge()) {
+    if (!node_ids.contains(edge_proto.source_id()) ||
+        !node_ids.contains(edge_proto.target_id())) {
+      return false;
+    }
+  }
+  // There is a final node if, and only if, there is a term
+  return node_ids.contains(dict_proto.root_id()) &&
+         (dict_proto.final_node_id_size() == 0) == (dict_proto.size() == 0);
+}
+
 auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg * {
+  if (!is_complete(dict_proto)) {
+    return nullptr;
+  }
+
   std::set<uint64_t> final_node_ids;
   for (int index = 0; index < dict_proto.final_node_id_size(); index += 1) {
     uint64_t final_node_id = dict_proto.final_node_id(index);
diff --git a/src/liblevenshtein/serialization/serializer.h b/src/liblevenshtein/serialization/serializer.h
index 03639c4..b7be4a4 100644
--- a/src/liblevenshtein/serialization/serializer.h
+++ b/src/liblevenshtein/serialization/serializer.h
@@ -125,7 +125,8 @@ auto to_protobuf(Dawg *dawg) -> llp::Dictionary *;
  *
  * @param dict_proto Protobuf containing the serialized information necessary
  * for reconstructing the Dawg.
- * @return A pointer to the deserialized Dawg.
+ * @return A pointer to the deserialized Dawg or nullptr if the protobuf does not
+ * describe a complete one.
  */
 auto from_protobuf(const llp::Dictionary &dict_proto) -> Dawg *;
 
-- 
2.43.0


From 8da1b6176023f3b7b1fe3e0221ef9c4bb3da5818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:17 +0000
Subject: [PATCH 4/9] fix: refuse to add a term to a finished dictionary

SortedDawg::add dereferenced a null pointer once the intermediate members
had been cleaned up, i.e. for each dictionary returned by sorted_dawg or
deserialize_protobuf, and attached the suffix of the term to the root once
finish had been called. It returns false now, as the term is not added.
---
 src/liblevenshtein/collection/sorted_dawg.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/liblevenshtein/collection/sorted_dawg.cpp b/src/liblevenshtein/collection/sorted_dawg.cpp
index e4edf16..fd36a5d 100644
--- a/src/liblevenshtein/collection/sorted_dawg.cpp
+++ b/src/liblevenshtein/collection/sorted_dawg.cpp
@@ -17,6 +17,13 @@ auto SortedDawg::add(const std::string &term) -> bool {
     return false;
   }
 
+  // Once this dictionary has been initialized, there are no unchecked
+  // transitions for the previous term from which to continue.
+  if (unchecked_transitions == nullptr ||
+      unchecked_transitions->size() != _prev_term.length()) {
+    return false;
+  }
+
   if (term.empty()) {
     if (!_root->is_final()) {
       _root->is_final(true);
-- 
2.43.0


From afa26eea50597c7623a67d2aa3a0ddda49b57480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:17 +0000
Subject: [PATCH 5/9] fix: keep the target of an edge that is added again

DawgNode::add_edge deleted the existing target before storing the new one,
even if they were the same node, which left a dangling pointer.
---
 src/liblevenshtein/collection/dawg_node.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/liblevenshtein/collection/dawg_node.cpp b/src/liblevenshtein/collection/dawg_node.cpp
index 0c2965d..f2d6d8c 100644
--- a/src/liblevenshtein/collection/dawg_node.cpp
+++ b/src/liblevenshtein/collection/dawg_node.cpp
@@ -40,7 +40,9 @@ auto DawgNode::transition(char label) const -> DawgNode * {
 
 auto DawgNode::add_edge(char label, DawgNode *target) -> DawgNode * {
   DawgNode* existing = transition(label);
-  delete existing;
+  if (existing != target) {
+    delete existing;
+  }
   _edges[label] = target;
   return this;
 }
-- 
2.43.0


From f0b2cea0f2d7a7a9d1dcc3b681eaae555f567785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:48 +0000
Subject: [PATCH 6/9] fix: do not declare positions redundant that are not

subsumes() looked at the wrong position to tell whether the second one is
special, underflowed when the second position had fewer errors, and was
given the query length instead of the maximum distance.
---
 .../transducer/state_transition.cpp              |  2 +-
 src/liblevenshtein/transducer/subsumes.cpp       | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/liblevenshtein/transducer/state_transition.cpp b/src/liblevenshtein/transducer/state_transition.cpp
index f184df0..b1413d5 100644
--- a/src/liblevenshtein/transducer/state_transition.cpp
+++ b/src/liblevenshtein/transducer/state_transition.cpp
@@ -25,7 +25,7 @@ auto StateTransition::operator()(State *curr_state,
     merge(next_state, transition(n, position, characteristic_vector, offset));
   }
 
-  unsubsume(next_state, query_length);
+  unsubsume(next_state, n);
 
   if (next_state->head() != nullptr) {
     next_state->sort(compare);
diff --git a/src/liblevenshtein/transducer/subsumes.cpp b/src/liblevenshtein/transducer/subsumes.cpp
index 9bd5c4b..1e66f35 100644
--- a/src/liblevenshtein/transducer/subsumes.cpp
+++ b/src/liblevenshtein/transducer/subsumes.cpp
@@ -9,7 +9,7 @@ auto subsumes<Algorithm::STANDARD>(Position *lhs, Position *rhs, std::size_t n)
   std::size_t e = lhs->num_errors();
   std::size_t j = rhs->term_index();
   std::size_t f = rhs->num_errors();
-  return ((i < j) ? (j - i) : (i - j)) <= (f - e);
+  return e <= f && ((i < j) ? (j - i) : (i - j)) <= (f - e);
 }
 
 template <>
@@ -21,7 +21,12 @@ auto subsumes<Algorithm::TRANSPOSITION>(Position *lhs, Position *rhs,
 
   std::size_t j = rhs->term_index();
   std::size_t f = rhs->num_errors();
-  bool t = lhs->is_special();
+  bool t = rhs->is_special();
+
+  // Different kinds of positions are only comparable if lhs has fewer errors
+  if (f < e || (f == e && s != t)) {
+    return false;
+  }
 
   if (s) {
     if (t) {
@@ -46,7 +51,12 @@ auto subsumes<Algorithm::MERGE_AND_SPLIT>(Position *lhs, Position *rhs,
   bool s = lhs->is_special();
   std::size_t j = rhs->term_index();
   std::size_t f = rhs->num_errors();
-  bool t = lhs->is_special();
+  bool t = rhs->is_special();
+
+  // Different kinds of positions are only comparable if lhs has fewer errors
+  if (f < e || (f == e && s != t)) {
+    return false;
+  }
 
   if (s && !t) {
     return false;
-- 
2.43.0


From bcaaed7b9333d03a8da15d35434588f52a831dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:36 +0000
Subject: [PATCH 7/9] fix: stop prompting when the input ends in the middle of
 a line

When the last query term was not followed by a newline, the next
std::getline failed without touching the term, which the demo then answered
forever.
---
 example/src/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/example/src/main.cpp b/example/src/main.cpp
index 96e92c2..6417b72 100644
--- a/example/src/main.cpp
+++ b/example/src/main.cpp
@@ -51,7 +51,11 @@ std::string &prompt(std::string &query_term) {
   std::cout << std::endl;
   std::cout << "Enter a query term (or nothing to exit)." << std::endl;
   std::cout << "query> ";
-  std::getline(std::cin, query_term);
+  if (!std::getline(std::cin, query_term)) {
+    // At the end of the input, std::getline might leave the previous query term
+    // in place, which would be answered over and over again.
+    query_term.clear();
+  }
   return query_term;
 }
 
-- 
2.43.0


From f9ab036a0cb1ddbd1bd951bf9db36be5c04ec3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:10 +0000
Subject: [PATCH 8/9] revert the repair of the example program (example/ stays
 as it is)

---
 example/src/main.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/example/src/main.cpp b/example/src/main.cpp
index 6417b72..96e92c2 100644
--- a/example/src/main.cpp
+++ b/example/src/main.cpp
@@ -51,11 +51,7 @@ std::string &prompt(std::string &query_term) {
   std::cout << std::endl;
   std::cout << "Enter a query term (or nothing to exit)." << std::endl;
   std::cout << "query> ";
-  if (!std::getline(std::cin, query_term)) {
-    // At the end of the input, std::getline might leave the previous query term
-    // in place, which would be answered over and over again.
-    query_term.clear();
-  }
+  std::getline(std::cin, query_term);
   return query_term;
 }
 
-- 
2.43.0


From 6b4a01548a3d5033b0b4356226550df12434bedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:10 +0000
Subject: [PATCH 9/9] fix: iterators and transducers can be copied

Copies of LazyQuery, DawgIterator and Transducer shared raw pointers that each
of them freed: copying or assigning one led to use after free and double free.
They now share the ownership; members of a default-constructed LazyQuery, which
copying reads, are initialized.
---
 .../collection/dawg_iterator.cpp              | 16 ++++------------
 src/liblevenshtein/collection/dawg_iterator.h | 11 ++++-------
 src/liblevenshtein/transducer/lazy_query.cpp  | 12 +++---------
 src/liblevenshtein/transducer/lazy_query.h    | 19 ++++++++-----------
 src/liblevenshtein/transducer/transducer.cpp  |  9 ++-------
 src/liblevenshtein/transducer/transducer.h    | 10 +++-------
 6 files changed, 24 insertions(+), 53 deletions(-)

diff --git a/src/liblevenshtein/collection/dawg_iterator.cpp b/src/liblevenshtein/collection/dawg_iterator.cpp
index a4f4e9e..9945770 100644
--- a/src/liblevenshtein/collection/dawg_iterator.cpp
+++ b/src/liblevenshtein/collection/dawg_iterator.cpp
@@ -4,9 +4,8 @@
 namespace liblevenshtein {
 
 DawgIterator::DawgIterator(DawgNode* root) {
-  auto *prefix = new Prefix(root);
-  _prefixes.push_back(prefix);
-  _pending.push(prefix);
+  _prefixes.push_back(std::make_shared<Prefix>(root));
+  _pending.push(_prefixes.back().get());
   advance();
 }
 
@@ -14,12 +13,6 @@ DawgIterator::DawgIterator(std::size_t term_index)
   : _term_index(term_index)
 {}
 
-DawgIterator::~DawgIterator() {
-  for (Prefix* prefix : _prefixes) {
-    delete prefix;
-  }
-}
-
 auto DawgIterator::operator++() -> DawgIterator & {
   advance();
   _term_index += 1;
@@ -46,9 +39,8 @@ void DawgIterator::advance() {
 
       node = prefix->node();
       node->for_each_edge([&] (char label, DawgNode* target) {
-        auto *child = new Prefix(target, prefix, label);
-        _prefixes.push_back(child);
-        _pending.push(child);
+        _prefixes.push_back(std::make_shared<Prefix>(target, prefix, label));
+        _pending.push(_prefixes.back().get());
       });
     }
     while (!node->is_final() && !_pending.empty());
diff --git a/src/liblevenshtein/collection/dawg_iterator.h b/src/liblevenshtein/collection/dawg_iterator.h
index 3aeb97f..8bfe109 100644
--- a/src/liblevenshtein/collection/dawg_iterator.h
+++ b/src/liblevenshtein/collection/dawg_iterator.h
@@ -1,6 +1,7 @@
 #ifndef LIBLEVENSHTEIN_COLLECTION_DAWG_ITERATOR_H
 #define LIBLEVENSHTEIN_COLLECTION_DAWG_ITERATOR_H
 
+#include <memory>
 #include <queue>
 #include <vector>
 
@@ -34,11 +35,6 @@ public:
    */
   DawgIterator(std::size_t term_index);
 
-  /**
-   * Cleans up all the prefixes allocated by this iterator.
-   */
-  ~DawgIterator();
-
   /**
    * Advances the iterator by one term.
    *
@@ -68,8 +64,9 @@ public:
 private:
 
   /** Used to construct dictionary terms by collecting consecutive edge labels
-  from the root node to their respective final nodes. */
-  std::vector<Prefix *> _prefixes;
+  from the root node to their respective final nodes. They are freed once no
+  copy of this iterator refers to them any longer. */
+  std::vector<std::shared_ptr<Prefix>> _prefixes;
 
   /** Intermediate prefixes that have not reached all their final nodes yet. */
   std::queue<Prefix *> _pending;
diff --git a/src/liblevenshtein/transducer/lazy_query.cpp b/src/liblevenshtein/transducer/lazy_query.cpp
index 713bfc9..b7bbaf4 100644
--- a/src/liblevenshtein/transducer/lazy_query.cpp
+++ b/src/liblevenshtein/transducer/lazy_query.cpp
@@ -23,12 +23,6 @@ LazyQuery<Result>::LazyQuery(const std::string &term, std::size_t max_distance,
   }
 }
 
-template <class Result> LazyQuery<Result>::~LazyQuery() {
-  for (Intersection *intersection : _intersections) {
-    delete intersection;
-  }
-}
-
 // NOLINTNEXTLINE(readability-function-cognitive-complexity)
 template <class Result> void LazyQuery<Result>::advance() {
   if (!_edges.empty() || !_pending.empty()) {
@@ -80,9 +74,9 @@ template <class Result>
 auto LazyQuery<Result>::build_intersection(char label, DawgNode *node,
                                            State *state, Intersection *parent)
     -> Intersection * {
-  auto *intersection = new Intersection(label, node, state, parent);
-  _intersections.push_back(intersection);
-  return intersection;
+  _intersections.push_back(
+      std::make_shared<Intersection>(label, node, state, parent));
+  return _intersections.back().get();
 }
 
 template <class Result>
diff --git a/src/liblevenshtein/transducer/lazy_query.h b/src/liblevenshtein/transducer/lazy_query.h
index b0b4390..b225c4e 100644
--- a/src/liblevenshtein/transducer/lazy_query.h
+++ b/src/liblevenshtein/transducer/lazy_query.h
@@ -3,6 +3,7 @@
 
 #include <cstddef>
 #include <functional>
+#include <memory>
 #include <queue>
 #include <string>
 #include <utility>
@@ -54,11 +55,6 @@ public:
    */
   LazyQuery() = default;
 
-  /**
-   * Frees any owned members.
-   */
-  ~LazyQuery();
-
   /**
    * Advances to the next spelling candidate.
    *
@@ -93,8 +89,9 @@ private:
   guided by the query term. */
   std::queue<std::pair<char, DawgNode *>> _edges;
 
-  /** Tracks Intersection allocations so they may be freed. */
-  std::vector<Intersection *> _intersections;
+  /** Tracks Intersection allocations so they may be freed, once no copy of this
+  iterator refers to them any longer. */
+  std::vector<std::shared_ptr<Intersection>> _intersections;
 
   /** Whether all the spelling candidates have been matched. */
   bool _is_complete = false;
@@ -109,7 +106,7 @@ private:
   std::string _term;
 
   /** Maximum edit distance to consider when matching spelling candidates. */
-  std::size_t _max_distance;
+  std::size_t _max_distance = 0;
 
   /** Maps one Levenshtein State to another given the State and a characteristic
   vector. */
@@ -120,13 +117,13 @@ private:
   DistanceFn min_distance;
 
   /** Intermediate value used to compare edit distances without overflowing. */
-  std::size_t _a;
+  std::size_t _a = 0;
 
   /** Intermediate value used to compare edit distances without overflowing. */
-  std::size_t _k;
+  std::size_t _k = 0;
 
   /** Intermediate value used to compare edit distances without overflowing. */
-  std::size_t _i;
+  std::size_t _i = 0;
 
   /**
    * Advances to the next spelling candidate.
diff --git a/src/liblevenshtein/transducer/transducer.cpp b/src/liblevenshtein/transducer/transducer.cpp
index 650b6c4..77767c4 100644
--- a/src/liblevenshtein/transducer/transducer.cpp
+++ b/src/liblevenshtein/transducer/transducer.cpp
@@ -14,12 +14,7 @@ template <Algorithm Type, class Result>
 Transducer<Type, Result>::Transducer(DawgNode *root) {
   auto *position = new Position(0, 0);
   auto *initial_state = new State({position});
-  _intersection = new Intersection('\0', root, initial_state);
-}
-
-template <Algorithm Type, class Result>
-Transducer<Type, Result>::~Transducer() {
-  delete _intersection;
+  _intersection = std::make_shared<Intersection>('\0', root, initial_state);
 }
 
 template <Algorithm Type, class Result>
@@ -27,7 +22,7 @@ auto Transducer<Type, Result>::operator()(const std::string &term,
                                           std::size_t max_distance)
     -> LazyIterator<Result> {
   return LazyIterator<Result>(
-    term, max_distance, _intersection,
+    term, max_distance, _intersection.get(),
     StateTransition(position_transition<Type>, compare<Type>,
             merge<Type>, UnsubsumeFn(subsumes<Type>),
             max_distance, term.length()),
diff --git a/src/liblevenshtein/transducer/transducer.h b/src/liblevenshtein/transducer/transducer.h
index f78475b..21fae50 100644
--- a/src/liblevenshtein/transducer/transducer.h
+++ b/src/liblevenshtein/transducer/transducer.h
@@ -2,6 +2,7 @@
 #define LIBLEVENSHTEIN_TRANSDUCER_TRANSDUCER_H
 
 #include <cstddef>
+#include <memory>
 #include <string>
 #include <utility>
 
@@ -34,11 +35,6 @@ public:
    */
   Transducer(DawgNode *root);
 
-  /**
-   * Frees any owned allocations.
-   */
-  ~Transducer();
-
   /**
    * Transduces the query `term` and `max_distance` into the set of all spelling
    * candidates from the dictionary automaton whose edit distances from `term`
@@ -57,8 +53,8 @@ public:
 private:
 
   /** Initial intersection between the Levenshtein automaton and dictionary
-  automaton. */
-  Intersection *_intersection;
+  automaton. It is freed once no copy of this transducer refers to it. */
+  std::shared_ptr<Intersection> _intersection;
 };
 
 } // namespace liblevenshtein
-- 
2.43.0

