From 6e6ef6cfa8b1252ab256cbdc3f0d19c776b68799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 001/149] fix: recursive functionality construction of circuits
 with fewer than two operations

The empty circuit made the depth computation take log2(0), and the shortcut
for a single operation skipped the output permutation as well as the ancilla
and garbage reduction.
---
 src/dd/FunctionalityConstruction.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/dd/FunctionalityConstruction.cpp b/src/dd/FunctionalityConstruction.cpp
index 0b6e32c..360ecbe 100644
--- a/src/dd/FunctionalityConstruction.cpp
+++ b/src/dd/FunctionalityConstruction.cpp
@@ -15,6 +15,7 @@
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/OpType.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <stack>
@@ -121,18 +122,19 @@ MatrixDD buildFunctionalityRecursive(const qc::QuantumComputation& qc,
 
   auto permutation = qc.initialLayout;
 
-  if (qc.size() == 1U) {
-    auto e = getDD(*qc.front(), dd, permutation);
+  auto e = Package::makeIdent();
+  if (!qc.empty()) {
+    std::stack<MatrixDD> s{};
+    const auto depth = std::max(
+        std::size_t{1},
+        static_cast<std::size_t>(std::ceil(std::log2(qc.size()))));
+    buildFunctionalityRecursive(qc, depth, 0, s, permutation, dd);
+    e = s.top();
+    s.pop();
+  } else {
     dd.incRef(e);
-    return e;
   }
 
-  std::stack<MatrixDD> s{};
-  auto depth = static_cast<std::size_t>(std::ceil(std::log2(qc.size())));
-  buildFunctionalityRecursive(qc, depth, 0, s, permutation, dd);
-  auto e = s.top();
-  s.pop();
-
   // correct permutation if necessary
   changePermutation(e, permutation, qc.outputPermutation, dd);
   e = dd.reduceAncillae(e, qc.getAncillary());
-- 
2.43.0


From fd9540680c5fbbd4e874c88f1f23844ac65ceaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 002/149] fix: account for the global phase in the construction
 of functionality DDs

---
 src/dd/FunctionalityConstruction.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/dd/FunctionalityConstruction.cpp b/src/dd/FunctionalityConstruction.cpp
index 360ecbe..0fc903c 100644
--- a/src/dd/FunctionalityConstruction.cpp
+++ b/src/dd/FunctionalityConstruction.cpp
@@ -17,11 +17,29 @@
 
 #include <algorithm>
 #include <cmath>
+#include <complex>
 #include <cstddef>
 #include <stack>
 #include <utility>
 
 namespace dd {
+namespace {
+/// Multiply the global phase of the circuit to the functionality DD.
+void applyGlobalPhase(MatrixDD& e, const qc::QuantumComputation& qc,
+                      Package& dd) {
+  if (std::abs(qc.getGlobalPhase()) > 0) {
+    // create a temporary copy for reference counting
+    auto oldW = e.w;
+    // adjust for global phase
+    const auto globalPhase = ComplexValue{std::polar(1.0, qc.getGlobalPhase())};
+    e.w = dd.cn.lookup(e.w * globalPhase);
+    // adjust reference count
+    dd.cn.incRef(e.w);
+    dd.cn.decRef(oldW);
+  }
+}
+} // namespace
+
 MatrixDD buildFunctionality(const qc::QuantumComputation& qc, Package& dd) {
   if (qc.getNqubits() == 0U) {
     return MatrixDD::one();
@@ -44,6 +62,7 @@ MatrixDD buildFunctionality(const qc::QuantumComputation& qc, Package& dd) {
   changePermutation(e, permutation, qc.outputPermutation, dd);
   e = dd.reduceAncillae(e, qc.getAncillary());
   e = dd.reduceGarbage(e, qc.getGarbage());
+  applyGlobalPhase(e, qc, dd);
 
   return e;
 }
@@ -139,6 +158,7 @@ MatrixDD buildFunctionalityRecursive(const qc::QuantumComputation& qc,
   changePermutation(e, permutation, qc.outputPermutation, dd);
   e = dd.reduceAncillae(e, qc.getAncillary());
   e = dd.reduceGarbage(e, qc.getGarbage());
+  applyGlobalPhase(e, qc, dd);
 
   return e;
 }
-- 
2.43.0


From d68685fad1c432792827cef4dc4df588311a0f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 003/149] fix: off-diagonal entries of matrix DDs that are a
 (scaled) identity

---
 src/dd/Edge.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 89ae1be..655378a 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -43,8 +43,10 @@ auto Edge<Node>::getValueByPath(const std::size_t numQubits,
                                 const std::string& decisions) const
     -> std::complex<fp> {
   auto c = static_cast<std::complex<fp>>(w);
-  if (isTerminal()) {
-    return c;
+  if constexpr (std::is_same_v<Node, vNode>) {
+    if (isTerminal()) {
+      return c;
+    }
   }
 
   auto r = *this;
@@ -356,10 +358,6 @@ template <typename T, isMatrixVariant<T>>
 auto Edge<Node>::getValueByIndex(const std::size_t numQubits,
                                  const std::size_t i, const std::size_t j) const
     -> std::complex<fp> {
-  if (isTerminal()) {
-    return static_cast<std::complex<fp>>(w);
-  }
-
   auto decisions = std::string(numQubits, '0');
   for (auto k = 0U; k < numQubits; ++k) {
     if ((i & (1ULL << k)) != 0U) {
-- 
2.43.0


From 2181239e2809fa3e61acd26d17b1f2cd8b6e996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 004/149] fix: sampling of circuits whose qubits are measured
 into several or out-of-range bits

---
 src/dd/Simulation.cpp | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/dd/Simulation.cpp b/src/dd/Simulation.cpp
index 7606fe6..19ce2b5 100644
--- a/src/dd/Simulation.cpp
+++ b/src/dd/Simulation.cpp
@@ -53,7 +53,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     mt.seed(seeds);
   }
 
-  std::map<qc::Qubit, std::size_t> measurementMap{};
+  std::map<std::size_t, qc::Qubit> measurementMap{};
 
   // rudimentary check whether circuit is dynamic
   for (const auto& op : qc) {
@@ -64,7 +64,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     }
 
     // once a measurement is encountered we store the corresponding mapping
-    // (qubit -> bit)
+    // (bit -> qubit)
     if (const auto* measure = dynamic_cast<qc::NonUnitaryOperation*>(op.get());
         measure != nullptr && measure->getType() == qc::Measure) {
       hasMeasurements = true;
@@ -73,7 +73,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
       const auto& classic = measure->getClassics();
 
       for (std::size_t i = 0; i < quantum.size(); ++i) {
-        measurementMap[quantum.at(i)] = classic.at(i);
+        measurementMap[classic.at(i)] = quantum.at(i);
       }
     }
 
@@ -111,9 +111,11 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
       e = applyUnitaryOperation(*op, e, dd, permutation);
     }
 
-    // correct permutation if necessary
-    changePermutation(e, permutation, qc.outputPermutation, dd);
-    e = dd.reduceGarbage(e, qc.getGarbage());
+    if (!hasMeasurements) {
+      // correct permutation if necessary
+      changePermutation(e, permutation, qc.outputPermutation, dd);
+      e = dd.reduceGarbage(e, qc.getGarbage());
+    }
 
     // measure all qubits
     std::map<std::string, std::size_t> counts{};
@@ -133,18 +135,20 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
       if (hasMeasurements) {
         // if the circuit contains measurements, we only want to return the
         // measured bits
-        for (const auto& [qubit, bit] : measurementMap) {
-          // measurement map specifies that the circuit `qubit` is measured into
-          // a certain `bit`
+        for (const auto& [bit, qubit] : measurementMap) {
+          // measurement map specifies that a certain `bit` holds the outcome of
+          // the circuit `qubit`
           measurement[numBits - 1U - bit] =
-              bitstring[bitstring.size() - 1U - qc.outputPermutation.at(qubit)];
+              bitstring[bitstring.size() - 1U - permutation.at(qubit)];
         }
       } else {
-        // otherwise, we consider the output permutation for determining where
-        // to measure the qubits to
+        // otherwise, the state has been permuted according to the output
+        // permutation, i.e., every output is already located at its `bit`
         for (const auto& [qubit, bit] : qc.outputPermutation) {
-          measurement[numBits - 1U - bit] =
-              bitstring[bitstring.size() - 1U - qubit];
+          if (bit < numBits) {
+            measurement[numBits - 1U - bit] =
+                bitstring[bitstring.size() - 1U - bit];
+          }
         }
       }
       actualCounts[measurement] += count;
-- 
2.43.0


From ea4e81bb2dab6291ff0783c7e35a2727503801e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 005/149] fix: transferring a DD to another package accessed
 the top of an empty stack

---
 include/mqt-core/dd/Package.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 516c035..6f83a1f 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1825,7 +1825,7 @@ public:
         if (mappedNode.find(edge.p) != mappedNode.end()) {
           continue;
         }
-        hasChild = edge.p == stack.top()->p;
+        hasChild = !stack.empty() && edge.p == stack.top()->p;
       }
 
       if (hasChild) {
-- 
2.43.0


From 428563cd8f0e941c61fc6280225d089c1b45f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 006/149] fix: partial trace of matrix DDs with skipped levels

---
 include/mqt-core/dd/Package.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 6f83a1f..3509671 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1577,8 +1577,8 @@ private:
    */
   template <class Node>
   CachedEdge<Node> trace(const Edge<Node>& a,
-                         const std::vector<bool>& eliminate, std::size_t level,
-                         std::size_t alreadyEliminated = 0) {
+                         const std::vector<bool>& eliminate,
+                         std::size_t level) {
     const auto aWeight = static_cast<ComplexValue>(a.w);
     if (aWeight.approximatelyZero()) {
       return CachedEdge<Node>::zero();
@@ -1611,9 +1611,8 @@ private:
         }
       }
 
-      const auto elims = alreadyEliminated + 1;
-      auto r = add2(trace(a.p->e[0], eliminate, level - 1, elims),
-                    trace(a.p->e[3], eliminate, level - 1, elims), v - 1);
+      auto r = add2(trace(a.p->e[0], eliminate, level - 1),
+                    trace(a.p->e[3], eliminate, level - 1), v - 1);
 
       // The resulting weight is continuously normalized to the range [0,1] for
       // matrix nodes
@@ -1632,15 +1631,13 @@ private:
 
     std::array<CachedEdge<Node>, NEDGE> edge{};
     std::transform(a.p->e.cbegin(), a.p->e.cend(), edge.begin(),
-                   [this, &eliminate, &alreadyEliminated,
+                   [this, &eliminate,
                     &level](const Edge<Node>& e) -> CachedEdge<Node> {
-                     return trace(e, eliminate, level - 1, alreadyEliminated);
+                     return trace(e, eliminate, level - 1);
                    });
-    const auto adjustedV =
-        static_cast<Qubit>(static_cast<std::size_t>(a.p->v) -
-                           (static_cast<std::size_t>(std::count(
-                                eliminate.begin(), eliminate.end(), true)) -
-                            alreadyEliminated));
+    // the remaining qubits move down by the number of eliminated qubits below
+    const auto adjustedV = static_cast<Qubit>(
+        v - std::count(eliminate.begin(), eliminate.begin() + v, true));
     auto r = makeDDNode(adjustedV, edge);
     r.w = r.w * aWeight;
     return r;
-- 
2.43.0


From 0c790a07832f3f435c7d663a38d01c108587846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 007/149] fix: deserialization of DDs whose root is a terminal

---
 include/mqt-core/dd/Package.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 3509671..84ea638 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1862,7 +1862,8 @@ public:
   template <class Node, class Edge = Edge<Node>,
             std::size_t N = std::tuple_size_v<decltype(Node::e)>>
   Edge deserialize(std::istream& is, const bool readBinary = false) {
-    auto result = CachedEdge<Node>{};
+    // a DD without any nodes consists of nothing but the root weight
+    auto result = CachedEdge<Node>::one();
     ComplexValue rootweight{};
 
     std::unordered_map<std::int64_t, Node*> nodes{};
-- 
2.43.0


From 2461f81f16b943e6ebc44b72d1b907d80ddd74e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 008/149] fix: order of the qubits in the fidelity of permuted
 measurement outcomes

---
 include/mqt-core/dd/Package.hpp |  3 +--
 src/dd/Package.cpp              | 15 ++++++---------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 84ea638..fb34e5d 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1327,12 +1327,11 @@ private:
    * @param probs A map of probabilities for each measurement outcome.
    * @param i The current index in the decision diagram traversal.
    * @param permutation An optional permutation of qubits.
-   * @param nQubits The number of qubits in the decision diagram.
    * @return The fidelity of the measurement outcomes.
    */
   static fp fidelityOfMeasurementOutcomesRecursive(
       const vEdge& e, const SparsePVec& probs, std::size_t i,
-      const qc::Permutation& permutation, std::size_t nQubits);
+      const qc::Permutation& permutation);
 
 public:
   /**
diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 6b3f0e2..54c7904 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -939,8 +939,7 @@ fp Package::fidelityOfMeasurementOutcomes(const vEdge& e,
   if (e.w.approximatelyZero()) {
     return 0.;
   }
-  return fidelityOfMeasurementOutcomesRecursive(e, probs, 0, permutation,
-                                                e.p->v + 1U);
+  return fidelityOfMeasurementOutcomesRecursive(e, probs, 0, permutation);
 }
 ComplexValue Package::innerProduct(const vEdge& x, const vEdge& y,
                                    const Qubit var) {
@@ -986,17 +985,15 @@ ComplexValue Package::innerProduct(const vEdge& x, const vEdge& y,
 }
 fp Package::fidelityOfMeasurementOutcomesRecursive(
     const vEdge& e, const SparsePVec& probs, const std::size_t i,
-    const qc::Permutation& permutation, const std::size_t nQubits) {
+    const qc::Permutation& permutation) {
   const auto top = ComplexNumbers::mag(e.w);
   if (e.isTerminal()) {
     auto idx = i;
     if (!permutation.empty()) {
-      const auto binaryString = intToBinaryString(i, nQubits);
-      std::string filteredString(permutation.size(), '0');
+      idx = 0;
       for (const auto& [physical, logical] : permutation) {
-        filteredString[logical] = binaryString[physical];
+        idx |= ((i >> physical) & 1ULL) << logical;
       }
-      idx = std::stoull(filteredString, nullptr, 2);
     }
     if (auto it = probs.find(idx); it != probs.end()) {
       return top * std::sqrt(it->second);
@@ -1008,14 +1005,14 @@ fp Package::fidelityOfMeasurementOutcomesRecursive(
   fp leftContribution = 0.;
   if (!e.p->e[0].w.approximatelyZero()) {
     leftContribution = fidelityOfMeasurementOutcomesRecursive(
-        e.p->e[0], probs, leftIdx, permutation, nQubits);
+        e.p->e[0], probs, leftIdx, permutation);
   }
 
   const std::size_t rightIdx = i | (1ULL << e.p->v);
   auto rightContribution = 0.;
   if (!e.p->e[1].w.approximatelyZero()) {
     rightContribution = fidelityOfMeasurementOutcomesRecursive(
-        e.p->e[1], probs, rightIdx, permutation, nQubits);
+        e.p->e[1], probs, rightIdx, permutation);
   }
 
   return top * (leftContribution + rightContribution);
-- 
2.43.0


From bbef2789b2692e53516e89d48a89affe72d3ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 009/149] fix: clearing of unary compute tables with a
 non-default number of buckets

---
 include/mqt-core/dd/UnaryComputeTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/UnaryComputeTable.hpp b/include/mqt-core/dd/UnaryComputeTable.hpp
index f3e684d..d69ba9c 100644
--- a/include/mqt-core/dd/UnaryComputeTable.hpp
+++ b/include/mqt-core/dd/UnaryComputeTable.hpp
@@ -106,7 +106,7 @@ public:
    * @brief Clear the compute table
    * @details Sets all entries to invalid.
    */
-  void clear() { valid = std::vector(NBUCKET, false); }
+  void clear() { valid = std::vector(stats.numBuckets, false); }
 
 private:
   /// The actual table storing the entries
-- 
2.43.0


From b31bdb925204e66f2c123e575812aebade14c2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 010/149] fix: garbage collection left stale entries in some
 compute tables

---
 src/dd/Package.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 54c7904..3ddecc7 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -115,6 +115,8 @@ bool Package::garbageCollect(bool force) {
   // been collected
   if (vCollect > 0) {
     vectorAdd.clear();
+    vectorAddMagnitudes.clear();
+    conjugateVector.clear();
     vectorInnerProduct.clear();
     vectorKronecker.clear();
     matrixVectorMultiplication.clear();
@@ -123,6 +125,7 @@ bool Package::garbageCollect(bool force) {
   // been collected
   if (mCollect > 0) {
     matrixAdd.clear();
+    matrixAddMagnitudes.clear();
     conjugateMatrixTranspose.clear();
     matrixKronecker.clear();
     matrixTrace.clear();
-- 
2.43.0


From ce47498bc8da06257185dccceb6c9206724394d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 011/149] fix: transferring a DD with repeatedly used nodes to
 another package lost nodes

---
 include/mqt-core/dd/Package.hpp | 80 ++++++---------------------------
 1 file changed, 14 insertions(+), 66 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index fb34e5d..644038a 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1779,77 +1779,25 @@ public:
       return {original.p, cn.lookup(original.w)};
     }
 
-    // POST ORDER TRAVERSAL USING ONE STACK
-    // https://www.geeksforgeeks.org/iterative-postorder-traversal-using-stack/
-    Edge<Node> root{};
-    std::stack<Edge<Node>*> stack;
-
-    std::unordered_map<decltype(original.p), decltype(original.p)> mappedNode{};
-
-    Edge<Node>* currentEdge = &original;
+    // maps every node of the original DD to the edge representing it here
+    std::unordered_map<const Node*, Edge<Node>> transferred{};
     constexpr std::size_t n = std::tuple_size_v<decltype(original.p->e)>;
-    // NOLINTNEXTLINE(cppcoreguidelines-avoid-do-while)
-    do {
-      while (currentEdge != nullptr && !currentEdge->isTerminal()) {
-        for (std::size_t i = n - 1; i > 0; --i) {
-          auto& edge = currentEdge->p->e[i];
-          if (edge.isTerminal()) {
-            continue;
-          }
-          if (edge.w.approximatelyZero()) {
-            continue;
-          }
-          if (mappedNode.find(edge.p) != mappedNode.end()) {
-            continue;
-          }
-
-          // non-zero edge to be included
-          stack.push(&edge);
-        }
-        stack.push(currentEdge);
-        currentEdge = &currentEdge->p->e[0];
+    const auto transferEdge = [&](auto&& self,
+                                  const Edge<Node>& edge) -> Edge<Node> {
+      if (edge.isTerminal()) {
+        return {edge.p, cn.lookup(edge.w)};
       }
-      currentEdge = stack.top();
-      stack.pop();
-
-      bool hasChild = false;
-      for (std::size_t i = 1; i < n && !hasChild; ++i) {
-        auto& edge = currentEdge->p->e[i];
-        if (edge.w.approximatelyZero()) {
-          continue;
-        }
-        if (mappedNode.find(edge.p) != mappedNode.end()) {
-          continue;
-        }
-        hasChild = !stack.empty() && edge.p == stack.top()->p;
-      }
-
-      if (hasChild) {
-        Edge<Node>* temp = stack.top();
-        stack.pop();
-        stack.push(currentEdge);
-        currentEdge = temp;
-      } else {
-        if (mappedNode.find(currentEdge->p) != mappedNode.end()) {
-          currentEdge = nullptr;
-          continue;
-        }
+      auto it = transferred.find(edge.p);
+      if (it == transferred.end()) {
         std::array<Edge<Node>, n> edges{};
-        for (std::size_t i = 0; i < n; i++) {
-          if (currentEdge->p->e[i].isTerminal()) {
-            edges[i].p = currentEdge->p->e[i].p;
-          } else {
-            edges[i].p = mappedNode[currentEdge->p->e[i].p];
-          }
-          edges[i].w = cn.lookup(currentEdge->p->e[i].w);
+        for (std::size_t i = 0; i < n; ++i) {
+          edges[i] = self(self, edge.p->e[i]);
         }
-        root = makeDDNode(currentEdge->p->v, edges);
-        mappedNode[currentEdge->p] = root.p;
-        currentEdge = nullptr;
+        it = transferred.emplace(edge.p, makeDDNode(edge.p->v, edges)).first;
       }
-    } while (!stack.empty());
-    root.w = cn.lookup(original.w * root.w);
-    return root;
+      return {it->second.p, cn.lookup(edge.w * it->second.w)};
+    };
+    return transferEdge(transferEdge, original);
   }
 
   ///
-- 
2.43.0


From d0f5affd7ce0c0e7096995554b6ea13e58b0c9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 012/149] fix: garbage reduction with normalized weights of
 zero DDs

---
 src/dd/Package.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 3ddecc7..8751852 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1173,9 +1173,9 @@ mEdge Package::reduceAncillae(mEdge e, const std::vector<bool>& ancillary,
 vEdge Package::reduceGarbage(vEdge& e, const std::vector<bool>& garbage,
                              const bool normalizeWeights) {
   // return if no more garbage left
-  if (!normalizeWeights &&
-      (std::none_of(garbage.begin(), garbage.end(), [](bool v) { return v; }) ||
-       e.isTerminal())) {
+  if (e.isTerminal() ||
+      (!normalizeWeights && std::none_of(garbage.begin(), garbage.end(),
+                                         [](bool v) { return v; }))) {
     return e;
   }
   Qubit lowerbound = 0;
@@ -1202,9 +1202,9 @@ vEdge Package::reduceGarbage(vEdge& e, const std::vector<bool>& garbage,
 mEdge Package::reduceGarbage(const mEdge& e, const std::vector<bool>& garbage,
                              const bool regular, const bool normalizeWeights) {
   // return if no more garbage left
-  if (!normalizeWeights &&
-      (std::none_of(garbage.begin(), garbage.end(), [](bool v) { return v; }) ||
-       e.isZeroTerminal())) {
+  if (e.isZeroTerminal() ||
+      (!normalizeWeights && std::none_of(garbage.begin(), garbage.end(),
+                                         [](bool v) { return v; }))) {
     return e;
   }
 
-- 
2.43.0


From 3b174eff446087087fa97437979d32d317dcd169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 013/149] fix: reducing (scaled) identities did not release the
 reference of the operand

---
 src/dd/Package.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 8751852..74109a9 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1142,6 +1142,7 @@ mEdge Package::reduceAncillae(mEdge e, const std::vector<bool>& ancillary,
       }
     }
     incRef(g);
+    decRef(e);
     return g;
   }
 
@@ -1223,6 +1224,7 @@ mEdge Package::reduceGarbage(const mEdge& e, const std::vector<bool>& garbage,
       }
     }
     incRef(g);
+    decRef(e);
     return g;
   }
 
-- 
2.43.0


From ed36f85a84ad8f95befebf2172ce48b9fadd5f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 014/149] fix: garbage reduction of (scaled) identities ignored
 the weight normalization

---
 src/dd/Package.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 74109a9..4df0d31 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1223,6 +1223,9 @@ mEdge Package::reduceGarbage(const mEdge& e, const std::vector<bool>& garbage,
         }
       }
     }
+    if (normalizeWeights) {
+      g.w = cn.lookup(ComplexNumbers::mag(g.w), 0.);
+    }
     incRef(g);
     decRef(e);
     return g;
-- 
2.43.0


From 2efc93fccc835215d2a46c53c36f5d63c50cbb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 015/149] fix: Kronecker product of matrix DDs whose topmost
 levels are skipped

---
 include/mqt-core/dd/Package.hpp | 34 ++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 644038a..a0a74ac 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1456,9 +1456,24 @@ private:
       }
     }
 
-    // check if we already computed the product before and return the result
+    // Increase the qubit index
+    Qubit idx = x.p->v;
+    if (incIdx) {
+      // use the given number of qubits for matrices, since the topmost levels
+      // of y might be skipped if they represent the identity
+      if constexpr (std::is_same_v<Node, mNode> ||
+                    std::is_same_v<Node, dNode>) {
+        idx += static_cast<Qubit>(yNumQubits);
+      } else {
+        idx += static_cast<Qubit>(y.p->v + 1U);
+      }
+    }
+
+    // check if we already computed the product (for the same qubit index)
+    // before and return the result
     auto& computeTable = getKroneckerComputeTable<Node>();
-    if (const auto* r = computeTable.lookup(x.p, y.p); r != nullptr) {
+    if (const auto* r = computeTable.lookup(x.p, y.p);
+        r != nullptr && r->p->v == idx) {
       return {r->p, rWeight};
     }
 
@@ -1468,21 +1483,6 @@ private:
       edge[i] = kronecker2(x.p->e[i], y, yNumQubits, incIdx);
     }
 
-    // Increase the qubit index
-    Qubit idx = x.p->v;
-    if (incIdx) {
-      // use the given number of qubits if y is an identity
-      if constexpr (std::is_same_v<Node, mNode> ||
-                    std::is_same_v<Node, dNode>) {
-        if (y.isIdentity()) {
-          idx += static_cast<Qubit>(yNumQubits);
-        } else {
-          idx += static_cast<Qubit>(y.p->v + 1U);
-        }
-      } else {
-        idx += static_cast<Qubit>(y.p->v + 1U);
-      }
-    }
     auto e = makeDDNode(idx, edge, true);
     computeTable.insert(x.p, y.p, {e.p, e.w});
     return {e.p, rWeight};
-- 
2.43.0


From b2e7f6c0171211284998e5d48b34a8e211229ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 016/149] fix: partial traces that vanish were not represented
 by the zero terminal

---
 src/dd/Package.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 4df0d31..d15e928 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1037,7 +1037,7 @@ fp Package::expectationValue(const mEdge& x, const vEdge& y) {
 mEdge Package::partialTrace(const mEdge& a,
                             const std::vector<bool>& eliminate) {
   auto r = trace(a, eliminate, eliminate.size());
-  return {r.p, cn.lookup(r.w)};
+  return cn.lookup(r);
 }
 bool Package::isCloseToIdentity(const mEdge& m, const fp tol,
                                 const std::vector<bool>& garbage,
-- 
2.43.0


From 65ca70b86838c2c0c13b0f0aae7d6ed9ec0d34d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:25 +0000
Subject: [PATCH 017/149] fix: inverting a circuit did not invert its global
 phase

---
 src/algorithms/StatePreparation.cpp | 2 +-
 src/ir/QuantumComputation.cpp       | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/StatePreparation.cpp b/src/algorithms/StatePreparation.cpp
index e99c5ad..7f765c5 100644
--- a/src/algorithms/StatePreparation.cpp
+++ b/src/algorithms/StatePreparation.cpp
@@ -266,7 +266,7 @@ gatesToUncompute(std::vector<std::complex<double>>& amplitudes,
   double const arg = std::arg(std::accumulate(
       amplitudes.begin(), amplitudes.end(), std::complex<double>(0, 0)));
   if (std::abs(arg) > eps) {
-    disentangler.gphase(arg);
+    disentangler.gphase(-arg); // the circuit is inverted afterwards
   }
   return disentangler;
 }
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index b657de1..39ccd14 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -550,6 +550,9 @@ void QuantumComputation::invert() {
   }
   std::reverse(ops.begin(), ops.end());
 
+  // the inverse of a global phase is the negated phase
+  gphase(-2 * globalPhase);
+
   if (initialLayout.size() == outputPermutation.size()) {
     std::swap(initialLayout, outputPermutation);
   } else {
-- 
2.43.0


From b0c871ebb2b3a4a1b58bdb3b8aae4ac4e91fae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:25 +0000
Subject: [PATCH 018/149] fix: copies of classically controlled operations lost
 the kind of comparison

---
 src/ir/operations/ClassicControlledOperation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/ClassicControlledOperation.cpp b/src/ir/operations/ClassicControlledOperation.cpp
index 29aa9b2..33b2499 100644
--- a/src/ir/operations/ClassicControlledOperation.cpp
+++ b/src/ir/operations/ClassicControlledOperation.cpp
@@ -90,7 +90,8 @@ ClassicControlledOperation::ClassicControlledOperation(
 ClassicControlledOperation::ClassicControlledOperation(
     const ClassicControlledOperation& ccop)
     : Operation(ccop), controlRegister(ccop.controlRegister),
-      controlBit(ccop.controlBit), expectedValue(ccop.expectedValue) {
+      controlBit(ccop.controlBit), expectedValue(ccop.expectedValue),
+      comparisonKind(ccop.comparisonKind) {
   op = ccop.op->clone();
 }
 ClassicControlledOperation&
@@ -100,6 +101,7 @@ ClassicControlledOperation::operator=(const ClassicControlledOperation& ccop) {
     controlRegister = ccop.controlRegister;
     controlBit = ccop.controlBit;
     expectedValue = ccop.expectedValue;
+    comparisonKind = ccop.comparisonKind;
     op = ccop.op->clone();
   }
   return *this;
-- 
2.43.0


From c332a048061de9067adc8001cc6b7ce5294a0460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:36 +0000
Subject: [PATCH 019/149] fix: subtracting an expression from a term or
 constant yielded the negated difference

---
 include/mqt-core/ir/operations/Expression.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 43d6ea3..4948da5 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -719,14 +719,12 @@ Expression<T, U> operator-(Expression<T, U> lhs, const Term<T>& rhs) {
   return lhs;
 }
 template <typename T, typename U>
-Expression<T, U> operator-(const Term<T>& lhs, Expression<T, U> rhs) {
-  rhs -= lhs;
-  return rhs;
+Expression<T, U> operator-(const Term<T>& lhs, const Expression<T, U>& rhs) {
+  return -rhs + lhs;
 }
 template <typename T, typename U>
-Expression<T, U> operator-(const U& lhs, Expression<T, U> rhs) {
-  rhs -= lhs;
-  return rhs;
+Expression<T, U> operator-(const U& lhs, const Expression<T, U>& rhs) {
+  return -rhs + lhs;
 }
 
 template <typename T, typename U>
-- 
2.43.0


From d8b1d832e0a2570338331919766f89be53b01b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:36 +0000
Subject: [PATCH 020/149] fix: expressions over different variables compared
 equal

---
 include/mqt-core/ir/operations/Expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 4948da5..78e75f1 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -792,7 +792,7 @@ bool operator==(const Expression<T, U>& lhs, const Expression<T, U>& rhs) {
 
   const auto lhsTerms = lhs.numTerms();
   for (size_t i = 0; i < lhsTerms; ++i) {
-    if (std::abs(lhs[i].getCoeff() - rhs[i].getCoeff()) >= TOLERANCE) {
+    if (lhs[i] != rhs[i]) {
       return false;
     }
   }
-- 
2.43.0


From 401cddaeb656e83341ae6d6c272f31c759861a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:46 +0000
Subject: [PATCH 021/149] fix: expressions built from unsorted terms and sums
 with a leading coefficient were wrong

---
 include/mqt-core/ir/operations/Expression.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 78e75f1..f5999b1 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -353,7 +353,10 @@ public:
    * @param con Constant of the expression.
    */
   Expression(const std::vector<Term<T>>& ts, const U& con)
-      : terms(ts), constant(con) {};
+      : terms(ts), constant(con) {
+    sortTerms();
+    aggregateEqualTerms();
+  };
 
   /**
    * @brief Default constructor. Expression has no Terms and a constant of 0.
@@ -702,9 +705,8 @@ Expression<T, U> operator+(Expression<T, U> lhs, const U& rhs) {
 }
 
 template <typename T, typename U>
-Expression<T, U> operator+([[maybe_unused]] const T& lhs,
-                           Expression<T, U> rhs) {
-  rhs += rhs;
+Expression<T, U> operator+(const T& lhs, Expression<T, U> rhs) {
+  rhs += U{lhs};
   return rhs;
 }
 
-- 
2.43.0


From 358731199d843de50f03ec05bd1f2096b293f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:46 +0000
Subject: [PATCH 022/149] fix: checking whether a circuit with symbolic
 operations is dynamic failed

---
 src/ir/QuantumComputation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 39ccd14..19d74c3 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1227,7 +1227,8 @@ bool isDynamicCircuit(const std::unique_ptr<Operation>* op,
     return true;
   }
 
-  if (it->isStandardOperation()) {
+  if (it->isStandardOperation() ||
+      (it->isSymbolicOperation() && !it->isCompoundOperation())) {
     // Whenever a qubit has already been measured, the circuit is dynamic
     const auto& usedQubits = it->getUsedQubits();
     return std::any_of(usedQubits.cbegin(), usedQubits.cend(),
-- 
2.43.0


From e8861c1c15f11fcc41e2e8b8ae6acd7f8fd28901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:38 +0000
Subject: [PATCH 023/149] fix: simplified symbolic operations kept parameters
 their gate type does not have

---
 src/ir/operations/SymbolicOperation.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index 46ce210..67594e3 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -23,6 +23,7 @@
 #include <cstddef>
 #include <cstdlib>
 #include <memory>
+#include <optional>
 #include <ostream>
 #include <stdexcept>
 #include <utility>
@@ -195,6 +196,7 @@ OpType SymbolicOperation::parseU1([[maybe_unused]] const Symbolic& lambda) {
 }
 
 void SymbolicOperation::checkSymbolicUgate() {
+  const auto originalType = type;
   // NOLINTBEGIN(bugprone-unchecked-optional-access) – we check for this
   if (type == P) {
     if (!isSymbolicParameter(0)) {
@@ -231,6 +233,17 @@ void SymbolicOperation::checkSymbolicUgate() {
     }
   }
   // NOLINTEND(bugprone-unchecked-optional-access)
+
+  if (!isSymbolicOperation()) {
+    // the canonicalization of numeric gates already adjusts the parameters
+    symbolicParameter.assign(parameter.size(), std::nullopt);
+  } else if (originalType == U && type != U) {
+    // drop the parameters that are implied by the type of the simplified gate
+    const std::ptrdiff_t implied = type == U2 ? 1 : 2;
+    parameter.erase(parameter.begin(), parameter.begin() + implied);
+    symbolicParameter.erase(symbolicParameter.begin(),
+                            symbolicParameter.begin() + implied);
+  }
 }
 
 void SymbolicOperation::setup(const std::vector<SymbolOrNumber>& params) {
@@ -389,7 +402,8 @@ void SymbolicOperation::instantiate(const VariableAssignment& assignment) {
     parameter.at(i) = getInstantiation(getParameter(i), assignment);
     symbolicParameter.at(i).reset();
   }
-  checkUgate();
+  StandardOperation::setup();
+  symbolicParameter.assign(parameter.size(), std::nullopt);
 }
 
 void SymbolicOperation::negateSymbolicParameter(const std::size_t index) {
-- 
2.43.0


From 95fa0d6a05807bf54ca20bfdafe62b94574b3a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:52 +0000
Subject: [PATCH 024/149] fix: symbolic operations on different qubits, of
 different types, or with different parameters compared equal or commuting

---
 src/ir/operations/Operation.cpp         |  5 +++++
 src/ir/operations/StandardOperation.cpp |  3 ++-
 src/ir/operations/SymbolicOperation.cpp | 27 +++++--------------------
 3 files changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index 6e68795..60a6589 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -120,6 +120,11 @@ bool Operation::equals(const Operation& op, const Permutation& perm1,
     return false;
   }
 
+  // a symbolic operation can only equal another symbolic operation
+  if (isSymbolicOperation() != op.isSymbolicOperation()) {
+    return false;
+  }
+
   // check number of controls
   const auto nc1 = getNcontrols();
   const auto nc2 = op.getNcontrols();
diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index e44b529..7883a52 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -553,7 +553,8 @@ auto StandardOperation::commutesAtQubit(const Operation& other,
   // operations with more than one parameter might not be commutative when the
   // parameter are not the same, i.e. a general U3 gate
   // TODO: this check might introduce false negatives
-  return type == other.getType() && targets == other.getTargets() &&
+  return !isSymbolicOperation() && !other.isSymbolicOperation() &&
+         type == other.getType() && targets == other.getTargets() &&
          parameter == other.getParameter();
 }
 
diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index 67594e3..4d205fb 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -344,32 +344,15 @@ bool SymbolicOperation::isStandardOperation() const {
 
 bool SymbolicOperation::equals(const Operation& op, const Permutation& perm1,
                                const Permutation& perm2) const {
-  if (!op.isSymbolicOperation() && !isStandardOperation()) {
+  // compares the type, qubits, and numeric parameters
+  if (!StandardOperation::equals(op, perm1, perm2)) {
     return false;
   }
-  if (isStandardOperation() && StandardOperation::equals(op, perm1, perm2)) {
+  if (!isSymbolicOperation()) {
     return true;
   }
-
-  if (!op.isSymbolicOperation()) {
-    return false;
-  }
-  const auto& symOp = dynamic_cast<const SymbolicOperation&>(op);
-  for (std::size_t i = 0; i < symbolicParameter.size(); ++i) {
-    const auto& symParam = symbolicParameter.at(i);
-    const auto& symOpParam = symOp.symbolicParameter.at(i);
-    const auto symParamIsSymbolic = symParam.has_value();
-    const auto symOpParamIsSymbolic = symOpParam.has_value();
-
-    if (symParamIsSymbolic != symOpParamIsSymbolic) {
-      return false;
-    }
-
-    if (symParamIsSymbolic) {
-      return symParam.value() == symOpParam.value();
-    }
-  }
-  return true;
+  const auto* symOp = dynamic_cast<const SymbolicOperation*>(&op);
+  return symOp != nullptr && symbolicParameter == symOp->symbolicParameter;
 }
 
 [[noreturn]] void SymbolicOperation::dumpOpenQASM(
-- 
2.43.0


From 00a1b020e4f460beed935652e9462c87aa1a58ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 025/149] fix: reordering operations dropped global phases and
 ignored dependencies through classical bits

---
 src/ir/QuantumComputation.cpp           | 66 +++++++++++++++++++++++--
 src/ir/operations/CompoundOperation.cpp |  2 +-
 2 files changed, 62 insertions(+), 6 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 19d74c3..7ce71ae 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1117,6 +1117,31 @@ void QuantumComputation::instantiateInplace(
   }
 }
 
+namespace {
+/// Collects the classical bits an operation writes to or depends on
+void collectClassicalBits(const Operation& op, std::set<Bit>& bits) {
+  if (op.getType() == Measure) {
+    const auto& measure = dynamic_cast<const NonUnitaryOperation&>(op);
+    bits.insert(measure.getClassics().cbegin(), measure.getClassics().cend());
+  } else if (op.isClassicControlledOperation()) {
+    const auto& classic = dynamic_cast<const ClassicControlledOperation&>(op);
+    if (const auto& bit = classic.getControlBit(); bit.has_value()) {
+      bits.emplace(*bit);
+    }
+    if (const auto& reg = classic.getControlRegister(); reg.has_value()) {
+      for (std::size_t i = 0; i < reg->getSize(); ++i) {
+        bits.emplace(reg->getStartIndex() + i);
+      }
+    }
+    collectClassicalBits(*classic.getOperation(), bits);
+  } else if (op.isCompoundOperation()) {
+    for (const auto& g : dynamic_cast<const CompoundOperation&>(op)) {
+      collectClassicalBits(*g, bits);
+    }
+  }
+}
+} // namespace
+
 void QuantumComputation::reorderOperations() {
   using DAG = std::vector<std::deque<std::unique_ptr<Operation>*>>;
   using DAGIterator = std::deque<std::unique_ptr<Operation>*>::iterator;
@@ -1127,12 +1152,35 @@ void QuantumComputation::reorderOperations() {
     highestPhysicalQubit = std::max(q.first, highestPhysicalQubit);
   }
 
-  auto dag = DAG(highestPhysicalQubit + 1);
+  // the order of operations is also determined by the classical bits they use
+  const auto nWires = static_cast<std::size_t>(highestPhysicalQubit) + 1;
+  std::unordered_map<const Operation*, std::set<Bit>> classicalBits{};
+  std::size_t nBits = 0;
+  for (const auto& op : ops) {
+    auto& bits = classicalBits[op.get()];
+    collectClassicalBits(*op, bits);
+    if (!bits.empty()) {
+      nBits = std::max(nBits, static_cast<std::size_t>(*bits.rbegin()) + 1);
+    }
+  }
+
+  // the first `nBits` entries correspond to the classical bits such that the
+  // iteration (in reverse order) is primarily guided by the qubits
+  auto dag = DAG(nBits + nWires);
+  std::vector<std::unique_ptr<Operation>> newOps{};
 
   for (auto& op : ops) {
     const auto usedQubits = op->getUsedQubits();
+    const auto& bits = classicalBits.at(op.get());
+    for (const auto b : bits) {
+      dag.at(b).push_back(&op);
+    }
     for (const auto q : usedQubits) {
-      dag.at(q).push_back(&op);
+      dag.at(nBits + q).push_back(&op);
+    }
+    if (usedQubits.empty() && bits.empty()) {
+      // operation does not depend on anything, e.g., a global phase
+      newOps.emplace_back(std::move(op));
     }
   }
 
@@ -1148,8 +1196,6 @@ void QuantumComputation::reorderOperations() {
     }
   }
 
-  std::vector<std::unique_ptr<Operation>> newOps{};
-
   // iterate over DAG in depth-first fashion starting from the top-most qubit
   const auto msq = dag.size() - 1;
   bool done = false;
@@ -1170,6 +1216,12 @@ void QuantumComputation::reorderOperations() {
       auto& it = dagIterators.at(static_cast<std::size_t>(q));
       auto& op = **it;
 
+      // operations acting on qubits are scheduled when visiting their qubits
+      if (static_cast<std::size_t>(q) < nBits &&
+          !op->getUsedQubits().empty()) {
+        continue;
+      }
+
       // check whether the gate can be scheduled, i.e. whether all qubits it
       // acts on are at this operation
       bool executable = true;
@@ -1179,7 +1231,11 @@ void QuantumComputation::reorderOperations() {
         // actually check in reverse order
         const auto qb =
             static_cast<std::make_signed_t<Qubit>>(dag.size() - 1 - i);
-        if (qb != q && op->actsOn(static_cast<Qubit>(qb))) {
+        const auto wire = static_cast<std::size_t>(qb);
+        const auto acts =
+            wire < nBits ? classicalBits.at(op.get()).count(wire) > 0
+                         : op->actsOn(static_cast<Qubit>(wire - nBits));
+        if (qb != q && acts) {
           actsOn[static_cast<std::size_t>(qb)] = true;
 
           assert(dagIterators.at(static_cast<std::size_t>(qb)) !=
diff --git a/src/ir/operations/CompoundOperation.cpp b/src/ir/operations/CompoundOperation.cpp
index af2bc3c..2f88dad 100644
--- a/src/ir/operations/CompoundOperation.cpp
+++ b/src/ir/operations/CompoundOperation.cpp
@@ -237,7 +237,7 @@ auto CompoundOperation::isInverseOf(const Operation& other) const -> bool {
     otherQc.invert();
     otherQc.reorderOperations();
     return std::equal(
-        thisQc.cbegin(), thisQc.cend(), otherQc.cbegin(),
+        thisQc.cbegin(), thisQc.cend(), otherQc.cbegin(), otherQc.cend(),
         [](const auto& op1, const auto& op2) { return *op1 == *op2; });
   }
   return false;
-- 
2.43.0


From 1583fda996695255fd20ad19fae2c78642708884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:57 +0000
Subject: [PATCH 026/149] fix: controlled Z rotations with exchanged qubits
 compared equal and hashes were inconsistent with equality

---
 .../ir/operations/NonUnitaryOperation.hpp     | 16 ++++++++--
 include/mqt-core/ir/operations/Operation.hpp  | 32 +++++++++++++++----
 src/ir/operations/Operation.cpp               |  2 +-
 3 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/include/mqt-core/ir/operations/NonUnitaryOperation.hpp b/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
index 02dada2..7e5d53b 100644
--- a/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
+++ b/include/mqt-core/ir/operations/NonUnitaryOperation.hpp
@@ -23,6 +23,7 @@
 #include <ostream>
 #include <set>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace qc {
@@ -107,10 +108,19 @@ template <> struct std::hash<qc::NonUnitaryOperation> {
   std::size_t operator()(qc::NonUnitaryOperation const& op) const noexcept {
     std::size_t seed = 0U;
     qc::hashCombine(seed, op.getType());
-    for (const auto& q : op.getTargets()) {
-      qc::hashCombine(seed, q);
+    if (op.getType() != qc::Measure) {
+      for (const auto& q : op.getTargets()) {
+        qc::hashCombine(seed, q);
+      }
+      return seed;
+    }
+    // consistent with equality: the order of the measurements is irrelevant
+    std::set<std::pair<qc::Qubit, qc::Bit>> measurements;
+    for (std::size_t i = 0; i < op.getTargets().size(); ++i) {
+      measurements.emplace(op.getTargets()[i], op.getClassics()[i]);
     }
-    for (const auto& c : op.getClassics()) {
+    for (const auto& [q, c] : measurements) {
+      qc::hashCombine(seed, q);
       qc::hashCombine(seed, c);
     }
     return seed;
diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index 746a0a4..5fdd5eb 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -149,6 +149,13 @@ public:
     return (+type & OpTypeDiag) != 0;
   }
 
+  /// Checks whether targets and positive controls of the gate are
+  /// interchangeable. This holds for all diagonal gates that only apply a phase
+  /// to the |1> state of their target, i.e., all but RZ and RZZ rotations.
+  [[nodiscard]] auto isSymmetricGate() const -> bool {
+    return isDiagonalGate() && ((type != RZ && type != RZZ) || controls.empty());
+  }
+
   [[nodiscard]] virtual auto isSingleQubitGate() const -> bool {
     return !isControlled() && qc::isSingleQubitGate(type);
   }
@@ -228,14 +235,25 @@ template <> struct std::hash<qc::Operation> {
   std::size_t operator()(const qc::Operation& op) const noexcept {
     std::size_t seed = 0U;
     qc::hashCombine(seed, hash<qc::OpType>{}(op.getType()));
-    for (const auto& control : op.getControls()) {
-      qc::hashCombine(seed, hash<qc::Qubit>{}(control.qubit));
-      if (control.type == qc::Control::Type::Neg) {
-        seed ^= 1ULL;
+    if (op.isSymmetricGate() || op.isClassicControlledOperation() ||
+        op.isNonUnitaryOperation()) {
+      // consistent with equality: the order of the qubits is irrelevant
+      for (const auto& qubit : op.getUsedQubits()) {
+        qc::hashCombine(seed, hash<qc::Qubit>{}(qubit));
+        if (op.getControls().count({qubit, qc::Control::Type::Neg}) > 0) {
+          seed ^= 1ULL;
+        }
+      }
+    } else {
+      for (const auto& control : op.getControls()) {
+        qc::hashCombine(seed, hash<qc::Qubit>{}(control.qubit));
+        if (control.type == qc::Control::Type::Neg) {
+          seed ^= 1ULL;
+        }
+      }
+      for (const auto& target : op.getTargets()) {
+        qc::hashCombine(seed, hash<qc::Qubit>{}(target));
       }
-    }
-    for (const auto& target : op.getTargets()) {
-      qc::hashCombine(seed, hash<qc::Qubit>{}(target));
     }
     for (const auto& param : op.getParameter()) {
       qc::hashCombine(seed, hash<qc::fp>{}(param));
diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index 60a6589..b3249c0 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -139,7 +139,7 @@ bool Operation::equals(const Operation& op, const Permutation& perm1,
     return false;
   }
 
-  if (isDiagonalGate()) {
+  if (isSymmetricGate()) {
     // check pos. controls and targets together
     const auto& usedQubits1 = getUsedQubitsPermuted(perm1);
     const auto& usedQubits2 = op.getUsedQubitsPermuted(perm2);
-- 
2.43.0


From be14c4cc186ac52f962cb376c77d62569d1f9083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:02 +0000
Subject: [PATCH 027/149] fix: variables of nested and classically controlled
 symbolic operations were neither tracked nor instantiated

---
 include/mqt-core/ir/QuantumComputation.hpp    | 10 ++-
 .../operations/ClassicControlledOperation.hpp |  4 ++
 src/ir/QuantumComputation.cpp                 | 68 ++++++++++++++++---
 3 files changed, 71 insertions(+), 11 deletions(-)

diff --git a/include/mqt-core/ir/QuantumComputation.hpp b/include/mqt-core/ir/QuantumComputation.hpp
index bbd9a2d..a473d7e 100644
--- a/include/mqt-core/ir/QuantumComputation.hpp
+++ b/include/mqt-core/ir/QuantumComputation.hpp
@@ -404,6 +404,8 @@ public:
   void instantiateInplace(const VariableAssignment& assignment);
 
   void addVariable(const SymbolOrNumber& expr);
+  // add all variables occurring in the parameters of an operation
+  void addVariablesOf(const Operation& op);
 
   template <typename... Vars> void addVariables(const Vars&... vars) {
     (addVariable(vars), ...);
@@ -559,25 +561,31 @@ public:
   // NOLINTNEXTLINE(readability-identifier-naming)
   template <class T> void push_back(const T& op) {
     ops.push_back(std::make_unique<T>(op));
+    addVariablesOf(*ops.back());
   }
 
   // NOLINTNEXTLINE(readability-identifier-naming)
   template <class T, class... Args> void emplace_back(Args&&... args) {
     ops.emplace_back(std::make_unique<T>(std::forward<Args>(args)...));
+    addVariablesOf(*ops.back());
   }
 
   // NOLINTNEXTLINE(readability-identifier-naming)
   template <class T> void emplace_back(std::unique_ptr<T>& op) {
     ops.emplace_back(std::move(op));
+    addVariablesOf(*ops.back());
   }
 
   // NOLINTNEXTLINE(readability-identifier-naming)
   template <class T> void emplace_back(std::unique_ptr<T>&& op) {
     ops.emplace_back(std::move(op));
+    addVariablesOf(*ops.back());
   }
 
   template <class T> iterator insert(const_iterator pos, T&& op) {
-    return ops.insert(pos, std::forward<T>(op));
+    const auto it = ops.insert(pos, std::forward<T>(op));
+    addVariablesOf(**it);
+    return it;
   }
 
   [[nodiscard]] const auto& at(const std::size_t i) const { return ops.at(i); }
diff --git a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
index d1f1c2c..6466dc0 100644
--- a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
+++ b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
@@ -101,6 +101,10 @@ public:
     return true;
   }
 
+  [[nodiscard]] bool isSymbolicOperation() const override {
+    return op->isSymbolicOperation();
+  }
+
   [[nodiscard]] bool actsOn(const Qubit i) const override {
     return op->actsOn(i);
   }
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 7ce71ae..9f9e1a8 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1095,20 +1095,68 @@ bool QuantumComputation::isVariableFree() const {
                      [](const auto& op) { return !op->isSymbolicOperation(); });
 }
 
+void QuantumComputation::addVariablesOf(const Operation& op) {
+  if (const auto* symOp = dynamic_cast<const SymbolicOperation*>(&op);
+      symOp != nullptr) {
+    for (const auto& param : symOp->getParameters()) {
+      addVariable(param);
+    }
+  } else if (const auto* compOp = dynamic_cast<const CompoundOperation*>(&op);
+             compOp != nullptr) {
+    for (const auto& subOp : *compOp) {
+      addVariablesOf(*subOp);
+    }
+  } else if (const auto* classicOp =
+                 dynamic_cast<const ClassicControlledOperation*>(&op);
+             classicOp != nullptr) {
+    addVariablesOf(*classicOp->getOperation());
+  }
+}
+
+namespace {
+void instantiateOperation(std::unique_ptr<Operation>& op,
+                          const VariableAssignment& assignment) {
+  if (auto* symOp = dynamic_cast<SymbolicOperation*>(op.get());
+      symOp != nullptr) {
+    symOp->instantiate(assignment);
+    // if the operation is fully instantiated, it can be replaced by the
+    // corresponding standard operation
+    if (symOp->isStandardOperation()) {
+      op = std::make_unique<StandardOperation>(
+          *dynamic_cast<StandardOperation*>(symOp));
+    }
+  } else if (auto* compOp = dynamic_cast<CompoundOperation*>(op.get());
+             compOp != nullptr) {
+    for (auto& subOp : *compOp) {
+      instantiateOperation(subOp, assignment);
+    }
+  } else if (const auto* classicOp =
+                 dynamic_cast<ClassicControlledOperation*>(op.get());
+             classicOp != nullptr && classicOp->isSymbolicOperation()) {
+    auto subOp = classicOp->getOperation()->clone();
+    instantiateOperation(subOp, assignment);
+    const auto expectedValue = classicOp->getExpectedValue();
+    const auto kind = classicOp->getComparisonKind();
+    if (const auto& controlRegister = classicOp->getControlRegister();
+        controlRegister.has_value()) {
+      op = std::make_unique<ClassicControlledOperation>(
+          std::move(subOp), ClassicalRegister(*controlRegister), expectedValue,
+          kind);
+    } else {
+      const auto controlBit = classicOp->getControlBit();
+      assert(controlBit.has_value());
+      op = std::make_unique<ClassicControlledOperation>(
+          std::move(subOp), controlBit.value(), expectedValue, kind);
+    }
+  }
+}
+} // namespace
+
 // Instantiates this computation
 void QuantumComputation::instantiateInplace(
     const VariableAssignment& assignment) {
   for (auto& op : ops) {
-    if (auto* symOp = dynamic_cast<SymbolicOperation*>(op.get());
-        symOp != nullptr) {
-      symOp->instantiate(assignment);
-      // if the operation is fully instantiated, it can be replaced by the
-      // corresponding standard operation
-      if (symOp->isStandardOperation()) {
-        op = std::make_unique<StandardOperation>(
-            *dynamic_cast<StandardOperation*>(symOp));
-      }
-    }
+    instantiateOperation(op, assignment);
   }
   // after an operation is instantiated, the respective parameters can be
   // removed from the circuit
-- 
2.43.0


From 95998e6f82b0d667c27f69a27f7816b008c75c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 028/149] fix: I/O mapping of repeatedly measured qubits and of
 measured qubits without an output

---
 src/ir/QuantumComputation.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 9f9e1a8..68d52d4 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -276,11 +276,11 @@ void QuantumComputation::initializeIOMapping() {
           continue;
         }
 
-        const auto bitidx = *classicIt;
-        if (outputPermutationFound) {
+        if (const auto it = outputPermutation.find(qubitidx);
+            outputPermutationFound && it != outputPermutation.end()) {
           // output permutation was already set before -> permute existing
           // values
-          if (const auto current = outputPermutation.at(qubitidx);
+          if (const auto current = it->second;
               static_cast<std::size_t>(current) != bitidx) {
             for (auto& p : outputPermutation) {
               if (static_cast<std::size_t>(p.second) == bitidx) {
@@ -288,14 +288,13 @@ void QuantumComputation::initializeIOMapping() {
                 break;
               }
             }
-            outputPermutation.at(qubitidx) = static_cast<Qubit>(bitidx);
+            it->second = static_cast<Qubit>(bitidx);
           }
         } else {
           // directly set permutation if none was set beforehand
           outputPermutation[qubitidx] = static_cast<Qubit>(bitidx);
         }
         measuredQubits.emplace(qubitidx);
-        ++classicIt;
       }
     }
   }
@@ -305,6 +304,8 @@ void QuantumComputation::initializeIOMapping() {
   if (outputPermutationFromMeasurements) {
     auto it = outputPermutation.begin();
     while (it != outputPermutation.end()) {
+        const auto bitidx = *classicIt;
+        ++classicIt;
       if (measuredQubits.find(it->first) == measuredQubits.end()) {
         it = outputPermutation.erase(it);
       } else {
-- 
2.43.0


From 6aa283c73b0c06dd80b3dba3ee0eb151cbaf2550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 029/149] fix: measurements according to an output permutation
 with gaps lacked classical bits

---
 src/ir/QuantumComputation.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 68d52d4..47e34f4 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -946,14 +946,14 @@ void QuantumComputation::appendMeasurementsAccordingToOutputPermutation(
   // ensure that the circuit contains enough classical registers
   if (classicalRegisters.empty()) {
     // in case there are no registers, create a new one
-    addClassicalRegister(outputPermutation.size(), registerName);
-  } else if (nclassics < outputPermutation.size()) {
+    addClassicalRegister(requiredBits, registerName);
+  } else if (nclassics < requiredBits) {
     if (classicalRegisters.find(registerName) != classicalRegisters.end()) {
       throw std::runtime_error(
           "[appendMeasurementsAccordingToOutputPermutation] Register " +
           registerName + " already exists but is too small");
     }
-    addClassicalRegister(outputPermutation.size() - nclassics, registerName);
+    addClassicalRegister(requiredBits - nclassics, registerName);
   }
   barrier();
   // append measurements according to output permutation
@@ -1011,6 +1011,8 @@ void QuantumComputation::checkClassicalRegister(
     ss << "Classical register starting at index " << creg.getStartIndex()
        << " with " << creg.getSize() << " bits is too large! The circuit has "
        << nclassics << " classical bits.";
+  const std::size_t requiredBits =
+      outputPermutation.empty() ? 0U : outputPermutation.maxValue() + 1U;
     throw std::runtime_error(ss.str());
   }
 }
-- 
2.43.0


From 3e71647090b98eaf60aaab9c76bba119b5e8fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 030/149] fix: depth and last-operation queries missed qubits
 beyond the number of qubits

---
 src/ir/QuantumComputation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 47e34f4..1797d39 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -240,7 +240,9 @@ std::size_t QuantumComputation::getDepth() const {
     return 0U;
   }
 
-  std::vector<std::size_t> depths(getNqubits(), 0U);
+  std::vector<std::size_t> depths(
+      std::max<std::size_t>(getHighestPhysicalQubitIndex() + 1U, getNqubits()),
+      0U);
   for (const auto& op : ops) {
     op->addDepthContribution(depths);
   }
@@ -909,7 +911,7 @@ bool QuantumComputation::isLastOperationOnQubit(
   }
 
   // determine which qubits the gate acts on
-  std::vector<bool> actson(nqubits + nancillae);
+  std::vector<bool> actson(getHighestPhysicalQubitIndex() + 1U);
   for (std::size_t i = 0; i < actson.size(); ++i) {
     if ((*opIt)->actsOn(static_cast<Qubit>(i))) {
       actson[i] = true;
-- 
2.43.0


From 8260491009a13d3e72e34d3cdce57816ee44c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 031/149] fix: barriers and measurements of all qubits
 addressed qubits that were removed

---
 src/ir/QuantumComputation.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 1797d39..31ca53e 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1658,23 +1658,28 @@ void QuantumComputation::measureAll(const bool addBits) {
     addClassicalRegister(getNqubits(), "meas");
   }
 
-  if (nclassics < getNqubits()) {
+  // without a register of its own, qubit q is measured into classical bit q
+  if (const auto required = addBits || initialLayout.empty()
+                                ? getNqubits()
+                                : getHighestPhysicalQubitIndex() + 1U;
+      nclassics < required) {
     std::stringstream ss{};
     ss << "The number of classical bits (" << nclassics
-       << ") is smaller than the number of qubits (" << getNqubits() << ")!";
+       << ") is smaller than the number of qubits (" << required << ")!";
     throw std::runtime_error(ss.str());
   }
 
   barrier();
-  Qubit start = 0U;
+  Bit start = 0U;
   if (addBits) {
-    start = static_cast<Qubit>(classicalRegisters.at("meas").getStartIndex());
+    start = classicalRegisters.at("meas").getStartIndex();
   }
-  // measure i -> (start+i) in descending order
+  // measure the i-th physical qubit -> (start+i) in descending order
   // (this is an optimization for the simulator)
-  for (std::size_t i = getNqubits(); i > 0; --i) {
-    const auto q = static_cast<Qubit>(i - 1);
-    measure(q, start + q);
+  auto i = initialLayout.size();
+  for (auto it = initialLayout.crbegin(); it != initialLayout.crend(); ++it) {
+    --i;
+    measure(it->first, addBits ? start + i : it->first);
   }
 }
 
@@ -1687,8 +1692,11 @@ void QuantumComputation::reset(const Targets& targets) {
   emplace_back<NonUnitaryOperation>(targets, Reset);
 }
 void QuantumComputation::barrier() {
-  std::vector<Qubit> targets(getNqubits());
-  std::iota(targets.begin(), targets.end(), 0);
+  std::vector<Qubit> targets{};
+  targets.reserve(initialLayout.size());
+  for (const auto& [physical, _] : initialLayout) {
+    targets.emplace_back(physical);
+  }
   emplace_back<StandardOperation>(targets, Barrier);
 }
 void QuantumComputation::barrier(const Qubit target) {
-- 
2.43.0


From de8fc2d8700b14a37bf3fd588a2db1f2b7cba21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 032/149] fix: registers at different positions compared equal

---
 include/mqt-core/ir/Register.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/ir/Register.hpp b/include/mqt-core/ir/Register.hpp
index 2163d6b..98ba23b 100644
--- a/include/mqt-core/ir/Register.hpp
+++ b/include/mqt-core/ir/Register.hpp
@@ -38,7 +38,8 @@ public:
   }
 
   [[nodiscard]] bool operator==(const Register& other) const {
-    return name == other.name && size == other.size;
+    return name == other.name && startIndex == other.startIndex &&
+           size == other.size;
   }
   [[nodiscard]] bool operator!=(const Register& other) const {
     return !(*this == other);
-- 
2.43.0


From d93e87bb01cb25a014a0bafdbd364d6bb2247e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 033/149] fix: resetting a circuit and unifying its registers
 kept stale qubit flags

---
 src/ir/QuantumComputation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 31ca53e..a14be29 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -781,6 +781,10 @@ void QuantumComputation::stripIdleQubits(bool force) {
 
       removeQubit(logicalQubitIndex);
 
+  ancillary.clear();
+  garbage.clear();
+  globalPhase = 0.;
+  occurringVariables.clear();
       if (logicalQubitIndex < nqubits + nancillae) {
         for (auto& [physical, logical] : initialLayout) {
           if (logical > logicalQubitIndex) {
@@ -999,6 +1003,7 @@ void QuantumComputation::checkBitRange(const Bit bit) const {
     throw std::runtime_error(ss.str());
   }
 }
+  ancillary.assign(ancillary.size(), false);
 
 void QuantumComputation::checkBitRange(const std::vector<Bit>& bits) const {
   for (const auto& bit : bits) {
-- 
2.43.0


From aefd6f733b2a8f4d0ebeba7302ac742dc4b1fc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 034/149] fix: adding and removing qubits mixed up qubit flags,
 indices and registers

---
 include/mqt-core/ir/QuantumComputation.hpp |  11 ++
 src/ir/QuantumComputation.cpp              | 190 ++++++++++++++-------
 2 files changed, 136 insertions(+), 65 deletions(-)

diff --git a/include/mqt-core/ir/QuantumComputation.hpp b/include/mqt-core/ir/QuantumComputation.hpp
index a473d7e..d66efba 100644
--- a/include/mqt-core/ir/QuantumComputation.hpp
+++ b/include/mqt-core/ir/QuantumComputation.hpp
@@ -510,6 +510,17 @@ protected:
     const auto end = ops.cend();
     return isLastOperationOnQubit(opIt, end);
   }
+  /// Makes sure that the given logical qubit can be marked ancillary or garbage
+  void trackLogicalQubit(Qubit logicalQubitIndex);
+  /// Returns the first index past all physical qubits in the circuit
+  [[nodiscard]] Qubit nextPhysicalQubitIndex() const;
+  /**
+   * @brief Adds a new physical qubit to the layout and the output permutation
+   * @return The logical qubit the physical qubit is mapped to
+   */
+  Qubit addMappings(Qubit physicalQubitIndex);
+  /// Throws if the given logical qubit does not exist
+  void checkLogicalQubit(Qubit logicalQubitIndex) const;
   void checkQubitRange(Qubit qubit) const;
   void checkQubitRange(Qubit qubit, const Controls& controls) const;
   void checkQubitRange(Qubit qubit0, Qubit qubit1,
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index a14be29..416a70a 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -73,6 +73,39 @@ void printSortedRegisters(
   }
 }
 
+/**
+ * @brief Adds a register to the register map
+ * @details If a register with the given name already exists, underscores are
+ * appended to the name until it is unique.
+ */
+void addRegister(QuantumRegisterMap& regs, std::string name,
+                 const Qubit startIndex, const std::size_t size) {
+  while (regs.count(name) != 0) {
+    name += "_";
+  }
+  regs.try_emplace(name, startIndex, size, name);
+}
+
+/// Get the first index past all registers in the given register map
+std::size_t firstIndexPastRegisters(const QuantumRegisterMap& regs) {
+  std::size_t index = 0U;
+  for (const auto& [_, reg] : regs) {
+    index = std::max(index, reg.getStartIndex() + reg.getSize());
+  }
+  return index;
+}
+
+/// Get the first index from `start` on that is no value of the permutation
+Qubit firstUnusedValue(const Permutation& permutation, std::size_t start) {
+  while (std::any_of(
+      permutation.begin(), permutation.end(), [&start](const auto& mapping) {
+        return static_cast<std::size_t>(mapping.second) == start;
+      })) {
+    ++start;
+  }
+  return static_cast<Qubit>(start);
+}
+
 void consolidateRegister(QuantumRegisterMap& regs) {
   bool finished = regs.empty();
   while (!finished) {
@@ -96,7 +129,7 @@ void consolidateRegister(QuantumRegisterMap& regs) {
             auto targetnum = lownum + highnum;
             regs.erase(name);
             regs.erase(highname);
-            regs.try_emplace(targetname, targetidx, targetnum, targetname);
+            addRegister(regs, targetname, targetidx, targetnum);
           }
         }
         break;
@@ -144,8 +177,8 @@ void removeQubitfromQubitRegister(QuantumRegisterMap& regs,
     const auto highCount = count - idx - 1;
 
     regs.erase(reg.getName());
-    regs.try_emplace(lowPart, lowIndex, lowCount, lowPart);
-    regs.try_emplace(highPart, highIndex, highCount, highPart);
+    addRegister(regs, lowPart, lowIndex, lowCount);
+    addRegister(regs, highPart, highIndex, highCount);
   }
 }
 
@@ -187,7 +220,7 @@ void addQubitToQubitRegister(QuantumRegisterMap& regs, Qubit physicalQubitIndex,
   } else if (!fusionPossible) {
     const auto newRegName =
         defaultRegName + "_" + std::to_string(physicalQubitIndex);
-    regs.try_emplace(newRegName, physicalQubitIndex, 1, newRegName);
+    addRegister(regs, newRegName, physicalQubitIndex, 1);
   }
 }
 } // namespace
@@ -272,6 +305,8 @@ void QuantumComputation::initializeIOMapping() {
       auto classicIt = op->getClassics().cbegin();
       for (const auto& q : op->getTargets()) {
         const auto qubitidx = q;
+        const auto bitidx = *classicIt;
+        ++classicIt;
         // only the first measurement of a qubit is used to determine the output
         // permutation
         if (measuredQubits.count(qubitidx) != 0) {
@@ -306,8 +341,6 @@ void QuantumComputation::initializeIOMapping() {
   if (outputPermutationFromMeasurements) {
     auto it = outputPermutation.begin();
     while (it != outputPermutation.end()) {
-        const auto bitidx = *classicIt;
-        ++classicIt;
       if (measuredQubits.find(it->first) == measuredQubits.end()) {
         it = outputPermutation.erase(it);
       } else {
@@ -334,10 +367,40 @@ void QuantumComputation::initializeIOMapping() {
   }
 }
 
+void QuantumComputation::trackLogicalQubit(const Qubit logicalQubitIndex) {
+  const auto size =
+      std::max({ancillary.size(), garbage.size(),
+                static_cast<std::size_t>(logicalQubitIndex) + 1U});
+  ancillary.resize(size);
+  garbage.resize(size);
+}
+
+Qubit QuantumComputation::nextPhysicalQubitIndex() const {
+  return static_cast<Qubit>(
+      std::max({getNqubits(), firstIndexPastRegisters(quantumRegisters),
+                firstIndexPastRegisters(ancillaRegisters)}));
+}
+
+Qubit QuantumComputation::addMappings(const Qubit physicalQubitIndex) {
+  if (initialLayout.count(physicalQubitIndex) == 0) {
+    initialLayout.emplace(physicalQubitIndex,
+                          firstUnusedValue(initialLayout, getNqubits()));
+  }
+  const auto logicalQubitIndex = initialLayout.at(physicalQubitIndex);
+  if (outputPermutation.count(physicalQubitIndex) == 0) {
+    outputPermutation.emplace(
+        physicalQubitIndex,
+        firstUnusedValue(outputPermutation, logicalQubitIndex));
+  }
+  trackLogicalQubit(logicalQubitIndex);
+  return logicalQubitIndex;
+}
+
 const QuantumRegister&
 QuantumComputation::addQubitRegister(std::size_t nq,
                                      const std::string& regName) {
-  if (quantumRegisters.count(regName) != 0) {
+  if (quantumRegisters.count(regName) != 0 ||
+      ancillaRegisters.count(regName) != 0) {
     throw std::runtime_error("[addQubitRegister] Register " + regName +
                              " already exists");
   }
@@ -353,16 +416,12 @@ QuantumComputation::addQubitRegister(std::size_t nq,
         "qubits have been added");
   }
 
-  quantumRegisters.try_emplace(regName, static_cast<Qubit>(nqubits), nq,
-                               regName);
+  const auto start = nextPhysicalQubitIndex();
+  quantumRegisters.try_emplace(regName, start, nq, regName);
   for (std::size_t i = 0; i < nq; ++i) {
-    auto j = static_cast<Qubit>(nqubits + i);
-    initialLayout.emplace(j, j);
-    outputPermutation.emplace(j, j);
+    addMappings(static_cast<Qubit>(start + i));
   }
   nqubits += nq;
-  ancillary.resize(nqubits + nancillae);
-  garbage.resize(nqubits + nancillae);
   return quantumRegisters.at(regName);
 }
 
@@ -388,7 +447,8 @@ QuantumComputation::addClassicalRegister(std::size_t nc,
 const QuantumRegister&
 QuantumComputation::addAncillaryRegister(std::size_t nq,
                                          const std::string& regName) {
-  if (ancillaRegisters.count(regName) != 0) {
+  if (quantumRegisters.count(regName) != 0 ||
+      ancillaRegisters.count(regName) != 0) {
     throw std::runtime_error("[addAncillaryRegister] Register " + regName +
                              " already exists");
   }
@@ -398,15 +458,11 @@ QuantumComputation::addAncillaryRegister(std::size_t nq,
         "[addAncillaryRegister] New register size must be larger than 0");
   }
 
-  const auto totalqubits = static_cast<Qubit>(nqubits + nancillae);
-  ancillaRegisters.try_emplace(regName, totalqubits, nq, regName);
-  ancillary.resize(totalqubits + nq);
-  garbage.resize(totalqubits + nq);
+  const auto start = nextPhysicalQubitIndex();
+  ancillaRegisters.try_emplace(regName, start, nq, regName);
   for (std::size_t i = 0; i < nq; ++i) {
-    auto j = static_cast<Qubit>(totalqubits + i);
-    initialLayout.emplace(j, j);
-    outputPermutation.emplace(j, j);
-    ancillary[j] = true;
+    const auto logicalQubitIndex = addMappings(static_cast<Qubit>(start + i));
+    ancillary[logicalQubitIndex] = true;
   }
   nancillae += nq;
   return ancillaRegisters.at(regName);
@@ -448,15 +504,10 @@ QuantumComputation::removeQubit(const Qubit logicalQubitIndex) {
     outputPermutation.erase(physicalQubitIndex);
   }
 
-  // update ancillary and garbage tracking
-  const auto totalQubits = nqubits + nancillae;
-  for (std::size_t i = logicalQubitIndex; i < totalQubits; ++i) {
-    ancillary[i] = ancillary[i + 1];
-    garbage[i] = garbage[i + 1];
-  }
-  // unset last entry
-  ancillary[totalQubits] = false;
-  garbage[totalQubits] = false;
+  // update ancillary and garbage tracking (all other logical qubits keep their
+  // index)
+  ancillary[logicalQubitIndex] = false;
+  garbage[logicalQubitIndex] = false;
 
   return {physicalQubitIndex, outputQubitIndex};
 }
@@ -475,19 +526,18 @@ void QuantumComputation::addAncillaryQubit(
   addQubitToQubitRegister(ancillaRegisters, physicalQubitIndex, "anc");
 
   // index of logical qubit
-  const auto logicalQubitIndex = nqubits + nancillae;
+  const auto logicalQubitIndex =
+      firstUnusedValue(initialLayout, nqubits + nancillae);
 
   // resize ancillary and garbage tracking vectors
-  ancillary.resize(logicalQubitIndex + 1U);
-  garbage.resize(logicalQubitIndex + 1U);
+  trackLogicalQubit(logicalQubitIndex);
 
   // increase ancillae count and mark as ancillary
   nancillae++;
   ancillary[logicalQubitIndex] = true;
 
   // adjust initial layout
-  initialLayout.emplace(physicalQubitIndex,
-                        static_cast<Qubit>(logicalQubitIndex));
+  initialLayout.emplace(physicalQubitIndex, logicalQubitIndex);
 
   // adjust output permutation
   if (outputQubitIndex.has_value()) {
@@ -508,7 +558,14 @@ void QuantumComputation::addQubit(const Qubit logicalQubitIndex,
         "already assigned");
   }
 
-  if (logicalQubitIndex > nqubits) {
+  if (containsLogicalQubit(logicalQubitIndex).first) {
+    throw std::runtime_error("[addQubit] Attempting to insert logical qubit " +
+                             std::to_string(logicalQubitIndex) +
+                             " that already exists");
+  }
+
+  // logical qubits that have been removed before may always be added back
+  if (logicalQubitIndex > nqubits && logicalQubitIndex >= ancillary.size()) {
     throw std::runtime_error(
         "[addQubit] There are currently only " + std::to_string(nqubits) +
         " qubits in the circuit. Adding " + std::to_string(logicalQubitIndex) +
@@ -529,16 +586,7 @@ void QuantumComputation::addQubit(const Qubit logicalQubitIndex,
   }
 
   // update ancillary and garbage tracking
-  const auto totalQubits = nqubits + nancillae;
-  ancillary.resize(totalQubits);
-  garbage.resize(totalQubits);
-  for (auto i = totalQubits - 1; i > logicalQubitIndex; --i) {
-    ancillary[i] = ancillary[i - 1];
-    garbage[i] = garbage[i - 1];
-  }
-  // unset new entry
-  ancillary[logicalQubitIndex] = false;
-  garbage[logicalQubitIndex] = false;
+  trackLogicalQubit(logicalQubitIndex);
 }
 QuantumComputation
 QuantumComputation::instantiate(const VariableAssignment& assignment) const {
@@ -733,6 +781,10 @@ void QuantumComputation::reset() {
   ancillaRegisters.clear();
   initialLayout.clear();
   outputPermutation.clear();
+  ancillary.clear();
+  garbage.clear();
+  globalPhase = 0.;
+  occurringVariables.clear();
 }
 
 void QuantumComputation::dump(const std::string& filename,
@@ -781,23 +833,21 @@ void QuantumComputation::stripIdleQubits(bool force) {
 
       removeQubit(logicalQubitIndex);
 
-  ancillary.clear();
-  garbage.clear();
-  globalPhase = 0.;
-  occurringVariables.clear();
-      if (logicalQubitIndex < nqubits + nancillae) {
-        for (auto& [physical, logical] : initialLayout) {
-          if (logical > logicalQubitIndex) {
-            --logical;
-          }
+      // close the gap left by the removed logical qubit
+      for (auto& [physical, logical] : initialLayout) {
+        if (logical > logicalQubitIndex) {
+          --logical;
         }
+      }
 
-        for (auto& [physical, logical] : outputPermutation) {
-          if (logical > logicalQubitIndex) {
-            --logical;
-          }
+      for (auto& [physical, logical] : outputPermutation) {
+        if (logical > logicalQubitIndex) {
+          --logical;
         }
       }
+
+      ancillary.erase(ancillary.begin() + logicalQubitIndex);
+      garbage.erase(garbage.begin() + logicalQubitIndex);
     }
   }
 }
@@ -858,8 +908,17 @@ bool QuantumComputation::physicalQubitIsAncillary(
                      });
 }
 
+void QuantumComputation::checkLogicalQubit(
+    const Qubit logicalQubitIndex) const {
+  if (!containsLogicalQubit(logicalQubitIndex).first) {
+    throw std::out_of_range("Logical qubit index out of range: " +
+                            std::to_string(logicalQubitIndex));
+  }
+}
+
 void QuantumComputation::setLogicalQubitAncillary(
     const Qubit logicalQubitIndex) {
+  checkLogicalQubit(logicalQubitIndex);
   if (logicalQubitIsAncillary(logicalQubitIndex)) {
     return;
   }
@@ -877,6 +936,7 @@ void QuantumComputation::setLogicalQubitsAncillary(
 }
 
 void QuantumComputation::setLogicalQubitGarbage(const Qubit logicalQubitIndex) {
+  checkLogicalQubit(logicalQubitIndex);
   garbage[logicalQubitIndex] = true;
   // setting a logical qubit garbage also means removing it from the output
   // permutation if it was present before
@@ -943,6 +1003,7 @@ QuantumComputation::unifyQuantumRegisters(const std::string& regName) {
   quantumRegisters.clear();
   nqubits += nancillae;
   nancillae = 0;
+  ancillary.assign(ancillary.size(), false);
   quantumRegisters.try_emplace(regName, 0, nqubits, regName);
   return quantumRegisters.at(regName);
 }
@@ -950,6 +1011,8 @@ QuantumComputation::unifyQuantumRegisters(const std::string& regName) {
 void QuantumComputation::appendMeasurementsAccordingToOutputPermutation(
     const std::string& registerName) {
   // ensure that the circuit contains enough classical registers
+  const std::size_t requiredBits =
+      outputPermutation.empty() ? 0U : outputPermutation.maxValue() + 1U;
   if (classicalRegisters.empty()) {
     // in case there are no registers, create a new one
     addClassicalRegister(requiredBits, registerName);
@@ -970,7 +1033,7 @@ void QuantumComputation::appendMeasurementsAccordingToOutputPermutation(
 
 void QuantumComputation::checkQubitRange(const Qubit qubit) const {
   if (const auto it = initialLayout.find(qubit);
-      it == initialLayout.end() || it->second >= getNqubits()) {
+      it == initialLayout.end()) {
     throw std::out_of_range("Qubit index out of range: " +
                             std::to_string(qubit));
   }
@@ -1003,7 +1066,6 @@ void QuantumComputation::checkBitRange(const Bit bit) const {
     throw std::runtime_error(ss.str());
   }
 }
-  ancillary.assign(ancillary.size(), false);
 
 void QuantumComputation::checkBitRange(const std::vector<Bit>& bits) const {
   for (const auto& bit : bits) {
@@ -1018,8 +1080,6 @@ void QuantumComputation::checkClassicalRegister(
     ss << "Classical register starting at index " << creg.getStartIndex()
        << " with " << creg.getSize() << " bits is too large! The circuit has "
        << nclassics << " classical bits.";
-  const std::size_t requiredBits =
-      outputPermutation.empty() ? 0U : outputPermutation.maxValue() + 1U;
     throw std::runtime_error(ss.str());
   }
 }
-- 
2.43.0


From fcceb26d35288207fe00dd30df164fa1cc9066c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 035/149] fix: forcibly stripping idle qubits could map two
 qubits to the same output

---
 src/ir/QuantumComputation.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 416a70a..f1f1bf0 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -840,9 +840,15 @@ void QuantumComputation::stripIdleQubits(bool force) {
         }
       }
 
-      for (auto& [physical, logical] : outputPermutation) {
-        if (logical > logicalQubitIndex) {
-          --logical;
+      // outputs may only be renumbered if no other qubit yields that output
+      if (std::none_of(outputPermutation.begin(), outputPermutation.end(),
+                       [&logicalQubitIndex](const auto& mapping) {
+                         return mapping.second == logicalQubitIndex;
+                       })) {
+        for (auto& [physical, logical] : outputPermutation) {
+          if (logical > logicalQubitIndex) {
+            --logical;
+          }
         }
       }
 
-- 
2.43.0


From 4a98ea9397da605767f00cab09212618d5a073ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 036/149] fix: registers created for single qubits could reuse
 the name of another register

---
 src/ir/QuantumComputation.cpp | 45 ++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index f1f1bf0..4c569df 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -75,12 +75,13 @@ void printSortedRegisters(
 
 /**
  * @brief Adds a register to the register map
- * @details If a register with the given name already exists, underscores are
- * appended to the name until it is unique.
+ * @details If a register with the given name already exists in any of the two
+ * register maps, underscores are appended to the name until it is unique.
  */
-void addRegister(QuantumRegisterMap& regs, std::string name,
-                 const Qubit startIndex, const std::size_t size) {
-  while (regs.count(name) != 0) {
+void addRegister(QuantumRegisterMap& regs, const QuantumRegisterMap& otherRegs,
+                 std::string name, const Qubit startIndex,
+                 const std::size_t size) {
+  while (regs.count(name) != 0 || otherRegs.count(name) != 0) {
     name += "_";
   }
   regs.try_emplace(name, startIndex, size, name);
@@ -106,7 +107,8 @@ Qubit firstUnusedValue(const Permutation& permutation, std::size_t start) {
   return static_cast<Qubit>(start);
 }
 
-void consolidateRegister(QuantumRegisterMap& regs) {
+void consolidateRegister(QuantumRegisterMap& regs,
+                         const QuantumRegisterMap& otherRegs) {
   bool finished = regs.empty();
   while (!finished) {
     for (const auto& [name, qreg] : regs) {
@@ -129,7 +131,7 @@ void consolidateRegister(QuantumRegisterMap& regs) {
             auto targetnum = lownum + highnum;
             regs.erase(name);
             regs.erase(highname);
-            addRegister(regs, targetname, targetidx, targetnum);
+            addRegister(regs, otherRegs, targetname, targetidx, targetnum);
           }
         }
         break;
@@ -146,10 +148,12 @@ void consolidateRegister(QuantumRegisterMap& regs) {
  * into two new registers. The new registers are named by appending "_l" and
  * "_h" to the original register name.
  * @param regs A collection of all the registers
+ * @param otherRegs Further registers whose names must not be used
  * @param reg The name of the register containing the qubit to be removed
  * @param idx The index of the qubit in the register to be removed
  */
 void removeQubitfromQubitRegister(QuantumRegisterMap& regs,
+                                  const QuantumRegisterMap& otherRegs,
                                   QuantumRegister& reg, const Qubit idx) {
   if (idx == 0) {
     // last remaining qubit of register
@@ -177,8 +181,8 @@ void removeQubitfromQubitRegister(QuantumRegisterMap& regs,
     const auto highCount = count - idx - 1;
 
     regs.erase(reg.getName());
-    addRegister(regs, lowPart, lowIndex, lowCount);
-    addRegister(regs, highPart, highIndex, highCount);
+    addRegister(regs, otherRegs, lowPart, lowIndex, lowCount);
+    addRegister(regs, otherRegs, highPart, highIndex, highCount);
   }
 }
 
@@ -189,10 +193,13 @@ void removeQubitfromQubitRegister(QuantumRegisterMap& regs,
  * existing register, it is appended. Otherwise a new register is created with
  * the default name and the qubit index appended.
  * @param regs A collection of all the registers
+ * @param otherRegs Further registers whose names must not be used
  * @param physicalQubitIndex The index of the qubit to be added
  * @param defaultRegName The default name of the register to be created
  */
-void addQubitToQubitRegister(QuantumRegisterMap& regs, Qubit physicalQubitIndex,
+void addQubitToQubitRegister(QuantumRegisterMap& regs,
+                             const QuantumRegisterMap& otherRegs,
+                             Qubit physicalQubitIndex,
                              const std::string& defaultRegName) {
   auto fusionPossible = false;
   for (auto& [name, reg] : regs) {
@@ -213,14 +220,14 @@ void addQubitToQubitRegister(QuantumRegisterMap& regs, Qubit physicalQubitIndex,
     }
   }
 
-  consolidateRegister(regs);
+  consolidateRegister(regs, otherRegs);
 
   if (regs.empty()) {
-    regs.try_emplace(defaultRegName, physicalQubitIndex, 1, defaultRegName);
+    addRegister(regs, otherRegs, defaultRegName, physicalQubitIndex, 1);
   } else if (!fusionPossible) {
     const auto newRegName =
         defaultRegName + "_" + std::to_string(physicalQubitIndex);
-    addRegister(regs, newRegName, physicalQubitIndex, 1);
+    addRegister(regs, otherRegs, newRegName, physicalQubitIndex, 1);
   }
 }
 } // namespace
@@ -478,11 +485,13 @@ QuantumComputation::removeQubit(const Qubit logicalQubitIndex) {
   const auto& idx = reg.getLocalIndex(physicalQubitIndex);
 
   if (physicalQubitIsAncillary(physicalQubitIndex)) {
-    removeQubitfromQubitRegister(ancillaRegisters, reg, idx);
+    removeQubitfromQubitRegister(ancillaRegisters, quantumRegisters, reg,
+                                 idx);
     // reduce ancilla count
     nancillae--;
   } else {
-    removeQubitfromQubitRegister(quantumRegisters, reg, idx);
+    removeQubitfromQubitRegister(quantumRegisters, ancillaRegisters, reg,
+                                 idx);
     // reduce qubit count
     if (ancillary.at(logicalQubitIndex)) {
       // if the qubit is ancillary, it is not counted as a qubit
@@ -523,7 +532,8 @@ void QuantumComputation::addAncillaryQubit(
         "qubit that is already assigned");
   }
 
-  addQubitToQubitRegister(ancillaRegisters, physicalQubitIndex, "anc");
+  addQubitToQubitRegister(ancillaRegisters, quantumRegisters,
+                          physicalQubitIndex, "anc");
 
   // index of logical qubit
   const auto logicalQubitIndex =
@@ -574,7 +584,8 @@ void QuantumComputation::addQubit(const Qubit logicalQubitIndex,
     // register could be created and all ancillaries shifted
   }
 
-  addQubitToQubitRegister(quantumRegisters, physicalQubitIndex, "q");
+  addQubitToQubitRegister(quantumRegisters, ancillaRegisters,
+                          physicalQubitIndex, "q");
 
   // increase qubit count
   nqubits++;
-- 
2.43.0


From 9719da075b4bee5cc41e1cc35a72247b1c2c9ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 037/149] fix: removing qubits from circuits with permuted
 layouts miscounted ancillae

---
 src/ir/QuantumComputation.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 4c569df..0f4bfaa 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -485,20 +485,17 @@ QuantumComputation::removeQubit(const Qubit logicalQubitIndex) {
   const auto& idx = reg.getLocalIndex(physicalQubitIndex);
 
   if (physicalQubitIsAncillary(physicalQubitIndex)) {
-    removeQubitfromQubitRegister(ancillaRegisters, quantumRegisters, reg,
-                                 idx);
-    // reduce ancilla count
+    removeQubitfromQubitRegister(ancillaRegisters, quantumRegisters, reg, idx);
+  } else {
+    removeQubitfromQubitRegister(quantumRegisters, ancillaRegisters, reg, idx);
+  }
+
+  // reduce qubit count
+  if (ancillary.at(logicalQubitIndex)) {
+    // if the qubit is ancillary, it is not counted as a qubit
     nancillae--;
   } else {
-    removeQubitfromQubitRegister(quantumRegisters, ancillaRegisters, reg,
-                                 idx);
-    // reduce qubit count
-    if (ancillary.at(logicalQubitIndex)) {
-      // if the qubit is ancillary, it is not counted as a qubit
-      nancillae--;
-    } else {
-      nqubits--;
-    }
+    nqubits--;
   }
 
   // adjust initial layout permutation
-- 
2.43.0


From 80f6b3744d9e4358893852cfa44f4d9d58ed736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 038/149] fix: renaming the qubits of classically controlled
 compound operations missed its body

---
 .../ir/operations/ClassicControlledOperation.hpp       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
index 6466dc0..012d20e 100644
--- a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
+++ b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
@@ -22,6 +22,7 @@
 #include <memory>
 #include <optional>
 #include <ostream>
+#include <set>
 #include <string>
 
 namespace qc {
@@ -109,6 +110,15 @@ public:
     return op->actsOn(i);
   }
 
+  [[nodiscard]] auto getUsedQubitsPermuted(const Permutation& perm) const
+      -> std::set<Qubit> override {
+    return op->getUsedQubitsPermuted(perm);
+  }
+
+  void apply(const Permutation& permutation) override {
+    op->apply(permutation);
+  }
+
   void addControl(const Control c) override { op->addControl(c); }
 
   void clearControls() override { op->clearControls(); }
-- 
2.43.0


From 30ca6902b4290a00809a7e6b904dbe55ce643d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 039/149] fix: control modifiers of OpenQASM gates were
 assigned to the wrong operands

---
 src/qasm3/Importer.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 6256281..93a5fd4 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -542,10 +542,9 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                         gateCallStatement->debugInfo);
   }
 
-  controls.reserve(nControls);
-  for (size_t i = 0; i < nControls; ++i) {
-    controls.emplace_back(targets[i], true);
-  }
+  // the controls added by modifiers precede the operands of the gate itself
+  const size_t nGateControls = nControls;
+  nControls = 0;
 
   bool invertOperation = false;
   for (const auto& modifier : gateCallStatement->modifiers) {
@@ -556,10 +555,10 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                                                 gateCallStatement->debugInfo,
                                                 /*defaultValue=*/
                                                 1);
-      if (targets.size() < n + nControls) {
+      if (n > targets.size() - nGateControls - nControls) {
         throw CompilerError(
-            "Gate '" + identifier + "' takes " + std::to_string(n + nControls) +
-                " controls, but only " + std::to_string(targets.size()) +
+            "Gate '" + identifier + "' takes " +
+                std::to_string(n + nControls + nGateControls) + " controls, but only " + std::to_string(targets.size()) +
                 " were supplied.",
             gateCallStatement->debugInfo);
       }
@@ -579,6 +578,10 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                           gateCallStatement->debugInfo);
     }
   }
+  for (size_t i = 0; i < nGateControls; ++i) {
+    controls.emplace_back(targets[nControls + i], true);
+  }
+  nControls += nGateControls;
   targets.erase(targets.begin(),
                 targets.begin() + static_cast<int64_t>(nControls));
 
-- 
2.43.0


From adfaeb891b0020278670fd3d53c20d02fa8a1477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 040/149] fix: OpenQASM gate bodies saw the parameters of their
 callers

---
 include/mqt-core/qasm3/NestedEnvironment.hpp |  7 ++++---
 src/qasm3/passes/TypeCheckPass.cpp           | 10 ++++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/mqt-core/qasm3/NestedEnvironment.hpp b/include/mqt-core/qasm3/NestedEnvironment.hpp
index 34d0034..93fd0d5 100644
--- a/include/mqt-core/qasm3/NestedEnvironment.hpp
+++ b/include/mqt-core/qasm3/NestedEnvironment.hpp
@@ -26,10 +26,11 @@ public:
 
   void pop() { env.pop_back(); }
 
+  // Scoping is lexical: only the innermost and the global scope are visible.
   std::optional<T> find(std::string key) {
-    for (auto it = env.rbegin(); it != env.rend(); ++it) {
-      auto found = it->find(key);
-      if (found != it->end()) {
+    for (const auto* scope : {&env.back(), &env.front()}) {
+      const auto found = scope->find(key);
+      if (found != scope->end()) {
         return found->second;
       }
     }
diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index 126c10d..c7a643f 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -79,13 +79,15 @@ void TypeCheckPass::visitGateStatement(
   const auto oldEnv = env;
 
   for (const auto& param : gateStatement->parameters->identifiers) {
-    env.emplace(param->identifier,
-                InferredType{std::dynamic_pointer_cast<ResolvedType>(
+    env.insert_or_assign(
+        param->identifier,
+        InferredType{std::dynamic_pointer_cast<ResolvedType>(
                     DesignatedType<uint64_t>::getFloatTy(64))});
   }
   for (const auto& operand : gateStatement->qubits->identifiers) {
-    env.emplace(operand->identifier,
-                InferredType{std::dynamic_pointer_cast<ResolvedType>(
+    env.insert_or_assign(
+        operand->identifier,
+        InferredType{std::dynamic_pointer_cast<ResolvedType>(
                     DesignatedType<uint64_t>::getQubitTy(1))});
   }
 
-- 
2.43.0


From 9cc4ea81570632687589d3f7a723cff8b9905996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 041/149] fix: OpenQASM conditions ignored bit indices and the
 side of the constant

---
 src/qasm3/Importer.cpp | 58 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 6 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 93a5fd4..1a7afe7 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -47,6 +47,24 @@
 
 namespace qasm3 {
 
+namespace {
+/// Determine the comparison that results from exchanging both sides.
+qc::ComparisonKind getMirroredComparison(const qc::ComparisonKind kind) {
+  switch (kind) {
+  case qc::ComparisonKind::Lt:
+    return qc::ComparisonKind::Gt;
+  case qc::ComparisonKind::Leq:
+    return qc::ComparisonKind::Geq;
+  case qc::ComparisonKind::Gt:
+    return qc::ComparisonKind::Lt;
+  case qc::ComparisonKind::Geq:
+    return qc::ComparisonKind::Leq;
+  default:
+    return kind;
+  }
+}
+} // namespace
+
 auto Importer::importf(const std::string& filename) -> qc::QuantumComputation {
   std::ifstream file(filename);
   if (!file.good()) {
@@ -225,9 +243,30 @@ Importer::translateCondition(
         lhsIsIdentifier ? std::dynamic_pointer_cast<IndexedIdentifier>(lhs)
                         : std::dynamic_pointer_cast<IndexedIdentifier>(rhs);
     const auto& identifier = indexedIdentifier->identifier;
-    const auto val = lhsIsIdentifier
-                         ? std::dynamic_pointer_cast<Constant>(rhs)->getUInt()
-                         : std::dynamic_pointer_cast<Constant>(lhs)->getUInt();
+    const auto constant =
+        std::dynamic_pointer_cast<Constant>(lhsIsIdentifier ? rhs : lhs);
+    if (constant->isFP() || (constant->isSInt() && constant->getSInt() < 0)) {
+      throw CompilerError("Classical registers may only be compared with "
+                          "unsigned integers.",
+                          debugInfo);
+    }
+    const auto val = constant->isBool()
+                         ? static_cast<std::uint64_t>(constant->getBool())
+                         : constant->getUInt();
+
+    if (!indexedIdentifier->indices.empty()) {
+      // comparison of a single bit
+      std::vector<qc::Bit> bits{};
+      translateBitOperand(indexedIdentifier, bits, debugInfo);
+      if (val > 1 || (*comparisonKind != qc::ComparisonKind::Eq &&
+                      *comparisonKind != qc::ComparisonKind::Neq)) {
+        throw CompilerError(
+            "Bits may only be compared for (in)equality with 0 or 1.",
+            debugInfo);
+      }
+      return std::pair{bits[0],
+                       (val == 1) == (*comparisonKind == qc::ComparisonKind::Eq)};
+    }
 
     const auto creg = qc->getClassicalRegisters().find(identifier);
     if (creg == qc->getClassicalRegisters().end()) {
@@ -235,7 +274,10 @@ Importer::translateCondition(
                               identifier + "' in condition.",
                           debugInfo);
     }
-    return std::tuple{creg->second, *comparisonKind, val};
+    return std::tuple{creg->second,
+                      lhsIsIdentifier ? *comparisonKind
+                                      : getMirroredComparison(*comparisonKind),
+                      val};
   }
   if (const auto unaryExpression =
           std::dynamic_pointer_cast<UnaryExpression>(condition);
@@ -245,6 +287,9 @@ Importer::translateCondition(
            unaryExpression->op == UnaryExpression::BitwiseNot);
     const auto& indexedIdentifier =
         std::dynamic_pointer_cast<IndexedIdentifier>(unaryExpression->operand);
+    if (indexedIdentifier == nullptr) {
+      throw CompilerError("Unsupported condition.", debugInfo);
+    }
     std::vector<qc::Bit> bits{};
     translateBitOperand(indexedIdentifier, bits, debugInfo);
     // This should already be caught by the type checker.
@@ -254,8 +299,9 @@ Importer::translateCondition(
   // must be a single bit at this point
   const auto& indexedIdentifier =
       std::dynamic_pointer_cast<IndexedIdentifier>(condition);
-  // should also be caught by the type checker
-  assert(indexedIdentifier != nullptr);
+  if (indexedIdentifier == nullptr) {
+    throw CompilerError("Unsupported condition.", debugInfo);
+  }
   std::vector<qc::Bit> bits{};
   translateBitOperand(indexedIdentifier, bits, debugInfo);
   // This should already be caught by the type checker.
-- 
2.43.0


From 248a3ccb3874d4030d91ee0f8a24d430a19d830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 042/149] fix: type checking indexed identifiers changed the
 declared type

---
 src/qasm3/passes/TypeCheckPass.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index c7a643f..6b8cb3e 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -25,6 +25,18 @@
 
 namespace qasm3::type_checking {
 
+namespace {
+/// Types are shared with the declarations and must not be modified in place.
+InferredType withDesignator(const InferredType& ty, const uint64_t designator) {
+  if (const auto sized =
+          std::dynamic_pointer_cast<DesignatedType<uint64_t>>(ty.type)) {
+    return InferredType{std::dynamic_pointer_cast<ResolvedType>(
+        std::make_shared<DesignatedType<uint64_t>>(sized->type, designator))};
+  }
+  return ty;
+}
+} // namespace
+
 InferredType TypeCheckPass::error(const std::string& msg,
                                   const std::shared_ptr<DebugInfo>& debugInfo) {
   std::cerr << "Type check error: " << msg << '\n';
@@ -210,8 +222,8 @@ InferredType TypeCheckPass::visitBinaryExpression(
       // coerce to float or signed int
       ty = rhs;
     }
-    ty.type->setDesignator(
-        std::max(lhs.type->getDesignator(), rhs.type->getDesignator()));
+    ty = withDesignator(
+        ty, std::max(lhs.type->getDesignator(), rhs.type->getDesignator()));
   } else if (lhs.type != rhs.type) {
     std::stringstream ss;
     ss << "Type mismatch in binary expression: ";
@@ -349,9 +361,11 @@ InferredType TypeCheckPass::visitIndexedIdentifier(
   if (indexedIdentifier->indices.empty()) {
     return type;
   }
+  if (type.isError) {
+    return type;
+  }
   // Assume that indexed access always results in a single element
-  type.type->setDesignator(1);
-  return type;
+  return withDesignator(type, 1);
 }
 
 InferredType TypeCheckPass::visitMeasureExpression(
-- 
2.43.0


From 81a49e84436985d15d9219db6b11c6ec7bcae63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 043/149] fix: unknown identifiers crashed the type check of
 OpenQASM programs

---
 src/qasm3/passes/TypeCheckPass.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index 6b8cb3e..c2de2bf 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -180,7 +180,7 @@ void TypeCheckPass::visitAssignmentStatement(
     return;
   }
 
-  if (!idTy->second.type->fits(*exprTy.type)) {
+  if (!exprTy.isError && !idTy->second.type->fits(*exprTy.type)) {
     std::stringstream ss;
     ss << "Type mismatch in assignment. Expected '";
     ss << idTy->second.type->toString();
@@ -280,6 +280,9 @@ InferredType TypeCheckPass::visitBinaryExpression(
 InferredType TypeCheckPass::visitUnaryExpression(
     const std::shared_ptr<UnaryExpression> unaryExpression) {
   auto type = visit(unaryExpression->operand);
+  if (type.isError) {
+    return type;
+  }
 
   switch (unaryExpression->op) {
   case UnaryExpression::BitwiseNot:
-- 
2.43.0


From 4a409a9f1ce6c33a61d235b115a8354edb1d215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 044/149] fix: integer arithmetic in OpenQASM constants could
 crash, hang or yield wrong powers

---
 src/qasm3/passes/ConstEvalPass.cpp | 33 ++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 888bccc..d7f75f9 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -29,19 +29,34 @@
 namespace qasm3::const_eval {
 namespace {
 template <typename T> T power(T base, T exponent) {
-  if (exponent == 0) {
-    return 1;
+  // powers of 0, 1, and -1 never overflow
+  if (base == 0 || base == 1 || base == static_cast<T>(-1)) {
+    if (exponent == 0) {
+      return 1;
+    }
+    return (std::is_signed_v<T> && base != 0 && exponent % 2 == 0) ? 1 : base;
   }
 
   T result = 1;
   for (T i = 0; i < exponent; ++i) {
-    if (result > std::numeric_limits<T>::max() / base) {
+    if (std::abs(static_cast<double>(result) * static_cast<double>(base)) >=
+        static_cast<double>(std::numeric_limits<T>::max())) {
       throw ConstEvalError("Integer overflow in constant evaluation.");
     }
     result *= base;
   }
   return result;
 }
+
+/// Integer division and its remainder are not defined for all operands.
+void checkDivision(const int64_t lhs, const int64_t rhs, const bool isSigned) {
+  if (rhs == 0) {
+    throw ConstEvalError("Division by zero in constant evaluation.");
+  }
+  if (isSigned && rhs == -1 && lhs == std::numeric_limits<int64_t>::min()) {
+    throw ConstEvalError("Integer overflow in constant evaluation.");
+  }
+}
 } // namespace
 
 void ConstEvalPass::processStatement(Statement& statement) {
@@ -180,6 +195,10 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
   // such as addition and subtraction we can use the unsigned version directly.
   switch (op) {
   case BinaryExpression::Power:
+    if (isSigned && rhs < 0) {
+      return ConstEvalValue{
+          std::pow(static_cast<double>(lhs), static_cast<double>(rhs))};
+    }
     if (isSigned) {
       result.value = power(lhs, rhs);
     } else {
@@ -193,13 +212,10 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
     result.value = static_cast<int64_t>(lhsU - rhsU);
     break;
   case BinaryExpression::Multiply:
-    if (isSigned) {
-      result.value = lhs * rhs;
-    } else {
-      result.value = static_cast<int64_t>(lhsU * rhsU);
-    }
+    result.value = static_cast<int64_t>(lhsU * rhsU);
     break;
   case BinaryExpression::Divide:
+    checkDivision(lhs, rhs, isSigned);
     if (isSigned) {
       result.value = lhs / rhs;
     } else {
@@ -207,6 +223,7 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
     }
     break;
   case BinaryExpression::Modulo:
+    checkDivision(lhs, rhs, isSigned);
     if (isSigned) {
       result.value = lhs % rhs;
     } else {
-- 
2.43.0


From 10d84057d49f011cf141877c47599a10bbc5a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 045/149] fix: OpenQASM constants and function arguments were
 not converted to floating point

---
 src/qasm3/passes/ConstEvalPass.cpp | 34 +++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index d7f75f9..8e90f52 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -59,6 +59,21 @@ void checkDivision(const int64_t lhs, const int64_t rhs, const bool isSigned) {
 }
 } // namespace
 
+namespace {
+/// Convert an integer value to a floating point value.
+ConstEvalValue toFloat(const ConstEvalValue& value) {
+  switch (value.type) {
+  case ConstEvalValue::Type::ConstInt:
+    return ConstEvalValue{static_cast<double>(std::get<0>(value.value))};
+  case ConstEvalValue::Type::ConstUint:
+    return ConstEvalValue{static_cast<double>(
+        static_cast<uint64_t>(std::get<0>(value.value)))};
+  default:
+    return value;
+  }
+}
+} // namespace
+
 void ConstEvalPass::processStatement(Statement& statement) {
   try {
     statement.accept(this);
@@ -78,11 +93,15 @@ void ConstEvalPass::visitDeclarationStatement(
         "Constant declaration initialization expression must be initialized.");
   }
 
-  const auto value = visit(declarationStatement->expression->expression);
+  auto value = visit(declarationStatement->expression->expression);
   if (!value) {
     throw ConstEvalError(
         "Constant declaration initialization expression must be const.");
   }
+  if (const auto ty = std::get<0>(declarationStatement->type)->accept(this);
+      ty != nullptr && ty->isFP()) {
+    value = toFloat(*value);
+  }
 
   declarationStatement->expression->expression = value->toExpr();
 
@@ -494,6 +513,19 @@ std::optional<ConstEvalValue> ConstEvalPass::visitUnaryExpression(
 
   // For each unary operator, we need to check the type of the operand and
   // determine whether the operation is valid.
+  switch (unaryExpression->op) {
+  case UnaryExpression::Sin:
+  case UnaryExpression::Cos:
+  case UnaryExpression::Tan:
+  case UnaryExpression::Exp:
+  case UnaryExpression::Ln:
+  case UnaryExpression::Sqrt:
+    val = toFloat(*val);
+    break;
+  default:
+    break;
+  }
+
   switch (unaryExpression->op) {
   case UnaryExpression::BitwiseNot:
     if (val->type != ConstEvalValue::Type::ConstInt &&
-- 
2.43.0


From 19bd16c4be3f0849bb00f46703c8595994e99ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 046/149] fix: recursive OpenQASM gates crashed the importer

---
 include/mqt-core/qasm3/Importer.hpp | 3 +++
 src/qasm3/Importer.cpp              | 9 ++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/mqt-core/qasm3/Importer.hpp b/include/mqt-core/qasm3/Importer.hpp
index 2d4b69d..d0bc63a 100644
--- a/include/mqt-core/qasm3/Importer.hpp
+++ b/include/mqt-core/qasm3/Importer.hpp
@@ -91,6 +91,9 @@ private:
 
   std::map<std::string, std::shared_ptr<Gate>> gates;
 
+  /// The gates whose bodies are currently being translated.
+  std::vector<const Gate*> activeGates;
+
   bool openQASM2CompatMode{false};
 
   qc::Permutation initialLayout;
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 1a7afe7..913ed70 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -801,6 +801,11 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
     return op;
   }
   if (auto* compoundGate = dynamic_cast<CompoundGate*>(gate.get())) {
+    if (std::find(activeGates.begin(), activeGates.end(), compoundGate) !=
+        activeGates.end()) {
+      throw CompilerError("Gates must not be defined recursively.", debugInfo);
+    }
+    activeGates.emplace_back(compoundGate);
     constEvalPass.pushEnv();
 
     for (size_t i = 0; i < compoundGate->parameterNames.size(); ++i) {
@@ -858,9 +863,6 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
             evaluateGateCall(gateCallStatement, gateCallStatement->identifier,
                              gateCallStatement->arguments,
                              gateCallStatement->operands, nestedQubits);
-        if (nestedOp == nullptr) {
-          return nullptr;
-        }
         op->getOps().emplace_back(std::move(nestedOp));
       } else {
         throw CompilerError("Unhandled quantum statement.", debugInfo);
@@ -872,6 +874,7 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
     }
 
     constEvalPass.popEnv();
+    activeGates.pop_back();
 
     if (op->getOps().size() == 1) {
       return std::move(op->getOps()[0]);
-- 
2.43.0


From 5e7e322f67a8a1f1f3048a7401876b098490c1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 047/149] fix: subtraction of OpenQASM number literals without
 spaces was rejected

---
 include/mqt-core/qasm3/Parser.hpp  | 7 ++++++-
 include/mqt-core/qasm3/Scanner.hpp | 7 ++++++-
 src/qasm3/Scanner.cpp              | 4 ++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/qasm3/Parser.hpp b/include/mqt-core/qasm3/Parser.hpp
index 9c7c477..9505584 100644
--- a/include/mqt-core/qasm3/Parser.hpp
+++ b/include/mqt-core/qasm3/Parser.hpp
@@ -51,7 +51,12 @@ class Parser final {
     bool scan() {
       last = t;
       t = next;
-      next = scanner->next();
+      const auto followsOperand = t.kind == Token::Kind::Identifier ||
+                                  t.kind == Token::Kind::IntegerLiteral ||
+                                  t.kind == Token::Kind::FloatLiteral ||
+                                  t.kind == Token::Kind::RParen ||
+                                  t.kind == Token::Kind::RBracket;
+      next = scanner->next(followsOperand);
 
       return t.kind != Token::Kind::Eof;
     }
diff --git a/include/mqt-core/qasm3/Scanner.hpp b/include/mqt-core/qasm3/Scanner.hpp
index e4c864e..e1de067 100644
--- a/include/mqt-core/qasm3/Scanner.hpp
+++ b/include/mqt-core/qasm3/Scanner.hpp
@@ -68,6 +68,11 @@ public:
 
   ~Scanner() = default;
 
-  Token next();
+  /**
+   * @brief Scans the next token
+   * @param followsOperand Whether the token follows an operand, in which case a
+   * minus is an operator and not part of a number literal.
+   */
+  Token next(bool followsOperand = false);
 };
 } // namespace qasm3
diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 3aa87f8..faa0c56 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -408,7 +408,7 @@ Scanner::Scanner(std::istream* in) : is(in) {
   nextCh();
 }
 
-Token Scanner::next() {
+Token Scanner::next(const bool followsOperand) {
   if (const auto commentToken = consumeWhitespaceAndComments()) {
     return *commentToken;
   }
@@ -417,7 +417,7 @@ Token Scanner::next() {
     return consumeName();
   }
   if (isNum(ch) || (ch == '.' && isNum(peek())) ||
-      (ch == '-' && isNum(peek()))) {
+      (ch == '-' && isNum(peek()) && !followsOperand)) {
     return consumeNumberLiteral();
   }
   if (ch == '$') {
-- 
2.43.0


From 73bb95bd62328edd970a2f4d6a4ef6d902cc2ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 048/149] fix: negation of unsigned constants and of powers in
 OpenQASM expressions

---
 src/qasm3/Parser.cpp               | 2 +-
 src/qasm3/passes/ConstEvalPass.cpp | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 8b8698b..ed48457 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -655,7 +655,7 @@ std::shared_ptr<Expression> Parser::exponentiation() {
   switch (current().kind) {
   case Token::Kind::Minus: {
     scan();
-    const auto x = exponentiation();
+    const auto x = factor();
     return std::make_shared<UnaryExpression>(
         UnaryExpression{UnaryExpression::Op::Negate, x});
   }
diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 8e90f52..17bed76 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -542,8 +542,11 @@ std::optional<ConstEvalValue> ConstEvalPass::visitUnaryExpression(
     }
     break;
   case UnaryExpression::Negate:
-    if (val->type == ConstEvalValue::Type::ConstInt) {
-      val->value = -std::get<0>(val->value);
+    if (val->type == ConstEvalValue::Type::ConstInt ||
+        val->type == ConstEvalValue::Type::ConstUint) {
+      val->type = ConstEvalValue::Type::ConstInt;
+      val->value = static_cast<int64_t>(
+          -static_cast<uint64_t>(std::get<0>(val->value)));
     } else if (val->type == ConstEvalValue::Type::ConstFloat) {
       val->value = -std::get<1>(val->value);
     } else {
-- 
2.43.0


From 5b7ebf63e6da27139a3a7b014258400dfcca55f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 049/149] fix: constant expressions were not evaluated
 everywhere in OpenQASM programs

---
 include/mqt-core/qasm3/Importer.hpp | 13 ++++++-------
 src/qasm3/Importer.cpp              | 23 ++++++++++++++---------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/mqt-core/qasm3/Importer.hpp b/include/mqt-core/qasm3/Importer.hpp
index d0bc63a..905c0ee 100644
--- a/include/mqt-core/qasm3/Importer.hpp
+++ b/include/mqt-core/qasm3/Importer.hpp
@@ -106,12 +106,12 @@ private:
   void translateGateOperand(const std::shared_ptr<GateOperand>& gateOperand,
                             std::vector<qc::Qubit>& qubits,
                             const qc::QuantumRegisterMap& qregs,
-                            const std::shared_ptr<DebugInfo>& debugInfo) const;
+                            const std::shared_ptr<DebugInfo>& debugInfo);
 
   void translateBitOperand(
       const std::shared_ptr<IndexedIdentifier>& indexedIdentifier,
       std::vector<qc::Bit>& bits,
-      const std::shared_ptr<DebugInfo>& debugInfo) const;
+      const std::shared_ptr<DebugInfo>& debugInfo);
 
   /**
    * @brief Translates a condition expression
@@ -125,12 +125,11 @@ private:
       std::pair<qc::Bit, bool>,
       std::tuple<qc::ClassicalRegister, qc::ComparisonKind, uint64_t>>
   translateCondition(const std::shared_ptr<Expression>& condition,
-                     const std::shared_ptr<DebugInfo>& debugInfo) const;
+                     const std::shared_ptr<DebugInfo>& debugInfo);
 
-  static uint64_t
-  evaluatePositiveConstant(const std::shared_ptr<Expression>& expr,
-                           const std::shared_ptr<DebugInfo>& debugInfo,
-                           uint64_t defaultValue = 0);
+  uint64_t evaluatePositiveConstant(const std::shared_ptr<Expression>& expr,
+                                    const std::shared_ptr<DebugInfo>& debugInfo,
+                                    uint64_t defaultValue = 0);
 
   void visitVersionDeclaration(
       std::shared_ptr<VersionDeclaration> versionDeclaration) override;
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 913ed70..84ce5b5 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -119,7 +119,7 @@ Importer::initializeBuiltins() {
 void Importer::translateGateOperand(
     const std::shared_ptr<GateOperand>& gateOperand,
     std::vector<qc::Qubit>& qubits, const qc::QuantumRegisterMap& qregs,
-    const std::shared_ptr<DebugInfo>& debugInfo) const {
+    const std::shared_ptr<DebugInfo>& debugInfo) {
   if (gateOperand->isHardwareQubit()) {
     const auto hardwareQubit = gateOperand->getHardwareQubit();
     // Ensure that the circuit has enough qubits.
@@ -171,8 +171,7 @@ void Importer::translateGateOperand(
 
 void Importer::translateBitOperand(
     const std::shared_ptr<IndexedIdentifier>& indexedIdentifier,
-    std::vector<qc::Bit>& bits,
-    const std::shared_ptr<DebugInfo>& debugInfo) const {
+    std::vector<qc::Bit>& bits, const std::shared_ptr<DebugInfo>& debugInfo) {
   const auto iter =
       qc->getClassicalRegisters().find(indexedIdentifier->identifier);
   if (iter == qc->getClassicalRegisters().end()) {
@@ -210,9 +209,8 @@ void Importer::translateBitOperand(
 
 std::variant<std::pair<qc::Bit, bool>,
              std::tuple<qc::ClassicalRegister, qc::ComparisonKind, uint64_t>>
-Importer::translateCondition(
-    const std::shared_ptr<Expression>& condition,
-    const std::shared_ptr<DebugInfo>& debugInfo) const {
+Importer::translateCondition(const std::shared_ptr<Expression>& condition,
+                             const std::shared_ptr<DebugInfo>& debugInfo) {
   if (const auto binaryExpression =
           std::dynamic_pointer_cast<BinaryExpression>(condition);
       binaryExpression != nullptr) {
@@ -317,12 +315,19 @@ Importer::evaluatePositiveConstant(const std::shared_ptr<Expression>& expr,
     return defaultValue;
   }
 
-  const auto constInt = std::dynamic_pointer_cast<Constant>(expr);
-  if (!constInt) {
+  const auto value = constEvalPass.visit(expr);
+  if (!value.has_value() ||
+      (value->type != const_eval::ConstEvalValue::Type::ConstInt &&
+       value->type != const_eval::ConstEvalValue::Type::ConstUint)) {
     throw CompilerError("Expected a constant integer expression.", debugInfo);
   }
+  const auto result = std::get<std::int64_t>(value->value);
+  if (value->type == const_eval::ConstEvalValue::Type::ConstInt && result < 0) {
+    throw CompilerError("Expected a non-negative integer expression.",
+                        debugInfo);
+  }
 
-  return constInt->getUInt();
+  return static_cast<std::uint64_t>(result);
 }
 
 Importer::Importer(qc::QuantumComputation& quantumComputation)
-- 
2.43.0


From bdf50c1111065e3c3d0f9ea3be8015700b9b1536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 050/149] fix: includes had to be followed by a statement other
 than an include

---
 src/qasm3/Parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index ed48457..f6f05f8 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -143,6 +143,12 @@ std::vector<std::shared_ptr<Statement>> Parser::parseProgram() {
       }
     }
 
+    if (current().kind == Token::Kind::Include) {
+      // the include statement just adds a new file to the scanner
+      parseInclude();
+      continue;
+    }
+
     statements.push_back(parseStatement());
   }
   return statements;
-- 
2.43.0


From adef563ec10ae4deee329719fc26e08ad8bba9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 051/149] fix: user-defined OpenQASM 2 gates were mistaken for
 controlled user-defined gates

---
 src/qasm3/Importer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 84ce5b5..54abf93 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -480,8 +480,13 @@ void Importer::visitGateStatement(
   }
 
   if (openQASM2CompatMode) {
-    // we need to check if this is a standard gate
-    identifier = parseGateIdentifierCompatMode(identifier).first;
+    // we need to check if this is a (controlled) standard gate
+    const auto base = parseGateIdentifierCompatMode(identifier).first;
+    if (const auto it = gates.find(base);
+        it != gates.end() &&
+        std::dynamic_pointer_cast<StandardGate>(it->second) != nullptr) {
+      identifier = base;
+    }
   }
 
   if (auto prevDeclaration = gates.find(identifier);
-- 
2.43.0


From 452b7fddece2a61bbfceb93a0eed2e3c4dbfc27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 052/149] fix: OpenQASM version declarations without minor
 version were rejected

---
 src/qasm3/Parser.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index f6f05f8..9251c3d 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -112,10 +112,14 @@ Parser::Parser(std::istream& is, const bool implicitlyIncludeStdgates) {
 
 std::shared_ptr<VersionDeclaration> Parser::parseVersionDeclaration() {
   auto const tBegin = expect(Token::Kind::OpenQasm);
-  Token const versionToken = expect(Token::Kind::FloatLiteral);
+  const auto isInteger = current().kind == Token::Kind::IntegerLiteral;
+  Token const versionToken = expect(isInteger ? Token::Kind::IntegerLiteral
+                                              : Token::Kind::FloatLiteral);
   auto const tEnd = expect(Token::Kind::Semicolon);
-  return std::make_shared<VersionDeclaration>(makeDebugInfo(tBegin, tEnd),
-                                              versionToken.valReal);
+  return std::make_shared<VersionDeclaration>(
+      makeDebugInfo(tBegin, tEnd), isInteger
+                                       ? static_cast<double>(versionToken.val)
+                                       : versionToken.valReal);
 }
 
 std::vector<std::shared_ptr<Statement>> Parser::parseProgram() {
-- 
2.43.0


From 052e34baadfd7db5ff3a6cba77c690f3c0915b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 053/149] fix: non-finite OpenQASM gate parameters were
 accepted

---
 src/qasm3/Importer.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 54abf93..484f178 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -30,6 +30,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <fstream>
@@ -661,7 +662,15 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
           gateCallStatement->debugInfo);
     }
 
+    if (result->type == const_eval::ConstEvalValue::Type::ConstBool) {
+      throw CompilerError("Gate parameters must be numbers.",
+                          gateCallStatement->debugInfo);
+    }
     evaluatedParameters.emplace_back(result->toExpr()->asFP());
+    if (!std::isfinite(evaluatedParameters.back())) {
+      throw CompilerError("Gate parameters must be finite.",
+                          gateCallStatement->debugInfo);
+    }
   }
 
   size_t broadcastingWidth{1};
-- 
2.43.0


From 6455f43cc72ad757569c70110f814dcc43b018c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 054/149] fix: undeclared qubits in OpenQASM gate bodies were
 accepted

---
 src/qasm3/Importer.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 484f178..1c4cb0c 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -525,6 +525,29 @@ void Importer::visitGateStatement(
     qubitIdentifiers.emplace_back(qubit->identifier);
   }
 
+  // only the qubits of the gate may be used in its body
+  const auto checkOperand = [&](const std::shared_ptr<GateOperand>& operand) {
+    if (!operand->isHardwareQubit() &&
+        std::find(qubitIdentifiers.begin(), qubitIdentifiers.end(),
+                  operand->getIdentifier()->identifier) ==
+            qubitIdentifiers.end()) {
+      throw CompilerError("Usage of unknown quantum register.",
+                          gateStatement->debugInfo);
+    }
+  };
+  for (const auto& statement : gateStatement->statements) {
+    if (const auto call =
+            std::dynamic_pointer_cast<GateCallStatement>(statement)) {
+      std::for_each(call->operands.begin(), call->operands.end(), checkOperand);
+    } else if (const auto barrier =
+                   std::dynamic_pointer_cast<BarrierStatement>(statement)) {
+      std::for_each(barrier->gates.begin(), barrier->gates.end(), checkOperand);
+    } else if (const auto reset =
+                   std::dynamic_pointer_cast<ResetStatement>(statement)) {
+      checkOperand(reset->gate);
+    }
+  }
+
   auto compoundGate = std::make_shared<CompoundGate>(CompoundGate(
       parameterIdentifiers, qubitIdentifiers, gateStatement->statements));
 
-- 
2.43.0


From 4c03a5133d2bda468b1edc3bef99e887950ef8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 055/149] fix: malformed number literals in OpenQASM programs
 were accepted or not diagnosed

---
 include/mqt-core/qasm3/Scanner.hpp |  5 +++--
 src/qasm3/Scanner.cpp              | 28 +++++++++++++++++++---------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/mqt-core/qasm3/Scanner.hpp b/include/mqt-core/qasm3/Scanner.hpp
index e1de067..af44d98 100644
--- a/include/mqt-core/qasm3/Scanner.hpp
+++ b/include/mqt-core/qasm3/Scanner.hpp
@@ -49,7 +49,8 @@ class Scanner {
 
   std::string consumeNumberLiteral(uint8_t base);
 
-  static uint64_t parseIntegerLiteral(const std::string& str, uint8_t base);
+  [[nodiscard]] uint64_t parseIntegerLiteral(const std::string& str,
+                                             uint8_t base) const;
 
   Token consumeNumberLiteral();
 
@@ -59,7 +60,7 @@ class Scanner {
 
   Token consumeName();
 
-  void error(const std::string& msg) const;
+  [[noreturn]] void error(const std::string& msg) const;
 
   void expect(char expected);
 
diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index faa0c56..c075a2b 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -10,13 +10,15 @@
 
 #include "qasm3/Scanner.hpp"
 
+#include "qasm3/Exception.hpp"
 #include "ir/Definitions.hpp"
 #include "qasm3/Token.hpp"
 
 #include <algorithm>
 #include <cctype>
 #include <cstdint>
-#include <iostream>
+#include <limits>
+#include <memory>
 #include <istream>
 #include <optional>
 #include <regex>
@@ -125,8 +127,7 @@ Token Scanner::consumeName() {
 }
 
 void Scanner::error(const std::string& msg) const {
-  std::cerr << "Error at line " << line << ", column " << col << ": " << msg
-            << '\n';
+  throw CompilerError(msg, std::make_shared<DebugInfo>(line, col, "<input>"));
 }
 
 void Scanner::expect(const char expected) {
@@ -166,16 +167,24 @@ std::string Scanner::consumeNumberLiteral(const uint8_t base) {
 }
 
 uint64_t Scanner::parseIntegerLiteral(const std::string& str,
-                                      const uint8_t base) {
+                                      const uint8_t base) const {
+  if (str.empty()) {
+    error("Expected digits in integer literal");
+  }
   uint64_t val = 0;
   for (const auto c : str) {
+    uint64_t digit = 0;
     if (isNum(c)) {
-      val *= base;
-      val += static_cast<uint64_t>(c) - '0';
+      digit = static_cast<uint64_t>(c - '0');
+    } else if (c >= 'a') {
+      digit = static_cast<uint64_t>(c - 'a') + 10;
     } else {
-      val *= base;
-      val += static_cast<uint64_t>(c) - 'a' + 10;
+      digit = static_cast<uint64_t>(c - 'A') + 10;
+    }
+    if (val > (std::numeric_limits<uint64_t>::max() - digit) / base) {
+      error("Integer literal is too large");
     }
+    val = val * base + digit;
   }
   return val;
 }
@@ -246,7 +255,7 @@ Token Scanner::consumeNumberLiteral() {
 
     try {
       t.valReal = std::stod(ss.str());
-    } catch (std::invalid_argument&) {
+    } catch (const std::logic_error&) {
       error("Unable to parse float literal");
     }
 
@@ -255,6 +264,7 @@ Token Scanner::consumeNumberLiteral() {
       t.valReal *= -1;
     }
   } else {
+    // negated below, if necessary
     t.val = static_cast<int64_t>(
         parseIntegerLiteral(valBeforeDecimalSeparator, base));
     t.kind = Token::Kind::IntegerLiteral;
-- 
2.43.0


From 9759982c499684532e5509309a1624944d2adafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 056/149] fix: ordinary comments were mistaken for OpenQASM
 layout specifications and malformed layouts were accepted

---
 include/mqt-core/qasm3/Importer.hpp |   2 +
 include/mqt-core/qasm3/Parser.hpp   |   2 +-
 src/qasm3/Importer.cpp              |  21 ++++++
 src/qasm3/Parser.cpp                |  30 +++++---
 src/qasm3/Scanner.cpp               | 105 +++++++++++++++++-----------
 5 files changed, 109 insertions(+), 51 deletions(-)

diff --git a/include/mqt-core/qasm3/Importer.hpp b/include/mqt-core/qasm3/Importer.hpp
index 905c0ee..89952c4 100644
--- a/include/mqt-core/qasm3/Importer.hpp
+++ b/include/mqt-core/qasm3/Importer.hpp
@@ -97,7 +97,9 @@ private:
   bool openQASM2CompatMode{false};
 
   qc::Permutation initialLayout;
+  std::shared_ptr<DebugInfo> initialLayoutDebugInfo;
   qc::Permutation outputPermutation;
+  std::shared_ptr<DebugInfo> outputPermutationDebugInfo;
 
   static std::map<std::string, std::pair<const_eval::ConstEvalValue,
                                          type_checking::InferredType>>
diff --git a/include/mqt-core/qasm3/Parser.hpp b/include/mqt-core/qasm3/Parser.hpp
index 9505584..a02cb5c 100644
--- a/include/mqt-core/qasm3/Parser.hpp
+++ b/include/mqt-core/qasm3/Parser.hpp
@@ -156,7 +156,7 @@ public:
 
   std::shared_ptr<Expression> parseTypeDesignator();
 
-  static qc::Permutation parsePermutation(std::string s);
+  qc::Permutation parsePermutation(const Token& token);
 
   void scan();
 
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 1c4cb0c..a78248a 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -356,9 +356,28 @@ void Importer::visitProgram(
   // Finally, if we have a initial layout and output permutation specified,
   // apply them.
   if (!initialLayout.empty()) {
+    if (initialLayout.size() != qc->initialLayout.size() ||
+        !std::all_of(initialLayout.begin(), initialLayout.end(),
+                     [this](const auto& entry) {
+                       return qc->initialLayout.find(entry.first) !=
+                              qc->initialLayout.end();
+                     })) {
+      throw CompilerError(
+          "The initial layout does not match the qubits of the program.",
+          initialLayoutDebugInfo);
+    }
     qc->initialLayout = initialLayout;
   }
   if (!outputPermutation.empty()) {
+    if (!std::all_of(outputPermutation.begin(), outputPermutation.end(),
+                     [this](const auto& entry) {
+                       return qc->initialLayout.find(entry.first) !=
+                              qc->initialLayout.end();
+                     })) {
+      throw CompilerError(
+          "The output permutation does not match the qubits of the program.",
+          outputPermutationDebugInfo);
+    }
     qc->outputPermutation = outputPermutation;
   }
 }
@@ -456,6 +475,7 @@ void Importer::visitInitialLayout(const std::shared_ptr<InitialLayout> layout) {
                         layout->debugInfo);
   }
   initialLayout = layout->permutation;
+  initialLayoutDebugInfo = layout->debugInfo;
 }
 
 void Importer::visitOutputPermutation(
@@ -465,6 +485,7 @@ void Importer::visitOutputPermutation(
                         permutation->debugInfo);
   }
   outputPermutation = permutation->permutation;
+  outputPermutationDebugInfo = permutation->debugInfo;
 }
 
 void Importer::visitGateStatement(
diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 9251c3d..4f2cac2 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -18,12 +18,13 @@
 #include "qasm3/Token.hpp"
 #include "qasm3/Types.hpp"
 
+#include <algorithm>
 #include <cstdint>
 #include <fstream>
 #include <istream>
+#include <limits>
 #include <memory>
 #include <optional>
-#include <regex>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -187,13 +188,13 @@ std::shared_ptr<Statement> Parser::parseStatement() {
     const auto tBegin = current();
     scan();
     return std::make_shared<InitialLayout>(
-        InitialLayout{makeDebugInfo(tBegin), parsePermutation(tBegin.str)});
+        InitialLayout{makeDebugInfo(tBegin), parsePermutation(tBegin)});
   }
   if (current().kind == Token::Kind::OutputPermutation) {
     const auto tBegin = current();
     scan();
     return std::make_shared<OutputPermutation>(
-        OutputPermutation{makeDebugInfo(tBegin), parsePermutation(tBegin.str)});
+        OutputPermutation{makeDebugInfo(tBegin), parsePermutation(tBegin)});
   }
 
   if (current().kind == Token::Kind::Gate) {
@@ -908,13 +909,26 @@ std::shared_ptr<Expression> Parser::parseTypeDesignator() {
   return expr;
 }
 
-qc::Permutation Parser::parsePermutation(std::string s) {
+qc::Permutation Parser::parsePermutation(const Token& token) {
   qc::Permutation permutation{};
-  static const auto QUBIT_REGEX = std::regex("\\d+");
   qc::Qubit logicalQubit = 0;
-  for (std::smatch m; std::regex_search(s, m, QUBIT_REGEX); s = m.suffix()) {
-    auto physicalQubit = static_cast<qc::Qubit>(std::stoul(m.str()));
-    permutation.emplace(physicalQubit, logicalQubit);
+  const auto& s = token.str;
+  const auto isDigit = [](const char c) { return c >= '0' && c <= '9'; };
+  for (auto it = std::find_if(s.begin(), s.end(), isDigit); it != s.end();
+       it = std::find_if(it, s.end(), isDigit)) {
+    std::uint64_t physicalQubit = 0;
+    for (; it != s.end() && isDigit(*it); ++it) {
+      physicalQubit = (physicalQubit * 10) + static_cast<std::uint64_t>(*it - '0');
+      if (physicalQubit > std::numeric_limits<qc::Qubit>::max()) {
+        error(token, "Qubit index is too large.");
+      }
+    }
+    if (!permutation
+             .emplace(static_cast<qc::Qubit>(physicalQubit), logicalQubit)
+             .second) {
+      error(token, "Qubit " + std::to_string(physicalQubit) +
+                       " is specified more than once.");
+    }
     ++logicalQubit;
   }
   return permutation;
diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index c075a2b..348e9cd 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -10,18 +10,17 @@
 
 #include "qasm3/Scanner.hpp"
 
-#include "qasm3/Exception.hpp"
 #include "ir/Definitions.hpp"
+#include "qasm3/Exception.hpp"
 #include "qasm3/Token.hpp"
 
 #include <algorithm>
 #include <cctype>
 #include <cstdint>
+#include <istream>
 #include <limits>
 #include <memory>
-#include <istream>
 #include <optional>
-#include <regex>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -55,55 +54,77 @@ char Scanner::peek() const {
   return 0;
 }
 
-std::optional<Token> Scanner::consumeWhitespaceAndComments() {
-  while (isSpace(ch)) {
-    nextCh();
+namespace {
+/// Checks whether a comment consists of the given letter followed by a list of
+/// qubit indices, e.g., "// i 0 1 2".
+bool isQubitListComment(const std::string& comment, const char letter) {
+  const auto isBlank = [](const char c) {
+    return c == ' ' || c == '\t' || c == '\r';
+  };
+  const auto isDigit = [](const char c) { return c >= '0' && c <= '9'; };
+  // skip the leading slashes and any white space
+  auto it = std::find_if(comment.begin(), comment.end(),
+                         [](const char c) { return c != '/'; });
+  it = std::find_if_not(it, comment.end(), isBlank);
+  if (it == comment.end() || *it != letter) {
+    return false;
   }
-  if (ch == '/' && peek() == '/') {
-    Token t(line, col);
-    // consume until newline
-    std::stringstream content;
-    while (ch != '\n' && ch != 0) {
-      content << ch;
-      nextCh();
-    }
-    if (ch == '\n') {
+  ++it;
+  if (it == comment.end() || !isBlank(*it)) {
+    return false;
+  }
+  return std::all_of(it, comment.end(),
+                     [&](const char c) { return isBlank(c) || isDigit(c); }) &&
+         std::any_of(it, comment.end(), isDigit);
+}
+} // namespace
+
+std::optional<Token> Scanner::consumeWhitespaceAndComments() {
+  while (true) {
+    while (isSpace(ch)) {
       nextCh();
     }
+    if (ch == '/' && peek() == '/') {
+      Token t(line, col);
+      // consume until newline
+      std::stringstream content;
+      while (ch != '\n' && ch != 0) {
+        content << ch;
+        nextCh();
+      }
+      if (ch == '\n') {
+        nextCh();
+      }
 
-    static const auto INITIAL_LAYOUT_REGEX = std::regex("i (\\d+ )*(\\d+)");
-    static const auto OUTPUT_PERMUTATION_REGEX = std::regex("o (\\d+ )*(\\d+)");
+      const auto str = content.str();
+      if (isQubitListComment(str, 'i')) {
+        t.kind = Token::Kind::InitialLayout;
+      } else if (isQubitListComment(str, 'o')) {
+        t.kind = Token::Kind::OutputPermutation;
+      } else {
+        continue;
+      }
 
-    const auto str = content.str();
-    if (std::regex_search(str, INITIAL_LAYOUT_REGEX)) {
-      t.kind = Token::Kind::InitialLayout;
-    } else if (std::regex_search(str, OUTPUT_PERMUTATION_REGEX)) {
-      t.kind = Token::Kind::OutputPermutation;
-    } else {
-      return consumeWhitespaceAndComments();
+      t.str = str;
+      t.endCol = col;
+      t.endLine = line;
+      return t;
     }
-
-    t.str = content.str();
-    t.endCol = col;
-    t.endLine = line;
-    return t;
-  }
-  if (ch == '/' && peek() == '*') {
-    // consume /*
-    nextCh();
-    nextCh();
-    while (ch != 0 && (ch != '*' || peek() != '/')) {
+    if (ch == '/' && peek() == '*') {
+      // consume /*
+      nextCh();
       nextCh();
+      while (ch != 0 && (ch != '*' || peek() != '/')) {
+        nextCh();
+      }
+      // consume */
+      expect('*');
+      expect('/');
+      continue;
     }
-    // consume */
-    expect('*');
-    expect('/');
 
-    // tail calls should be optimized away
-    return consumeWhitespaceAndComments();
+    return {};
   }
-
-  return {};
 }
 
 Token Scanner::consumeName() {
-- 
2.43.0


From 33ea4684008df794efc60061b5648f6b6c604544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 057/149] fix: negative differences of OpenQASM integer
 literals wrapped around

---
 src/qasm3/passes/ConstEvalPass.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 17bed76..d6b9e15 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -229,6 +229,10 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
     break;
   case BinaryExpression::Subtract:
     result.value = static_cast<int64_t>(lhsU - rhsU);
+    if (!isSigned && lhsU < rhsU) {
+      // the difference is negative and, hence, needs a signed type
+      result.type = ConstEvalValue::Type::ConstInt;
+    }
     break;
   case BinaryExpression::Multiply:
     result.value = static_cast<int64_t>(lhsU * rhsU);
-- 
2.43.0


From dfcde44418a09d0958b3a28592e167b8881ffa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 058/149] fix: operations on parts of registers were exported
 to OpenQASM as operations on whole registers

---
 include/mqt-core/ir/operations/Operation.hpp | 16 +++++++++-----
 src/ir/operations/NonUnitaryOperation.cpp    | 23 ++++++++++++--------
 src/ir/operations/StandardOperation.cpp      |  2 +-
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index 5fdd5eb..1af0bb0 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -37,11 +37,17 @@ protected:
   static constexpr size_t OUTPUT_INDENT_SIZE = 2;
 
   static bool isWholeQubitRegister(const QubitIndexToRegisterMap& regMap,
-                                   const Qubit start, const Qubit end) {
-    const auto& startReg = regMap.at(start).first;
-    const auto& endReg = regMap.at(end).first;
-    return startReg == endReg && startReg.getStartIndex() == start &&
-           endReg.getEndIndex() == end;
+                                   const Targets& qubits) {
+    const auto& reg = regMap.at(qubits.front()).first;
+    if (qubits.size() != reg.getSize()) {
+      return false;
+    }
+    for (std::size_t i = 0; i < qubits.size(); ++i) {
+      if (qubits[i] != reg.getStartIndex() + i) {
+        return false;
+      }
+    }
+    return true;
   }
 
 public:
diff --git a/src/ir/operations/NonUnitaryOperation.cpp b/src/ir/operations/NonUnitaryOperation.cpp
index 9ba3aa3..1f999f9 100644
--- a/src/ir/operations/NonUnitaryOperation.cpp
+++ b/src/ir/operations/NonUnitaryOperation.cpp
@@ -78,12 +78,18 @@ NonUnitaryOperation::print(std::ostream& os, const Permutation& permutation,
 }
 
 namespace {
-bool isWholeClassicalRegister(const BitIndexToRegisterMap& reg, const Bit start,
-                              const Bit end) {
-  const auto& startReg = reg.at(start).first;
-  const auto& endReg = reg.at(end).first;
-  return startReg == endReg && startReg.getStartIndex() == start &&
-         endReg.getEndIndex() == end;
+bool isWholeClassicalRegister(const BitIndexToRegisterMap& regMap,
+                              const std::vector<Bit>& bits) {
+  const auto& reg = regMap.at(bits.front()).first;
+  if (bits.size() != reg.getSize()) {
+    return false;
+  }
+  for (std::size_t i = 0; i < bits.size(); ++i) {
+    if (bits[i] != reg.getStartIndex() + i) {
+      return false;
+    }
+  }
+  return true;
 }
 } // namespace
 
@@ -94,9 +100,8 @@ void NonUnitaryOperation::dumpOpenQASM(std::ostream& of,
                                        bool openQASM3) const {
   of << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
 
-  if (isWholeQubitRegister(qubitMap, targets.front(), targets.back()) &&
-      (type != Measure ||
-       isWholeClassicalRegister(bitMap, classics.front(), classics.back()))) {
+  if (isWholeQubitRegister(qubitMap, targets) &&
+      (type != Measure || isWholeClassicalRegister(bitMap, classics))) {
     if (type == Measure && openQASM3) {
       of << bitMap.at(classics.front()).first.getName() << " = ";
     }
diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index 7883a52..b3c131b 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -480,7 +480,7 @@ void StandardOperation::dumpGateType(
   }
   // Print target qubits.
   if (!targets.empty() && type == Barrier &&
-      isWholeQubitRegister(qubitMap, targets.front(), targets.back())) {
+      isWholeQubitRegister(qubitMap, targets)) {
     of << " " << qubitMap.at(targets.front()).first.getName();
   } else {
     for (auto it = targets.begin(); it != targets.end();) {
-- 
2.43.0


From 1bf3881986d2c8c4a560cd38129b9f193d2ae334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 059/149] fix: OpenQASM 3 export of measurements repeated the
 first classical bit

---
 src/ir/operations/NonUnitaryOperation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/NonUnitaryOperation.cpp b/src/ir/operations/NonUnitaryOperation.cpp
index 1f999f9..5159f4d 100644
--- a/src/ir/operations/NonUnitaryOperation.cpp
+++ b/src/ir/operations/NonUnitaryOperation.cpp
@@ -124,9 +124,11 @@ void NonUnitaryOperation::dumpOpenQASM(std::ostream& of,
     if (type == Measure && !openQASM3) {
       const auto& creg = bitMap.at(*classicsIt);
       of << " -> " << creg.second;
-      ++classicsIt;
     }
     of << ";\n";
+    if (type == Measure) {
+      ++classicsIt;
+    }
   }
 }
 
-- 
2.43.0


From 5ab1471125505637e8be68bd5404dcbf2aee0ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 060/149] fix: OpenQASM 2 export of Peres gates dropped
 negative controls

---
 src/ir/operations/StandardOperation.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index b3c131b..efa33f2 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -281,25 +281,19 @@ void StandardOperation::dumpOpenQASM2(
   // safe the numbers of controls as a prefix to the operation name
   op << std::string(controls.size(), 'c');
 
-  const bool isSpecialGate = type == Peres || type == Peresdg;
-
-  if (!isSpecialGate) {
-    // apply X operations to negate the respective controls
-    for (const auto& c : controls) {
-      if (c.type == Control::Type::Neg) {
-        of << "x " << qubitMap.at(c.qubit).second << ";\n";
-      }
+  // apply X operations to negate the respective controls
+  for (const auto& c : controls) {
+    if (c.type == Control::Type::Neg) {
+      of << "x " << qubitMap.at(c.qubit).second << ";\n";
     }
   }
 
   dumpGateType(of, op, qubitMap);
 
-  if (!isSpecialGate) {
-    // apply X operations to negate the respective controls again
-    for (const auto& c : controls) {
-      if (c.type == Control::Type::Neg) {
-        of << "x " << qubitMap.at(c.qubit).second << ";\n";
-      }
+  // apply X operations to negate the respective controls again
+  for (const auto& c : controls) {
+    if (c.type == Control::Type::Neg) {
+      of << "x " << qubitMap.at(c.qubit).second << ";\n";
     }
   }
 }
-- 
2.43.0


From bfc70127c78675a721ed1154f1e6301439f25651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 061/149] fix: OpenQASM 2 export of classically controlled
 operations conditioned only their first statement

---
 .../operations/ClassicControlledOperation.cpp | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/ir/operations/ClassicControlledOperation.cpp b/src/ir/operations/ClassicControlledOperation.cpp
index 33b2499..4ceefd0 100644
--- a/src/ir/operations/ClassicControlledOperation.cpp
+++ b/src/ir/operations/ClassicControlledOperation.cpp
@@ -21,6 +21,7 @@
 #include <cstdint>
 #include <memory>
 #include <ostream>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -133,24 +134,33 @@ void ClassicControlledOperation::dumpOpenQASM(
     std::ostream& of, const QubitIndexToRegisterMap& qubitMap,
     const BitIndexToRegisterMap& bitMap, const std::size_t indent,
     const bool openQASM3) const {
-  of << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
-  of << "if (";
+  std::ostringstream condition;
+  condition << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
+  condition << "if (";
   if (controlRegister.has_value()) {
     assert(!controlBit.has_value());
-    of << controlRegister->getName() << " " << comparisonKind << " "
-       << expectedValue;
+    condition << controlRegister->getName() << " " << comparisonKind << " "
+              << expectedValue;
   }
   if (controlBit.has_value()) {
     assert(!controlRegister.has_value());
-    of << (expectedValue == 0 ? "!" : "") << bitMap.at(*controlBit).second;
+    condition << (expectedValue == 0 ? "!" : "")
+              << bitMap.at(*controlBit).second;
   }
-  of << ") ";
-  if (openQASM3) {
-    of << "{\n";
-  }
-  op->dumpOpenQASM(of, qubitMap, bitMap, indent + 1, openQASM3);
+  condition << ") ";
   if (openQASM3) {
+    of << condition.str() << "{\n";
+    op->dumpOpenQASM(of, qubitMap, bitMap, indent + 1, openQASM3);
     of << "}\n";
+    return;
+  }
+
+  // OpenQASM 2 has no blocks, so the condition must be repeated for each of the
+  // statements that the operation consists of.
+  std::stringstream body;
+  op->dumpOpenQASM(body, qubitMap, bitMap, indent + 1, openQASM3);
+  for (std::string line; std::getline(body, line);) {
+    of << condition.str() << line << "\n";
   }
 }
 
-- 
2.43.0


From d8c50988435e9c6786f575c53197717a99264437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 062/149] fix: OpenQASM export of Peres gates exchanged their
 targets

---
 src/ir/operations/StandardOperation.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index efa33f2..4d01e82 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -433,28 +433,28 @@ void StandardOperation::dumpGateType(
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ", "
-       << qubitMap.at(targets[0]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ", "
+       << qubitMap.at(targets[1]).second << ";\n";
 
     of << op.str() << "x";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ";\n";
     return;
   case Peresdg:
     of << op.str() << "x";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ";\n";
 
     of << op.str() << "cx";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ", "
-       << qubitMap.at(targets[0]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ", "
+       << qubitMap.at(targets[1]).second << ";\n";
     return;
   default:
     std::cerr << "gate type " << toString(type)
-- 
2.43.0


From c87ff13e07173119de3a6f86151a03a711422920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 063/149] =?UTF-8?q?fix:=20OpenQASM=20identifiers=20with=20?=
 =?UTF-8?q?letters=20beyond=20ASCII,=20such=20as=20the=20constant=20=CF=80?=
 =?UTF-8?q?,=20were=20rejected?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/qasm3/Scanner.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 348e9cd..9e0e74f 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -687,7 +687,9 @@ bool Scanner::isSpace(const char c) {
 }
 
 bool Scanner::isFirstIdChar(const char c) {
-  return isalpha(c) != 0 || c == '_';
+  // every byte of a UTF-8 encoded character beyond ASCII counts as a letter
+  const auto byte = static_cast<unsigned char>(c);
+  return byte >= 0x80U || isalpha(byte) != 0 || c == '_';
 }
 
 bool Scanner::isNum(const char c) { return c >= '0' && c <= '9'; }
-- 
2.43.0


From 4bcde5952b1ea1cb7c4965a67d946af043551faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 064/149] fix: OpenQASM gate definitions with an empty list of
 parameters were rejected

---
 src/qasm3/Parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 4f2cac2..66ac8e1 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -600,7 +600,9 @@ std::shared_ptr<GateDeclaration> Parser::parseGateDefinition() {
   std::shared_ptr<IdentifierList> parameters{nullptr};
   if (current().kind == Token::Kind::LParen) {
     scan();
-    parameters = parseIdentifierList();
+    parameters = current().kind == Token::Kind::RParen
+                     ? std::make_shared<IdentifierList>(IdentifierList{})
+                     : parseIdentifierList();
     expect(Token::Kind::RParen);
   } else {
     parameters = std::make_shared<IdentifierList>(IdentifierList{});
@@ -627,7 +629,9 @@ std::shared_ptr<GateDeclaration> Parser::parseOpaqueGateDefinition() {
   std::shared_ptr<IdentifierList> parameters{nullptr};
   if (current().kind == Token::Kind::LParen) {
     scan();
-    parameters = parseIdentifierList();
+    parameters = current().kind == Token::Kind::RParen
+                     ? std::make_shared<IdentifierList>(IdentifierList{})
+                     : parseIdentifierList();
     expect(Token::Kind::RParen);
   } else {
     parameters = std::make_shared<IdentifierList>(IdentifierList{});
-- 
2.43.0


From 54542119392bde97ff423ef3eaf175dd939498dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 065/149] fix: quotients of integers were truncated in OpenQASM
 2 programs

---
 include/mqt-core/qasm3/passes/ConstEvalPass.hpp |  5 +++++
 src/qasm3/Importer.cpp                          |  1 +
 src/qasm3/passes/ConstEvalPass.cpp              | 13 +++++++++++++
 3 files changed, 19 insertions(+)

diff --git a/include/mqt-core/qasm3/passes/ConstEvalPass.hpp b/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
index 333762b..c0787f4 100644
--- a/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
+++ b/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
@@ -54,9 +54,14 @@ class ConstEvalPass final
       public ExpressionVisitor<std::optional<ConstEvalValue>>,
       public TypeVisitor<std::shared_ptr<Expression>> {
   NestedEnvironment<ConstEvalValue> env;
+  bool realDivision = false;
 
 public:
   ConstEvalPass() = default;
+
+  /// In OpenQASM 2, all expressions are real-valued, so that quotients of
+  /// integers are not truncated.
+  void setRealDivision(const bool enable) { realDivision = enable; }
   ~ConstEvalPass() override = default;
 
   void addConst(const std::string& identifier, const ConstEvalValue& val) {
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index a78248a..2d537fe 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -386,6 +386,7 @@ void Importer::visitVersionDeclaration(
     const std::shared_ptr<VersionDeclaration> versionDeclaration) {
   if (versionDeclaration->version < 3) {
     openQASM2CompatMode = true;
+    constEvalPass.setRealDivision(true);
   }
 }
 
diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index d6b9e15..021c51d 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -454,6 +454,19 @@ std::optional<ConstEvalValue> ConstEvalPass::visitBinaryExpression(
     return std::nullopt;
   }
 
+  if (realDivision && binaryExpression->op == BinaryExpression::Divide) {
+    for (auto* const val : {&*lhsVal, &*rhsVal}) {
+      if (val->type == ConstEvalValue::Type::ConstInt) {
+        val->value = static_cast<double>(std::get<0>(val->value));
+        val->type = ConstEvalValue::Type::ConstFloat;
+      } else if (val->type == ConstEvalValue::Type::ConstUint) {
+        val->value = static_cast<double>(
+            static_cast<uint64_t>(std::get<0>(val->value)));
+        val->type = ConstEvalValue::Type::ConstFloat;
+      }
+    }
+  }
+
   // We need to coerce the values to the correct type.
   // ConstInt and ConstUint should be able to coerce to ConstFloat.
   // ConstUint should coerce to ConstInt.
-- 
2.43.0


From 2cdc259fcc81f035f8d99509885cf1dd3e4676dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 066/149] fix: negative literals with a base prefix were
 rejected in OpenQASM programs

---
 src/qasm3/Scanner.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 9e0e74f..5c10831 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -214,6 +214,11 @@ Token Scanner::consumeNumberLiteral() {
   Token t(line, col);
   uint8_t base = 10;
 
+  const bool negative = ch == '-';
+  if (negative) {
+    nextCh();
+  }
+
   if (ch == '0') {
     switch (peek()) {
     case 'b':
@@ -237,14 +242,6 @@ Token Scanner::consumeNumberLiteral() {
       break;
     }
   }
-  bool negative = false;
-  if (ch == '-') {
-    if (base != 10) {
-      error("Negative numbers are only allowed in base 10");
-    }
-    negative = true;
-    nextCh();
-  }
 
   const auto valBeforeDecimalSeparator = consumeNumberLiteral(base);
 
-- 
2.43.0


From 24ae334fc5117ae6b1db25246f03238ae75a536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 067/149] fix: OpenQASM gates with any number of controls did
 not support control modifiers

---
 src/qasm3/Importer.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 2d537fe..ea6bac9 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -601,8 +601,20 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
     if (identifier == "mcx" || identifier == "mcx_gray" ||
         identifier == "mcx_vchain" || identifier == "mcx_recursive" ||
         identifier == "mcphase") {
-      // we create a temp gate definition for these gates
-      gate = getMcGateDefinition(identifier, gateCallStatement->operands.size(),
+      // we create a temp gate definition for these gates that acts on the
+      // operands which are not controls added by modifiers
+      size_t nOperands = gateCallStatement->operands.size();
+      for (const auto& modifier : gateCallStatement->modifiers) {
+        if (const auto ctrlModifier =
+                std::dynamic_pointer_cast<CtrlGateModifier>(modifier);
+            ctrlModifier != nullptr) {
+          nOperands -= std::min(nOperands, evaluatePositiveConstant(
+                                               ctrlModifier->expression,
+                                               gateCallStatement->debugInfo,
+                                               /*defaultValue=*/1));
+        }
+      }
+      gate = getMcGateDefinition(identifier, nOperands,
                                  gateCallStatement->debugInfo);
     } else if (openQASM2CompatMode) {
       auto [updatedIdentifier, nControls] =
@@ -815,7 +827,7 @@ Importer::getMcGateDefinition(const std::string& identifier, size_t operandSize,
   std::vector<std::shared_ptr<GateOperand>> operands;
   size_t nTargets = operandSize;
   if (identifier == "mcx_vchain") {
-    nTargets -= (nTargets + 1) / 2 - 2;
+    nTargets -= std::max<size_t>((nTargets + 1) / 2, 2) - 2;
   } else if (identifier == "mcx_recursive" && nTargets > 5) {
     nTargets -= 1;
   }
@@ -826,6 +838,10 @@ Importer::getMcGateDefinition(const std::string& identifier, size_t operandSize,
           std::make_shared<IndexedIdentifier>("q" + std::to_string(i))));
     }
   }
+  if (nTargets == 0) {
+    throw CompilerError("Gate '" + identifier + "' requires a target.",
+                        debugInfo);
+  }
   const size_t nControls = nTargets - 1;
 
   std::string nestedGateIdentifier = "x";
-- 
2.43.0


From 1e9a86ed03536a84568bb22874703160120f3efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 068/149] fix: unterminated strings hung the OpenQASM importer

---
 src/qasm3/Scanner.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 5c10831..a1c0dea 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -357,6 +357,9 @@ Token Scanner::consumeString() {
 
   std::stringstream content;
   while (ch != delim) {
+    if (ch == 0) {
+      error("unterminated string literal");
+    }
     content << ch;
     nextCh();
   }
-- 
2.43.0


From e988dffdf7509030ed6dce4416216c23289a8a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 069/149] fix: empty indices crashed the OpenQASM importer

---
 src/qasm3/Parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 66ac8e1..53e0323 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -536,6 +536,9 @@ std::shared_ptr<IndexOperator> Parser::parseIndexOperator() {
       expect(Token::Kind::Comma);
     }
   }
+  if (indices.empty()) {
+    error(current(), "Expected an index");
+  }
   expect(Token::Kind::RBracket);
   return std::make_shared<IndexOperator>(indices);
 }
-- 
2.43.0


From 7c890bfaebdcf77dafbed92d63647e47a62ea623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 070/149] fix: OpenQASM literals with an empty exponent were
 accepted

---
 src/qasm3/Scanner.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index a1c0dea..d66a69c 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -268,6 +268,9 @@ Token Scanner::consumeNumberLiteral() {
         nextCh();
       }
       const auto valAfterExponent = consumeNumberLiteral(base);
+      if (valAfterExponent.empty()) {
+        error("Expected digits in the exponent of a float literal");
+      }
       ss << valAfterExponent;
     }
 
-- 
2.43.0


From 2f57b8680a25432951d260943fe7be90752e17c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 071/149] fix: removeOperation did not look into nested
 compound operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 41 +++++++++++-----------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 7b1924b..a5050f3 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -50,33 +50,26 @@ void CircuitOptimizer::removeIdentities(QuantumComputation& qc) {
   removeOperation(qc, {I}, 0);
 }
 
-void CircuitOptimizer::removeOperation(
-    QuantumComputation& qc, const std::unordered_set<OpType>& opTypes,
-    const size_t opSize) {
-  // opSize = 0 means that the operation can have any number of qubits
-  auto it = qc.begin();
-  while (it != qc.end()) {
+namespace {
+template <class Container>
+void removeOperations(Container& ops,
+                      const std::unordered_set<OpType>& opTypes,
+                      const size_t opSize) {
+  auto it = ops.begin();
+  while (it != ops.end()) {
     if (opTypes.find((*it)->getType()) != opTypes.end() &&
-        (opSize == 0 || it->get()->getNqubits() == opSize)) {
-      it = qc.erase(it);
+        (opSize == 0 || (*it)->getNqubits() == opSize)) {
+      it = ops.erase(it);
     } else if ((*it)->isCompoundOperation()) {
       auto& compOp = dynamic_cast<CompoundOperation&>(**it);
-      auto cit = compOp.cbegin();
-      while (cit != compOp.cend()) {
-        if (const auto* cop = cit->get();
-            opTypes.find(cop->getType()) != opTypes.end() &&
-            (opSize == 0 || cop->getNqubits() == opSize)) {
-          cit = compOp.erase(cit);
-        } else {
-          ++cit;
-        }
-      }
+      removeOperations(compOp, opTypes, opSize);
       if (compOp.empty()) {
-        it = qc.erase(it);
+        it = ops.erase(it);
       } else {
         if (compOp.size() == 1) {
           // CompoundOperation has degraded to single Operation
-          (*it) = std::move(*(compOp.begin()));
+          auto single = std::move(*(compOp.begin()));
+          (*it) = std::move(single);
         }
         ++it;
       }
@@ -85,6 +78,14 @@ void CircuitOptimizer::removeOperation(
     }
   }
 }
+} // namespace
+
+void CircuitOptimizer::removeOperation(
+    QuantumComputation& qc, const std::unordered_set<OpType>& opTypes,
+    const size_t opSize) {
+  // opSize = 0 means that the operation can have any number of qubits
+  removeOperations(qc, opTypes, opSize);
+}
 
 void CircuitOptimizer::swapReconstruction(QuantumComputation& qc) {
   auto dag = DAG(qc.getHighestPhysicalQubitIndex() + 1);
-- 
2.43.0


From 3009dd292e7c762ab7f9a1b806298fee1662f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 072/149] fix: singleQubitGateFusion fused gates with
 measurements, resets and conditioned operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index a5050f3..0077dae 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -187,7 +187,7 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
   for (auto& it : qc) {
     // not a single-qubit operation
     if (!it->isStandardOperation() || !it->getControls().empty() ||
-        it->getTargets().size() > 1) {
+        it->getTargets().size() != 1) {
       addToDag(dag, &it);
       continue;
     }
@@ -205,7 +205,8 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
 
     // no single qubit op to fuse with operation
     if (!(*op)->isCompoundOperation() &&
-        (!(*op)->getControls().empty() || (*op)->getTargets().size() > 1)) {
+        (!(*op)->isStandardOperation() || !(*op)->getControls().empty() ||
+         (*op)->getTargets().size() != 1)) {
       addToDag(dag, &it);
       continue;
     }
-- 
2.43.0


From 612da36646edf77324bc810fd632bda1f055ec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 073/149] fix: decomposeSWAP dropped the controls of controlled
 SWAPs and skipped nested compound operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 89 ++++++++--------------
 1 file changed, 33 insertions(+), 56 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 0077dae..053618c 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -590,69 +590,46 @@ void CircuitOptimizer::removeFinalMeasurements(QuantumComputation& qc) {
   removeIdentities(qc);
 }
 
-void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
-                                     bool isDirectedArchitecture) {
-  // decompose SWAPS in three cnot and optionally in four H
-  auto it = qc.begin();
-  while (it != qc.end()) {
-    if ((*it)->isStandardOperation()) {
-      if ((*it)->getType() == SWAP) {
-        const auto targets = (*it)->getTargets();
-        it = qc.erase(it);
-        it = qc.insert(it, std::make_unique<StandardOperation>(
-                               Control{targets[0]}, targets[1], X));
-        if (isDirectedArchitecture) {
-          it =
-              qc.insert(it, std::make_unique<StandardOperation>(targets[0], H));
-          it =
-              qc.insert(it, std::make_unique<StandardOperation>(targets[1], H));
-          it = qc.insert(it, std::make_unique<StandardOperation>(
-                                 Control{targets[0]}, targets[1], X));
-          it =
-              qc.insert(it, std::make_unique<StandardOperation>(targets[0], H));
-          it =
-              qc.insert(it, std::make_unique<StandardOperation>(targets[1], H));
-        } else {
-          it = qc.insert(it, std::make_unique<StandardOperation>(
-                                 Control{targets[1]}, targets[0], X));
-        }
-        it = qc.insert(it, std::make_unique<StandardOperation>(
-                               Control{targets[0]}, targets[1], X));
+namespace {
+template <class Container>
+void decomposeSWAPs(Container& ops, const bool isDirectedArchitecture) {
+  auto it = ops.begin();
+  while (it != ops.end()) {
+    if ((*it)->isStandardOperation() && (*it)->getType() == SWAP &&
+        !(*it)->isControlled()) {
+      const auto targets = (*it)->getTargets();
+      const auto insert = [&ops, &it](auto&&... args) {
+        it = ops.insert(it, std::make_unique<StandardOperation>(
+                                std::forward<decltype(args)>(args)...));
+      };
+      it = ops.erase(it);
+      insert(Control{targets[0]}, targets[1], X);
+      if (isDirectedArchitecture) {
+        insert(targets[0], H);
+        insert(targets[1], H);
+        insert(Control{targets[0]}, targets[1], X);
+        insert(targets[0], H);
+        insert(targets[1], H);
       } else {
-        ++it;
-      }
-    } else if ((*it)->isCompoundOperation()) {
-      auto& compOp = dynamic_cast<CompoundOperation&>(**it);
-      auto cit = compOp.begin();
-      while (cit != compOp.end()) {
-        if ((*cit)->isStandardOperation() && (*cit)->getType() == SWAP) {
-          const auto targets = (*cit)->getTargets();
-          cit = compOp.erase(cit);
-          cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
-                                                 targets[1], X);
-          if (isDirectedArchitecture) {
-            cit = compOp.insert<StandardOperation>(cit, targets[0], H);
-            cit = compOp.insert<StandardOperation>(cit, targets[1], H);
-            cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
-                                                   targets[1], X);
-            cit = compOp.insert<StandardOperation>(cit, targets[0], H);
-            cit = compOp.insert<StandardOperation>(cit, targets[1], H);
-          } else {
-            cit = compOp.insert<StandardOperation>(cit, Control{targets[1]},
-                                                   targets[0], X);
-          }
-          cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
-                                                 targets[1], X);
-        } else {
-          ++cit;
-        }
+        insert(Control{targets[1]}, targets[0], X);
       }
-      ++it;
+      insert(Control{targets[0]}, targets[1], X);
     } else {
+      if ((*it)->isCompoundOperation()) {
+        decomposeSWAPs(dynamic_cast<CompoundOperation&>(**it),
+                       isDirectedArchitecture);
+      }
       ++it;
     }
   }
 }
+} // namespace
+
+void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
+                                     bool isDirectedArchitecture) {
+  // decompose SWAPS in three cnot and optionally in four H
+  decomposeSWAPs(qc, isDirectedArchitecture);
+}
 
 namespace {
 void changeTargets(Targets& targets,
-- 
2.43.0


From c9177f570379cff0a2f9db95df84b120df013620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:14 +0000
Subject: [PATCH 074/149] fix: collectBlocks moved operations before earlier
 ones on the same qubit

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 053618c..8df1b87 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -1527,18 +1527,15 @@ void CircuitOptimizer::collectBlocks(QuantumComputation& qc,
       }
       const auto block = dsu.findBlock(static_cast<Qubit>(prev));
       const auto empty = dsu.blockEmpty(block);
-      if (empty) {
-        dsu.currentBlockInCircuit[block] = &(*opIt);
-      }
-      dsu.currentBlockOperations[block]->emplace_back(std::move(op));
-      // if this is not the first operation in a block, remove it from the
-      // circuit
+      // if this is not the first operation in a block, the block moves to the
+      // current position because blocks that have been finalized in the
+      // meantime might share qubits with this operation
       if (!empty) {
-        opIt = qc.erase(opIt);
-        // this can only ever be called on at least the second operation in a
-        // circuit, so it is safe to decrement the iterator here.
-        --opIt;
+        *dsu.currentBlockInCircuit[block] =
+            std::make_unique<StandardOperation>(0, I);
       }
+      dsu.currentBlockInCircuit[block] = &(*opIt);
+      dsu.currentBlockOperations[block]->emplace_back(std::move(op));
     }
   }
 
-- 
2.43.0


From d91e9935cf279e79d751801a2069ad7f3c9a5df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:07 +0000
Subject: [PATCH 075/149] fix: removeDiagonalGatesBeforeMeasure removed gates
 that are not followed by measurements

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 213 +++++----------------
 1 file changed, 46 insertions(+), 167 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 8df1b87..f9d104f 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -274,190 +274,69 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
 }
 
 namespace {
-bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
-                        CircuitOptimizer::DAGReverseIterators& dagIterators,
-                        Qubit idx, CircuitOptimizer::DAGReverseIterator& it,
-                        Operation* op);
+/// What happens to a qubit after a certain point of the circuit
+enum class QubitFuture : std::uint8_t {
+  /// nothing at all
+  Idle,
+  /// it is measured right away (and not used anymore after that)
+  Measured,
+  /// anything else
+  Used
+};
 
-void removeDiagonalGatesBeforeMeasureRecursive(
-    CircuitOptimizer::DAG& dag,
-    CircuitOptimizer::DAGReverseIterators& dagIterators, Qubit idx,
-    const Operation* until) {
-  // qubit is finished -> consider next qubit
-  if (dagIterators.at(idx) == dag.at(idx).rend()) {
-    if (idx < static_cast<Qubit>(dag.size() - 1)) {
-      removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, idx + 1,
-                                                nullptr);
-    }
-    return;
-  }
-  // check if desired operation was reached
-  if (until != nullptr) {
-    if ((*dagIterators.at(idx))->get() == until) {
-      return;
+/// Traverses the operations from back to front. A diagonal gate is turned into
+/// an identity if all of its qubits are measured right after it.
+template <class Container>
+void removeDiagonalGates(Container& ops, std::vector<QubitFuture>& future) {
+  for (auto it = ops.rbegin(); it != ops.rend(); ++it) {
+    auto& op = *it;
+    if (op->isCompoundOperation()) {
+      removeDiagonalGates(dynamic_cast<CompoundOperation&>(*op), future);
+      continue;
     }
-  }
 
-  auto& it = dagIterators.at(idx);
-  while (it != dag.at(idx).rend()) {
-    // check if desired operation was reached
-    if (until != nullptr) {
-      if ((*dagIterators.at(idx))->get() == until) {
-        break;
-      }
-    }
-    auto* op = (*it)->get();
-    if (op->isStandardOperation()) {
-      // try removing gate and upon success increase all corresponding iterators
-      auto onlyDiagonalGates =
-          removeDiagonalGate(dag, dagIterators, idx, it, op);
-      if (onlyDiagonalGates) {
-        for (const auto& control : op->getControls()) {
-          ++(dagIterators.at(control.qubit));
-        }
-        for (const auto& target : op->getTargets()) {
-          ++(dagIterators.at(target));
-        }
-      }
+    const auto usedQubits = op->getUsedQubits();
 
-    } else if (op->isCompoundOperation()) {
-      // iterate over all gates of compound operation and upon success increase
-      // all corresponding iterators
-      auto* compOp = dynamic_cast<CompoundOperation*>(op);
-      bool onlyDiagonalGates = true;
-      auto cit = compOp->rbegin();
-      while (cit != compOp->rend()) {
-        auto* cop = cit->get();
-        onlyDiagonalGates = removeDiagonalGate(dag, dagIterators, idx, it, cop);
-        if (!onlyDiagonalGates) {
-          break;
-        }
-        ++cit;
-      }
-      if (onlyDiagonalGates) {
-        for (size_t q = 0; q < dag.size(); ++q) {
-          if (compOp->actsOn(static_cast<Qubit>(q))) {
-            ++(dagIterators.at(q));
-          }
-        }
-      }
-    } else if (op->isClassicControlledOperation()) {
-      // consider the operation that is classically controlled and proceed as
-      // above
-      auto* cop = dynamic_cast<ClassicControlledOperation*>(op)->getOperation();
-      const bool onlyDiagonalGates =
-          removeDiagonalGate(dag, dagIterators, idx, it, cop);
-      if (onlyDiagonalGates) {
-        for (const auto& control : cop->getControls()) {
-          ++(dagIterators.at(control.qubit));
-        }
-        for (const auto& target : cop->getTargets()) {
-          ++(dagIterators.at(target));
-        }
+    if (op->getType() == Measure) {
+      for (const auto q : usedQubits) {
+        future.at(q) = future.at(q) == QubitFuture::Idle ? QubitFuture::Measured
+                                                         : QubitFuture::Used;
       }
-    } else if (op->isNonUnitaryOperation()) {
-      // non-unitary operation is not diagonal
-      it = dag.at(idx).rend();
-    } else {
-      throw std::runtime_error("Unexpected operation encountered");
+      continue;
     }
-  }
-
-  // qubit is finished -> consider next qubit
-  if (dagIterators.at(idx) == dag.at(idx).rend() &&
-      idx < static_cast<Qubit>(dag.size() - 1)) {
-    removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, idx + 1,
-                                              nullptr);
-  }
-}
-
-bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
-                        CircuitOptimizer::DAGReverseIterators& dagIterators,
-                        Qubit idx, CircuitOptimizer::DAGReverseIterator& it,
-                        Operation* op) {
-  // not a diagonal gate
-  if (!op->isDiagonalGate()) {
-    it = dag.at(idx).rend();
-    return false;
-  }
 
-  if (op->getNcontrols() != 0) {
-    // need to check all controls and targets
-    bool onlyDiagonalGates = true;
-    for (const auto& control : op->getControls()) {
-      auto controlQubit = control.qubit;
-      if (controlQubit == idx) {
-        continue;
-      }
-      if (control.type == Control::Type::Neg) {
-        dagIterators.at(controlQubit) = dag.at(controlQubit).rend();
-        onlyDiagonalGates = false;
-        break;
-      }
-      if (dagIterators.at(controlQubit) == dag.at(controlQubit).rend()) {
-        onlyDiagonalGates = false;
-        break;
-      }
-      // recursive call at control with this operation as goal
-      removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, controlQubit,
-                                                (*it)->get());
-      // check if iteration of control qubit was successful
-      if (*dagIterators.at(controlQubit) != *it) {
-        onlyDiagonalGates = false;
-        break;
-      }
-    }
-    for (const auto& target : op->getTargets()) {
-      if (target == idx) {
-        continue;
-      }
-      if (dagIterators.at(target) == dag.at(target).rend()) {
-        onlyDiagonalGates = false;
-        break;
-      }
-      // recursive call at target with this operation as goal
-      removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, target,
-                                                (*it)->get());
-      // check if iteration of target qubit was successful
-      if (*dagIterators.at(target) != *it) {
-        onlyDiagonalGates = false;
-        break;
-      }
+    // the condition of a classically controlled gate does not matter
+    const Operation* gate = op.get();
+    if (op->isClassicControlledOperation()) {
+      gate = dynamic_cast<const ClassicControlledOperation&>(*op)
+                 .getOperation();
     }
-    if (!onlyDiagonalGates) {
-      // end qubit
-      dagIterators.at(idx) = dag.at(idx).rend();
-    } else {
+
+    if (gate->isStandardOperation() && gate->isDiagonalGate() &&
+        !usedQubits.empty() &&
+        std::all_of(usedQubits.begin(), usedQubits.end(), [&](const auto q) {
+          return future.at(q) == QubitFuture::Measured;
+        })) {
       // set operation to identity so that it can be collected by the
       // removeIdentities pass
-      op->setGate(I);
+      op = std::make_unique<StandardOperation>(*usedQubits.begin(), I);
+      continue;
+    }
+
+    if (gate->getType() != Barrier) {
+      for (const auto q : usedQubits) {
+        future.at(q) = QubitFuture::Used;
+      }
     }
-    return onlyDiagonalGates;
   }
-  // set operation to identity so that it can be collected by the
-  // removeIdentities pass
-  op->setGate(I);
-  return true;
 }
 } // namespace
 
 void CircuitOptimizer::removeDiagonalGatesBeforeMeasure(
     QuantumComputation& qc) {
-  auto dag = constructDAG(qc);
-
-  // initialize iterators
-  DAGReverseIterators dagIterators{dag.size()};
-  for (size_t q = 0; q < dag.size(); ++q) {
-    if (dag.at(q).empty() || dag.at(q).back()->get()->getType() != Measure) {
-      // qubit is not measured and thus does not have to be considered
-      dagIterators.at(q) = dag.at(q).rend();
-    } else {
-      // point to operation before measurement
-      dagIterators.at(q) = ++(dag.at(q).rbegin());
-    }
-  }
-  // iterate over DAG in depth-first fashion
-  removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, 0, nullptr);
+  std::vector<QubitFuture> future(qc.getHighestPhysicalQubitIndex() + 1,
+                                  QubitFuture::Idle);
+  removeDiagonalGates(qc, future);
 
   // remove resulting identities from circuit
   removeIdentities(qc);
-- 
2.43.0


From 6b65e8071ce83c6851ca5510e95c21bbdcddc02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:07 +0000
Subject: [PATCH 076/149] fix: removeFinalMeasurements removed measurements
 whose outcomes are still used

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 159 +++++++--------------
 1 file changed, 52 insertions(+), 107 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index f9d104f..bc7214c 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -343,128 +343,73 @@ void CircuitOptimizer::removeDiagonalGatesBeforeMeasure(
 }
 
 namespace {
-bool removeFinalMeasurement(CircuitOptimizer::DAG& dag,
-                            CircuitOptimizer::DAGReverseIterators& dagIterators,
-                            Qubit idx,
-                            const CircuitOptimizer::DAGReverseIterator& it,
-                            Operation* op);
-
-void removeFinalMeasurementsRecursive(
-    CircuitOptimizer::DAG& dag,
-    CircuitOptimizer::DAGReverseIterators& dagIterators, Qubit idx,
-    const Operation* until) {
-  if (dagIterators.at(idx) == dag.at(idx).rend()) { // we reached the end
-    if (idx < static_cast<Qubit>(dag.size() - 1)) {
-      removeFinalMeasurementsRecursive(dag, dagIterators, idx + 1, nullptr);
-    }
-    return;
-  }
-  // check if desired operation was reached
-  if (until != nullptr) {
-    if ((*dagIterators.at(idx))->get() == until) {
-      return;
-    }
-  }
-  auto& it = dagIterators.at(idx);
-  while (it != dag.at(idx).rend()) {
-    if (until != nullptr) {
-      if ((*dagIterators.at(idx))->get() == until) {
-        break;
+/// The qubits and classical bits that are used from a certain point onwards
+struct UsedLater {
+  std::unordered_set<Qubit> qubits;
+  std::unordered_set<Bit> bits;
+};
+
+void addUsedBits(const Operation& op, std::unordered_set<Bit>& bits) {
+  if (const auto* nonUnitary = dynamic_cast<const NonUnitaryOperation*>(&op);
+      nonUnitary != nullptr && nonUnitary->getType() == Measure) {
+    bits.insert(nonUnitary->getClassics().begin(),
+                nonUnitary->getClassics().end());
+  } else if (const auto* classic =
+                 dynamic_cast<const ClassicControlledOperation*>(&op);
+             classic != nullptr) {
+    if (const auto& creg = classic->getControlRegister(); creg.has_value()) {
+      for (std::size_t i = 0; i < creg->getSize(); ++i) {
+        bits.insert(static_cast<Bit>(creg->getStartIndex() + i));
       }
     }
-    auto* op = (*it)->get();
-    if (op->getType() == Measure || op->getType() == Barrier) {
-      const bool onlyMeasurement =
-          removeFinalMeasurement(dag, dagIterators, idx, it, op);
-      if (onlyMeasurement) {
-        for (const auto& target : op->getTargets()) {
-          if (dagIterators.at(target) == dag.at(target).rend()) {
-            break;
-          }
-          ++(dagIterators.at(target));
-        }
-      }
-    } else if (op->isCompoundOperation() && op->isNonUnitaryOperation()) {
-      // iterate over all gates of compound operation and upon success increase
-      // all corresponding iterators
-      auto* compOp = dynamic_cast<CompoundOperation*>(op);
-      bool onlyMeasurement = true;
-      auto cit = compOp->rbegin();
-      while (cit != compOp->rend()) {
-        auto* cop = cit->get();
-        if (cop->getNtargets() > 0 && cop->getTargets()[0] != idx) {
-          ++cit;
-          continue;
-        }
-        onlyMeasurement =
-            removeFinalMeasurement(dag, dagIterators, idx, it, cop);
-        if (!onlyMeasurement) {
-          break;
-        }
-        ++cit;
-      }
-      if (onlyMeasurement) {
-        ++(dagIterators.at(idx));
-      }
-    } else {
-      // not a measurement, we are done
-      dagIterators.at(idx) = dag.at(idx).rend();
-      break;
+    if (const auto& cbit = classic->getControlBit(); cbit.has_value()) {
+      bits.insert(*cbit);
+    }
+    addUsedBits(*classic->getOperation(), bits);
+  } else if (const auto* compound = dynamic_cast<const CompoundOperation*>(&op);
+             compound != nullptr) {
+    for (const auto& subOp : *compound) {
+      addUsedBits(*subOp, bits);
     }
-  }
-  if (dagIterators.at(idx) == dag.at(idx).rend() &&
-      idx < static_cast<Qubit>(dag.size() - 1)) {
-    removeFinalMeasurementsRecursive(dag, dagIterators, idx + 1, nullptr);
   }
 }
 
-bool removeFinalMeasurement(CircuitOptimizer::DAG& dag,
-                            CircuitOptimizer::DAGReverseIterators& dagIterators,
-                            const Qubit idx,
-                            const CircuitOptimizer::DAGReverseIterator& it,
-                            Operation* op) {
-  if (op->getNtargets() != 0) {
-    // need to check all targets
-    bool onlyMeasurements = true;
-    for (const auto& target : op->getTargets()) {
-      if (target == idx) {
-        continue;
-      }
-      if (dagIterators.at(target) == dag.at(target).rend()) {
-        onlyMeasurements = false;
-        break;
-      }
-      // recursive call at target with this operation as goal
-      removeFinalMeasurementsRecursive(dag, dagIterators, target, (*it)->get());
-      // check if iteration of target qubit was successful
-      if (dagIterators.at(target) == dag.at(target).rend() ||
-          *dagIterators.at(target) != *it) {
-        onlyMeasurements = false;
-        break;
-      }
+/// Traverses the operations from back to front. A measurement is turned into
+/// an identity if neither its qubits nor its classical bits are used later on.
+template <class Container>
+void removeUnusedMeasurements(Container& ops, UsedLater& later) {
+  for (auto it = ops.rbegin(); it != ops.rend(); ++it) {
+    auto& op = *it;
+    if (op->isCompoundOperation()) {
+      removeUnusedMeasurements(dynamic_cast<CompoundOperation&>(*op), later);
+      continue;
     }
-    if (!onlyMeasurements) {
-      // end qubit
-      dagIterators.at(idx) = dag.at(idx).rend();
-    } else {
+
+    const auto usedQubits = op->getUsedQubits();
+    std::unordered_set<Bit> usedBits{};
+    addUsedBits(*op, usedBits);
+
+    if ((op->getType() == Measure || op->getType() == Barrier) &&
+        !usedQubits.empty() &&
+        std::none_of(usedQubits.begin(), usedQubits.end(),
+                     [&](const auto q) { return later.qubits.count(q) > 0; }) &&
+        std::none_of(usedBits.begin(), usedBits.end(),
+                     [&](const auto b) { return later.bits.count(b) > 0; })) {
       // set operation to identity so that it can be collected by the
       // removeIdentities pass
-      op->setGate(I);
+      op = std::make_unique<StandardOperation>(*usedQubits.begin(), I);
+      continue;
     }
-    return onlyMeasurements;
+
+    later.qubits.insert(usedQubits.begin(), usedQubits.end());
+    later.bits.insert(usedBits.begin(), usedBits.end());
   }
-  return false;
 }
 } // namespace
 
 void CircuitOptimizer::removeFinalMeasurements(QuantumComputation& qc) {
-  auto dag = constructDAG(qc);
-  DAGReverseIterators dagIterators{dag.size()};
-  for (size_t q = 0; q < dag.size(); ++q) {
-    dagIterators.at(q) = (dag.at(q).rbegin());
-  }
-
-  removeFinalMeasurementsRecursive(dag, dagIterators, 0, nullptr);
+  UsedLater later{};
+  removeUnusedMeasurements(qc, later);
 
   removeIdentities(qc);
 }
-- 
2.43.0


From fcd1281da918f462fd34a0b8e2602c70ac6e8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:07 +0000
Subject: [PATCH 077/149] fix: eliminateResets missed resets and qubits inside
 compound operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 112 ++++++---------------
 1 file changed, 30 insertions(+), 82 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index bc7214c..22eba27 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -456,30 +456,35 @@ void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
 }
 
 namespace {
-void changeTargets(Targets& targets,
-                   const std::map<Qubit, Qubit>& replacementMap) {
-  for (auto& target : targets) {
-    auto newTargetIt = replacementMap.find(target);
-    if (newTargetIt != replacementMap.end()) {
-      target = newTargetIt->second;
+template <class Container>
+void eliminateResets(QuantumComputation& qc, Container& ops,
+                     Permutation& replacements) {
+  auto it = ops.begin();
+  while (it != ops.end()) {
+    if ((*it)->getType() == Reset) {
+      for (const auto& target : (*it)->getTargets()) {
+        const auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
+        qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
+        replacements[indexAddQubit] = indexAddQubit;
+        replacements[target] = indexAddQubit;
+      }
+      it = ops.erase(it);
+      continue;
     }
-  }
-}
 
-void changeControls(Controls& controls,
-                    const std::map<Qubit, Qubit>& replacementMap) {
-  if (controls.empty() || replacementMap.empty()) {
-    return;
-  }
-
-  // iterate over the replacement map and see if any control matches
-  for (const auto& [from, to] : replacementMap) {
-    auto controlIt = controls.find(from);
-    if (controlIt != controls.end()) {
-      const auto controlType = controlIt->type;
-      controls.erase(controlIt);
-      controls.insert(Control{to, controlType});
+    if ((*it)->isCompoundOperation()) {
+      auto& compOp = dynamic_cast<CompoundOperation&>(**it);
+      eliminateResets(qc, compOp, replacements);
+      if (compOp.empty()) {
+        it = ops.erase(it);
+        continue;
+      }
+      // also update the tracked controls in the compound operation
+      compOp.getControls() = replacements.apply(compOp.getControls());
+    } else {
+      (*it)->apply(replacements);
     }
+    ++it;
   }
 }
 } // namespace
@@ -492,68 +497,11 @@ void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
   //            0            1                   ║  ░ └───┘└╥┘
   //                                  c: 2/══════╩══════════╩═
   //                                             0          1
-  auto replacementMap = std::map<Qubit, Qubit>();
-  auto it = qc.begin();
-  while (it != qc.end()) {
-    if ((*it)->getType() == Reset) {
-      for (const auto& target : (*it)->getTargets()) {
-        auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
-        qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
-        auto oldReset = replacementMap.find(target);
-        if (oldReset != replacementMap.end()) {
-          oldReset->second = indexAddQubit;
-        } else {
-          replacementMap.try_emplace(target, indexAddQubit);
-        }
-      }
-      it = qc.erase(it);
-    } else if (!replacementMap.empty()) {
-      if ((*it)->isCompoundOperation()) {
-        auto& compOp = dynamic_cast<CompoundOperation&>(**it);
-        auto compOpIt = compOp.begin();
-        while (compOpIt != compOp.end()) {
-          if ((*compOpIt)->getType() == Reset) {
-            for (const auto& compTarget : (*compOpIt)->getTargets()) {
-              auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
-              qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
-              if (auto oldReset = replacementMap.find(compTarget);
-                  oldReset != replacementMap.end()) {
-                oldReset->second = indexAddQubit;
-              } else {
-                replacementMap.try_emplace(compTarget, indexAddQubit);
-              }
-            }
-            compOpIt = compOp.erase(compOpIt);
-          } else {
-            if ((*compOpIt)->isStandardOperation() ||
-                (*compOpIt)->isClassicControlledOperation()) {
-              auto& targets = (*compOpIt)->getTargets();
-              auto& controls = (*compOpIt)->getControls();
-              changeTargets(targets, replacementMap);
-              changeControls(controls, replacementMap);
-            } else if ((*compOpIt)->isNonUnitaryOperation()) {
-              auto& targets = (*compOpIt)->getTargets();
-              changeTargets(targets, replacementMap);
-            }
-            ++compOpIt;
-          }
-        }
-      }
-      if ((*it)->isStandardOperation() ||
-          (*it)->isClassicControlledOperation()) {
-        auto& targets = (*it)->getTargets();
-        auto& controls = (*it)->getControls();
-        changeTargets(targets, replacementMap);
-        changeControls(controls, replacementMap);
-      } else if ((*it)->isNonUnitaryOperation()) {
-        auto& targets = (*it)->getTargets();
-        changeTargets(targets, replacementMap);
-      }
-      ++it;
-    } else {
-      ++it;
-    }
+  Permutation replacements{};
+  for (const auto& [physical, logical] : qc.initialLayout) {
+    replacements[physical] = physical;
   }
+  ::qc::eliminateResets(qc, qc, replacements);
 }
 
 void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
-- 
2.43.0


From 522fec34e330d50169416ea8365bff28ae20ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 078/149] fix: deferMeasurements changed the outcome of
 circuits with several measurements

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 388 ++++++++++++---------
 1 file changed, 228 insertions(+), 160 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 22eba27..488efae 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -27,6 +27,7 @@
 #include <iterator>
 #include <map>
 #include <memory>
+#include <optional>
 #include <set>
 #include <sstream>
 #include <stdexcept>
@@ -504,191 +505,258 @@ void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
   ::qc::eliminateResets(qc, qc, replacements);
 }
 
-void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
-  //      ┌───┐┌─┐                         ┌───┐     ┌─┐
-  // q_0: ┤ H ├┤M├───────             q_0: ┤ H ├──■──┤M├
-  //      └───┘└╥┘ ┌───┐                   └───┘┌─┴─┐└╥┘
-  // q_1: ──────╫──┤ X ├─     -->     q_1: ─────┤ X ├─╫─
-  //            ║  └─╥─┘                        └───┘ ║
-  //            ║ ┌──╨──┐             c: 2/═══════════╩═
-  // c: 2/══════╩═╡ = 1 ╞                             0
-  //            0 └─────┘
-  std::unordered_map<Qubit, std::size_t> qubitsToAddMeasurements{};
-  auto it = qc.begin();
-  while (it != qc.end()) {
-    if (const auto* measurement = dynamic_cast<NonUnitaryOperation*>(it->get());
-        measurement != nullptr && measurement->getType() == Measure) {
-      const auto targets = measurement->getTargets();
-      const auto classics = measurement->getClassics();
+namespace {
+/// Checks whether an operation contains measurements, resets, or classically
+/// controlled operations.
+bool isDynamic(const Operation& op) {
+  if (op.isCompoundOperation()) {
+    const auto& compOp = dynamic_cast<const CompoundOperation&>(op);
+    return std::any_of(compOp.begin(), compOp.end(),
+                       [](const auto& subOp) { return isDynamic(*subOp); });
+  }
+  return !op.isUnitary();
+}
 
-      if (targets.size() != 1 && classics.size() != 1) {
-        throw std::runtime_error(
-            "Deferring measurements with more than 1 target is not yet "
-            "supported. Try decomposing your measurements.");
-      }
+/// Checks whether an operation commutes with measuring the given qubit.
+bool commutesWithMeasurement(const Operation& op, const Qubit q) {
+  if (op.getType() == Barrier || !op.actsOn(q)) {
+    return true;
+  }
+  if (op.isCompoundOperation()) {
+    const auto& compOp = dynamic_cast<const CompoundOperation&>(op);
+    return std::all_of(
+        compOp.begin(), compOp.end(),
+        [q](const auto& subOp) { return commutesWithMeasurement(*subOp, q); });
+  }
+  const auto* gate = &op;
+  if (op.isClassicControlledOperation()) {
+    gate = dynamic_cast<const ClassicControlledOperation&>(op).getOperation();
+    if (gate->isCompoundOperation()) {
+      return commutesWithMeasurement(*gate, q);
+    }
+  }
+  const auto& targets = gate->getTargets();
+  return gate->isDiagonalGate() ||
+         std::find(targets.begin(), targets.end(), q) == targets.end();
+}
 
-      // if this is the last operation, nothing has to be done
-      if (*it == qc.back()) {
-        break;
-      }
+/// Evaluates the condition of a classically controlled operation that depends
+/// on a single bit for a given value of this bit.
+bool isConditionFulfilled(const ClassicControlledOperation& op,
+                          const std::uint64_t value) {
+  const auto expected = op.getExpectedValue();
+  switch (op.getComparisonKind()) {
+  case Eq:
+    return value == expected;
+  case Neq:
+    return value != expected;
+  case Lt:
+    return value < expected;
+  case Leq:
+    return value <= expected;
+  case Gt:
+    return value > expected;
+  case Geq:
+    return value >= expected;
+  }
+  unreachable();
+}
 
-      const auto measurementQubit = targets[0];
-      const auto measurementBit = classics[0];
+/// Replaces all operations classically controlled by `bit` with operations
+/// controlled by `qubit` starting from position `start`.
+void replaceClassicControls(QuantumComputation& qc, const std::size_t start,
+                            const Qubit qubit, const Bit bit) {
+  const auto at = [&qc](const std::size_t pos) {
+    return qc.begin() +
+           static_cast<QuantumComputation::iterator::difference_type>(pos);
+  };
+
+  // the first operation that does not commute with the measurement. Operations
+  // controlled on the measured qubit have to be placed in front of it.
+  std::optional<std::size_t> barrier{};
+  for (std::size_t pos = start; pos < qc.size(); ++pos) {
+    const auto* operation = at(pos)->get();
+
+    if (operation->getType() == Reset) {
+      throw std::runtime_error(
+          "Reset encountered in deferMeasurements routine. Please use the "
+          "eliminateResets method before deferring measurements.");
+    }
 
-      // remember q->c for adding measurements later
-      qubitsToAddMeasurements[measurementQubit] = measurementBit;
+    if (operation->isCompoundOperation() && isDynamic(*operation)) {
+      throw std::runtime_error(
+          "Compound operation with non-unitary operations encountered in "
+          "deferMeasurements routine. Please use the flattenOperations method "
+          "before deferring measurements.");
+    }
 
-      // remove the measurement from the vector of operations
-      it = qc.erase(it);
+    if (const auto* measurement =
+            dynamic_cast<const NonUnitaryOperation*>(operation);
+        measurement != nullptr) {
+      // from here on, the bit holds the outcome of another measurement
+      const auto& classics = measurement->getClassics();
+      if (std::find(classics.begin(), classics.end(), bit) != classics.end()) {
+        return;
+      }
+      continue;
+    }
 
-      // starting from the next operation after the measurement (if there is
-      // any)
-      auto opIt = it;
-      auto currentInsertionPoint = it;
+    const auto* classicOp =
+        dynamic_cast<const ClassicControlledOperation*>(operation);
+    if (classicOp == nullptr) {
+      if (!barrier.has_value() && !commutesWithMeasurement(*operation, qubit)) {
+        barrier = pos;
+      }
+      continue;
+    }
 
-      // iterate over all subsequent operations
-      while (opIt != qc.end()) {
-        const auto* operation = opIt->get();
-        if (operation->isUnitary()) {
-          // if an operation does not act on the measured qubit, the insert
-          // location for potential operations has to be updated
-          if (!operation->actsOn(measurementQubit)) {
-            ++currentInsertionPoint;
-          }
-          ++opIt;
-          continue;
-        }
+    Bit cBit = 0;
+    if (const auto& controlRegister = classicOp->getControlRegister();
+        controlRegister.has_value()) {
+      assert(!classicOp->getControlBit().has_value());
+      if (controlRegister->getSize() != 1) {
+        throw std::runtime_error(
+            "Classic-controlled operations targeted at more than one bit "
+            "are currently not supported. Try decomposing the operation "
+            "into individual contributions.");
+      }
+      cBit = static_cast<Bit>(controlRegister->getStartIndex());
+    }
+    if (const auto& controlBit = classicOp->getControlBit();
+        controlBit.has_value()) {
+      assert(!classicOp->getControlRegister().has_value());
+      cBit = controlBit.value();
+    }
 
-        if (operation->getType() == Reset) {
-          throw std::runtime_error(
-              "Reset encountered in deferMeasurements routine. Please use the "
-              "eliminateResets method before deferring measurements.");
-        }
+    // get the underlying operation
+    auto* standardOp =
+        dynamic_cast<StandardOperation*>(classicOp->getOperation());
+    if (standardOp == nullptr &&
+        (cBit == bit || isDynamic(*classicOp->getOperation()))) {
+      std::stringstream ss{};
+      ss << "Underlying operation of classic-controlled operation is "
+            "not a StandardOperation.\n";
+      classicOp->print(ss, qc.getNqubits());
+      throw std::runtime_error(ss.str());
+    }
 
-        if (const auto* measurement2 =
-                dynamic_cast<NonUnitaryOperation*>(opIt->get());
-            measurement2 != nullptr && operation->getType() == Measure) {
-          const auto& targets2 = measurement2->getTargets();
-          const auto& classics2 = measurement2->getClassics();
+    // if this is not the classical bit that is measured, continue
+    if (cBit != bit) {
+      if (!barrier.has_value() && !commutesWithMeasurement(*operation, qubit)) {
+        barrier = pos;
+      }
+      continue;
+    }
 
-          // if this is the same measurement a breakpoint has been reached
-          if (targets == targets2 && classics == classics2) {
-            break;
-          }
+    const auto& targets = standardOp->getTargets();
+    if (std::find(targets.begin(), targets.end(), qubit) != targets.end()) {
+      throw std::runtime_error(
+          "Implicit reset operation in circuit detected. Measuring a "
+          "qubit and then targeting the same qubit with a "
+          "classic-controlled operation is not allowed at the "
+          "moment.");
+    }
 
-          ++currentInsertionPoint;
-          ++opIt;
-          continue;
+    // the operation can only be moved in front of other operations if it does
+    // not share any qubits with them
+    const auto usedQubits = standardOp->getUsedQubits();
+    if (barrier.has_value()) {
+      for (auto between = *barrier; between < pos; ++between) {
+        if (std::any_of(
+                usedQubits.begin(), usedQubits.end(),
+                [&](const auto q) { return (*at(between))->actsOn(q); })) {
+          throw std::runtime_error(
+              "Operations between a measurement and a classic-controlled "
+              "operation do not allow for deferring the measurement.");
         }
+      }
+    }
 
-        if (const auto* classicOp =
-                dynamic_cast<ClassicControlledOperation*>(opIt->get());
-            classicOp != nullptr) {
-          const auto& expectedValue = classicOp->getExpectedValue();
-
-          Bit cBit = 0;
-          if (const auto& controlRegister = classicOp->getControlRegister();
-              controlRegister.has_value()) {
-            assert(!classicOp->getControlBit().has_value());
-            if (controlRegister->getSize() != 1) {
-              throw std::runtime_error(
-                  "Classic-controlled operations targeted at more than one bit "
-                  "are currently not supported. Try decomposing the operation "
-                  "into individual contributions.");
-            }
-            cBit = controlRegister->getStartIndex();
-          }
-          if (const auto& controlBit = classicOp->getControlBit();
-              controlBit.has_value()) {
-            assert(!classicOp->getControlRegister().has_value());
-            cBit = controlBit.value();
-          }
-
-          // if this is not the classical bit that is measured, continue
-          if (cBit != measurementBit) {
-            if (!operation->actsOn(measurementQubit)) {
-              ++currentInsertionPoint;
-            }
-            ++opIt;
-            continue;
-          }
-
-          // get the underlying operation
-          const auto* standardOp =
-              dynamic_cast<StandardOperation*>(classicOp->getOperation());
-          if (standardOp == nullptr) {
-            std::stringstream ss{};
-            ss << "Underlying operation of classic-controlled operation is "
-                  "not a StandardOperation.\n";
-            classicOp->print(ss, qc.getNqubits());
-            throw std::runtime_error(ss.str());
-          }
+    // determine the appropriate control to add
+    const auto onZero = isConditionFulfilled(*classicOp, 0U);
+    const auto onOne = isConditionFulfilled(*classicOp, 1U);
+    auto controls = standardOp->getControls();
+    bool isNeverApplied = !onZero && !onOne;
+    if (onZero != onOne) {
+      const Control control{qubit,
+                            onOne ? Control::Type::Pos : Control::Type::Neg};
+      const auto existing = std::find_if(
+          controls.begin(), controls.end(),
+          [qubit](const auto& c) { return c.qubit == qubit; });
+      if (existing == controls.end()) {
+        controls.emplace(control);
+      } else if (existing->type != control.type) {
+        isNeverApplied = true;
+      }
+    }
 
-          // get all the necessary information for reconstructing the
-          // operation
-          const auto type = standardOp->getType();
-          const auto targs = standardOp->getTargets();
-          for (const auto& target : targs) {
-            if (target == measurementQubit) {
-              throw std::runtime_error(
-                  "Implicit reset operation in circuit detected. Measuring a "
-                  "qubit and then targeting the same qubit with a "
-                  "classic-controlled operation is not allowed at the "
-                  "moment.");
-            }
-          }
+    auto newOp = standardOp->clone();
+    qc.erase(at(pos));
+    if (isNeverApplied) {
+      --pos;
+      continue;
+    }
+    newOp->setControls(controls);
+    if (barrier.has_value()) {
+      qc.insert(at(*barrier), std::move(newOp));
+      ++*barrier;
+    } else {
+      qc.insert(at(pos), std::move(newOp));
+    }
+  }
+}
+} // namespace
 
-          // determine the appropriate control to add
-          auto controls = standardOp->getControls();
-          const auto controlQubit = measurementQubit;
-          const auto controlType =
-              (expectedValue == 1) ? Control::Type::Pos : Control::Type::Neg;
-          controls.emplace(controlQubit, controlType);
+void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
+  //      ┌───┐┌─┐                         ┌───┐     ┌─┐
+  // q_0: ┤ H ├┤M├───────             q_0: ┤ H ├──■──┤M├
+  //      └───┘└╥┘ ┌───┐                   └───┘┌─┴─┐└╥┘
+  // q_1: ──────╫──┤ X ├─     -->     q_1: ─────┤ X ├─╫─
+  //            ║  └─╥─┘                        └───┘ ║
+  //            ║ ┌──╨──┐             c: 2/═══════════╩═
+  // c: 2/══════╩═╡ = 1 ╞                             0
+  //            0 └─────┘
+  std::vector<std::pair<Qubit, Bit>> measurementsToAdd{};
+  std::size_t pos = 0;
+  while (pos < qc.size()) {
+    const auto it =
+        qc.begin() +
+        static_cast<QuantumComputation::iterator::difference_type>(pos);
+    const auto* measurement = dynamic_cast<NonUnitaryOperation*>(it->get());
+    if (measurement == nullptr || measurement->getType() != Measure) {
+      ++pos;
+      continue;
+    }
 
-          const auto parameters = standardOp->getParameter();
+    const auto& targets = measurement->getTargets();
+    const auto& classics = measurement->getClassics();
+    if (targets.size() != 1 || classics.size() != 1) {
+      throw std::runtime_error(
+          "Deferring measurements with more than 1 target is not yet "
+          "supported. Try decomposing your measurements.");
+    }
 
-          // remove the classic-controlled operation
-          // carefully handle iterator invalidation.
-          // if the current insertion point is the same as the current
-          // iterator the insertion point has to be updated to the new
-          // operation as well.
-          auto itInvalidated = (it >= opIt);
-          const auto insertionPointInvalidated =
-              (currentInsertionPoint >= opIt);
+    // if this is the last operation, nothing has to be done
+    if (pos + 1 == qc.size() && measurementsToAdd.empty()) {
+      break;
+    }
 
-          opIt = qc.erase(opIt);
+    const auto qubit = targets[0];
+    const auto bit = classics[0];
 
-          if (itInvalidated) {
-            it = opIt;
-          }
-          if (insertionPointInvalidated) {
-            currentInsertionPoint = opIt;
-          }
+    // remember q->c for adding measurements later
+    measurementsToAdd.emplace_back(qubit, bit);
 
-          itInvalidated = (it >= currentInsertionPoint);
-          // insert the new operation (invalidated all pointer onwards)
-          currentInsertionPoint = qc.insert(
-              currentInsertionPoint, std::make_unique<StandardOperation>(
-                                         controls, targs, type, parameters));
+    // remove the measurement from the vector of operations
+    qc.erase(it);
 
-          if (itInvalidated) {
-            it = currentInsertionPoint;
-          }
-          // advance just after the currently inserted operation
-          ++currentInsertionPoint;
-          // the inner loop also has to restart from here due to the
-          // invalidation of the iterators
-          opIt = currentInsertionPoint;
-        }
-      }
-    }
-    ++it;
+    replaceClassicControls(qc, pos, qubit, bit);
   }
-  if (qubitsToAddMeasurements.empty()) {
+  if (measurementsToAdd.empty()) {
     return;
   }
   qc.outputPermutation.clear();
-  for (const auto& [qubit, clbit] : qubitsToAddMeasurements) {
+  for (const auto& [qubit, clbit] : measurementsToAdd) {
     qc.measure(qubit, clbit);
   }
   qc.initializeIOMapping();
-- 
2.43.0


From efb2c638989fdb3abb842e5ff0c08ceaa856016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 079/149] fix: sampling ignored the conditions of operations
 inside compound operations

---
 src/dd/Simulation.cpp | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/dd/Simulation.cpp b/src/dd/Simulation.cpp
index 19ce2b5..a88b28f 100644
--- a/src/dd/Simulation.cpp
+++ b/src/dd/Simulation.cpp
@@ -15,6 +15,7 @@
 #include "ir/Definitions.hpp"
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/ClassicControlledOperation.hpp"
+#include "ir/operations/CompoundOperation.hpp"
 #include "ir/operations/NonUnitaryOperation.hpp"
 #include "ir/operations/OpType.hpp"
 
@@ -31,6 +32,31 @@
 #include <vector>
 
 namespace dd {
+namespace {
+/// Whether the operation contains any measurement, reset, or condition.
+bool isDynamic(const qc::Operation& op) {
+  if (!op.isCompoundOperation()) {
+    return !op.isUnitary();
+  }
+  const auto& compOp = dynamic_cast<const qc::CompoundOperation&>(op);
+  return std::any_of(compOp.begin(), compOp.end(),
+                     [](const auto& subOp) { return isDynamic(*subOp); });
+}
+
+/// Collects the given operation. Compound operations that contain dynamic
+/// circuit primitives are replaced by their constituents.
+void collectOperations(const qc::Operation& op,
+                       std::vector<const qc::Operation*>& operations) {
+  if (op.isCompoundOperation() && isDynamic(op)) {
+    for (const auto& subOp : dynamic_cast<const qc::CompoundOperation&>(op)) {
+      collectOperations(*subOp, operations);
+    }
+    return;
+  }
+  operations.push_back(&op);
+}
+} // namespace
+
 std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
                                           const VectorDD& in, Package& dd,
                                           const std::size_t shots,
@@ -55,8 +81,13 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
 
   std::map<std::size_t, qc::Qubit> measurementMap{};
 
-  // rudimentary check whether circuit is dynamic
+  std::vector<const qc::Operation*> operations{};
   for (const auto& op : qc) {
+    collectOperations(*op, operations);
+  }
+
+  // rudimentary check whether circuit is dynamic
+  for (const auto* op : operations) {
     // if it contains any dynamic circuit primitives, it certainly is dynamic
     if (op->isClassicControlledOperation() || op->getType() == qc::Reset) {
       isDynamicCircuit = true;
@@ -65,7 +96,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
 
     // once a measurement is encountered we store the corresponding mapping
     // (bit -> qubit)
-    if (const auto* measure = dynamic_cast<qc::NonUnitaryOperation*>(op.get());
+    if (const auto* measure = dynamic_cast<const qc::NonUnitaryOperation*>(op);
         measure != nullptr && measure->getType() == qc::Measure) {
       hasMeasurements = true;
 
@@ -95,7 +126,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     auto permutation = qc.initialLayout;
     auto e = in;
 
-    for (const auto& op : qc) {
+    for (const auto* op : operations) {
       // simply skip any non-unitary
       if (!op->isUnitary()) {
         continue;
@@ -164,7 +195,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     auto permutation = qc.initialLayout;
     auto e = in;
     dd.incRef(e);
-    for (const auto& op : qc) {
+    for (const auto* op : operations) {
       if (op->isUnitary()) {
         // SWAP gates can be executed virtually by changing the permutation
         if (op->getType() == qc::OpType::SWAP && !op->isControlled()) {
-- 
2.43.0


From d8f40a0765c4e180f957e30e38a9220ade5e20ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 080/149] fix: phases outside of [-3pi, 3pi] were not reduced
 to (-pi, pi]

---
 src/zx/Rational.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/zx/Rational.cpp b/src/zx/Rational.cpp
index 3abc4fe..6a92f96 100644
--- a/src/zx/Rational.cpp
+++ b/src/zx/Rational.cpp
@@ -92,10 +92,16 @@ PiRational& PiRational::operator/=(const int64_t rhs) {
 }
 
 void PiRational::modPi() {
-  if (*this > 1) {
-    frac = Rational(getNum() - (2 * getDenom()), getDenom());
-  } else if (*this <= -1) {
-    frac = Rational(getNum() + (2 * getDenom()), getDenom());
+  if (*this > 1 || *this <= -1) {
+    const BigInt denom = getDenom();
+    const BigInt period = 2 * denom;
+    BigInt num = getNum() % period;
+    if (num > denom) {
+      num -= period;
+    } else if (num <= -denom) {
+      num += period;
+    }
+    frac = Rational(num, denom);
   }
   if (getNum() == 0) {
     setDenom(1);
-- 
2.43.0


From 7158624ef797307367a7069eb10c560cdce0bed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 081/149] fix: subtracting a phase from or dividing an integer
 by a phase swapped the operands

---
 include/mqt-core/zx/Rational.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/mqt-core/zx/Rational.hpp b/include/mqt-core/zx/Rational.hpp
index 2a4b198..2f5d3d2 100644
--- a/include/mqt-core/zx/Rational.hpp
+++ b/include/mqt-core/zx/Rational.hpp
@@ -207,9 +207,8 @@ inline PiRational operator-(PiRational lhs, const int64_t rhs) {
   lhs -= rhs;
   return lhs;
 }
-inline PiRational operator-(const int64_t lhs, PiRational rhs) {
-  rhs -= lhs;
-  return rhs;
+inline PiRational operator-(const int64_t lhs, const PiRational& rhs) {
+  return -rhs + lhs;
 }
 
 inline PiRational operator*(PiRational lhs, const PiRational& rhs) {
@@ -233,9 +232,8 @@ inline PiRational operator/(PiRational lhs, const int64_t rhs) {
   lhs /= rhs;
   return lhs;
 }
-inline PiRational operator/(const int64_t lhs, PiRational rhs) {
-  rhs /= lhs;
-  return rhs;
+inline PiRational operator/(const int64_t lhs, const PiRational& rhs) {
+  return PiRational(rhs.getDenom(), rhs.getNum()) * lhs;
 }
 
 inline bool operator<(const PiRational& lhs, const PiRational& rhs) {
-- 
2.43.0


From 457ecb26928cc65fa1efd75ba7b063ba59f8a405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 082/149] fix: phases from very small or very large angles
 overflowed

---
 src/zx/Rational.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/zx/Rational.cpp b/src/zx/Rational.cpp
index 6a92f96..8620b76 100644
--- a/src/zx/Rational.cpp
+++ b/src/zx/Rational.cpp
@@ -25,20 +25,14 @@ PiRational::PiRational(double val) {
 
   const double multPi = PI / val;
   const double nearest = std::round(multPi);
-  if (std::abs(nearest - multPi) < PARAMETER_TOLERANCE) {
-    auto denom = static_cast<int>(nearest);
-    frac = Rational(1, denom);
+  if (nearest != 0. && std::abs(nearest) <= MAX_DENOM &&
+      std::abs(nearest - multPi) < PARAMETER_TOLERANCE) {
+    frac = Rational(1, static_cast<int64_t>(nearest));
     modPi();
     return;
   }
 
-  val /= PI;
-  val -= 2 * static_cast<int>(val / 2);
-  if (val > 1) {
-    val -= 2;
-  } else if (val <= -1) {
-    val += 2;
-  }
+  val = std::remainder(val / PI, 2.);
 
   frac = Rational(val * MAX_DENOM, MAX_DENOM);
   modPi();
-- 
2.43.0


From 2ca6df41b961520462ade76ff5f865404d77439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 083/149] fix: converting global phase gates to ZX-diagrams
 accessed a non-existing target

---
 src/zx/FunctionalityConstruction.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 7fa390a..46eef79 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -316,15 +316,15 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     return it + 1;
   }
 
+  if (op->getType() == qc::OpType::GPhase && !op->isControlled()) {
+    diag.addGlobalPhase(parseParam(op.get(), 0));
+    return it + 1;
+  }
+
   if (!op->isControlled()) {
     // single qubit gates
     const auto target = static_cast<Qubit>(p.at(op->getTargets().front()));
     switch (op->getType()) {
-    case qc::OpType::GPhase: {
-      const auto& param = parseParam(op.get(), 0);
-      diag.addGlobalPhase(param);
-      break;
-    }
     case qc::OpType::Z:
       addZSpider(diag, target, qubits, PiExpression(PiRational(1, 1)));
       break;
@@ -553,7 +553,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
       throw ZXException("Unsupported Controlled Operation: " +
                         qc::toString(op->getType()));
     }
-  } else if (op->getNcontrols() == 2) {
+  } else if (op->getNcontrols() == 2 && op->getNtargets() == 1) {
     // three-qubit controlled gates (ccx or ccz)
     Qubit ctrl0 = 0;
     Qubit ctrl1 = 0;
-- 
2.43.0


From 4895af56d510445140d97e1f81bed7237341fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 084/149] fix: negative controls were ignored when converting
 circuits to ZX-diagrams

---
 src/zx/FunctionalityConstruction.cpp | 29 ++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 46eef79..3caa704 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -29,6 +29,15 @@
 
 namespace zx {
 
+namespace {
+bool hasOnlyPositiveControls(const qc::Operation& op) {
+  const auto& controls = op.getControls();
+  return std::all_of(controls.begin(), controls.end(), [](const auto& c) {
+    return c.type == qc::Control::Type::Pos;
+  });
+}
+} // namespace
+
 bool FunctionalityConstruction::checkSwap(const op_it& it, const op_it& end,
                                           const Qubit ctrl, const Qubit target,
                                           const qc::Permutation& p) {
@@ -36,7 +45,8 @@ bool FunctionalityConstruction::checkSwap(const op_it& it, const op_it& end,
     const auto& op1 = *(it + 1);
     const auto& op2 = *(it + 2);
     if (op1->getType() == qc::OpType::X && op2->getType() == qc::OpType::X &&
-        op1->getNcontrols() == 1 && op2->getNcontrols() == 1) {
+        op1->getNcontrols() == 1 && op2->getNcontrols() == 1 &&
+        hasOnlyPositiveControls(*op1) && hasOnlyPositiveControls(*op2)) {
       const auto tar1 = p.at(op1->getTargets().front());
       const auto tar2 = p.at(op2->getTargets().front());
       const auto ctrl1 = p.at((*op1->getControls().begin()).qubit);
@@ -321,6 +331,16 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     return it + 1;
   }
 
+  // negative controls are conjugated by X
+  const auto negateControls = [&] {
+    for (const auto& control : op->getControls()) {
+      if (control.type == qc::Control::Type::Neg) {
+        addXSpider(diag, static_cast<Qubit>(p.at(control.qubit)), qubits,
+                   PiExpression(PiRational(1, 1)));
+      }
+    }
+  };
+
   if (!op->isControlled()) {
     // single qubit gates
     const auto target = static_cast<Qubit>(p.at(op->getTargets().front()));
@@ -508,10 +528,12 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     const auto target = static_cast<Qubit>(p.at(op->getTargets().front()));
     const auto ctrl =
         static_cast<Qubit>(p.at((*op->getControls().begin()).qubit));
+    negateControls();
     switch (op->getType()) { // TODO: any gate can be controlled
     case qc::OpType::X:
       // check if swap
-      if (checkSwap(it, end, ctrl, target, p)) {
+      if (hasOnlyPositiveControls(*op) &&
+          checkSwap(it, end, ctrl, target, p)) {
         addSwap(diag, target, ctrl, qubits);
         return it + 3;
       } else {
@@ -553,6 +575,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
       throw ZXException("Unsupported Controlled Operation: " +
                         qc::toString(op->getType()));
     }
+    negateControls();
   } else if (op->getNcontrols() == 2 && op->getNtargets() == 1) {
     // three-qubit controlled gates (ccx or ccz)
     Qubit ctrl0 = 0;
@@ -566,6 +589,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
         ctrl1 = static_cast<Qubit>(p.at(ctrl.qubit));
       }
     }
+    negateControls();
     switch (op->getType()) {
     case qc::OpType::X:
       addCcx(diag, ctrl0, ctrl1, target, qubits);
@@ -580,6 +604,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
       throw ZXException("Unsupported Multi-control operation: " +
                         qc::toString(op->getType()));
     }
+    negateControls();
   } else {
     throw ZXException("Unsupported Multi-control operation (" +
                       std::to_string(op->getNcontrols()) + " ctrls)" +
-- 
2.43.0


From 1714d715d6188028f6102606a4e12af5d4133738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 085/149] fix: the ZX-diagram of the ECR gate lacked its X gate

---
 src/zx/FunctionalityConstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 3caa704..17261e3 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -479,7 +479,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     case qc::OpType::ECR: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
       addRzx(diag, PiExpression(PiRational(1, 4)), target, target2, qubits);
-      addXSpider(diag, target, qubits);
+      addXSpider(diag, target, qubits, PiExpression(PiRational(1, 1)));
       addRzx(diag, PiExpression(-PiRational(1, 4)), target, target2, qubits);
       break;
     }
-- 
2.43.0


From 24e02075a1ec2353c1c475346a70f62c3d788ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 086/149] fix: the ZX-diagrams of XXplusYY and XXminusYY gates
 did not denote the gates

---
 .../mqt-core/zx/FunctionalityConstruction.hpp |  5 +-
 src/zx/FunctionalityConstruction.cpp          | 61 +++++++++++++------
 2 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/include/mqt-core/zx/FunctionalityConstruction.hpp b/include/mqt-core/zx/FunctionalityConstruction.hpp
index ac7817f..2c2d391 100644
--- a/include/mqt-core/zx/FunctionalityConstruction.hpp
+++ b/include/mqt-core/zx/FunctionalityConstruction.hpp
@@ -102,12 +102,12 @@ protected:
   static void addDcx(ZXDiagram& diag, Qubit qubit1, Qubit qubit2,
                      std::vector<Vertex>& qubits);
   static void
-  addXXplusYY(ZXDiagram& diag, const PiExpression& theta,
+  addXXplusYY(ZXDiagram& diag, const PiExpression& halfTheta,
               const PiExpression& beta, Qubit qubit0, Qubit qubit1,
               std::vector<Vertex>& qubits,
               const std::optional<double>& unconvertedBeta = std::nullopt);
   static void
-  addXXminusYY(ZXDiagram& diag, const PiExpression& theta,
+  addXXminusYY(ZXDiagram& diag, const PiExpression& halfTheta,
                const PiExpression& beta, Qubit qubit0, Qubit qubit1,
                std::vector<Vertex>& qubits,
                const std::optional<double>& unconvertedBeta = std::nullopt);
@@ -121,5 +121,6 @@ protected:
 
   static PiExpression toPiExpr(const qc::SymbolOrNumber& param);
   static PiExpression parseParam(const qc::Operation* op, std::size_t i);
+  static PiExpression parseHalvedParam(const qc::Operation* op, std::size_t i);
 };
 } // namespace zx
diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 17261e3..a28cc84 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -224,32 +224,38 @@ void FunctionalityConstruction::addDcx(ZXDiagram& diag, const Qubit qubit1,
 }
 
 void FunctionalityConstruction::addXXplusYY(
-    ZXDiagram& diag, const PiExpression& theta, const PiExpression& beta,
+    ZXDiagram& diag, const PiExpression& halfTheta, const PiExpression& beta,
     const Qubit qubit0, const Qubit qubit1, std::vector<Vertex>& qubits,
     const std::optional<double>& unconvertedBeta) {
-  addRz(diag, beta, qubit1, qubits, unconvertedBeta);
+  // conjugating with a rotation by pi - beta amounts to conjugating with a
+  // rotation by -beta and inverting the sign of theta
+  const auto pi = PiExpression(PiRational(1, 1));
+  if (unconvertedBeta.has_value()) {
+    addRz(diag, pi - beta, qubit1, qubits, PI - unconvertedBeta.value());
+  } else {
+    addRz(diag, pi - beta, qubit1, qubits);
+  }
   addRz(diag, PiExpression(PiRational(1, 2)), qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
-  addRy(diag, theta / 2, qubit0, qubits);
-  addRy(diag, theta / 2, qubit1, qubits);
+  addRy(diag, halfTheta, qubit0, qubits);
+  addRy(diag, halfTheta, qubit1, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   if (unconvertedBeta.has_value()) {
-    addRz(diag, -beta, qubit1, qubits, -unconvertedBeta.value());
+    addRz(diag, beta - pi, qubit1, qubits, unconvertedBeta.value() - PI);
   } else {
-    addRz(diag, -beta, qubit1, qubits);
+    addRz(diag, beta - pi, qubit1, qubits);
   }
-
   addRz(diag, PiExpression(-PiRational(1, 2)), qubit1, qubits);
 }
 
 void FunctionalityConstruction::addXXminusYY(
-    ZXDiagram& diag, const PiExpression& theta, const PiExpression& beta,
+    ZXDiagram& diag, const PiExpression& halfTheta, const PiExpression& beta,
     const Qubit qubit0, const Qubit qubit1, std::vector<Vertex>& qubits,
     const std::optional<double>& unconvertedBeta) {
   if (unconvertedBeta.has_value()) {
@@ -262,8 +268,8 @@ void FunctionalityConstruction::addXXminusYY(
   addRx(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
-  addRy(diag, -theta / 2, qubit0, qubits);
-  addRy(diag, theta / 2, qubit1, qubits);
+  addRy(diag, -halfTheta, qubit0, qubits);
+  addRy(diag, halfTheta, qubit1, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
@@ -485,25 +491,25 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     }
     case qc::OpType::XXplusYY: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
-      const auto& betaExpr = parseParam(op.get(), 0);
+      const auto& betaExpr = parseParam(op.get(), 1);
       if (betaExpr.isConstant()) {
-        addXXplusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                    qubits, op->getParameter().at(0));
+        addXXplusYY(diag, parseHalvedParam(op.get(), 0), betaExpr, target,
+                    target2, qubits, op->getParameter().at(1));
       } else {
-        addXXplusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                    qubits);
+        addXXplusYY(diag, parseHalvedParam(op.get(), 0), betaExpr, target,
+                    target2, qubits);
       }
       break;
     }
     case qc::OpType::XXminusYY: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
-      const auto& betaExpr = parseParam(op.get(), 0);
+      const auto& betaExpr = parseParam(op.get(), 1);
       if (betaExpr.isConstant()) {
-        addXXminusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                     qubits, op->getParameter().at(0));
+        addXXminusYY(diag, parseHalvedParam(op.get(), 0), betaExpr, target,
+                     target2, qubits, op->getParameter().at(1));
       } else {
-        addXXminusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                     qubits);
+        addXXminusYY(diag, parseHalvedParam(op.get(), 0), betaExpr, target,
+                     target2, qubits);
       }
       break;
     }
@@ -740,6 +746,21 @@ PiExpression FunctionalityConstruction::parseParam(const qc::Operation* op,
   return PiExpression{PiRational{op->getParameter().at(i)}};
 }
 PiExpression
+FunctionalityConstruction::parseHalvedParam(const qc::Operation* op,
+                                            const std::size_t i) {
+  // the parameter has to be halved before it is reduced modulo 2*pi
+  if (const auto* symbOp = dynamic_cast<const qc::SymbolicOperation*>(op)) {
+    auto param = symbOp->getParameter(i);
+    if (std::holds_alternative<qc::Symbolic>(param)) {
+      std::get<qc::Symbolic>(param) /= 2.;
+    } else {
+      std::get<double>(param) /= 2.;
+    }
+    return toPiExpr(param);
+  }
+  return PiExpression{PiRational{op->getParameter().at(i) / 2.}};
+}
+PiExpression
 FunctionalityConstruction::toPiExpr(const qc::SymbolOrNumber& param) {
   if (std::holds_alternative<double>(param)) {
     return PiExpression{PiRational{std::get<double>(param)}};
-- 
2.43.0


From 7bf67426618e880d9b854b9395acd06bf7a3caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 087/149] fix: gadget fusion changed diagrams with boundary
 vertices, X spiders or several leaves

---
 src/zx/Rules.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/zx/Rules.cpp b/src/zx/Rules.cpp
index 686fb99..7fd858a 100644
--- a/src/zx/Rules.cpp
+++ b/src/zx/Rules.cpp
@@ -293,7 +293,8 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
 
   const auto id0 = diag.incidentEdges(v)[0].to;
   const auto id0Etype = diag.incidentEdges(v)[0].type;
-  if (!isPauli(diag, id0) || diag.degree(id0) < 2 ||
+  if (diag.type(v) != VertexType::Z || diag.type(id0) != VertexType::Z ||
+      !isPauli(diag, id0) || diag.degree(id0) < 2 ||
       id0Etype != zx::EdgeType::Hadamard) {
     return false;
   }
@@ -302,7 +303,7 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
     const auto& [v0, v0Etype] = diag.incidentEdges(id0)[0].to == v
                                     ? diag.incidentEdges(id0)[1]
                                     : diag.incidentEdges(id0)[0];
-    if (v0Etype != EdgeType::Hadamard) {
+    if (v0Etype != EdgeType::Hadamard || diag.type(v0) != VertexType::Z) {
       return false;
     }
 
@@ -322,7 +323,7 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
       continue;
     }
 
-    if (etype != zx::EdgeType::Hadamard) {
+    if (etype != zx::EdgeType::Hadamard || diag.type(n) != VertexType::Z) {
       return false;
     }
     n0 = n;
@@ -338,25 +339,31 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
     }
 
     if (etype != zx::EdgeType::Hadamard || diag.isDeleted(n) ||
-        !isPauli(diag.phase(n)) || diag.degree(n) != diag.degree(id0) ||
+        diag.type(n) != VertexType::Z || !isPauli(diag.phase(n)) || diag.degree(n) != diag.degree(id0) ||
         diag.connected(n, id0)) {
       continue;
     }
 
     foundGadget = true;
     id1 = n;
+    phaseSpider.reset();
 
     for (const auto& [nn, nnEtype] :
          diag.incidentEdges(id1.value())) { // Todo: maybe problem with parallel
                                             // edge? There shouldn't be any
-      if (nnEtype != zx::EdgeType::Hadamard || diag.isDeleted(nn)) {
+      if (nnEtype != zx::EdgeType::Hadamard || diag.isDeleted(nn) ||
+          diag.type(nn) != VertexType::Z) {
         // not a phase gadget
         foundGadget = false;
         break;
       }
 
-      if (diag.degree(nn) == 1 && !diag.isBoundaryVertex(nn)) {
-        foundGadget = true;
+      if (diag.degree(nn) == 1) {
+        if (phaseSpider.has_value()) {
+          // a gadget has exactly one leaf
+          foundGadget = false;
+          break;
+        }
         phaseSpider = nn;
         continue;
       }
@@ -370,9 +377,10 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
       }
     }
 
-    if (foundGadget) {
+    if (foundGadget && phaseSpider.has_value()) {
       break;
     }
+    foundGadget = false;
   }
 
   if (!foundGadget || !phaseSpider.has_value()) {
-- 
2.43.0


From ebc7676703dc9a97e1e9ae5300bd55e209a74079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 088/149] fix: the Pauli pivot did not check the type of the
 second vertex

---
 src/zx/Rules.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zx/Rules.cpp b/src/zx/Rules.cpp
index 7fd858a..0baf78b 100644
--- a/src/zx/Rules.cpp
+++ b/src/zx/Rules.cpp
@@ -155,10 +155,10 @@ void localComp(ZXDiagram& diag, const Vertex v) { // TODO:scalars
 bool checkPivotPauli(const ZXDiagram& diag, const Vertex v0, const Vertex v1) {
   const auto v0Data = diag.getVData(v0).value_or(
       VertexData{0, 0, PiExpression(), VertexType::X});
-  const auto v1Data = diag.getVData(v0).value_or(
+  const auto v1Data = diag.getVData(v1).value_or(
       VertexData{0, 0, PiExpression(), VertexType::X});
 
-  if (v0Data.type != VertexType::Z || // maybe problem if there is a self-loop?
+  if (v0 == v1 || v0Data.type != VertexType::Z ||
       v1Data.type != VertexType::Z || !isPauli(diag, v0) ||
       !isPauli(diag, v1)) {
     return false;
-- 
2.43.0


From b545afa09972bbd1deb07f04ce8726d3ab4ec3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 089/149] fix: the adjacency matrix of diagrams with removed
 vertices was accessed out of bounds

---
 src/zx/ZXDiagram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index 90073b3..e8dc6b4 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -389,7 +389,8 @@ void ZXDiagram::addGlobalPhase(const PiExpression& phase) {
 }
 
 gf2Mat ZXDiagram::getAdjMat() const {
-  gf2Mat adjMat{nvertices, gf2Vec(nvertices, false)};
+  const auto n = vertices.size();
+  gf2Mat adjMat(n, gf2Vec(n, false));
   for (const auto& [from, to] : getEdges()) {
     adjMat[from][to] = true;
     adjMat[to][from] = true;
-- 
2.43.0


From 724ef4061734cbb0aa7960746966af2716b4c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 090/149] fix: a wire with a Hadamard edge was considered to be
 the identity

---
 src/zx/ZXDiagram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index e8dc6b4..b700d6a 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -294,7 +294,8 @@ bool ZXDiagram::isIdentity() const {
 
   const auto nInputs = inputs.size();
   for (size_t i = 0; i < nInputs; ++i) {
-    if (!connected(inputs[i], outputs[i])) {
+    const auto edge = getEdge(inputs[i], outputs[i]);
+    if (!edge.has_value() || edge->type != EdgeType::Simple) {
       return false;
     }
   }
-- 
2.43.0


From 43a8cc8cd5d307fed2b29b0578492935548d84e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 091/149] fix: concatenating ZX-diagrams confused qubits and
 created parallel edges

---
 src/zx/ZXDiagram.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index b700d6a..9b02c41 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -17,6 +17,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <iterator>
 #include <optional>
 #include <unordered_map>
 #include <unordered_set>
@@ -264,14 +265,15 @@ ZXDiagram& ZXDiagram::concat(const ZXDiagram& rhs) {
           addEdge(newVs[i], newVs[to], type);
         }
       } else {
-        const auto outV = outputs[static_cast<std::size_t>(rhs.qubit(to))];
+        const auto inputIt =
+            std::find(rhs.inputs.begin(), rhs.inputs.end(), to);
+        const auto outV = outputs[static_cast<std::size_t>(
+            std::distance(rhs.inputs.begin(), inputIt))];
         for (const auto& [interior_v, interior_type] :
              edges[outV]) { // redirect edges going to outputs
-          if (interior_type == type) {
-            addEdge(interior_v, newVs[i], EdgeType::Simple);
-          } else {
-            addEdge(interior_v, newVs[i], EdgeType::Hadamard);
-          }
+          addEdgeParallelAware(interior_v, newVs[i],
+                               interior_type == type ? EdgeType::Simple
+                                                     : EdgeType::Hadamard);
         }
       }
     }
-- 
2.43.0


From 4276c108e829a57d1768f62b4f7f7a3461718d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 092/149] fix: the global phase of inverted and concatenated
 ZX-diagrams was wrong

---
 src/zx/ZXDiagram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index 9b02c41..3aae087 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -233,6 +233,7 @@ ZXDiagram& ZXDiagram::invert() {
       data.value().phase = -data.value().phase;
     }
   }
+  globalPhase = -globalPhase;
   return *this;
 }
 
@@ -285,7 +286,7 @@ ZXDiagram& ZXDiagram::concat(const ZXDiagram& rhs) {
     outputs[i] = newVs[rhs.outputs[i]];
   }
 
-  this->addGlobalPhase(-rhs.globalPhase);
+  this->addGlobalPhase(rhs.globalPhase);
   return *this;
 }
 
-- 
2.43.0


From 221bb5372ba7b48d943a410a7c66e8c9efc2734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 093/149] fix: phases just above -pi were not rounded to pi

---
 src/zx/Utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zx/Utils.cpp b/src/zx/Utils.cpp
index f175598..b9f0f54 100644
--- a/src/zx/Utils.cpp
+++ b/src/zx/Utils.cpp
@@ -168,7 +168,8 @@ void roundToClifford(PiExpression& expr, const fp tolerance) {
     expr.setConst(PiRational(1, 2));
   } else if (expr.getConst().isCloseDivPi(-0.5, tolerance)) {
     expr.setConst(PiRational(-1, 2));
-  } else if (expr.getConst().isCloseDivPi(1, tolerance)) {
+  } else if (expr.getConst().isCloseDivPi(1, tolerance) ||
+             expr.getConst().isCloseDivPi(-1, tolerance)) {
     expr.setConst(PiRational(1, 1));
   }
 }
-- 
2.43.0


From c9d0c8b2cd1522591d9b261a3d645491132c8a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 094/149] fix: pre- and post-increment of the ZX iterators
 returned the wrong positions

---
 include/mqt-core/zx/Utils.hpp |  4 ++--
 src/zx/Utils.cpp              | 25 +++++++++++--------------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/include/mqt-core/zx/Utils.hpp b/include/mqt-core/zx/Utils.hpp
index 3f2f92b..1c20903 100644
--- a/include/mqt-core/zx/Utils.hpp
+++ b/include/mqt-core/zx/Utils.hpp
@@ -84,7 +84,7 @@ public:
     }
 
     // Prefix increment
-    VertexIterator operator++();
+    VertexIterator& operator++();
 
     // Postfix increment
     VertexIterator operator++(int);
@@ -146,7 +146,7 @@ public:
     value_type operator*() const { return {v, currentPos->to}; }
 
     // Prefix increment
-    EdgeIterator operator++();
+    EdgeIterator& operator++();
 
     // Postfix increment
     EdgeIterator operator++(int);
diff --git a/src/zx/Utils.cpp b/src/zx/Utils.cpp
index b9f0f54..6cdce05 100644
--- a/src/zx/Utils.cpp
+++ b/src/zx/Utils.cpp
@@ -28,20 +28,18 @@ Vertices::VertexIterator::VertexIterator(
   }
 }
 // Prefix increment
-Vertices::VertexIterator Vertices::VertexIterator::operator++() {
-  Vertices::VertexIterator it = *this;
+Vertices::VertexIterator& Vertices::VertexIterator::operator++() {
   ++currentPos;
   ++v;
   nextValidVertex();
-  return it;
+  return *this;
 }
 
 // Postfix increment
 Vertices::VertexIterator Vertices::VertexIterator::operator++(int) {
-  ++currentPos;
-  ++v;
-  nextValidVertex();
-  return *this;
+  const Vertices::VertexIterator it = *this;
+  ++(*this);
+  return it;
 }
 
 bool operator==(const Vertices::VertexIterator& a,
@@ -99,11 +97,10 @@ Edges::EdgeIterator::EdgeIterator(
 }
 
 // Prefix increment
-Edges::EdgeIterator Edges::EdgeIterator::operator++() {
-  Edges::EdgeIterator it = *this;
-  currentPos++;
+Edges::EdgeIterator& Edges::EdgeIterator::operator++() {
+  ++currentPos;
   checkNextVertex();
-  return it;
+  return *this;
 }
 
 void Edges::EdgeIterator::checkNextVertex() {
@@ -134,9 +131,9 @@ void Edges::EdgeIterator::checkNextVertex() {
 }
 // Postfix increment
 Edges::EdgeIterator Edges::EdgeIterator::operator++(int) {
-  ++currentPos;
-  checkNextVertex();
-  return *this;
+  const Edges::EdgeIterator it = *this;
+  ++(*this);
+  return it;
 }
 
 bool operator==(const Edges::EdgeIterator& a, const Edges::EdgeIterator& b) {
-- 
2.43.0


From 93c7ba48c777f89b3f226d69a089e11343fc3269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 095/149] fix: listing the edges of an empty ZX-diagram
 dereferenced a non-existing vertex

---
 src/zx/ZXDiagram.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index 3aae087..cfe2faa 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -187,6 +187,9 @@ ZXDiagram::getVertices() const {
 
 [[nodiscard]] std::vector<std::pair<Vertex, Vertex>>
 ZXDiagram::getEdges() const {
+  if (edges.empty()) {
+    return {};
+  }
   Edges es(edges, vertices);
   return {es.begin(), es.end()};
 }
-- 
2.43.0


From a005ef312d8a06a0ca7d5c159a7e144f26cb7568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 096/149] fix: the transitive closure of acyclic graphs was
 incomplete

---
 .../mqt-core/datastructures/DirectedAcyclicGraph.hpp   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp b/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
index aeaae63..6d98dbe 100644
--- a/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
+++ b/include/mqt-core/datastructures/DirectedAcyclicGraph.hpp
@@ -54,10 +54,12 @@ public:
     DirectedGraph<V>::addEdge(u, v);
     for (std::size_t k = 0; k < this->nVertices; ++k) {
       if (closureMatrix[k][i]) {
-        closureMatrix[k][j] = true;
-      }
-      if (closureMatrix[j][k]) {
-        closureMatrix[i][k] = true;
+        // everything that reaches u now reaches everything v reaches
+        for (std::size_t l = 0; l < this->nVertices; ++l) {
+          if (closureMatrix[j][l]) {
+            closureMatrix[k][l] = true;
+          }
+        }
       }
     }
   }
-- 
2.43.0


From f868795d188213b5150a9645d247a7cf6c033e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 097/149] fix: adjacency and DOT output of undirected graphs
 ignored self-loops

---
 include/mqt-core/datastructures/UndirectedGraph.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mqt-core/datastructures/UndirectedGraph.hpp b/include/mqt-core/datastructures/UndirectedGraph.hpp
index 5ff24b6..cdafe42 100644
--- a/include/mqt-core/datastructures/UndirectedGraph.hpp
+++ b/include/mqt-core/datastructures/UndirectedGraph.hpp
@@ -194,8 +194,8 @@ public:
     }
     const auto i = mapping.at(u);
     const auto j = mapping.at(v);
-    return (i < j && adjacencyMatrix[i][j - i] != std::nullopt) or
-           (j < i && adjacencyMatrix[j][i - j] != std::nullopt);
+    return i < j ? adjacencyMatrix[i][j - i] != std::nullopt
+                 : adjacencyMatrix[j][i - j] != std::nullopt;
   }
   [[nodiscard]] static auto isAdjacentEdge(const std::pair<V, V>& e,
                                            const std::pair<V, V>& f) -> bool {
@@ -210,7 +210,7 @@ public:
       ss << "  " << i << " [label=\"" << v << "\"];\n";
     }
     for (std::size_t i = 0; i < nVertices; ++i) {
-      for (std::size_t j = i + 1; j < nVertices; ++j) {
+      for (std::size_t j = i; j < nVertices; ++j) {
         if (adjacencyMatrix[i][j - i] != std::nullopt) {
           ss << "  " << i << " -- " << j << ";\n";
         }
-- 
2.43.0


From b2480209b0865f4547373622ff2f3b6306eec5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 098/149] fix: the layer scheduler offered cancelling
 operations out of turn or got stuck

---
 src/datastructures/Layer.cpp | 124 +++++++++++++++++++++++++++++++----
 1 file changed, 113 insertions(+), 11 deletions(-)

diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index 8fceb6a..698b291 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -12,17 +12,42 @@
 
 #include "ir/Definitions.hpp"
 #include "ir/QuantumComputation.hpp"
+#include "ir/operations/CompoundOperation.hpp"
 #include "ir/operations/OpType.hpp"
+#include "ir/operations/Operation.hpp"
 
 #include <algorithm>
 #include <cstddef>
 #include <memory>
 #include <sstream>
 #include <stdexcept>
+#include <unordered_map>
+#include <unordered_set>
+#include <utility>
 #include <vector>
 
 namespace qc {
 
+namespace {
+// whether the operation is a product of gates on the individual qubits
+[[nodiscard]] auto isGlobalProduct(const Operation& op,
+                                   const std::size_t nQubits) -> bool {
+  const auto isProduct = [](const Operation& o) {
+    return o.isStandardOperation() && o.getNcontrols() == 0 &&
+           isSingleQubitGate(o.getType());
+  };
+  if (op.getUsedQubits().size() != nQubits) {
+    return false;
+  }
+  if (op.isCompoundOperation()) {
+    const auto& compound = dynamic_cast<const CompoundOperation&>(op);
+    return std::all_of(compound.cbegin(), compound.cend(),
+                       [&](const auto& o) { return isProduct(*o); });
+  }
+  return isProduct(op);
+}
+} // namespace
+
 auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
     -> void {
   const auto nQubits = qc.getNqubits();
@@ -47,12 +72,50 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
   // constructive and destructive operations
   std::vector qubitOperations(nQubits,
                               std::vector<std::shared_ptr<DAGVertex>>());
+  // the operations that must be executed before an operation
+  std::unordered_map<const DAGVertex*, std::vector<std::shared_ptr<DAGVertex>>>
+      dependencies;
+  const auto addDependency = [&](const std::shared_ptr<DAGVertex>& first,
+                                 const std::shared_ptr<DAGVertex>& second) {
+    first->addEnabledSuccessor(second);
+    dependencies[second.get()].emplace_back(first);
+  };
+  // pairs of operations that cancel each other on some qubit but not
+  // everywhere, and the preceding operations on that qubit
+  struct PartialPair {
+    std::shared_ptr<DAGVertex> first;
+    std::shared_ptr<DAGVertex> second;
+    std::vector<std::shared_ptr<DAGVertex>> preceding;
+  };
+  std::vector<PartialPair> partialPairs;
   // iterate over all operations in the quantum circuit
   for (const auto& op : qc) {
     // create a vertex for the current operation
     const auto vertex = DAGVertex::create(op.get(), executableSet);
+    const auto& usedQubits = op->getUsedQubits();
+    // check whether two operations cancel each other on a particular qubit
+    const auto cancelsAtQubit = [&](const std::shared_ptr<DAGVertex>& v,
+                                    const Qubit q) {
+      return v != nullptr && v->getOperation()->isInverseOf(*op) &&
+             (currentGroup[q].empty() ||
+              !(currentGroup[q][0]->getOperation())
+                   ->commutesAtQubit(*v->getOperation(), q));
+    };
+    // check whether this operation cancels one and the same preceding operation
+    // on all qubits
+    const auto previous =
+        usedQubits.empty() ? nullptr : lookahead[*usedQubits.begin()];
+    const auto cancelsEverywhere =
+        previous != nullptr &&
+        previous->getOperation()->getUsedQubits() == usedQubits &&
+        std::all_of(usedQubits.cbegin(), usedQubits.cend(), [&](const auto& q) {
+          return lookahead[q] == previous && cancelsAtQubit(previous, q);
+        });
+    // only operations that are a product of gates on the individual qubits may
+    // cancel each other on some of the qubits
+    const auto mayCancel = cancelsEverywhere || isGlobalProduct(*op, nQubits);
     // iterate over all qubits the operation acts on
-    for (const auto& qubit : op->getUsedQubits()) {
+    for (const auto& qubit : usedQubits) {
       // check whether the lookahead is empty
       if (lookahead[qubit] == nullptr) {
         // here: the lookahead is empty
@@ -70,12 +133,16 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
         lookahead[qubit] = vertex;
         // check whether the current operation is the inverse of the
         // lookahead
-        if (current->getOperation()->isInverseOf(
-                *lookahead[qubit]->getOperation()) &&
-            (currentGroup[qubit].empty() ||
-             !(currentGroup[qubit][0]->getOperation())
-                  ->commutesAtQubit(*current->getOperation(), qubit))) {
+        if (mayCancel && cancelsAtQubit(current, qubit)) {
           // here: the current operation is the inverse of the lookahead
+          // it must not be executed in between other pairs of inverse
+          // operations
+          for (const auto& constructiveOp : constructive[qubit]) {
+            addDependency(constructiveOp, current);
+          }
+          for (const auto& destructiveOp : destructive[qubit]) {
+            destructiveOp->addDisabledSuccessor(current);
+          }
           // add an enabling edge from the lookahead to all operations on this
           // qubit including the destructive ones
           for (const auto& qubitOperation : qubitOperations[qubit]) {
@@ -95,7 +162,14 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
             current->addDisabledSuccessor(qubitOperation);
           }
           // add an enabling edge to the lookahead
-          current->addEnabledSuccessor(lookahead[qubit]);
+          addDependency(current, lookahead[qubit]);
+          if (!cancelsEverywhere) {
+            auto preceding = qubitOperations[qubit];
+            preceding.insert(preceding.end(), destructive[qubit].cbegin(),
+                             destructive[qubit].cend());
+            partialPairs.push_back(
+                {current, lookahead[qubit], std::move(preceding)});
+          }
           // add the current vertex to the destructive group
           destructive[qubit].emplace_back(current);
           // clear the lookahead
@@ -103,7 +177,7 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
         } else {
           // add an enabling edge from each constructive operation
           for (const auto& constructiveOp : constructive[qubit]) {
-            constructiveOp->addEnabledSuccessor(current);
+            addDependency(constructiveOp, current);
           }
           // add a disabling edge from each destructive operation
           for (const auto& destructiveOp : destructive[qubit]) {
@@ -132,7 +206,7 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
           }
           // add an enabling edge from each predecessor
           for (const auto& predecessor : predecessorGroup[qubit]) {
-            predecessor->addEnabledSuccessor(current);
+            addDependency(predecessor, current);
           }
           // add the current vertex to the current group
           currentGroup[qubit].emplace_back(current);
@@ -148,7 +222,7 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
       lookahead[qubit] = nullptr;
       // add an enabling edge from each constructive operation
       for (const auto& constructiveOp : constructive[qubit]) {
-        constructiveOp->addEnabledSuccessor(current);
+        addDependency(constructiveOp, current);
       }
       // add a disabling edge from each destructive operation
       for (const auto& destructiveOp : destructive[qubit]) {
@@ -169,13 +243,41 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
       }
       // add an enabling edge from each predecessor
       for (const auto& predecessor : predecessorGroup[qubit]) {
-        predecessor->addEnabledSuccessor(current);
+        addDependency(predecessor, current);
       }
       // add the current vertex to the current group
       currentGroup[qubit].emplace_back(current);
       qubitOperations[qubit].emplace_back(current);
     }
   }
+  // The first operation of a pair disables the preceding operations on the
+  // qubit until the second operation is executed. Hence, those that the second
+  // operation depends on must be executed before the first operation.
+  for (bool changed = true; changed;) {
+    changed = false;
+    for (const auto& [first, second, preceding] : partialPairs) {
+      std::unordered_set<const DAGVertex*> required;
+      std::vector<const DAGVertex*> stack{second.get()};
+      while (!stack.empty()) {
+        const auto* const v = stack.back();
+        stack.pop_back();
+        for (const auto& dependency : dependencies[v]) {
+          if (dependency != first && required.insert(dependency.get()).second) {
+            stack.emplace_back(dependency.get());
+          }
+        }
+      }
+      for (const auto& v : preceding) {
+        const auto& existing = dependencies[first.get()];
+        if (required.find(v.get()) != required.end() &&
+            std::find(existing.cbegin(), existing.cend(), v) ==
+                existing.cend()) {
+          addDependency(v, first);
+          changed = true;
+        }
+      }
+    }
+  }
 }
 auto Layer::constructInteractionGraph(const OpType opType,
                                       const std::size_t nControls) const
-- 
2.43.0


From 3350c7e24fae89247360d2763352d214e4d69df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 099/149] fix: the order relations <= and >= of locations were
 wrong

---
 include/mqt-core/na/entities/Location.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/na/entities/Location.hpp b/include/mqt-core/na/entities/Location.hpp
index f2e36aa..5e655b1 100644
--- a/include/mqt-core/na/entities/Location.hpp
+++ b/include/mqt-core/na/entities/Location.hpp
@@ -105,14 +105,14 @@ struct Location final {
   /// @param other The location to compare with.
   /// @return True if this location is greater than or equal to the other
   [[nodiscard]] auto operator>=(const Location& other) const -> bool {
-    return !(other < *this);
+    return !(*this < other);
   }
 
   /// Compares two locations for less than or equal.
   /// @param other The location to compare with.
   /// @return True if this location is less than or equal to the other location,
   [[nodiscard]] auto operator<=(const Location& other) const -> bool {
-    return *this >= other;
+    return !(other < *this);
   }
 
   /// Computes the Euclidean distance between this location and the given
-- 
2.43.0


From b3cdb7aeaf61fde1331023e5ac7f73c2ce0ea85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 100/149] fix: atoms loaded or stored twice by one operation
 were accepted

---
 src/na/NAComputation.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/na/NAComputation.cpp b/src/na/NAComputation.cpp
index 4c6ba04..1cf8908 100644
--- a/src/na/NAComputation.cpp
+++ b/src/na/NAComputation.cpp
@@ -95,6 +95,11 @@ auto NAComputation::validate() const -> std::pair<bool, std::string> {
       //===----------------------------------------------------------------===//
       const auto& shuttlingOp = op->as<ShuttlingOp>();
       const auto& opAtoms = shuttlingOp.getAtoms();
+      if (std::unordered_set<const Atom*>(opAtoms.begin(), opAtoms.end())
+              .size() != opAtoms.size()) {
+        ss << "Error in op number " << counter << " (two atoms identical)\n";
+        return {false, ss.str()};
+      }
       if (shuttlingOp.is<LoadOp>()) {
         //===-----------------------------------------------------------------//
         // Load Operations
@@ -132,11 +137,6 @@ auto NAComputation::validate() const -> std::pair<bool, std::string> {
           const auto* a = opAtoms[i];
           for (std::size_t j = i + 1; j < opAtoms.size(); ++j) {
             const auto* b = opAtoms[j];
-            if (a == b) {
-              ss << "Error in op number " << counter
-                 << " (two atoms identical)\n";
-              return {false, ss.str()};
-            }
             const auto& s1 = currentLocations[a];
             const auto& s2 = currentLocations[b];
             const auto& e1 = targetLocations[i];
-- 
2.43.0


From 944c91c01a8b101fe557bba937de57c2e0df6526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 101/149] fix: probabilities of density matrices whose top-most
 qubits are maximally mixed

---
 src/dd/Edge.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 655378a..1ceab14 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -540,13 +540,12 @@ auto Edge<Node>::getSparseProbabilityVectorStrKeys(const std::size_t numQubits,
 
   auto e = *this;
   Edge<dNode>::alignDensityEdge(e);
-  const auto nqubits = static_cast<std::size_t>(e.p->v) + 1U;
 
   auto probabilities = SparsePVecStrKeys{};
   e.traverseDiagonal(
       1, 0,
-      [&probabilities, &nqubits](const std::size_t i, const fp& prob) {
-        probabilities[intToBinaryString(i, nqubits)] = prob;
+      [&probabilities, &numQubits](const std::size_t i, const fp& prob) {
+        probabilities[intToBinaryString(i, numQubits)] = prob;
       },
       numQubits, threshold);
   return probabilities;
-- 
2.43.0


From dabd3871fdf6ead9045ebea858b3d9919b44d1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 102/149] fix: accessing zero entries of density matrices
 corrupted the decision diagram

---
 src/dd/Edge.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 1ceab14..83dfb64 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -61,6 +61,9 @@ auto Edge<Node>::getValueByPath(const std::size_t numQubits,
     // node is not at the expected level (skipped node)
     if (r.isTerminal() || r.p->v != level - 1U) {
       if (r.isZeroTerminal() || tmp == 1U || tmp == 2U) {
+        if constexpr (std::is_same_v<Node, dNode>) {
+          Edge<dNode>::revertDmChangesToEdge(r);
+        }
         return 0.;
       }
       --level;
-- 
2.43.0


From 86d41b1f392ff91610e17af6b9ca15873be7f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 103/149] fix: collapsing measurements of density matrices with
 maximally mixed qubits

---
 include/mqt-core/dd/Package.hpp | 25 ++++++++++++++++++-------
 src/dd/Package.cpp              | 10 +++++++---
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index a0a74ac..e7f9b38 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1531,8 +1531,10 @@ public:
    */
   template <class Node>
   ComplexValue trace(const Edge<Node>& a, const std::size_t numQubits) {
-    if (a.isIdentity()) {
-      return static_cast<ComplexValue>(a.w);
+    if constexpr (!std::is_same_v<Node, dNode>) {
+      if (a.isIdentity()) {
+        return static_cast<ComplexValue>(a.w);
+      }
     }
     const auto eliminate = std::vector<bool>(numQubits, true);
     return trace(a, eliminate, numQubits).w;
@@ -1578,11 +1580,20 @@ private:
   CachedEdge<Node> trace(const Edge<Node>& a,
                          const std::vector<bool>& eliminate,
                          std::size_t level) {
-    const auto aWeight = static_cast<ComplexValue>(a.w);
+    auto aWeight = static_cast<ComplexValue>(a.w);
     if (aWeight.approximatelyZero()) {
       return CachedEdge<Node>::zero();
     }
 
+    if constexpr (std::is_same_v<Node, dNode>) {
+      // every skipped level that is eliminated contributes a factor of two
+      for (auto l = a.isTerminal() ? 0U : a.p->v + 1U; l < level; ++l) {
+        if (eliminate[l]) {
+          aWeight = aWeight * 2.;
+        }
+      }
+    }
+
     // If `a` is the identity matrix or there is nothing left to eliminate,
     // then simply return `a`
     if (a.isIdentity() ||
@@ -1610,8 +1621,8 @@ private:
         }
       }
 
-      auto r = add2(trace(a.p->e[0], eliminate, level - 1),
-                    trace(a.p->e[3], eliminate, level - 1), v - 1);
+      auto r = add2(trace(a.p->e[0], eliminate, v),
+                    trace(a.p->e[3], eliminate, v), v - 1);
 
       // The resulting weight is continuously normalized to the range [0,1] for
       // matrix nodes
@@ -1631,8 +1642,8 @@ private:
     std::array<CachedEdge<Node>, NEDGE> edge{};
     std::transform(a.p->e.cbegin(), a.p->e.cend(), edge.begin(),
                    [this, &eliminate,
-                    &level](const Edge<Node>& e) -> CachedEdge<Node> {
-                     return trace(e, eliminate, level - 1);
+                    &v](const Edge<Node>& e) -> CachedEdge<Node> {
+                     return trace(e, eliminate, v);
                    });
     // the remaining qubits move down by the number of eliminated qubits below
     const auto adjustedV = static_cast<Qubit>(
diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index d15e928..9fddbe3 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -790,7 +790,11 @@ char Package::measureOneCollapsing(dEdge& e, const Qubit index,
                                    std::mt19937_64& mt) {
   char measuredResult = '0';
   dEdge::alignDensityEdge(e);
-  const auto nrQubits = e.p->v + 1U;
+  auto nrQubits = static_cast<std::size_t>(index) + 1U;
+  if (!e.isTerminal()) {
+    nrQubits = std::max(nrQubits, static_cast<std::size_t>(e.p->v) + 1U);
+  }
+  const auto originalTrace = trace(e, nrQubits);
   dEdge::setDensityMatrixTrue(e);
 
   auto const measZeroDd = makeGateDD(MEAS_ZERO_MAT, index);
@@ -798,7 +802,7 @@ char Package::measureOneCollapsing(dEdge& e, const Qubit index,
   auto tmp0 = conjugateTranspose(measZeroDd);
   auto tmp1 = multiply(e, densityFromMatrixEdge(tmp0), false);
   auto tmp2 = multiply(densityFromMatrixEdge(measZeroDd), tmp1, true);
-  auto densityMatrixTrace = trace(tmp2, nrQubits);
+  auto densityMatrixTrace = trace(tmp2, nrQubits) / originalTrace;
 
   std::uniform_real_distribution<fp> dist(0., 1.);
   if (const auto threshold = dist(mt); threshold > densityMatrixTrace.r) {
@@ -807,7 +811,7 @@ char Package::measureOneCollapsing(dEdge& e, const Qubit index,
     tmp1 = multiply(e, densityFromMatrixEdge(tmp0), false);
     tmp2 = multiply(densityFromMatrixEdge(measOneDd), tmp1, true);
     measuredResult = '1';
-    densityMatrixTrace = trace(tmp2, nrQubits);
+    densityMatrixTrace = trace(tmp2, nrQubits) / originalTrace;
   }
 
   incRef(tmp2);
-- 
2.43.0


From f7ba987e8cb044f9ea2a1c84086e939faf7f6a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 104/149] fix: stochastic noise models shared cached amplitude
 damping operators

---
 src/dd/NoiseFunctionality.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 754883a..7e70c79 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -141,6 +141,12 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
 mEdge StochasticNoiseFunctionality::stackOperation(
     const mEdge& operation, const qc::Qubit target,
     const qc::OpType noiseOperation, const GateMatrix& matrix) const {
+  // the amplitude damping operators depend on the parameters of the noise model
+  // and, hence, must not be shared between different noise models
+  if (noiseOperation != qc::X && noiseOperation != qc::Y &&
+      noiseOperation != qc::Z) {
+    return package->multiply(package->makeGateDD(matrix, target), operation);
+  }
   if (const auto* op =
           package->stochasticNoiseOperationCache.lookup(noiseOperation, target);
       op != nullptr) {
-- 
2.43.0


From 859e3f568e3f3f2a0795585479923ff304902d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 105/149] fix: stochastic amplitude damping of multi-qubit
 gates depended on the gate noise

---
 src/dd/NoiseFunctionality.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 7e70c79..4ed6650 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -70,8 +70,8 @@ StochasticNoiseFunctionality::StochasticNoiseFunctionality(
       sqrtAmplitudeDampingProbability(std::sqrt(amplitudeDampingProb)),
       oneMinusSqrtAmplitudeDampingProbability(
           std::sqrt(1 - amplitudeDampingProb)),
-      sqrtAmplitudeDampingProbabilityMulti(std::sqrt(gateNoiseProbability) *
-                                           multiQubitGateFactor),
+      sqrtAmplitudeDampingProbabilityMulti(
+          std::sqrt(multiQubitGateFactor * amplitudeDampingProb)),
       oneMinusSqrtAmplitudeDampingProbabilityMulti(
           std::sqrt(1 - (multiQubitGateFactor * amplitudeDampingProb))),
       ampDampingTrue({0, sqrtAmplitudeDampingProbability, 0, 0}),
-- 
2.43.0


From 9307fcf3b49029f37d0c702c951b1c56857a75b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 106/149] fix: deterministic noise on operations without qubits
 accessed an empty set

---
 src/dd/NoiseFunctionality.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 4ed6650..758b51f 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -261,6 +261,9 @@ DeterministicNoiseFunctionality::DeterministicNoiseFunctionality(
 void DeterministicNoiseFunctionality::applyNoiseEffects(
     dEdge& originalEdge, const std::unique_ptr<qc::Operation>& qcOperation) {
   const auto usedQubits = qcOperation->getUsedQubits();
+  if (usedQubits.empty()) {
+    return;
+  }
   dCachedEdge nodeAfterNoise = {};
   dEdge::applyDmChangesToEdge(originalEdge);
   nodeAfterNoise = applyNoiseEffects(originalEdge, usedQubits, false,
-- 
2.43.0


From 21fa78751200571344c27fee06fd61a37351dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 107/149] fix: negative or too large noise probabilities were
 not rejected

---
 src/dd/NoiseFunctionality.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 758b51f..823d359 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -462,7 +462,8 @@ void sanityCheckOfNoiseProbabilities(const double noiseProbability,
                                      const double amplitudeDampingProb,
                                      const double multiQubitGateFactor) {
   if (noiseProbability < 0 || amplitudeDampingProb < 0 ||
-      noiseProbability * multiQubitGateFactor > 1 ||
+      multiQubitGateFactor < 0 || noiseProbability > 1 ||
+      amplitudeDampingProb > 1 || noiseProbability * multiQubitGateFactor > 1 ||
       amplitudeDampingProb * multiQubitGateFactor > 1) {
     throw std::runtime_error(
         "Error probabilities are faulty!"
-- 
2.43.0


From 5f21e9680609c942178bd5f957f33c536bc0a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 108/149] fix: deterministic noise on maximally mixed qubits
 was applied to other qubits

---
 src/dd/NoiseFunctionality.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 823d359..107d1e6 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -289,7 +289,8 @@ dCachedEdge DeterministicNoiseFunctionality::applyNoiseEffects(
   auto originalCopy = dEdge{originalEdge.p, Complex::one()};
   ArrayOfEdges newEdges{};
   const auto nextLevel = static_cast<dd::Qubit>(level - 1U);
-  if (originalEdge.isIdentity()) {
+  if (originalEdge.isTerminal() || originalEdge.p->v < nextLevel) {
+    // the decision diagram resembles the identity on this level
     newEdges[0] =
         applyNoiseEffects(originalCopy, usedQubits, firstPathEdge, nextLevel);
     newEdges[3] =
-- 
2.43.0


From ec0aee2b166405f3b638fea63199209f3af6b303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 109/149] fix: stochastic amplitude damping after other noise
 effects could yield the zero vector

---
 src/dd/NoiseFunctionality.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 107d1e6..fd7b16a 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -113,6 +113,9 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
   const bool multiQubitOperation = targets.size() > 1;
 
   for (const auto& target : targets) {
+    // both attempts below have to make the same random choices for the noise
+    // effects other than amplitude damping
+    auto sameChoices = generator;
     auto stackedOperation = generateNoiseOperation(operation, target, generator,
                                                    false, multiQubitOperation);
     auto tmp = package->multiply(stackedOperation, state);
@@ -123,7 +126,7 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
       // normalization constraint of decision diagrams the probability for
       // applying amplitude damping stands in the root edge weight, of the dd
       // after the noise has been applied
-      stackedOperation = generateNoiseOperation(operation, target, generator,
+      stackedOperation = generateNoiseOperation(operation, target, sameChoices,
                                                 true, multiQubitOperation);
       tmp = package->multiply(stackedOperation, state);
     }
-- 
2.43.0


From 4fc635d2b8253425ce370557a5c91619a31e623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 110/149] fix: matrices of density matrices with maximally
 mixed qubits lost conjugations

---
 src/dd/Edge.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 83dfb64..e4f5e21 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -494,7 +494,10 @@ auto Edge<Node>::traverseMatrix(const std::complex<fp>& amp,
   const auto coords = {std::pair{i, j}, {i, y}, {x, j}, {x, y}};
   std::size_t k = 0U;
   for (const auto& [a, b] : coords) {
-    if (auto& e = p->e[k++]; !e.w.exactlyZero()) {
+    // A copy is used since applying and reverting the density matrix changes
+    // drops the flags of the edge, but a node below a skipped level is
+    // traversed more than once.
+    if (auto e = p->e[k++]; !e.w.exactlyZero()) {
       if constexpr (std::is_same_v<Node, dNode>) {
         Edge<dNode>::applyDmChangesToEdge(e);
       }
-- 
2.43.0


From 7ee6f3142b3c5131bf75e60c0a17e742cb673ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 111/149] fix: SXdg gates of Qiskit circuits were not imported

---
 src/mqt/core/plugins/qiskit/qiskit_to_mqt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
index 3abd368..5995492 100644
--- a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
+++ b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
@@ -234,6 +234,9 @@ def _emplace_operation(
     if name in {"sx", "csx"}:
         return _add_operation(qc, OpType.sx, qargs, params, qubit_map)
 
+    if name == "sxdg":
+        return _add_operation(qc, OpType.sxdg, qargs, params, qubit_map)
+
     if name == "mcx_recursive":
         if len(qargs) <= 5:
             return _add_operation(qc, OpType.x, qargs, params, qubit_map)
-- 
2.43.0


From 4c675b05af34480915555db198d11e1b78f8d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 112/149] fix: parameter expressions of Qiskit circuits were
 misread

---
 src/mqt/core/plugins/qiskit/qiskit_to_mqt.py | 62 +++++---------------
 1 file changed, 16 insertions(+), 46 deletions(-)

diff --git a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
index 5995492..86c604d 100644
--- a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
+++ b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
@@ -10,11 +10,10 @@
 
 from __future__ import annotations
 
-import re
 import warnings
 from typing import TYPE_CHECKING, cast
 
-from qiskit.circuit import AncillaRegister, Clbit, Qubit
+from qiskit.circuit import AncillaRegister, Clbit, ParameterExpression, Qubit
 
 from ...ir import QuantumComputation
 from ...ir.operations import (
@@ -30,7 +29,7 @@ from ...ir.symbolic import Expression, Term, Variable
 if TYPE_CHECKING:
     from collections.abc import Mapping, Sequence
 
-    from qiskit.circuit import Instruction, ParameterExpression, QuantumCircuit
+    from qiskit.circuit import Instruction, QuantumCircuit
 
 
 __all__ = ["qiskit_to_mqt"]
@@ -304,52 +303,23 @@ def _emplace_operation(
     raise NotImplementedError(msg)
 
 
-_SUM_REGEX = re.compile(r"[+|-]?[^+-]+")
-_PROD_REGEX = re.compile(r"[*/]?[^*/]+")
-
-
 def _parse_symbolic_expression(qiskit_expr: ParameterExpression | float) -> float | Expression:
-    if isinstance(qiskit_expr, float):
-        return qiskit_expr
+    if not isinstance(qiskit_expr, ParameterExpression):
+        return float(qiskit_expr)
 
-    expr_str = str(qiskit_expr).strip()
-    expr = Expression()
-    is_const = True
-    for summand in _SUM_REGEX.findall(expr_str):
-        sign = 1
-        summand_no_operator = summand
-        if summand[0] == "+":
-            summand_no_operator = summand[1:]
-        elif summand[0] == "-":
-            summand_no_operator = summand[1:]
-            sign = -1
-
-        coeff = 1.0
-        var = ""
-        for factor in _PROD_REGEX.findall(summand_no_operator):
-            is_div = False
-            factor_no_operator = factor
-            if factor[0] == "*":
-                factor_no_operator = factor[1:]
-            elif factor[0] == "/":
-                factor_no_operator = factor[1:]
-                is_div = True
-
-            factor_no_operator = factor_no_operator.strip()
-            if factor_no_operator.replace(".", "").isnumeric():
-                f = float(factor_no_operator)
-                coeff *= 1.0 / f if is_div else f
-            else:
-                var = factor_no_operator
-
-        if not var:
-            expr += coeff
-        else:
-            is_const = False
-            expr += Term(Variable(var), sign * coeff)
+    parameters = sorted(qiskit_expr.parameters, key=lambda parameter: parameter.name)
+    if not parameters:
+        return float(qiskit_expr)
 
-    if is_const:
-        return expr.constant
+    # Only affine expressions can be represented, i.e., all derivatives have to be constant.
+    expr = Expression()
+    for parameter in parameters:
+        coeff = qiskit_expr.gradient(parameter)
+        if isinstance(coeff, ParameterExpression) and coeff.parameters:
+            msg = f"Only affine parameter expressions are supported, got {qiskit_expr}."
+            raise NotImplementedError(msg)
+        expr += Term(Variable(parameter.name), float(coeff))
+    expr += float(qiskit_expr.bind(dict.fromkeys(parameters, 0.0)))
     return expr
 
 
-- 
2.43.0


From 21b38151c9e2f7dde7522327183fa3653c982149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 113/149] fix: global phases of gate definitions were dropped
 when importing from Qiskit

---
 src/mqt/core/plugins/qiskit/qiskit_to_mqt.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
index 86c604d..2c5ac57 100644
--- a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
+++ b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
@@ -405,6 +405,12 @@ def _import_definition(
     comp_op = cast("CompoundOperation", qc[-1])
 
     params = []
+    if isinstance(circ.global_phase, ParameterExpression) and circ.global_phase.parameters:
+        msg = "Symbolic global phase values of gate definitions are not supported yet."
+        raise NotImplementedError(msg)
+    if circ.global_phase != 0:
+        comp_op.append(StandardOperation([], OpType.gphase, [float(circ.global_phase)]))
+
     for instruction in circ.data:
         mapped_qargs = [qarg_map[qarg] for qarg in instruction.qubits]
         mapped_cargs = [carg_map[carg] for carg in instruction.clbits]
-- 
2.43.0


From fce60b2db5f9bdf8c3c4c4ce1ca7d74a23eba32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 114/149] fix: global phases were lost when converting to
 Qiskit

---
 src/mqt/core/plugins/qiskit/mqt_to_qiskit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
index 1073097..1053ecd 100644
--- a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
+++ b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
@@ -119,6 +119,10 @@ def _add_standard_operation(circ: QuantumCircuit, op: StandardOperation, qubit_m
         circ.barrier(targets)
         return
 
+    if op.type_ == OpType.gphase and not op.controls:
+        circ.global_phase += op.parameter[0]
+        return
+
     controls, ctrl_state = _translate_controls(op.controls, qubit_map)
 
     gate_map_singleton: dict[OpType, SingletonGate] = {
@@ -294,6 +298,7 @@ def mqt_to_qiskit(qc: QuantumComputation, *, set_layout: bool = False) -> Quantu
 
     if qc.name is not None:
         circ.name = qc.name
+    circ.global_phase = qc.global_phase
 
     qregs = sorted((qc.qregs | qc.ancregs).values(), key=lambda reg: reg.start)
     qubit_map: dict[int, Qubit] = {}
-- 
2.43.0


From 888058390ee31b47b9ad6c0c825ccc0fe7e53f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 115/149] fix: output permutations were misplaced in the
 layouts of converted Qiskit circuits

---
 src/mqt/core/plugins/qiskit/mqt_to_qiskit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
index 1053ecd..8851f5c 100644
--- a/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
+++ b/src/mqt/core/plugins/qiskit/mqt_to_qiskit.py
@@ -353,7 +353,7 @@ def mqt_to_qiskit(qc: QuantumComputation, *, set_layout: bool = False) -> Quantu
         input_qubit_mapping={qubit: idx for idx, qubit in qubit_map.items()},
         final_layout=final_layout,
         _input_qubit_count=qc.num_qubits,
-        _output_qubit_list=list(final_layout.get_virtual_bits()),
+        _output_qubit_list=list(circ.qubits),
     )
 
     return circ
-- 
2.43.0


From 28f2cd395a4d88414f5d6e6168dc26079bf5e05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 116/149] fix: cancelling inverse gates crashed on gates
 without users and left uses of erased gates behind

---
 .../CancelConsecutiveInversesPattern.cpp      | 21 ++-----------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp
index c29760f..c8ff045 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp
@@ -74,7 +74,7 @@ struct CancelConsecutiveInversesPattern final
 
   mlir::LogicalResult match(UnitaryInterface op) const override {
     const auto& users = op->getUsers();
-    if (!areUsersUnique(users)) {
+    if (users.empty() || !areUsersUnique(users)) {
       return mlir::failure();
     }
     auto* user = *users.begin();
@@ -98,24 +98,7 @@ struct CancelConsecutiveInversesPattern final
                mlir::PatternRewriter& rewriter) const override {
     auto user = mlir::dyn_cast<UnitaryInterface>(
         *op->getUsers().begin()); // We always have exactly one user.
-    const auto& childUsers = user->getUsers();
-
-    for (const auto& childUser : childUsers) {
-      for (size_t i = 0; i < childUser->getOperands().size(); i++) {
-        const auto& operand = childUser->getOperand(i);
-        const auto found = std::find(user.getOutQubits().begin(),
-                                     user.getOutQubits().end(), operand);
-        if (found == user.getOutQubits().end()) {
-          continue;
-        }
-        const auto idx = std::distance(user.getOutQubits().begin(), found);
-        rewriter.modifyOpInPlace(childUser, [&] {
-          childUser->setOperand(i, op.getAllInQubits()[idx]);
-        });
-      }
-    }
-
-    rewriter.eraseOp(user);
+    rewriter.replaceOp(user, op.getAllInQubits());
     rewriter.eraseOp(op);
   }
 };
-- 
2.43.0


From c5962f7bc286ccc23e4ebf9cf54cc7512ac1d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 117/149] fix: pushing gates through branches reversed the
 remaining branch arguments

---
 mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
index 75ef434..fc6787d 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
@@ -221,7 +221,7 @@ struct QuantumSinkPushPattern final
       auto found =
           std::find(op->getResults().begin(), op->getResults().end(), arg);
       if (found == op->getResults().end()) {
-        newBlockArgs.emplace_back(arg);
+        newBlockArgs.insert(newBlockArgs.begin(), arg);
         continue;
       }
       auto idx = std::distance(op->getResults().begin(), found);
-- 
2.43.0


From 9cac009acb81766014d9822ddc5d49f2232f792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 118/149] fix: sinking gates did not terminate in programs with
 loops

---
 .../Transforms/QuantumSinkPushPattern.cpp     | 78 +++----------------
 1 file changed, 10 insertions(+), 68 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
index fc6787d..9775103 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
@@ -40,83 +40,25 @@ struct QuantumSinkPushPattern final
   explicit QuantumSinkPushPattern(mlir::MLIRContext* context)
       : OpInterfaceRewritePattern(context) {}
 
-  /**
-   * @brief Returns the block distance between a block and an operation that
-   * precedes it.
-   *
-   * @param toCheck The block to check.
-   * @param op The operation to find the distance to.
-   * @return The distance between the block and the operation or -1 if the
-   * operation is not in a predecessor block.
-   */
-  int getDepth(mlir::Block& toCheck, const UnitaryInterface& op) const {
-    auto* originalBlock = op->getBlock();
-    if (&toCheck == originalBlock) {
-      return 0;
-    }
-    int depth = -1;
-    for (auto* pred : toCheck.getPredecessors()) {
-      const auto result = getDepth(*pred, op);
-      if (result == -1) {
-        continue;
-      }
-      if (depth == -1) {
-        depth = result + 1;
-      } else {
-        depth = std::min(depth, result + 1);
-      }
-    }
-    return depth;
-  }
-
-  /**
-   * @brief Out of a set of users, returns the closest one.
-   *
-   * In this case, "closest" denotes the operation that is in the closest
-   * successor block of the original operation.
-   *
-   * @param users The set of users to consider.
-   * @param op The operation to find the closest user for.
-   * @return The closest user operation.
-   */
-  [[nodiscard]] mlir::Operation*
-  getNext(const mlir::ResultRange::user_range& users,
-          const UnitaryInterface& op) const {
-    mlir::Operation* next = nullptr;
-    int minDepth = 0;
-    for (auto* user : users) {
-      const auto depth = getDepth(*user->getBlock(), op);
-      if (depth == -1) {
-        continue;
-      }
-      if (next == nullptr || depth < minDepth) {
-        next = user;
-        minDepth = depth;
-      }
-    }
-    return next;
-  }
-
   /**
    * @brief Returns the next branch operation that uses the given operation.
    *
-   * In this case, "next" denotes the operation that is in the closest successor
-   * block of the original operation.
+   * In this case, "next" denotes the branch operation that terminates the block
+   * of the original operation.
    *
    * @param op The operation to find the next branch operation for.
    * @return The next branch operation that uses the given operation.
    */
   [[nodiscard]] mlir::Operation*
   getNextBranchOpUser(const UnitaryInterface& op) const {
-    auto allUsers = op->getUsers();
-    std::vector<mlir::Operation*> output;
-    std::copy_if(allUsers.begin(), allUsers.end(), std::back_inserter(output),
-                 [&](auto* user) {
-                   return mlir::isa<mlir::cf::BranchOp>(user) ||
-                          mlir::isa<mlir::cf::CondBranchOp>(user);
-                 });
-    auto* nextBranch = getNext(allUsers, op);
-    return nextBranch;
+    auto* terminator = op->getBlock()->getTerminator();
+    const auto users = op->getUsers();
+    const auto isBranch = mlir::isa<mlir::cf::BranchOp>(terminator) ||
+                          mlir::isa<mlir::cf::CondBranchOp>(terminator);
+    return isBranch && std::find(users.begin(), users.end(), terminator) !=
+                           users.end()
+               ? terminator
+               : nullptr;
   }
 
   mlir::LogicalResult match(UnitaryInterface op) const override {
-- 
2.43.0


From 04eec076061cd396ae6315b2e236f097a93e9340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 119/149] fix: pushing gates through branches of loops replaced
 uses of the next iteration

---
 mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
index 9775103..f295def 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp
@@ -171,7 +171,8 @@ struct QuantumSinkPushPattern final
       block.eraseArgument(i);
     }
 
-    std::unordered_set<mlir::Block*> visited;
+    // A path that leads back to the original block defines its own results.
+    std::unordered_set<mlir::Block*> visited{op->getBlock()};
     replaceAllChildUsesWith(*op, *clone, block, visited);
 
     // Now, the block instead needs to be passed the inputs of the pushed
-- 
2.43.0


From 62ebb97730deaf6101dcd9c9dfca0527e0d95af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 120/149] fix: controlled global phase gates were rejected in
 MLIR and uncontrolled ones could not be parsed

---
 .../mlir/Dialect/MQTOpt/IR/MQTOptOps.td       |  2 +-
 mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp      | 31 +++++++++++++++++--
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td
index c6c0572..ee81dfb 100644
--- a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td
+++ b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td
@@ -132,7 +132,7 @@ class UnitaryOp<string mnemonic, list<Trait> traits = []> :
 
     let assemblyFormat = [{
         `(` $params ( `static` $static_params^ )? ( `mask` $params_mask^ )? `)` attr-dict $in_qubits ( `ctrl` $pos_ctrl_qubits^ )? ( `nctrl` $neg_ctrl_qubits^ )?
-        `:` type($out_qubits)
+        `:` custom<OutQubitTypes>(type($out_qubits))
     }];
 }
 
diff --git a/mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp b/mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp
index d426506..9e9e1f8 100644
--- a/mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp
+++ b/mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp
@@ -55,6 +55,32 @@ void mqt::ir::opt::MQTOptDialect::initialize() {
 // Operations
 //===----------------------------------------------------------------------===//
 
+namespace {
+/// Parses the types of the output qubits, of which a global phase gate has none
+mlir::ParseResult
+parseOutQubitTypes(mlir::OpAsmParser& parser,
+                   llvm::SmallVectorImpl<mlir::Type>& types) {
+  mlir::Type type;
+  auto result = parser.parseOptionalType(type);
+  if (!result.has_value()) {
+    return mlir::success();
+  }
+  while (mlir::succeeded(*result)) {
+    types.push_back(type);
+    if (mlir::failed(parser.parseOptionalComma())) {
+      return mlir::success();
+    }
+    result = parser.parseType(type);
+  }
+  return mlir::failure();
+}
+
+void printOutQubitTypes(mlir::OpAsmPrinter& printer, mlir::Operation* /*op*/,
+                        mlir::TypeRange types) {
+  llvm::interleaveComma(types, printer);
+}
+} // namespace
+
 #define GET_OP_CLASSES
 #include "mlir/Dialect/MQTOpt/IR/MQTOptOps.cpp.inc"
 
@@ -65,9 +91,8 @@ void mqt::ir::opt::MQTOptDialect::initialize() {
 namespace mqt::ir::opt {
 
 mlir::LogicalResult GPhaseOp::verify() {
-  if (!getInQubits().empty() || !getOutQubits().empty()) {
-    return emitOpError() << "GPhase gate should not have neither input nor "
-                         << "output qubits";
+  if (!getInQubits().empty()) {
+    return emitOpError() << "GPhase gate should not have target qubits";
   }
   return mlir::success();
 }
-- 
2.43.0


From 660875d3493933ee05f5f078a8578d98b80d447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 121/149] fix: numbers of targets and parameters of MLIR gates
 were not verified

---
 mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h
index 128b2d7..7ae9232 100644
--- a/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h
+++ b/mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h
@@ -20,6 +20,7 @@ template <size_t N> class TargetArity {
 public:
   template <typename ConcreteOp>
   class Impl : public mlir::OpTrait::TraitBase<ConcreteOp, Impl> {
+  public:
     [[nodiscard]] static mlir::LogicalResult verifyTrait(mlir::Operation* op) {
       auto unitaryOp = mlir::cast<ConcreteOp>(op);
       if (const auto size = unitaryOp.getInQubits().size(); size != N) {
@@ -35,6 +36,7 @@ template <size_t N> class ParameterArity {
 public:
   template <typename ConcreteOp>
   class Impl : public mlir::OpTrait::TraitBase<ConcreteOp, Impl> {
+  public:
     [[nodiscard]] static mlir::LogicalResult verifyTrait(mlir::Operation* op) {
       auto paramOp = mlir::cast<ConcreteOp>(op);
       const auto& params = paramOp.getParams();
@@ -65,7 +67,8 @@ public:
                                     "a parameter mask with "
                                  << trueEntries << " true entries";
         }
-        if (const auto size = staticParams->size(); size != trueEntries) {
+        if (const auto size = staticParams.has_value() ? staticParams->size() : 0;
+            size != trueEntries) {
           return op->emitError()
                  << "operation has " << size
                  << " static parameter(s) but has a parameter mask with "
-- 
2.43.0


From 50c9bb878e8fa74ab360fb9862d6f9d46922a79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 122/149] fix: shifting gates into blocks duplicated or dropped
 them if there are several users or loops

---
 .../Transforms/QuantumSinkShiftPattern.cpp    | 74 ++++++++++++-------
 1 file changed, 47 insertions(+), 27 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkShiftPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkShiftPattern.cpp
index 54486cf..a960577 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkShiftPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkShiftPattern.cpp
@@ -59,27 +59,38 @@ struct QuantumSinkShiftPattern final
   }
 
   /**
-   * @brief Returns the earliest users of a given operation.
+   * @brief Returns the distinct users of a given operation.
    *
-   * In this case, "earliest" denotes all operations that are not preceded
-   * another operation in the list of users.
+   * @param users The users, which may contain the same operation several times.
+   * @return A vector of all users without duplicates.
+   */
+  [[nodiscard]] static std::vector<mlir::Operation*>
+  getDistinctUsers(mlir::ResultRange::user_range users) {
+    std::vector<mlir::Operation*> distinct;
+    for (auto* user : users) {
+      if (std::find(distinct.begin(), distinct.end(), user) ==
+          distinct.end()) {
+        distinct.emplace_back(user);
+      }
+    }
+    return distinct;
+  }
+
+  /**
+   * @brief Checks if a block may be executed again after some other block
+   * without passing through the block of the given operation.
    *
-   * @param users The users to find the earliest users for.
-   * @return A vector of all earliest users of the given operation.
+   * @param block The block that might be executed later.
+   * @param other The block that is executed first.
+   * @param op The operation whose block is not passed.
    */
-  [[nodiscard]] std::vector<mlir::Operation*>
-  getEarliestUsers(mlir::ResultRange::user_range users) const {
-    std::vector<mlir::Operation*> earliestUsers;
-    std::copy_if(
-        users.begin(), users.end(), std::back_inserter(earliestUsers),
-        [&](auto* user) {
-          return std::none_of(users.begin(), users.end(), [&](auto* other) {
-            std::unordered_set<mlir::Block*> visited;
-            return user != other && isAfterOrEqual(*user->getBlock(),
-                                                   *other->getBlock(), visited);
-          });
-        });
-    return earliestUsers;
+  [[nodiscard]] bool isReachableFrom(mlir::Block& block, mlir::Block& other,
+                                     const UnitaryInterface& op) const {
+    std::unordered_set<mlir::Block*> visited{op->getBlock()};
+    auto parents = block.getPredecessors();
+    return std::any_of(parents.begin(), parents.end(), [&](auto* parent) {
+      return isAfterOrEqual(*parent, other, visited);
+    });
   }
 
   mlir::LogicalResult match(UnitaryInterface op) const override {
@@ -95,14 +106,23 @@ struct QuantumSinkShiftPattern final
     }
 
     // There may be multiple users if canonicalization has deemed a branch
-    // operand as pass-through and therefore removed it. If more than one user
-    // is in the same block, then the `QuantumSinkShiftPattern` cannot be
-    // applied
-    return std::all_of(
-               users.begin(), users.end(),
-               [&](auto* user) { return user->getBlock() != op->getBlock(); })
-               ? mlir::success()
-               : mlir::failure();
+    // operand as pass-through and therefore removed it. The operation can only
+    // be shifted if it is executed exactly once afterwards: none of the users
+    // may be in the same block as the operation or another user, be preceded by
+    // another user, or be part of a loop that does not contain the operation.
+    const auto distinct = getDistinctUsers(users);
+    for (auto* user : distinct) {
+      if (user->getBlock() == op->getBlock()) {
+        return mlir::failure();
+      }
+      for (auto* other : distinct) {
+        if ((user != other && user->getBlock() == other->getBlock()) ||
+            isReachableFrom(*user->getBlock(), *other->getBlock(), op)) {
+          return mlir::failure();
+        }
+      }
+    }
+    return mlir::success();
   }
 
   /**
@@ -132,7 +152,7 @@ struct QuantumSinkShiftPattern final
 
   void rewrite(UnitaryInterface op,
                mlir::PatternRewriter& rewriter) const override {
-    auto users = getEarliestUsers(op->getUsers());
+    auto users = getDistinctUsers(op->getUsers());
 
     for (auto* user : users) {
       auto* block = user->getBlock();
-- 
2.43.0


From 28b81f4ce4bb9b402948c70c97f13616ed0fc93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 123/149] fix: the MQT Core round trip visited operations
 before the definition of their operands

---
 .../ToQuantumComputationPattern.cpp           | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
index 9c76d78..d957903 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
@@ -75,6 +75,9 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
           "Operand is not an operation result. This should never happen!");
     }
     for (size_t i = 0; i < currentQubitVariables.size(); i++) {
+      if (!currentQubitVariables[i]) {
+        continue; // the qubit was not extracted yet
+      }
       size_t qubitArrayIndex = 0;
       if (auto opResult =
               llvm::dyn_cast<mlir::OpResult>(currentQubitVariables[i])) {
@@ -268,10 +271,24 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
 
     std::unordered_set<mlir::Operation*> visited{};
 
-    // Visit all operations in the AST using Breadth-First Search.
+    // Visit all operations in the AST using Breadth-First Search. An operation
+    // has to wait until the definitions of all of its operands were visited.
+    const auto isReady = [&visited, &op](mlir::Operation* operation) {
+      return std::all_of(operation->operand_begin(), operation->operand_end(),
+                         [&](const mlir::Value operand) {
+                           auto* def = operand.getDefiningOp();
+                           return def == nullptr ||
+                                  def->getDialect() != op->getDialect() ||
+                                  visited.find(def) != visited.end();
+                         });
+    };
     while (!toVisit.empty()) {
-      mlir::Operation* current = *toVisit.begin();
-      toVisit.erase(toVisit.begin());
+      auto next = std::find_if(toVisit.begin(), toVisit.end(), isReady);
+      if (next == toVisit.end()) {
+        next = toVisit.begin();
+      }
+      mlir::Operation* current = *next;
+      toVisit.erase(next);
       if (visited.find(current) != visited.end()) {
         continue;
       }
-- 
2.43.0


From 21b21895336fa167159908bbc950cd0295197cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 124/149] fix: the MQT Core round trip turned negative controls
 into positive ones

---
 .../Transforms/ToQuantumComputationPattern.cpp    | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
index d957903..25995af 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
@@ -151,10 +151,17 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
     }
     currentQubitVariables[targetIndex] = outs[0];
 
-    // Add the operation to the QuantumComputation.
-    auto operation = qc::StandardOperation(
-        qc::Controls{ctrlInsIndices.cbegin(), ctrlInsIndices.cend()},
-        targetIndex, qc::OpType::X);
+    // Add the operation to the QuantumComputation. The positive controls come
+    // before the negative ones.
+    const auto numPosCtrls = op.getPosCtrlQubits().size();
+    qc::Controls controls;
+    for (size_t i = 0; i < ctrlInsIndices.size(); i++) {
+      controls.emplace(static_cast<qc::Qubit>(ctrlInsIndices[i]),
+                       i < numPosCtrls ? qc::Control::Type::Pos
+                                       : qc::Control::Type::Neg);
+    }
+    auto operation =
+        qc::StandardOperation(controls, targetIndex, qc::OpType::X);
     circuit.push_back(operation);
   }
 
-- 
2.43.0


From 235be04ac8cc991da9b911552979182d8548f95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 125/149] fix: the MQT Core round trip permuted returned
 measurement results

---
 .../Transforms/FromQuantumComputationPattern.cpp       | 10 ++++++++--
 .../MQTOpt/Transforms/ToQuantumComputationPattern.cpp  | 10 +++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp
index 631720a..d416be8 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp
@@ -9,6 +9,7 @@
  */
 
 #include "ir/QuantumComputation.hpp"
+#include "ir/operations/NonUnitaryOperation.hpp"
 #include "ir/operations/OpType.hpp"
 #include "mlir/Dialect/MQTOpt/IR/MQTOptDialect.h"
 #include "mlir/Dialect/MQTOpt/Transforms/Passes.h"
@@ -132,7 +133,9 @@ struct FromQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
     auto* const cloned = rewriter.clone(*returnOperation);
     cloned->setOperand(0, reg);
     for (size_t i = 0; i < measurementValues.size(); i++) {
-      cloned->setOperand(i + 1, measurementValues[i]);
+      if (measurementValues[i]) {
+        cloned->setOperand(i + 1, measurementValues[i]);
+      }
     }
     rewriter.replaceOp(returnOperation, cloned);
   }
@@ -209,7 +212,10 @@ struct FromQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
             op->getLoc(), currentQubitVariables[o->getTargets()[0]], rewriter);
         currentQubitVariables[o->getTargets()[0]] =
             newMeasureOp.getOutQubits()[0];
-        measurementValues[o->getTargets()[0]] = newMeasureOp.getOutBits()[0];
+        const auto* measurement =
+            dynamic_cast<const qc::NonUnitaryOperation*>(o.get());
+        measurementValues[measurement->getClassics()[0]] =
+            newMeasureOp.getOutBits()[0];
       } else {
         llvm::outs() << "ERROR: Unsupported operation type " << o->getType()
                      << "\n";
diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
index 25995af..f2d3c30 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
@@ -115,9 +115,17 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
                      return findQubitIndex(val, currentQubitVariables);
                    });
 
+    const auto bits = op.getOutBits();
     for (size_t i = 0; i < insIndices.size(); i++) {
       currentQubitVariables[insIndices[i]] = outs[i];
-      circuit.measure(insIndices[i], insIndices[i]);
+      // The classical bit is the position among the returned results, which
+      // follow the returned register.
+      if (!bits[i].hasOneUse() ||
+          bits[i].use_begin()->getOperandNumber() == 0) {
+        throw std::runtime_error(
+            "Measurement results must be returned exactly once!");
+      }
+      circuit.measure(insIndices[i], bits[i].use_begin()->getOperandNumber() - 1);
     }
   }
 
-- 
2.43.0


From e70bfbde6eac685539b2174eacbdbf6c7ac5a43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 126/149] fix: the MQT Core round trip rejected measurements of
 several qubits

---
 .../Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
index f2d3c30..135c919 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
@@ -324,10 +324,10 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
       } else if (llvm::isa<AllocOp>(current)) {
         // Do nothing for now, may change later.
       } else if (llvm::isa<MeasureOp>(current)) {
-        // We count the number of measurements and add a measurement operation
+        // We count the number of measured qubits and add a measurement operation
         // to the QuantumComputation.
-        measureCount++;
         auto measureOp = llvm::dyn_cast<MeasureOp>(current);
+        measureCount += measureOp.getOutBits().size();
         handleMeasureOp(measureOp, currentQubitVariables);
       } else {
         continue;
-- 
2.43.0


From fd994e05bd970fcb2a8f59a10cdc0a86b6fa7a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 127/149] fix: the MQT Core round trip accessed erased
 operations

---
 .../ToQuantumComputationPattern.cpp           | 54 +++++--------------
 1 file changed, 13 insertions(+), 41 deletions(-)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
index 135c919..b98ffbf 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
@@ -173,34 +173,6 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
     circuit.push_back(operation);
   }
 
-  /**
-   * @brief Recursively deletes an operation and all its defining operations if
-   * they have no users.
-   *
-   * This procedure cleans up the AST so that only the base `alloc` operation
-   * remains. Operations that still have users are ignored so that their users
-   * can be handled first in a later step.
-   *
-   * @param op The operation to delete.
-   * @param rewriter The pattern rewriter to use for deleting the operation.
-   */
-  static void deleteRecursively(mlir::Operation& op,
-                                mlir::PatternRewriter& rewriter) {
-    if (llvm::isa<AllocOp>(op)) {
-      return; // Do not delete extract operations.
-    }
-    if (!op.getUsers().empty()) {
-      return; // Do not delete operations with users.
-    }
-
-    rewriter.eraseOp(&op);
-    for (auto operand : op.getOperands()) {
-      if (auto* defOp = operand.getDefiningOp()) {
-        deleteRecursively(*defOp, rewriter);
-      }
-    }
-  }
-
   /**
    * @brief Updates the inputs of non MQTOpt-operations that use
    * MQTOpt-operations as inputs.
@@ -285,6 +257,7 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
     circuit.addClassicalRegister(numQubits);
 
     std::unordered_set<mlir::Operation*> visited{};
+    std::vector<mlir::Operation*> visitOrder{};
 
     // Visit all operations in the AST using Breadth-First Search. An operation
     // has to wait until the definitions of all of its operands were visited.
@@ -308,6 +281,7 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
         continue;
       }
       visited.insert(current);
+      visitOrder.push_back(current);
 
       if (llvm::isa<XOp>(current)) {
         auto unitaryOp = llvm::dyn_cast<UnitaryInterface>(current);
@@ -351,22 +325,20 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
     llvm::outs() << circuitString << "\n";
     llvm::outs() << "----------------------------------------\n\n";
 
-    // Update the inputs of all non-mqtopt operations that use mqtopt operations
-    // as inputs, as these will be deleted later.
-    // NOLINTNEXTLINE(bugprone-nondeterministic-pointer-iteration-order)
-    for (auto* operation : visited) {
+    // Users are visited after the definitions of their operands. Hence, going
+    // backwards, an operation has no users left when its turn comes.
+    for (auto it = visitOrder.rbegin(); it != visitOrder.rend(); ++it) {
+      auto* operation = *it;
       if (operation->getDialect()->getNamespace() != DIALECT_NAME_MQTOPT) {
+        // Update the inputs of all non-mqtopt operations that use mqtopt
+        // operations as inputs, as these will be deleted.
         updateMQTOptInputs(*operation, rewriter, newAlloc.getQureg(),
                            measureCount);
-      }
-    }
-
-    // Delete all operations that are part of the mqtopt dialect (except for
-    // `AllocOp`).
-    // NOLINTNEXTLINE(bugprone-nondeterministic-pointer-iteration-order)
-    for (auto* operation : visited) {
-      if (operation->getDialect()->getNamespace() == DIALECT_NAME_MQTOPT) {
-        deleteRecursively(*operation, rewriter);
+      } else if (!llvm::isa<AllocOp>(operation) &&
+                 operation->getUsers().empty()) {
+        // Delete all operations that are part of the mqtopt dialect (except for
+        // `AllocOp`).
+        rewriter.eraseOp(operation);
       }
     }
 
-- 
2.43.0


From 9b3372582d9737c3d4ad64e6bec527607edf36d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:37 +0000
Subject: [PATCH 128/149] fix: the MQT Core round trip dropped operations that
 it does not support

---
 .../Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
index b98ffbf..8ce771e 100644
--- a/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
+++ b/mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp
@@ -303,6 +303,10 @@ struct ToQuantumComputationPattern final : mlir::OpRewritePattern<AllocOp> {
         auto measureOp = llvm::dyn_cast<MeasureOp>(current);
         measureCount += measureOp.getOutBits().size();
         handleMeasureOp(measureOp, currentQubitVariables);
+      } else if (current->getDialect()->getNamespace() ==
+                 DIALECT_NAME_MQTOPT) {
+        throw std::runtime_error(
+            "Operation not supported by round-trip pass!");
       } else {
         continue;
       }
-- 
2.43.0


From 6cd2dc58f9d4332f490c3ef31f3027b6998f82fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:27 +0000
Subject: [PATCH 129/149] fix: keep the buckets of the number table in order at
 their borders

A number at the upper border of its bucket was put in front of the bucket and
one at the lower border at its end. The lookup relies on ascending buckets, so
that close numbers could be stored twice.
---
 src/dd/RealNumberUniqueTable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd/RealNumberUniqueTable.cpp b/src/dd/RealNumberUniqueTable.cpp
index 94f7ba3..58c6ae7 100644
--- a/src/dd/RealNumberUniqueTable.cpp
+++ b/src/dd/RealNumberUniqueTable.cpp
@@ -136,9 +136,9 @@ RealNumber* RealNumberUniqueTable::lookupNonNegative(const fp val) {
   // Depending on which border of the bucket the value lies, a value either
   // needs to be inserted in the front or the back of the bucket.
   if (key == lowerKey) {
-    return insertFront(key, val);
+    return insertBack(key, val);
   }
-  return insertBack(key, val);
+  return insertFront(key, val);
 }
 
 bool RealNumberUniqueTable::possiblyNeedsCollection() const noexcept {
-- 
2.43.0


From 8ebc798e3e305a4c59783d5cc49155080b13c733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 130/149] fix: hand out zeroed entries after a memory manager
 was reset

Nodes and numbers kept the reference counts they had before the reset, so that
garbage collection never removed them.
---
 src/dd/MemoryManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dd/MemoryManager.cpp b/src/dd/MemoryManager.cpp
index fc05b2e..36d5aff 100644
--- a/src/dd/MemoryManager.cpp
+++ b/src/dd/MemoryManager.cpp
@@ -12,6 +12,7 @@
 
 #include "dd/LinkedListBase.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 
@@ -54,6 +55,8 @@ void MemoryManager::reset(const bool resizeToTotal) noexcept {
     chunks[0].resize(stats.numAllocated * entrySize_);
     ++numAllocations;
   }
+  // entries are expected to be zeroed when they are handed out
+  std::fill(chunks[0].begin(), chunks[0].end(), Chunk::value_type{});
 
   chunkIt = chunks[0].begin();
   chunkEndIt = chunks[0].end();
-- 
2.43.0


From 1eddc1901a44306cd18a5218eba0e7fcf40ed6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 131/149] fix: removing several controls from an operation
 advanced a foreign iterator

The iterator of the passed set was handed to the operation's own set of
controls, which is undefined unless both are the same set.
---
 include/mqt-core/ir/operations/Operation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/ir/operations/Operation.hpp b/include/mqt-core/ir/operations/Operation.hpp
index 1af0bb0..8a68f82 100644
--- a/include/mqt-core/ir/operations/Operation.hpp
+++ b/include/mqt-core/ir/operations/Operation.hpp
@@ -120,8 +120,10 @@ public:
   virtual Controls::iterator removeControl(Controls::iterator it) = 0;
 
   void removeControls(const Controls& c) {
-    for (auto it = c.begin(); it != c.end();) {
-      it = removeControl(it);
+    // the passed controls might be the controls of the operation itself
+    const auto toRemove = c;
+    for (const auto& control : toRemove) {
+      removeControl(control);
     }
   }
 
-- 
2.43.0


From 0e990e6c985b4e36da7ac868243cbf87abfc79ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 132/149] fix: compound operations with measurements, resets or
 conditions were called unitary

---
 include/mqt-core/ir/operations/CompoundOperation.hpp | 2 ++
 src/ir/operations/CompoundOperation.cpp              | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/include/mqt-core/ir/operations/CompoundOperation.hpp b/include/mqt-core/ir/operations/CompoundOperation.hpp
index d0d6599..1846a1b 100644
--- a/include/mqt-core/ir/operations/CompoundOperation.hpp
+++ b/include/mqt-core/ir/operations/CompoundOperation.hpp
@@ -50,6 +50,8 @@ public:
 
   [[nodiscard]] bool isCompoundOperation() const noexcept override;
 
+  [[nodiscard]] bool isUnitary() const override;
+
   [[nodiscard]] bool isNonUnitaryOperation() const override;
 
   [[nodiscard]] bool isSymbolicOperation() const override;
diff --git a/src/ir/operations/CompoundOperation.cpp b/src/ir/operations/CompoundOperation.cpp
index 2f88dad..7f5d5ec 100644
--- a/src/ir/operations/CompoundOperation.cpp
+++ b/src/ir/operations/CompoundOperation.cpp
@@ -66,6 +66,11 @@ std::unique_ptr<Operation> CompoundOperation::clone() const {
   return std::make_unique<CompoundOperation>(*this);
 }
 
+bool CompoundOperation::isUnitary() const {
+  return std::all_of(ops.cbegin(), ops.cend(),
+                     [](const auto& op) { return op->isUnitary(); });
+}
+
 bool CompoundOperation::isNonUnitaryOperation() const {
   return std::any_of(ops.cbegin(), ops.cend(), [](const auto& op) {
     return op->isNonUnitaryOperation();
-- 
2.43.0


From f908b06767b2a5e7fe15e433890577d6a6a0a413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 133/149] fix: whether a compound operation is global ignored
 its first sub-operation's controls

Empty compound operations were accessed out of bounds.
---
 src/ir/operations/CompoundOperation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/CompoundOperation.cpp b/src/ir/operations/CompoundOperation.cpp
index 7f5d5ec..e6e72ee 100644
--- a/src/ir/operations/CompoundOperation.cpp
+++ b/src/ir/operations/CompoundOperation.cpp
@@ -82,10 +82,13 @@ bool CompoundOperation::isCompoundOperation() const noexcept { return true; }
 bool CompoundOperation::isCustomGate() const noexcept { return customGate; }
 
 bool CompoundOperation::isGlobal(const size_t nQubits) const noexcept {
+  if (ops.empty()) {
+    return false;
+  }
   const auto& params = ops.front()->getParameter();
   const auto& t = ops.front()->getType();
   return getUsedQubits().size() == nQubits &&
-         std::all_of(ops.cbegin() + 1, ops.cend(), [&](const auto& operation) {
+         std::all_of(ops.cbegin(), ops.cend(), [&](const auto& operation) {
            return operation->isStandardOperation() &&
                   operation->getNcontrols() == 0 && operation->getType() == t &&
                   operation->getParameter() == params;
-- 
2.43.0


From 0238adb0f98c0322f9dc81fa7284ca9fdecc07d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 134/149] fix: rejected controls were added to parts of a
 compound operation

---
 src/ir/operations/CompoundOperation.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ir/operations/CompoundOperation.cpp b/src/ir/operations/CompoundOperation.cpp
index e6e72ee..78e0961 100644
--- a/src/ir/operations/CompoundOperation.cpp
+++ b/src/ir/operations/CompoundOperation.cpp
@@ -101,9 +101,12 @@ bool CompoundOperation::isSymbolicOperation() const {
 }
 
 void CompoundOperation::addControl(const Control c) {
+  if (actsOn(c.qubit)) {
+    throw std::runtime_error("Cannot add control on qubit " +
+                             std::to_string(c.qubit) +
+                             " to operation it already acts on the qubit.");
+  }
   controls.insert(c);
-  // we can just add the controls to each operation, as the operations will
-  // check if they already act on the control qubits.
   for (const auto& op : ops) {
     op->addControl(c);
   }
-- 
2.43.0


From 96f3cca2feab9786cb0f1ee96be28b70a29f72c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 135/149] fix: operation counts ignored the structure of nested
 compound operations

---
 src/ir/QuantumComputation.cpp | 45 +++++++++++++----------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 0f4bfaa..f8efc64 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -235,44 +235,33 @@ void addQubitToQubitRegister(QuantumRegisterMap& regs,
 /***
  * Public Methods
  ***/
-std::size_t QuantumComputation::getNindividualOps() const {
+namespace {
+/// Counts the operations satisfying a predicate, including sub-operations.
+template <class Iterator, class Predicate>
+std::size_t countOps(Iterator begin, Iterator end, const Predicate& pred) {
   std::size_t nops = 0;
-  for (const auto& op : ops) {
+  std::for_each(begin, end, [&](const auto& op) {
     if (const auto* const comp =
             dynamic_cast<const CompoundOperation*>(op.get());
         comp != nullptr) {
-      nops += comp->size();
-    } else {
+      nops += countOps(comp->cbegin(), comp->cend(), pred);
+    } else if (pred(*op)) {
       ++nops;
     }
-  }
-
+  });
   return nops;
 }
+} // namespace
 
-std::size_t QuantumComputation::getNsingleQubitOps() const {
-  std::size_t nops = 0;
-  for (const auto& op : ops) {
-    if (!op->isUnitary()) {
-      continue;
-    }
+std::size_t QuantumComputation::getNindividualOps() const {
+  return countOps(ops.cbegin(), ops.cend(),
+                  [](const Operation& /*op*/) { return true; });
+}
 
-    if (const auto* const comp =
-            dynamic_cast<const CompoundOperation*>(op.get());
-        comp != nullptr) {
-      for (const auto& subop : *comp) {
-        if (subop->isUnitary() && !subop->isControlled() &&
-            subop->getNtargets() == 1U) {
-          ++nops;
-        }
-      }
-    } else {
-      if (!op->isControlled() && op->getNtargets() == 1U) {
-        ++nops;
-      }
-    }
-  }
-  return nops;
+std::size_t QuantumComputation::getNsingleQubitOps() const {
+  return countOps(ops.cbegin(), ops.cend(), [](const Operation& op) {
+    return op.isUnitary() && !op.isControlled() && op.getNtargets() == 1U;
+  });
 }
 
 std::size_t QuantumComputation::getDepth() const {
-- 
2.43.0


From 27d90ce4b6156b11c76f8f8d6fcd146055576c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 136/149] fix: circuits made of compound operations had too few
 classical bits

Measurements within nested compound operations and the bits that conditions
refer to were not accounted for.
---
 src/ir/QuantumComputation.cpp | 37 +++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index f8efc64..219ab26 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1435,6 +1435,33 @@ bool QuantumComputation::isDynamic() const {
   });
 }
 
+namespace {
+/// Determines the largest classical bit an operation refers to.
+Bit getHighestBit(const Operation& op) {
+  Bit highest = 0;
+  if (op.getType() == Measure) {
+    const auto& measureOp = dynamic_cast<const NonUnitaryOperation&>(op);
+    for (const auto& c : measureOp.getClassics()) {
+      highest = std::max(highest, static_cast<Bit>(c));
+    }
+  } else if (op.isCompoundOperation()) {
+    for (const auto& subOp : dynamic_cast<const CompoundOperation&>(op)) {
+      highest = std::max(highest, getHighestBit(*subOp));
+    }
+  } else if (op.isClassicControlledOperation()) {
+    const auto& classicOp = dynamic_cast<const ClassicControlledOperation&>(op);
+    if (const auto& bit = classicOp.getControlBit(); bit.has_value()) {
+      highest = *bit;
+    }
+    if (const auto& reg = classicOp.getControlRegister(); reg.has_value()) {
+      highest = std::max(highest, reg->getEndIndex());
+    }
+    highest = std::max(highest, getHighestBit(*classicOp.getOperation()));
+  }
+  return highest;
+}
+} // namespace
+
 QuantumComputation
 QuantumComputation::fromCompoundOperation(const CompoundOperation& op) {
   QuantumComputation qc{};
@@ -1450,14 +1477,8 @@ QuantumComputation::fromCompoundOperation(const CompoundOperation& op) {
       maxQubitIndex = std::max(maxQubitIndex, q);
     }
 
-    if (g->getType() == Measure) {
-      // update the maximum classical bit index
-      const auto& measureOp = dynamic_cast<const NonUnitaryOperation&>(*g);
-      const auto& classics = measureOp.getClassics();
-      for (const auto& c : classics) {
-        maxBitIndex = std::max(maxBitIndex, c);
-      }
-    }
+    // update the maximum classical bit index
+    maxBitIndex = std::max(maxBitIndex, getHighestBit(*g));
   }
 
   // The following also sets the initial layout and the output permutation
-- 
2.43.0


From a6cb39699a1d55e9bb750c79d3198729f85f26e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:37 +0000
Subject: [PATCH 137/149] fix: controls of global phases were ignored in the
 construction of DDs

---
 src/dd/Operations.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/dd/Operations.cpp b/src/dd/Operations.cpp
index e7e42f1..9086788 100644
--- a/src/dd/Operations.cpp
+++ b/src/dd/Operations.cpp
@@ -26,6 +26,7 @@
 
 #include <cassert>
 #include <cmath>
+#include <complex>
 #include <cstddef>
 #include <random>
 #include <sstream>
@@ -154,8 +155,19 @@ MatrixDD getDD(const qc::Operation& op, Package& dd,
     if (inverse) {
       phase = -phase;
     }
+    const auto factor = std::complex<fp>{std::cos(phase), std::sin(phase)};
+    if (op.isControlled()) {
+      // a controlled global phase is a (controlled) phase gate on a control
+      auto controls = permutation.apply(op.getControls());
+      const auto target = *controls.begin();
+      controls.erase(controls.begin());
+      const auto positive = target.type == qc::Control::Type::Pos;
+      return dd.makeGateDD(positive ? GateMatrix{1., 0., 0., factor}
+                                    : GateMatrix{factor, 0., 0., 1.},
+                           controls, target.qubit);
+    }
     auto id = Package::makeIdent();
-    id.w = dd.cn.lookup(std::cos(phase), std::sin(phase));
+    id.w = dd.cn.lookup(factor);
     return id;
   }
 
-- 
2.43.0


From b51fd9a971185991c3f63e5381ddc0125b9a8ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:37 +0000
Subject: [PATCH 138/149] fix: conditional compound operations did not
 contribute to the depth of circuits

---
 .../mqt-core/ir/operations/ClassicControlledOperation.hpp    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
index 012d20e..83289c1 100644
--- a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
+++ b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
@@ -24,6 +24,7 @@
 #include <ostream>
 #include <set>
 #include <string>
+#include <vector>
 
 namespace qc {
 
@@ -110,6 +111,10 @@ public:
     return op->actsOn(i);
   }
 
+  void addDepthContribution(std::vector<std::size_t>& depths) const override {
+    op->addDepthContribution(depths);
+  }
+
   [[nodiscard]] auto getUsedQubitsPermuted(const Permutation& perm) const
       -> std::set<Qubit> override {
     return op->getUsedQubitsPermuted(perm);
-- 
2.43.0


From 3b0cb5f5e2455cb75a5d7e927f926f6c16ed6da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:02 +0000
Subject: [PATCH 139/149] fix: Qiskit parameters that do not depend on any
 variable were imported as symbolic

---
 src/mqt/core/plugins/qiskit/qiskit_to_mqt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
index 2c5ac57..2ca3976 100644
--- a/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
+++ b/src/mqt/core/plugins/qiskit/qiskit_to_mqt.py
@@ -320,6 +320,8 @@ def _parse_symbolic_expression(qiskit_expr: ParameterExpression | float) -> floa
             raise NotImplementedError(msg)
         expr += Term(Variable(parameter.name), float(coeff))
     expr += float(qiskit_expr.bind(dict.fromkeys(parameters, 0.0)))
+    if expr.is_constant():
+        return expr.constant
     return expr
 
 
-- 
2.43.0


From 04ce290883ddbe41efc094476a1bbe98a71dcc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:59 +0000
Subject: [PATCH 140/149] fix: setting the global phase of a circuit from
 Python added to it

---
 src/python/ir/register_quantum_computation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 41f5e7b..b66a051 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -76,7 +76,9 @@ void registerQuantumComputation(py::module& m) {
   qc.def("num_total_ops", &qc::QuantumComputation::getNindividualOps);
   qc.def("depth", &qc::QuantumComputation::getDepth);
   qc.def_property("global_phase", &qc::QuantumComputation::getGlobalPhase,
-                  &qc::QuantumComputation::gphase);
+                  [](qc::QuantumComputation& circ, const qc::fp phase) {
+                    circ.gphase(phase - circ.getGlobalPhase());
+                  });
   qc.def("invert", &qc::QuantumComputation::invert);
   qc.def("to_operation", &qc::QuantumComputation::asOperation);
 
-- 
2.43.0


From f21d113e17c5fd8c7056be9ac98718458bb9509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:59 +0000
Subject: [PATCH 141/149] fix: set_circuit_qubits_ancillary was not available
 in Python

---
 src/python/ir/register_quantum_computation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index b66a051..feb16ec 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -222,7 +222,7 @@ void registerQuantumComputation(py::module& m) {
       "ancillary", py::overload_cast<>(&qc::QuantumComputation::getAncillary));
   qc.def("set_circuit_qubit_ancillary",
          &qc::QuantumComputation::setLogicalQubitAncillary, "q"_a);
-  qc.def("se_circuit_qubits_ancillary",
+  qc.def("set_circuit_qubits_ancillary",
          &qc::QuantumComputation::setLogicalQubitsAncillary, "q_min"_a,
          "q_max"_a);
   qc.def("is_circuit_qubit_ancillary",
-- 
2.43.0


From 5b25a15f4751bdd58a6489f8cadc20d46cadfb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:59 +0000
Subject: [PATCH 142/149] fix: slices with negative steps of circuits and
 compound operations

---
 .../ir/operations/register_compound_operation.cpp  | 13 ++++++++-----
 src/python/ir/register_quantum_computation.cpp     | 14 ++++++++------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/python/ir/operations/register_compound_operation.cpp b/src/python/ir/operations/register_compound_operation.cpp
index 6eba958..cb36cc4 100644
--- a/src/python/ir/operations/register_compound_operation.cpp
+++ b/src/python/ir/operations/register_compound_operation.cpp
@@ -65,8 +65,9 @@ void registerCompoundOperation(const py::module& m) {
             }
             auto ops = std::vector<qc::Operation*>();
             ops.reserve(sliceLength);
-            for (std::size_t i = start; i < stop; i += step) {
-              ops.emplace_back(op.at(i).get());
+            for (std::size_t i = 0; i < sliceLength; ++i) {
+              ops.emplace_back(op.at(start).get());
+              start += step;
             }
             return ops;
           },
@@ -119,10 +120,12 @@ void registerCompoundOperation(const py::module& m) {
                                &sliceLength)) {
               throw py::error_already_set();
             }
-            // delete in reverse order to not invalidate indices
-            for (std::size_t i = sliceLength; i > 0; --i) {
+            // delete from the highest index down to not invalidate indices
+            const auto descending = static_cast<int64_t>(step) < 0;
+            for (std::size_t i = 0; i < sliceLength; ++i) {
+              const auto k = descending ? i : sliceLength - 1 - i;
               compOp.erase(compOp.begin() +
-                           static_cast<int64_t>(start + (i - 1) * step));
+                           static_cast<int64_t>(start + (k * step)));
             }
           },
           "slice"_a)
diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index feb16ec..ef8f133 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -106,8 +106,9 @@ void registerQuantumComputation(py::module& m) {
         }
         auto ops = std::vector<qc::Operation*>();
         ops.reserve(sliceLength);
-        for (std::size_t i = start; i < stop; i += step) {
-          ops.emplace_back(circ.at(i).get());
+        for (std::size_t i = 0; i < sliceLength; ++i) {
+          ops.emplace_back(circ.at(start).get());
+          start += step;
         }
         return ops;
       },
@@ -160,10 +161,11 @@ void registerQuantumComputation(py::module& m) {
                            &sliceLength)) {
           throw py::error_already_set();
         }
-        // delete in reverse order to not invalidate indices
-        for (std::size_t i = sliceLength; i > 0; --i) {
-          circ.erase(circ.begin() +
-                     static_cast<int64_t>(start + (i - 1) * step));
+        // delete from the highest index down to not invalidate indices
+        const auto descending = static_cast<int64_t>(step) < 0;
+        for (std::size_t i = 0; i < sliceLength; ++i) {
+          const auto k = descending ? i : sliceLength - 1 - i;
+          circ.erase(circ.begin() + static_cast<int64_t>(start + (k * step)));
         }
       },
       "slice"_a);
-- 
2.43.0


From c4a91a03194283b68dddfaa97eb9d955b9313cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:59 +0000
Subject: [PATCH 143/149] fix: assigning operations of a circuit to a slice of
 the same circuit

---
 .../ir/operations/register_compound_operation.cpp      | 10 ++++++++--
 src/python/ir/register_quantum_computation.cpp         | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/python/ir/operations/register_compound_operation.cpp b/src/python/ir/operations/register_compound_operation.cpp
index cb36cc4..7e09393 100644
--- a/src/python/ir/operations/register_compound_operation.cpp
+++ b/src/python/ir/operations/register_compound_operation.cpp
@@ -96,8 +96,14 @@ void registerCompoundOperation(const py::module& m) {
               throw std::runtime_error(
                   "Length of slice and number of operations do not match.");
             }
-            for (std::size_t i = 0; i < sliceLength; ++i) {
-              compOp[start] = ops[i]->clone();
+            // the operations may be those that are about to be replaced
+            std::vector<std::unique_ptr<qc::Operation>> clones;
+            clones.reserve(sliceLength);
+            for (const auto* op : ops) {
+              clones.emplace_back(op->clone());
+            }
+            for (auto& clone : clones) {
+              compOp[start] = std::move(clone);
               start += step;
             }
           },
diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index ef8f133..d05c2d1 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -137,8 +137,14 @@ void registerQuantumComputation(py::module& m) {
           throw std::runtime_error(
               "Length of slice and number of operations do not match.");
         }
-        for (std::size_t i = 0; i < sliceLength; ++i) {
-          circ.at(start) = ops[i]->clone();
+        // the operations may be those that are about to be replaced
+        std::vector<std::unique_ptr<qc::Operation>> clones;
+        clones.reserve(sliceLength);
+        for (const auto* op : ops) {
+          clones.emplace_back(op->clone());
+        }
+        for (auto& clone : clones) {
+          circ.at(start) = std::move(clone);
           start += step;
         }
       },
-- 
2.43.0


From befa43b14aff22ccad6c04382ffef6843b219666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 144/149] fix: insertion positions outside of circuits and
 compound operations

---
 src/python/ir/operations/register_compound_operation.cpp | 9 ++++++---
 src/python/ir/register_quantum_computation.cpp           | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/python/ir/operations/register_compound_operation.cpp b/src/python/ir/operations/register_compound_operation.cpp
index 7e09393..38a5ea1 100644
--- a/src/python/ir/operations/register_compound_operation.cpp
+++ b/src/python/ir/operations/register_compound_operation.cpp
@@ -12,6 +12,7 @@
 #include "ir/operations/Operation.hpp"
 #include "python/pybind11.hpp"
 
+#include <algorithm>
 #include <cstddef>
 #include <memory>
 #include <sstream>
@@ -143,10 +144,12 @@ void registerCompoundOperation(const py::module& m) {
           "op"_a)
       .def(
           "insert",
-          [](qc::CompoundOperation& compOp, const std::size_t idx,
+          [](qc::CompoundOperation& compOp, DiffType idx,
              const qc::Operation& op) {
-            compOp.insert(compOp.begin() + static_cast<int64_t>(idx),
-                          op.clone());
+            // positions are treated just as those of Python's lists
+            const auto size = static_cast<DiffType>(compOp.size());
+            idx = std::clamp<DiffType>(idx < 0 ? idx + size : idx, 0, size);
+            compOp.insert(compOp.begin() + idx, op.clone());
           },
           "idx"_a, "op"_a)
       .def("empty", &qc::CompoundOperation::empty)
diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index d05c2d1..1bad921 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -18,6 +18,7 @@
 #include "python/pybind11.hpp"
 #include "qasm3/Importer.hpp"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <memory>
@@ -178,9 +179,11 @@ void registerQuantumComputation(py::module& m) {
   qc.def("__len__", &qc::QuantumComputation::getNops);
   qc.def(
       "insert",
-      [](qc::QuantumComputation& circ, std::size_t idx,
-         const qc::Operation& op) {
-        circ.insert(circ.begin() + static_cast<int64_t>(idx), op.clone());
+      [](qc::QuantumComputation& circ, DiffType idx, const qc::Operation& op) {
+        // positions are treated just as those of Python's lists
+        const auto size = static_cast<DiffType>(circ.getNops());
+        idx = std::clamp<DiffType>(idx < 0 ? idx + size : idx, 0, size);
+        circ.insert(circ.begin() + idx, op.clone());
       },
       "idx"_a, "op"_a);
   qc.def(
-- 
2.43.0


From def7fef96e20f3cf27f09e28a3bb1429662484c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 145/149] fix: lifetime and errors of Python's view on
 permutations

---
 src/python/ir/register_permutation.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/python/ir/register_permutation.cpp b/src/python/ir/register_permutation.cpp
index ee34b46..5e7b9ca 100644
--- a/src/python/ir/register_permutation.cpp
+++ b/src/python/ir/register_permutation.cpp
@@ -15,6 +15,7 @@
 
 #include <pybind11/operators.h>
 #include <sstream>
+#include <string>
 
 namespace mqt {
 
@@ -39,16 +40,28 @@ void registerPermutation(py::module& m) {
            "targets"_a)
       .def("clear", [](qc::Permutation& p) { p.clear(); })
       .def("__getitem__",
-           [](const qc::Permutation& p, const qc::Qubit q) { return p.at(q); })
+           [](const qc::Permutation& p, const qc::Qubit q) {
+             const auto it = p.find(q);
+             if (it == p.end()) {
+               throw py::key_error(std::to_string(q));
+             }
+             return it->second;
+           })
       .def("__setitem__", [](qc::Permutation& p, const qc::Qubit q,
                              const qc::Qubit r) { p[q] = r; })
       .def("__delitem__",
-           [](qc::Permutation& p, const qc::Qubit q) { p.erase(q); })
-      .def("__len__", &qc::Permutation::size)
-      .def("__iter__",
-           [](const qc::Permutation& p) {
-             return py::make_key_iterator(p.begin(), p.end());
+           [](qc::Permutation& p, const qc::Qubit q) {
+             if (p.erase(q) == 0) {
+               throw py::key_error(std::to_string(q));
+             }
            })
+      .def("__len__", &qc::Permutation::size)
+      .def(
+          "__iter__",
+          [](const qc::Permutation& p) {
+            return py::make_key_iterator(p.begin(), p.end());
+          },
+          py::keep_alive<0, 1>())
       .def(
           "items",
           [](const qc::Permutation& p) {
-- 
2.43.0


From 57aef44b06a152f2b31d9422ba1bdf2b8274a751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 146/149] fix: decision diagrams returned to Python did not
 keep their package alive

---
 src/python/dd/register_dd.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/dd/register_dd.cpp b/src/python/dd/register_dd.cpp
index 2cfc07c..b1765c9 100644
--- a/src/python/dd/register_dd.cpp
+++ b/src/python/dd/register_dd.cpp
@@ -80,7 +80,9 @@ PYBIND11_MODULE(dd, mod, py::mod_gil_not_used()) {
       },
       "qc"_a, "recursive"_a = false);
 
-  mod.def("simulate", &dd::simulate, "qc"_a, "initial_state"_a, "dd_package"_a);
+  mod.def("simulate", &dd::simulate, "qc"_a, "initial_state"_a, "dd_package"_a,
+          // keep the DD package alive while the returned vector DD is alive.
+          py::keep_alive<0, 3>());
 
   mod.def(
       "build_functionality",
@@ -91,7 +93,9 @@ PYBIND11_MODULE(dd, mod, py::mod_gil_not_used()) {
         }
         return dd::buildFunctionality(qc, p);
       },
-      "qc"_a, "dd_package"_a, "recursive"_a = false);
+      "qc"_a, "dd_package"_a, "recursive"_a = false,
+      // keep the DD package alive while the returned matrix DD is alive.
+      py::keep_alive<0, 2>());
 }
 
 } // namespace mqt
-- 
2.43.0


From 1c9df78791b0de264b21da573c8bc45bde82eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:09 +0000
Subject: [PATCH 147/149] fix: indices beyond the end of a state were wrapped
 around in Python

---
 src/python/dd/register_vector_dds.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/dd/register_vector_dds.cpp b/src/python/dd/register_vector_dds.cpp
index b5a3ed1..d645963 100644
--- a/src/python/dd/register_vector_dds.cpp
+++ b/src/python/dd/register_vector_dds.cpp
@@ -45,6 +45,10 @@ void registerVectorDDs(const py::module& mod) {
   vec.def(
       "__getitem__",
       [](const dd::vEdge& v, const size_t idx) {
+        if (!v.isTerminal() && v.p->v < 63U &&
+            (idx >> (v.p->v + 1U)) != 0U) {
+          throw py::index_error();
+        }
         return v.getValueByIndex(idx);
       },
       "index"_a);
-- 
2.43.0


From 9f275d275ea4b92ac8e315f37db2f1fef058de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:13 +0000
Subject: [PATCH 148/149] fix: clearing the operations of a circuit from Python
 removed its qubits

---
 src/python/ir/register_quantum_computation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/ir/register_quantum_computation.cpp b/src/python/ir/register_quantum_computation.cpp
index 1bad921..66cea9c 100644
--- a/src/python/ir/register_quantum_computation.cpp
+++ b/src/python/ir/register_quantum_computation.cpp
@@ -193,7 +193,9 @@ void registerQuantumComputation(py::module& m) {
       },
       "op"_a);
   qc.def("reverse", &qc::QuantumComputation::reverse);
-  qc.def("clear", py::overload_cast<>(&qc::QuantumComputation::reset));
+  qc.def("clear", [](qc::QuantumComputation& circ) {
+    circ.erase(circ.cbegin(), circ.cend());
+  });
 
   ///---------------------------------------------------------------------------
   ///                         \n (Qu)Bit Registers \n
-- 
2.43.0


From 3f5c9ea3ef27b999c8c004bfbac934a81d3eae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 149/149] fix: measurements could not be applied to decision
 diagrams from Python

---
 src/python/dd/register_dd_package.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/python/dd/register_dd_package.cpp b/src/python/dd/register_dd_package.cpp
index b7bb57e..d2e3983 100644
--- a/src/python/dd/register_dd_package.cpp
+++ b/src/python/dd/register_dd_package.cpp
@@ -184,19 +184,22 @@ void registerDDPackage(const py::module& mod) {
 
   dd.def(
       "apply_measurement",
-      [](dd::Package& p, const dd::vEdge& v, const qc::NonUnitaryOperation& op,
+      [](const py::object& self, const dd::vEdge& v,
+         const qc::NonUnitaryOperation& op,
          const std::vector<bool>& measurements,
          const qc::Permutation& perm = {}) {
         static std::mt19937_64 rng(std::random_device{}());
+        auto& p = self.cast<dd::Package&>();
         auto measurementsCopy = measurements;
-        return std::pair{
-            dd::applyMeasurement(op, v, p, rng, measurementsCopy, perm),
-            measurementsCopy};
+        const auto result = py::cast(
+            dd::applyMeasurement(op, v, p, rng, measurementsCopy, perm));
+        // keep the DD package alive while the returned vector DD is alive.
+        // The tuple that is returned cannot do so itself.
+        py::detail::keep_alive_impl(result, self);
+        return std::pair{result, measurementsCopy};
       },
       "vec"_a, "operation"_a, "measurements"_a,
-      "permutation"_a = qc::Permutation{},
-      // keep the DD package alive while the returned vector DD is alive.
-      py::keep_alive<0, 1>());
+      "permutation"_a = qc::Permutation{});
 
   dd.def(
       "apply_reset",
-- 
2.43.0

