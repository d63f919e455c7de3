From 35ec5e25b9cd45dabecdc6fe55fbfe85ff86b202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 01/72] fix: index_adjacency/index_biadjacency built from an
 edge list iterate exactly one row per vertex

---
 include/nwgraph/adjacency.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index 5d9c4c3..27425e1 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -92,7 +92,7 @@ public:
                   bool sort_adjacency = false,
                   ExecutionPolicy&&                                                                              policy = {})
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
-      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0] + 1) {
+      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0]) {
     fill<idx>(A, *this, sort_adjacency, policy);
   }
 
@@ -101,7 +101,7 @@ public:
                   bool sort_adjacency = false,
                   ExecutionPolicy&&                                                                                policy = {})
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
-      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0] + 1) {
+      : unipartite_graph_base(A.num_vertices()[0]), base(A.num_vertices()[0]) {
     fill<idx>(A, *this, sort_adjacency, policy);
   }
 
@@ -234,7 +234,7 @@ public:
       requires(std::is_same<bipartite_graph_base, bipartite_graph_base>::value)
       : bipartite_graph_base(A.num_vertices()[idx],
                              A.num_vertices()[(idx + 1) % 2]),
-        base(A.num_vertices()[idx] + 1) {
+        base(A.num_vertices()[idx]) {
     fill_biadjacency<idx>(A, *this, sort_biadjacency, policy);
   }
 
@@ -246,7 +246,7 @@ public:
       requires(std::is_same<bipartite_graph_base, bipartite_graph_base>::value)
       : bipartite_graph_base(A.num_vertices()[idx],
                              A.num_vertices()[(idx + 1) % 2]),
-        base(A.num_vertices()[idx] + 1) {
+        base(A.num_vertices()[idx]) {
     fill_biadjacency<idx>(A, *this, sort_biadjacency, policy);
   }
   // customized move constructor
-- 
2.43.0


From 039e2bb3440f8cd3642c5579962d9a591c59fa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 02/72] fix: permute_by_degree moves each neighborhood to the
 row its degree was placed at

---
 include/nwgraph/containers/compressed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 70bf95a..4a52ef9 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -491,8 +491,8 @@ public:    // fixme
     // before the computation, new_indices stores the degree of each vertex (with new id)
     std::inclusive_scan(ex_policy, new_indices.begin(), new_indices.end(), new_indices.begin());
     //7. Permute each neighborhood of each vertex in to_be_indexed_ to their new place
-    // based on the new_id_perm
-    to_be_indexed_.permute(indices_, new_indices, new_id_perm);
+    // based on perm, which holds the old id of each new row
+    to_be_indexed_.permute(indices_, new_indices, perm);
 
     //8. Overwrite the old indices_ with new_indices
     indices_ = std::move(new_indices);
-- 
2.43.0


From 206bd3eaa4436513a78c9fca7386f3a84b65deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 03/72] fix: sort_to_be_indexed keeps edge attributes attached
 to their targets

---
 include/nwgraph/containers/compressed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 4a52ef9..0bc0548 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -416,10 +416,10 @@ public:    // fixme
   */
   template <class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
   void sort_to_be_indexed(ExecutionPolicy&& ex_policy = {}) {
-    auto s = std::get<0>(to_be_indexed_).begin();
+    auto s = to_be_indexed_.begin();
 
     for (size_t i = 0, e = indices_.size() - 1; i < e; ++i) {
-      std::sort(ex_policy, s + indices_[i], s + indices_[i + 1]);
+      std::sort(ex_policy, s + indices_[i], s + indices_[i + 1], [](auto&& a, auto&& b) { return std::get<0>(a) < std::get<0>(b); });
     }
 
     if (g_debug_compressed) {
-- 
2.43.0


From 6f205e3ca9abd717e54a05f6f3b965a3330e3e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 04/72] fix: (de)serializing a compressed adjacency reads and
 writes its row count within bounds, and compiles on const graphs

---
 include/nwgraph/containers/compressed.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 0bc0548..b770b02 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -300,20 +300,21 @@ public:    // fixme
     }
   }
 
-  void serialize(std::ostream& outfile) {
-    size_t el_size = sizeof(indices_[0]);
+  void serialize(std::ostream& outfile) const {
+    size_t el_size = sizeof(index_t);
     size_t st_size = indices_.size();
+    size_t n       = N_;
 
     outfile.write(reinterpret_cast<const char*>(magic_), sizeof(magic_));
-    outfile.write(reinterpret_cast<char*>(&N_), sizeof(size_t));
+    outfile.write(reinterpret_cast<char*>(&n), sizeof(size_t));
 
     outfile.write(reinterpret_cast<char*>(&st_size), sizeof(size_t));
     outfile.write(reinterpret_cast<char*>(&el_size), sizeof(size_t));
-    outfile.write(reinterpret_cast<char*>(indices_.data()), st_size * el_size);
+    outfile.write(reinterpret_cast<const char*>(indices_.data()), st_size * el_size);
     to_be_indexed_.serialize(outfile);
   }
 
-  void serialize(const std::string& outfile_name) {
+  void serialize(const std::string& outfile_name) const {
     std::ofstream out_file(outfile_name, std::ofstream::binary);
     serialize(out_file);
   }
@@ -322,9 +323,11 @@ public:    // fixme
     char   spell[sizeof(magic_) + 1];
     size_t el_size = -1;
     size_t st_size = -1;
+    size_t n       = 0;
 
     infile.read(reinterpret_cast<char*>(spell), sizeof(magic_));
-    infile.read(reinterpret_cast<char*>(&N_), sizeof(size_t));
+    infile.read(reinterpret_cast<char*>(&n), sizeof(size_t));
+    N_ = n;
 
     infile.read(reinterpret_cast<char*>(&st_size), sizeof(size_t));
     infile.read(reinterpret_cast<char*>(&el_size), sizeof(size_t));
-- 
2.43.0


From bb7ae92b32fa51d6265b317a11213d408f0a500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 05/72] fix: comparing struct_of_arrays of different lengths
 does not read past the shorter one

---
 include/nwgraph/containers/soa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index 18de682..b27f8f4 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -334,7 +334,7 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
   }
 
   bool operator==(struct_of_arrays& a) {
-    return std::equal(std::execution::par, begin(), end(), a.begin());
+    return size() == a.size() && std::equal(std::execution::par, begin(), end(), a.begin());
   }
 
   bool operator!=(const storage_type& a) {
-- 
2.43.0


From ff9d0b8fc6a0ce5b4507eacca4398352b352d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 06/72] fix: postfix increment and decrement of
 struct_of_arrays iterators

---
 include/nwgraph/containers/soa.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index b27f8f4..b4d4a03 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -98,10 +98,10 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
     auto operator<=>(const soa_iterator&) const = default;
 
     soa_iterator operator++(int) {
-      return soa_iterator(i_++, soa_);
+      return soa_iterator(soa_, i_++);
     }
     soa_iterator operator--(int) {
-      return soa_iterator(i_--, soa_);
+      return soa_iterator(soa_, i_--);
     }
 
     soa_iterator& operator++() {
-- 
2.43.0


From 5cda6201747ff8854beb5c700277b65797af7157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 07/72] fix: postfix increment and decrement of outer iterators

---
 include/nwgraph/containers/compressed.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index b770b02..7120e1d 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -135,11 +135,10 @@ public:    // fixme
       return *this;
     }
 
-    my_outer_iterator operator++(int) const {
+    my_outer_iterator operator++(int) {
       my_outer_iterator tmp(*this);
       ++i_;
       return tmp;
-      ;
     }
 
     my_outer_iterator& operator--() {
@@ -147,7 +146,7 @@ public:    // fixme
       return *this;
     }
 
-    my_outer_iterator operator--(int) const {
+    my_outer_iterator operator--(int) {
       my_outer_iterator tmp(*this);
       --i_;
       return tmp;
-- 
2.43.0


From d935a830a275ae9c1e89bdf288152f668e53854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 08/72] fix: afforest and CCVerifier label exactly the vertices
 of the graph and do not read a row past the last one

---
 include/nwgraph/algorithms/connected_components.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/algorithms/connected_components.hpp b/include/nwgraph/algorithms/connected_components.hpp
index 514bb32..51bf1ab 100644
--- a/include/nwgraph/algorithms/connected_components.hpp
+++ b/include/nwgraph/algorithms/connected_components.hpp
@@ -57,9 +57,9 @@ static bool CCVerifier(const Graph& graph, const Transpose& xpose, Vector&& comp
   for (auto&& [n] : plain_range(graph)) {
     label_to_source[comp[n]] = n;
   }
-  std::vector<bool>   visited(graph.size() + 1);
+  std::vector<bool>   visited(graph.size());
   std::vector<NodeID> frontier;
-  frontier.reserve(graph.size() + 1);
+  frontier.reserve(graph.size());
   for (auto&& [curr_label, source] : label_to_source) {
     frontier.clear();
     frontier.push_back(source);
@@ -98,7 +98,7 @@ static bool CCVerifier(const Graph& graph, const Transpose& xpose, Vector&& comp
     }
   }
   if (0 < i) {
-    std::cout << "unvisited " << i << " " << graph.size() + 1 << " ";
+    std::cout << "unvisited " << i << " " << graph.size() << " ";
     return false;
   }
   return true;
@@ -196,7 +196,9 @@ static T sample_frequent_element(const Vector& comp, size_t num_samples = 1024)
 template <typename Execution, adjacency_list_graph Graph1, adjacency_list_graph Graph2>
 static auto afforest(Execution& exec, const Graph1& graph, const Graph2& t_graph, const size_t neighbor_rounds = 2) {
   using vertex_id_type = vertex_id_t<Graph1>;
-  std::vector<std::atomic<vertex_id_type>> comp(graph.size() + 1);
+  std::vector<std::atomic<vertex_id_type>> comp(graph.size());
+  if (comp.empty()) return comp;
+
   std::for_each(exec, counting_iterator(0ul), counting_iterator(comp.size()), [&](vertex_id_type n) { comp[n] = n; });
   for (size_t r = 0; r < neighbor_rounds; ++r) {
     std::for_each(exec, counting_iterator(0ul), counting_iterator(comp.size()), [&](vertex_id_type u) {
-- 
2.43.0


From d8311a2d9fe7534563afcda6d32ed0180629ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 09/72] fix: postfix increment and decrement of zip iterators

---
 include/nwgraph/containers/zip.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/containers/zip.hpp b/include/nwgraph/containers/zip.hpp
index 0ff909e..0237962 100644
--- a/include/nwgraph/containers/zip.hpp
+++ b/include/nwgraph/containers/zip.hpp
@@ -102,10 +102,10 @@ struct zipped : std::tuple<Ranges&...> {
     auto operator<=>(const soa_iterator&) const = default;
 
     soa_iterator operator++(int) {
-      return soa_iterator(i_++, soa_);
+      return soa_iterator(soa_, i_++);
     }
     soa_iterator operator--(int) {
-      return soa_iterator(i_--, soa_);
+      return soa_iterator(soa_, i_--);
     }
 
     soa_iterator& operator++() {
-- 
2.43.0


From 63f886e7d540e11915500eca3e2cbf8e5110f024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 10/72] fix: dijkstra initialises unreached distances to the
 largest Distance, not the largest vertex id

---
 include/nwgraph/algorithms/dijkstra.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/dijkstra.hpp b/include/nwgraph/algorithms/dijkstra.hpp
index 70561b5..76ea5ab 100644
--- a/include/nwgraph/algorithms/dijkstra.hpp
+++ b/include/nwgraph/algorithms/dijkstra.hpp
@@ -86,7 +86,7 @@ auto dijkstra(
   size_t N(graph.end() - graph.begin());
   assert(source < N);
 
-  std::vector<Distance> distance(N, std::numeric_limits<vertex_id_type>::max());
+  std::vector<Distance> distance(N, std::numeric_limits<Distance>::max());
   distance[source] = 0;
 
   auto g                = graph.begin();
-- 
2.43.0


From 5e05108d77adeb297a35c537786b89a714211c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 11/72] fix: parallel delta_stepping does not read an
 uninitialised flag when a relaxation does not improve

---
 include/nwgraph/algorithms/delta_stepping.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/delta_stepping.hpp b/include/nwgraph/algorithms/delta_stepping.hpp
index c4f2585..f68034f 100644
--- a/include/nwgraph/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/algorithms/delta_stepping.hpp
@@ -186,7 +186,7 @@ auto delta_stepping(const Graph& graph, vertex_id_t<Graph> source, T delta) {
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
-- 
2.43.0


From e9bc598e90aa0512f9ca20858c505a258bdbb677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 12/72] fix: kruskal sizes its union-find by the number of
 vertices, not edges

---
 include/nwgraph/algorithms/kruskal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/kruskal.hpp b/include/nwgraph/algorithms/kruskal.hpp
index 7b686b7..740fb94 100644
--- a/include/nwgraph/algorithms/kruskal.hpp
+++ b/include/nwgraph/algorithms/kruskal.hpp
@@ -50,7 +50,7 @@ EdgeListT kruskal(EdgeListT& E) {
  */
 template <edge_list_graph EdgeListT, typename Compare>
 EdgeListT kruskal(EdgeListT& E, Compare comp) {
-  size_t    n_vtx = E.size();
+  size_t    n_vtx = num_vertices(E);
   EdgeListT T(n_vtx);
   std::sort(E.begin(), E.end(), comp);
 
-- 
2.43.0


From 78372db45a395ba2393cebab245eeac00b8edb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 13/72] fix: jones_plassmann_coloring colors every vertex, not
 only one independent set

---
 .../algorithms/jones_plassmann_coloring.hpp   | 49 +++++--------------
 1 file changed, 12 insertions(+), 37 deletions(-)

diff --git a/include/nwgraph/algorithms/jones_plassmann_coloring.hpp b/include/nwgraph/algorithms/jones_plassmann_coloring.hpp
index e192f1a..639f4d2 100644
--- a/include/nwgraph/algorithms/jones_plassmann_coloring.hpp
+++ b/include/nwgraph/algorithms/jones_plassmann_coloring.hpp
@@ -39,45 +39,20 @@ void jones_plassmann_coloring(Graph& A, std::vector<size_t>& colors) {
   //init every nodes' color to 0
   std::fill(colors.begin(), colors.end(), 0);
 
-  //find the maximal independent set
-  std::vector<size_t> independentSet;
-  maximal_independent_set(A, independentSet);
-
-  // Function for finding the first
-  // missing positive number in an (unsorted) array
-  auto firstMissingPositive = []<typename T>(std::vector<T> arr) -> T {
-    size_t n = arr.size();
-    // Loop to traverse the whole array
-    for (size_t i = 0; i < n; ++i) {
-      // Loop to check boundary
-      // condition and for swapping
-      while (1 <= arr[i] && arr[i] <= n && arr[i] != arr[arr[i] - 1]) {
-        std::swap(arr[i], arr[arr[i] - 1]);
-      }
-    }
-
-    // Checking any element which
-    // is not equal to i+1
-    for (size_t i = 0; i < n; ++i) {
-      if (arr[i] != i + 1) {
-        return i + 1;
+  //give each color to a maximal independent set of the vertices that have no color yet
+  std::vector<bool> colored(N, false);
+  size_t            num_colored = 0;
+  for (size_t color = 0; num_colored < N; ++color) {
+    std::vector<bool> excluded(colored);
+    for (size_t u = 0; u < N; ++u) {
+      if (excluded[u]) continue;
+      colors[u]  = color;
+      colored[u] = true;
+      ++num_colored;
+      for (auto it = A[u].begin(); it != A[u].end(); ++it) {
+        excluded[target(A, *it)] = true;
       }
     }
-
-    // Nothing is present return last index
-    return n + 1;
-  };
-
-  //calculate colors based on the maximal independent set
-  std::vector<std::vector<size_t>> neighbor_colors(N);
-  for (auto& u : independentSet) {
-    //memorize colors of every independent vertex's neighbors
-    for (auto it = A[u].begin(); it != A[u].end(); ++it) {
-      auto v = std::get<0>(*it);
-      neighbor_colors[u].push_back(colors[v]);
-    }
-    //find the first unused color within every independent vertex's neighbors
-    colors[u] = firstMissingPositive(neighbor_colors[u]);
   }
 }
 
-- 
2.43.0


From 4a6766b4507ea96ffa8230818cd2692ca2bfbb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 14/72] fix: k_core peels every vertex outside the k-core, not
 only those one traversal from vertex 0 finds

---
 include/nwgraph/algorithms/k_core.hpp | 33 ++++++++++++++++-----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/nwgraph/algorithms/k_core.hpp b/include/nwgraph/algorithms/k_core.hpp
index bf97263..1c87b5d 100644
--- a/include/nwgraph/algorithms/k_core.hpp
+++ b/include/nwgraph/algorithms/k_core.hpp
@@ -76,19 +76,26 @@ std::tuple<Unordered_map, size_t> k_core(const Graph& A, int k) {
     ++degree[v];
   }
 
-  dfs_edge_range ranges(A, 0);
-  auto           ite = ranges.begin();
-  for (; ite != ranges.end(); ++ite) {
-    auto v = std::get<1>(*ite);
-    auto w = std::get<2>(*ite);
-
-    Neighbors edge = make_my_pair(v, w);
-
-    if (filter.find(edge) == filter.end() && degree[v] < k) {
-      if (--degree[w] == 0) n_vtx--;
-      if (--degree[v] == 0) n_vtx--;
-
-      filter.insert({edge, true});
+  // peel vertices of degree less than k until none is left
+  std::vector<bool>   removed(n_vtx, false);
+  std::vector<size_t> worklist;
+  for (size_t v = 0; v < old_n_vtx; ++v) {
+    if (degree[v] < k) {
+      removed[v] = true;
+      worklist.push_back(v);
+    }
+  }
+  while (!worklist.empty()) {
+    auto v = worklist.back();
+    worklist.pop_back();
+    --n_vtx;
+    for (auto&& elt : A[v]) {
+      auto w = target(A, elt);
+      filter.insert({make_my_pair(v, w), true});
+      if (!removed[w] && --degree[w] < k) {
+        removed[w] = true;
+        worklist.push_back(w);
+      }
     }
   }
 
-- 
2.43.0


From f096704f61fbcf45afc1aff56dffb41fc4884a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 15/72] fix: prim compiles, starts from its source and grows a
 minimum spanning tree

---
 include/nwgraph/algorithms/prim.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/nwgraph/algorithms/prim.hpp b/include/nwgraph/algorithms/prim.hpp
index c01800f..688ce90 100644
--- a/include/nwgraph/algorithms/prim.hpp
+++ b/include/nwgraph/algorithms/prim.hpp
@@ -19,6 +19,11 @@
 #include "nwgraph/graph_traits.hpp"
 #include "nwgraph/edge_list.hpp"
 
+#include <algorithm>
+#include <cassert>
+#include <limits>
+#include <queue>
+#include <tuple>
 #include <vector>
 
 namespace nw {
@@ -43,31 +48,34 @@ std::vector<vertex_id_t<Graph>> prim(const Graph& graph, vertex_id_t<Graph> sour
   assert(source < N);
 
   std::vector<Distance> distance(N, std::numeric_limits<Distance>::max());
-  std::vector<Distance> predecessor(N, std::numeric_limits<Distance>::max());
+  std::vector<vertex_id_type> predecessor(N, std::numeric_limits<vertex_id_type>::max());
   std::vector<uint8_t> finished(N, false);
   distance[source] = 0;
 
   using weight_t        = Distance;
-  using weighted_vertex = std::tuple<vertex_id_type, weight_t>;
+  using weighted_vertex = std::tuple<weight_t, vertex_id_type>;
 
   std::priority_queue<weighted_vertex, std::vector<weighted_vertex>, std::greater<weighted_vertex>> Q;
 
+  Q.push({ distance[source], source });
+
   while (!Q.empty()) {
 
-    auto u = std::get<0>(Q.top());
+    auto u = std::get<1>(Q.top());
     Q.pop();
 
     if (finished[u]) {
       continue;
     }
+    finished[u] = true;
 
-    std::for_each(g[u].begin(), g[u].end(), [&](auto&& e) {
+    std::for_each(graph[u].begin(), graph[u].end(), [&](auto&& e) {
       auto v = target(graph, e);
       auto w = weight(e);
 
       if (!finished[v] && distance[v] > w) {
 	distance[v] = w;
-	Q.push({ v, distance[v] });
+	Q.push({ distance[v], v });
 	predecessor[v] = u;
       }
     });
-- 
2.43.0


From 01bc9e16f5d1f1d337d960cf64cb15f39e5d54b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 16/72] fix: experimental delta_stepping does not read an
 uninitialised flag when a relaxation does not improve

---
 include/nwgraph/experimental/algorithms/delta_stepping.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/delta_stepping.hpp b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
index 33580d0..194faf3 100644
--- a/include/nwgraph/experimental/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
@@ -163,7 +163,7 @@ auto delta_stepping_v9(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
@@ -222,7 +222,7 @@ auto delta_stepping_v10(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
@@ -284,7 +284,7 @@ auto delta_stepping_v11(const Graph& graph, Id source, T delta,
   auto relax = [&](Id i, Id j, auto wt) {
     distance_t next = nw::graph::acquire(tdist[i]) + wt;
     distance_t prev = nw::graph::acquire(tdist[j]);
-    bool       success;
+    bool       success = false;
     while (next < prev && !(success = nw::graph::cas(tdist[j], prev, next))) {
     }
     if (!success) return;
-- 
2.43.0


From c71c058c94b8c9e4f9cb2400fc075e2f52b01cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 17/72] fix: parallel bfs reads parents atomically where other
 threads may be claiming them

---
 include/nwgraph/algorithms/bfs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/bfs.hpp b/include/nwgraph/algorithms/bfs.hpp
index 99f01ee..ec0c308 100644
--- a/include/nwgraph/algorithms/bfs.hpp
+++ b/include/nwgraph/algorithms/bfs.hpp
@@ -279,7 +279,7 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
                   auto&& u     = q[i];
                   for (auto&& elt : out_graph[u]) {
                     auto v        = target(out_graph, elt);
-                    auto curr_val = parents[v];
+                    auto curr_val = nw::graph::relaxed(parents[v]);
                     if (null_vertex == curr_val) {
                       if (nw::graph::cas(parents[v], curr_val, u)) {
                         q2[u % n].push_back(v);
-- 
2.43.0


From e50cddb1d540a32f5039a40802ff0ae65a8d76cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 18/72] fix: page_rank accesses the contributions it updates in
 place atomically

---
 include/nwgraph/algorithms/page_rank.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/algorithms/page_rank.hpp b/include/nwgraph/algorithms/page_rank.hpp
index 38408dd..d0e107c 100644
--- a/include/nwgraph/algorithms/page_rank.hpp
+++ b/include/nwgraph/algorithms/page_rank.hpp
@@ -28,6 +28,7 @@
 #include "nwgraph/adaptors/edge_range.hpp"
 #include "nwgraph/containers/compressed.hpp"
 #include "nwgraph/edge_list.hpp"
+#include "nwgraph/util/atomic.hpp"
 #include "nwgraph/util/parallel_for.hpp"
 #include "nwgraph/adaptors/vertex_range.hpp"
 
@@ -127,12 +128,12 @@ template <adjacency_list_graph Graph, typename Real>
             for (size_t i = r.begin(), e = r.end(); i != e; ++i) {
               Real z = 0.0;
               for (auto&& j : graph[i]) {
-                z += outgoing_contrib[std::get<0>(j)];
+                z += nw::graph::relaxed(outgoing_contrib[std::get<0>(j)]);
               }
               auto old_rank = page_rank[i];
               page_rank[i]  = base_score + damping_factor * z;
               partial_sum += fabs(page_rank[i] - old_rank);
-              outgoing_contrib[i] = page_rank[i] / (Real)degrees[i];
+              nw::graph::relaxed(outgoing_contrib[i], page_rank[i] / (Real)degrees[i]);
             }
             return partial_sum;
           },
-- 
2.43.0


From 18c05bc0ea55642b57646c2c1e49f6c376ca06ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 19/72] fix: parallel brandes_bc does not truncate path-count
 ratios when counts are integers

---
 include/nwgraph/algorithms/betweenness_centrality.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/betweenness_centrality.hpp b/include/nwgraph/algorithms/betweenness_centrality.hpp
index d065758..5f98df6 100644
--- a/include/nwgraph/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/algorithms/betweenness_centrality.hpp
@@ -303,7 +303,7 @@ auto brandes_bc(const Graph& graph, const std::vector<typename Graph::vertex_id_
                 for (auto&& elt : graph[u]) {
                   auto&& v = target(graph, elt);
                   if (succ.get(&v - &edges)) {
-                    delta += path_counts[u] / path_counts[v] * (1.0f + deltas[v]);
+                    delta += static_cast<score_t>(path_counts[u]) / static_cast<score_t>(path_counts[v]) * (1 + deltas[v]);
                   }
                 }
                 nw::graph::fetch_add(bc[u], deltas[u] = delta);
-- 
2.43.0


From dfe21758ede37bec5aab00db4f3a19648c760e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 20/72] fix: parallel brandes_bc does not dereference the first
 edge of a graph that has none

---
 include/nwgraph/algorithms/betweenness_centrality.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/algorithms/betweenness_centrality.hpp b/include/nwgraph/algorithms/betweenness_centrality.hpp
index 5f98df6..cf2e7b8 100644
--- a/include/nwgraph/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/algorithms/betweenness_centrality.hpp
@@ -223,7 +223,7 @@ auto brandes_bc(const Graph& graph, const std::vector<typename Graph::vertex_id_
 
   vertex_id_type       N     = num_vertices(graph);
   size_t               M     = graph.to_be_indexed_.size();
-  auto&&               edges = std::get<0>(*(graph[0]).begin());
+  auto*                edges = std::get<0>(graph.to_be_indexed_).data();
   std::vector<score_t> bc(N);
 
   const vertex_id_type num_bins = nw::graph::pow2(nw::graph::ceil_log2(threads));
@@ -265,7 +265,7 @@ auto brandes_bc(const Graph& graph, const std::vector<typename Graph::vertex_id_
                   // from u to v, and mark the edge from u to v as used.
                   if (lvl_v == infinity || lvl_v == lvl) {
                     nw::graph::fetch_add(path_counts[v], nw::graph::acquire(path_counts[u]));
-                    succ.atomic_set(&v - &edges);    // edge(w,v) : P[w][v]
+                    succ.atomic_set(&v - edges);    // edge(w,v) : P[w][v]
                   }
 
                   // We need to add v to the frontier exactly once the
@@ -302,7 +302,7 @@ auto brandes_bc(const Graph& graph, const std::vector<typename Graph::vertex_id_
                 score_t delta = 0;
                 for (auto&& elt : graph[u]) {
                   auto&& v = target(graph, elt);
-                  if (succ.get(&v - &edges)) {
+                  if (succ.get(&v - edges)) {
                     delta += static_cast<score_t>(path_counts[u]) / static_cast<score_t>(path_counts[v]) * (1 + deltas[v]);
                   }
                 }
-- 
2.43.0


From b781f8d703d8feb20c12ef0bfa45b44e4c3fe1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 21/72] fix: normalising betweenness scores that are all zero
 does not produce NaN

---
 include/nwgraph/algorithms/betweenness_centrality.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/algorithms/betweenness_centrality.hpp b/include/nwgraph/algorithms/betweenness_centrality.hpp
index cf2e7b8..f93819a 100644
--- a/include/nwgraph/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/algorithms/betweenness_centrality.hpp
@@ -110,7 +110,7 @@ bool BCVerifier(const Graph& g, std::vector<typename graph_traits<Graph>::vertex
   if (normalize){
     score_t biggest_score = *std::max_element(scores.begin(), scores.end());
     for (size_t i = 0; i < num_vertices(g); ++i) {
-      scores[i] = scores[i] / biggest_score;
+      if (biggest_score > 0) scores[i] = scores[i] / biggest_score;
     }
   }
 
@@ -191,7 +191,9 @@ std::vector<score_t> brandes_bc(const Graph& G, bool normalize = true) {
   }
   if (normalize) {
     score_t largest = *std::max_element(centrality.begin(), centrality.end());
-    std::transform(centrality.begin(), centrality.end(), centrality.begin(), [&](auto& val) { return val /= largest; });
+    if (largest > 0) {
+      std::transform(centrality.begin(), centrality.end(), centrality.begin(), [&](auto& val) { return val /= largest; });
+    }
   }
   return centrality;
 }
@@ -320,7 +322,9 @@ auto brandes_bc(const Graph& graph, const std::vector<typename Graph::vertex_id_
 
   if (normalize) {
     auto max = std::reduce(outer_policy, bc.begin(), bc.end(), 0.0f, nw::graph::max{});
-    std::for_each(outer_policy, bc.begin(), bc.end(), [&](auto&& j) { j /= max; });
+    if (max > 0) {
+      std::for_each(outer_policy, bc.begin(), bc.end(), [&](auto&& j) { j /= max; });
+    }
   }
   return bc;
 }
-- 
2.43.0


From ca734ef0d3659988cc99fd05e8b9ad549e6fbfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 22/72] hook: optional callback before each atomic access,
 guarded by NWGRAPH_VERIFY_HOOKS

---
 include/nwgraph/util/atomic.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/nwgraph/util/atomic.hpp b/include/nwgraph/util/atomic.hpp
index 514d083..680dd26 100644
--- a/include/nwgraph/util/atomic.hpp
+++ b/include/nwgraph/util/atomic.hpp
@@ -19,12 +19,25 @@
 #include <atomic>
 #include <type_traits>
 
+#ifdef NWGRAPH_VERIFY_HOOKS
+namespace nw::graph {
+/// Called before every access made through this header, so that a test can
+/// perturb the schedule. Off unless NWGRAPH_VERIFY_HOOKS is defined.
+inline void (*verify_atomic_hook)() = nullptr;
+}    // namespace nw::graph
+#define NWGRAPH_VERIFY_ATOMIC() \
+  do { if (nw::graph::verify_atomic_hook) nw::graph::verify_atomic_hook(); } while (false)
+#else
+#define NWGRAPH_VERIFY_ATOMIC() do { } while (false)
+#endif
+
 namespace nw {
 namespace graph {
 /// @returns            The loaded value.
 template <std::memory_order order, class T>
 constexpr auto load(T&& t) {
   if constexpr (is_atomic_v<std::decay_t<T>>) {
+    NWGRAPH_VERIFY_ATOMIC();
     return std::forward<T>(t).load(order);
   } else {
     return load<order>(std::atomic_ref(t));
@@ -45,6 +58,7 @@ constexpr auto load(T&& t) {
 template <std::memory_order order, class T, class U>
 constexpr void store(T&& t, U&& u) {
   if constexpr (is_atomic_v<std::decay_t<T>>) {
+    NWGRAPH_VERIFY_ATOMIC();
     std::forward<T>(t).store(std::forward<U>(u), order);
   } else {
     store<order>(std::atomic_ref(t), std::forward<U>(u));
@@ -74,6 +88,7 @@ template <std::memory_order success = std::memory_order_acq_rel, std::memory_ord
           class V>
 constexpr bool cas(T&& t, U&& u, V&& v) {
   if constexpr (is_atomic_v<std::decay_t<T>>) {
+    NWGRAPH_VERIFY_ATOMIC();
     return std::forward<T>(t).compare_exchange_strong(std::forward<U>(u), std::forward<V>(v), success, failure);
   } else {
     return cas<success, failure>(std::atomic_ref(t), std::forward<U>(u), std::forward<V>(v));
@@ -137,6 +152,7 @@ constexpr auto fetch_add(T&& t, U&& u) {
         ;
       return e;
     } else {
+      NWGRAPH_VERIFY_ATOMIC();
       return t.fetch_add(std::forward<U>(u), order);
     }
   } else {
@@ -156,6 +172,7 @@ template <std::memory_order order = std::memory_order_acq_rel, class T, class U>
 constexpr auto fetch_or(T&& t, U&& u) {
   static_assert(!std::is_floating_point_v<std::decay_t<T>>, "Logical fetch_or invalid for floating point types.");
   if constexpr (is_atomic_v<std::decay_t<T>>) {
+    NWGRAPH_VERIFY_ATOMIC();
     return std::forward<T>(t).fetch_or(std::forward<U>(u), order);
   } else {
     return fetch_or<order>(std::atomic_ref(t), std::forward<U>(u));
-- 
2.43.0


From 6b6360e09c771efd7c16ff1f3ef0e01ef4aee182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:05 +0000
Subject: [PATCH 23/72] fix: bfs_v2 starts from a cleared frontier bitmap

---
 include/nwgraph/experimental/algorithms/bfs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/experimental/algorithms/bfs.hpp b/include/nwgraph/experimental/algorithms/bfs.hpp
index 9451f0d..13be7fb 100644
--- a/include/nwgraph/experimental/algorithms/bfs.hpp
+++ b/include/nwgraph/experimental/algorithms/bfs.hpp
@@ -574,7 +574,7 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
   std::vector<Vector> nextfrontier(n);
   frontier.reserve(N);
   frontier.push_back(root);
-  nw::graph::AtomicBitVector front(N, false), cur(N);
+  nw::graph::AtomicBitVector front(N), cur(N);
   size_t edges_to_check = out_graph.to_be_indexed_.size();
   size_t scout_count = out_graph[root].size();
   
-- 
2.43.0


From ace56b804a48380d1d906659a9316d7a12341161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:38 +0000
Subject: [PATCH 24/72] fix: pushing an edge to a row past the declared ones
 grows the compressed structure to hold that row

---
 include/nwgraph/containers/compressed.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index 7120e1d..c1e7088 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -272,11 +272,9 @@ public:    // fixme
   }
 
   void push_back(index_t i, const Attributes&... attrs) {
-    if (i >= indices_.size()) {
-      for (index_t j = indices_.size(); j <= i; ++j) {
-        indices_.emplace_back(0);
-        ++N_;
-      }
+    if (i >= N_) {
+      N_ = i + 1;
+      indices_.resize(N_ + 1);
     }
     ++indices_[i];
     to_be_indexed_.push_back(attrs...);
-- 
2.43.0


From bc3f996dd8fcc7b1419e9eb3e3bf45b2597ac6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 25/72] fix: a compressed graph built with an explicit vertex
 count has exactly that many rows

---
 include/nwgraph/adjacency.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/adjacency.hpp b/include/nwgraph/adjacency.hpp
index 27425e1..c212735 100644
--- a/include/nwgraph/adjacency.hpp
+++ b/include/nwgraph/adjacency.hpp
@@ -112,8 +112,9 @@ public:
                   bool sort_adjacency = false,                
                   ExecutionPolicy&& policy = {})
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
-      : unipartite_graph_base(N), base(N) {
+      : unipartite_graph_base(std::max<size_t>(N, A.num_vertices()[0])), base(std::max<size_t>(N, A.num_vertices()[0])) {
     fill<idx>(A, *this, sort_adjacency, policy);
+    base::indices_.resize(this->vertex_cardinality[0] + 1, base::indices_.back());    // rows past the last endpoint are empty
   }
   template <class ExecutionPolicy = std::execution::parallel_unsequenced_policy>
   index_adjacency(size_t N,
@@ -122,8 +123,9 @@ public:
                   bool sort_adjacency = false,
                   ExecutionPolicy&& policy = {})
       requires(std::is_same<unipartite_graph_base, unipartite_graph_base>::value) 
-      : unipartite_graph_base(N), base(N) {
+      : unipartite_graph_base(std::max<size_t>(N, A.num_vertices()[0])), base(std::max<size_t>(N, A.num_vertices()[0])) {
     fill<idx>(A, *this, sort_adjacency, policy);
+    base::indices_.resize(this->vertex_cardinality[0] + 1, base::indices_.back());    // rows past the last endpoint are empty
   }
   // customized move constructor
   index_adjacency(std::vector<vertex_id>&& indices,
-- 
2.43.0


From 8dac185466234e50d5921e9ad848485b8e4ffdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:50 +0000
Subject: [PATCH 26/72] fix: filling an adjacency as directed from an
 undirected edge list counts only the filled end points

---
 include/nwgraph/build.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index b9125f2..adfb5d5 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -209,7 +209,15 @@ void fill_helper_tmp(edge_list_t& el, adjacency_t& cs, std::index_sequence<Is...
 template <int idx, edge_list_graph edge_list_t, adjacency_list_graph adjacency_t, class Int, class ExecutionPolicy = default_execution_policy>
 void fill_directed(edge_list_t& el, Int N, adjacency_t& cs, ExecutionPolicy&& policy = {}) {
 
-  auto degree = degrees<idx>(el);
+  auto degree = [&] {
+    if constexpr (edge_list_t::edge_directedness == directedness::directed) {
+      return degrees<idx>(el);
+    } else {    // degrees() of an undirected edge list counts both end points, but only one of them is filled here
+      std::vector<vertex_id_t<edge_list_t>> d(N);
+      std::for_each(std::get<idx>(el).begin(), std::get<idx>(el).end(), [&](auto&& i) { ++d[i]; });
+      return d;
+    }
+  }();
 
   cs.indices_.resize(N + 1);
   cs.indices_[0] = 0;
-- 
2.43.0


From 66b39c8f65c310e2fc699f067fb7e20733eaf7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 27/72] fix: dijkstra orders its queue by distance, not by
 vertex id

---
 include/nwgraph/algorithms/dijkstra.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/algorithms/dijkstra.hpp b/include/nwgraph/algorithms/dijkstra.hpp
index 76ea5ab..e42d69b 100644
--- a/include/nwgraph/algorithms/dijkstra.hpp
+++ b/include/nwgraph/algorithms/dijkstra.hpp
@@ -91,15 +91,15 @@ auto dijkstra(
 
   auto g                = graph.begin();
   using weight_t        = Distance;
-  using weighted_vertex = std::tuple<vertex_id_type, weight_t>;
+  using weighted_vertex = std::tuple<weight_t, vertex_id_type>;    // ordered by distance
 
   std::priority_queue<weighted_vertex, std::vector<weighted_vertex>, std::greater<weighted_vertex>> Q;
 
-  Q.push({source, distance[source]});
+  Q.push({distance[source], source});
 
   while (!Q.empty()) {
 
-    auto u = std::get<0>(Q.top());
+    auto u = std::get<1>(Q.top());
     Q.pop();
 
     std::for_each(g[u].begin(), g[u].end(), [&](auto&& e) {
@@ -107,7 +107,7 @@ auto dijkstra(
       auto w = weight(e);
       if (distance[u] + w < distance[v]) {
         distance[v] = distance[u] + w;
-        Q.push({v, distance[v]});
+        Q.push({distance[v], v});
       }
     });
   }
-- 
2.43.0


From 9f60d54fbd4e3ddd53be3add3f19973b5e303d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 28/72] fix: delta_stepping does not skip vertices whose
 floating-point distance rounds up into a bucket

---
 include/nwgraph/algorithms/delta_stepping.hpp          |  4 ++--
 .../nwgraph/experimental/algorithms/delta_stepping.hpp | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/nwgraph/algorithms/delta_stepping.hpp b/include/nwgraph/algorithms/delta_stepping.hpp
index f68034f..4cb358c 100644
--- a/include/nwgraph/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/algorithms/delta_stepping.hpp
@@ -137,7 +137,7 @@ auto delta_stepping(
     std::swap(frontier, bins[top_bin]);
 
     std::for_each(frontier.begin(), frontier.end(), [&](Id i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
         std::for_each(graph[i].begin(), graph[i].end(), [&](auto&& elt) {
           auto&& j  = target(graph, elt);
           auto&& wt = weight(elt);
@@ -211,7 +211,7 @@ auto delta_stepping(const Graph& graph, vertex_id_t<Graph> source, T delta) {
     frontier.resize(0);
     std::swap(frontier, bins[top_bin]);
     tbb::parallel_for_each(frontier, [&](auto&& u) {
-      if (tdist[u] >= delta * top_bin) {
+      if (static_cast<std::size_t>(tdist[u] / delta) >= top_bin) {
         nw::graph::parallel_for(graph[u], [&](auto&& v, auto&& wt) { relax(u, v, wt); });
       }
     });
diff --git a/include/nwgraph/experimental/algorithms/delta_stepping.hpp b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
index 194faf3..10302f5 100644
--- a/include/nwgraph/experimental/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
@@ -71,7 +71,7 @@ auto delta_stepping_v6(const Graph& graph, Id source, T delta) {
     frontier.resize(0);
     std::swap(frontier, bins[top_bin]);
     tbb::parallel_for_each(frontier, [&](Id i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
         std::for_each(graph[i].begin(), graph[i].end(), [&](auto&& elt) { std::apply([&](Id j, auto wt) { relax(i, j, wt); }, std::move(elt)); });
       }
     });
@@ -128,7 +128,7 @@ auto delta_stepping_v8(const Graph& graph, Id source, T delta,
     std::swap(frontier, bins[top_bin]);
 
     std::for_each(std::execution::par_unseq, frontier.begin(), frontier.end(), [&](Id i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
         std::for_each(std::execution::par_unseq, graph[i].begin(), graph[i].end(), [&](auto&& elt) {
           auto&& j = target(graph, elt);
           auto&& wt = weight(elt);
@@ -188,7 +188,7 @@ auto delta_stepping_v9(const Graph& graph, Id source, T delta,
     frontier.resize(0);
     std::swap(frontier, bins[top_bin]);
     tbb::parallel_for_each(frontier, [&](auto&& i) {
-      if (tdist[i] >= delta * top_bin) {
+      if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
         for (auto&& elt : graph[i]) {
           auto&& j = target(graph, elt);
           auto&& wt = weight(elt);
@@ -249,7 +249,7 @@ auto delta_stepping_v10(const Graph& graph, Id source, T delta,
     tbb::parallel_for(tbb::blocked_range(0ul, frontier.size()), [&](auto&& range) {
       for (auto id = range.begin(), e = range.end(); id < e; ++id) {
         auto i = frontier[id];
-        if (tdist[i] >= delta * top_bin) {
+        if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
           for (auto&& elt : graph[i]) {
             auto&& j = target(graph, elt);
             auto&& wt = weight(elt);
@@ -311,7 +311,7 @@ auto delta_stepping_v11(const Graph& graph, Id source, T delta,
     tbb::parallel_for(tbb::blocked_range(0ul, frontier.size()), [&](auto&& range) {
       for (auto id = range.begin(), e = range.end(); id < e; ++id) {
         auto i = frontier[id];
-        if (tdist[i] >= delta * top_bin) {
+        if (static_cast<std::size_t>(tdist[i] / delta) >= top_bin) {
           tbb::parallel_for(graph[i], [&](auto&& range) {
             for (auto&& elt : range) {
               auto&& j = target(graph, elt);
-- 
2.43.0


From 4cc8bace073e7923a69e4048be7117fc1cb33ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 29/72] fix: experimental delta_stepping_v8 serialises growing
 its bins

---
 .../experimental/algorithms/delta_stepping.hpp    | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/delta_stepping.hpp b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
index 10302f5..27bb23d 100644
--- a/include/nwgraph/experimental/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/experimental/algorithms/delta_stepping.hpp
@@ -90,7 +90,9 @@ auto delta_stepping_v8(const Graph& graph, Id source, T delta,
     Weight weight = [](auto& e) -> auto& { return std::get<1>(e); }) {
   Id                                                 N = num_vertices(graph);
   std::vector<std::atomic<distance_t>>               tdist(N);
-  tbb::concurrent_vector<tbb::concurrent_vector<Id>> bins(1);
+  tbb::queuing_mutex                                 lock;
+  std::atomic<std::size_t>                           size = 1;
+  tbb::concurrent_vector<tbb::concurrent_vector<Id>> bins(size);
   std::size_t                                        top_bin = 0;
   for (auto&& d : tdist) {
     d = std::numeric_limits<distance_t>::max();
@@ -112,9 +114,14 @@ auto delta_stepping_v8(const Graph& graph, Id source, T delta,
       }
       if (changed_dist) {
         std::size_t dest_bin = new_distance / delta;
-        // if (dest_bin >= bins.size()) {
-        bins.grow_to_at_least(dest_bin + 1);
-        // }
+        // growing is serialised: another thread must not use a bin before it is constructed
+        if (nw::graph::acquire(size) < dest_bin + 1) {
+          tbb::queuing_mutex::scoped_lock _(lock);
+          if (nw::graph::acquire(size) < dest_bin + 1) {
+            bins.grow_to_at_least(dest_bin + 1);
+            nw::graph::release(size, dest_bin + 1);
+          }
+        }
         bins[dest_bin].push_back(j);
       }
     }
-- 
2.43.0


From b82bef64ff6672687601526822eb5f46dfa5a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 30/72] fix: experimental compute_connected_components_v1 hooks
 roots only and returns roots as labels

---
 .../experimental/algorithms/connected_components.hpp      | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/connected_components.hpp b/include/nwgraph/experimental/algorithms/connected_components.hpp
index 5f658a3..32f309b 100644
--- a/include/nwgraph/experimental/algorithms/connected_components.hpp
+++ b/include/nwgraph/experimental/algorithms/connected_components.hpp
@@ -237,7 +237,7 @@ std::vector<T> compute_connected_components_v1(const Graph& g) {
           auto high   = std::max(p1, p2);
           auto low    = p1 + p2 - high;
           auto p_high = comp[high]._a.load();
-          if (p_high == low || comp[high]._a.compare_exchange_weak(p_high, comp[low]._a)) {
+          if (p_high == low || (p_high == high && comp[high]._a.compare_exchange_strong(p_high, low))) {
             change = true;
             break;
           }
@@ -252,11 +252,9 @@ std::vector<T> compute_connected_components_v1(const Graph& g) {
   std::for_each(std::execution::par_unseq, counting_iterator<T>(0), counting_iterator<T>(N), [&](auto n) {
     auto m = n;
     //    while (comp[m]._a.load() != m)  m = comp[m]._a.load();
-    while (comp[m]._a.load() != comp[comp[m]._a.load()]._a.load()) {
-      comp[m]._a.store(comp[comp[m]._a.load()]._a.load());
+    while (comp[m]._a.load() != m)
       m = comp[m]._a.load();
-    }
-    res[n] = comp[n]._a.load();
+    res[n] = m;
     // std::cout << n <<":" <<  res[n] << std::endl;
     /*
           atomwrapper<T> m(std::atomic<T>(n));
-- 
2.43.0


From fa4ffb2ff8d0f2bf74ad6cf4f52a49ed726e6526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 31/72] fix: triangle_count_vc does not index past the end of
 the target array

---
 include/nwgraph/experimental/algorithms/triangle_count.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/experimental/algorithms/triangle_count.hpp b/include/nwgraph/experimental/algorithms/triangle_count.hpp
index d786467..ac622a9 100644
--- a/include/nwgraph/experimental/algorithms/triangle_count.hpp
+++ b/include/nwgraph/experimental/algorithms/triangle_count.hpp
@@ -70,7 +70,7 @@ size_t triangle_count_vc(const GraphT& A) {
       size_t k2 = ptrs[k];
       size_t k3 = ptrs[k + 1];
 
-      lower_bound_set_intersection(&idxs[k2], &idxs[k3], &idxs[k0], &idxs[k1], counter);
+      lower_bound_set_intersection(idxs.data() + k2, idxs.data() + k3, idxs.data() + k0, idxs.data() + k1, counter);
     }
   }
 
-- 
2.43.0


From a8588858abec40ae92a0168f3be6bd4269a66959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:42 +0000
Subject: [PATCH 32/72] fix: parallel brandes_bc compiles with score types
 other than float

---
 include/nwgraph/algorithms/betweenness_centrality.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/betweenness_centrality.hpp b/include/nwgraph/algorithms/betweenness_centrality.hpp
index f93819a..b930e9c 100644
--- a/include/nwgraph/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/algorithms/betweenness_centrality.hpp
@@ -321,7 +321,7 @@ auto brandes_bc(const Graph& graph, const std::vector<typename Graph::vertex_id_
   }
 
   if (normalize) {
-    auto max = std::reduce(outer_policy, bc.begin(), bc.end(), 0.0f, nw::graph::max{});
+    auto max = std::reduce(outer_policy, bc.begin(), bc.end(), score_t(0), nw::graph::max{});
     if (max > 0) {
       std::for_each(outer_policy, bc.begin(), bc.end(), [&](auto&& j) { j /= max; });
     }
-- 
2.43.0


From f860466bc314e5349d69dc77dd1fab49d0309a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:42 +0000
Subject: [PATCH 33/72] fix: spMatspMatT reduces the partial products only,
 without a zero that other operators do not ignore

---
 include/nwgraph/algorithms/spMatspMat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/algorithms/spMatspMat.hpp b/include/nwgraph/algorithms/spMatspMat.hpp
index c8b786d..9e1a15e 100644
--- a/include/nwgraph/algorithms/spMatspMat.hpp
+++ b/include/nwgraph/algorithms/spMatspMat.hpp
@@ -155,7 +155,7 @@ edge_list<directedness::directed, ScalarT> spMatspMatT(LGraphT& A, RGraphT& BT)
                              [](auto&& a, auto&& bt) -> ScalarT { return MapOpT()(std::get<1>(a), std::get<1>(bt)); });
 
       if (!products.empty()) {
-        ScalarT res = std::accumulate(products.begin(), products.end(), (ScalarT)0, ReduceOpT());
+        ScalarT res = std::accumulate(products.begin() + 1, products.end(), products.front(), ReduceOpT());
         edges.push_back(row_idx, col_idx, res);
         // std::cout << "Added element (" << row_idx << ","
         //          << col_idx << ") = " << res << std::endl;
-- 
2.43.0


From 930e243dd28dd62b30b84e2f741c16344bb34783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 34/72] fix: permute_by_degree compiles with its default
 execution policy

---
 include/nwgraph/containers/compressed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/containers/compressed.hpp b/include/nwgraph/containers/compressed.hpp
index c1e7088..7bcbb2e 100644
--- a/include/nwgraph/containers/compressed.hpp
+++ b/include/nwgraph/containers/compressed.hpp
@@ -450,7 +450,7 @@ public:    // fixme
   std::vector<index_t> permute_by_degree(const std::string& direction = "descending", ExecutionPolicy&& ex_policy = {}) {
     //1. get the degrees of all the vertices
     size_t                   n = indices_.size() - 1;
-    std::vector              degs = degrees<ExecutionPolicy>(ex_policy);
+    std::vector              degs = degrees(ex_policy);
     //2. populate permutation with vertex id
     std::vector<index_t> perm(n);
     tbb::parallel_for(tbb::blocked_range(0ul, n), [&](auto&& r) {
-- 
2.43.0


From 045ca0db27b991b333fa482aac4e2b591f64ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:32 +0000
Subject: [PATCH 35/72] fix: struct_of_arrays::move(tuple) compiles; zip and
 array_of_structs of different lengths compare unequal

---
 include/nwgraph/containers/aos.hpp | 2 +-
 include/nwgraph/containers/soa.hpp | 2 +-
 include/nwgraph/containers/zip.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/containers/aos.hpp b/include/nwgraph/containers/aos.hpp
index 2c1dc92..114ace3 100644
--- a/include/nwgraph/containers/aos.hpp
+++ b/include/nwgraph/containers/aos.hpp
@@ -78,7 +78,7 @@ public:
   void push_back(const std::tuple<Attributes&...>& attrs) { base::push_back(attrs); }
   void push_back(const Attributes&... attrs) { base::push_back({attrs...}); }
 
-  bool operator==(array_of_structs& a) { return std::equal(std::execution::par, base::begin(), base::end(), a.begin()); }
+  bool operator==(array_of_structs& a) { return base::size() == a.size() && std::equal(std::execution::par, base::begin(), base::end(), a.begin()); }
   bool operator!=(const storage_type& a) { return !operator==(a); }
 
   template <size_t... Is>
diff --git a/include/nwgraph/containers/soa.hpp b/include/nwgraph/containers/soa.hpp
index b4d4a03..5b12a3f 100644
--- a/include/nwgraph/containers/soa.hpp
+++ b/include/nwgraph/containers/soa.hpp
@@ -229,7 +229,7 @@ struct struct_of_arrays : std::tuple<std::vector<Attributes>...> {
   }
 
   void move(std::tuple<std::vector<Attributes>...>&& attrs) {
-    std::apply([&](Attributes&&... attr) { move(attr...); }, attrs);
+    std::apply([&](std::vector<Attributes>&... attr) { move(std::move(attr)...); }, attrs);
   }
 
   void copy(const std::vector<Attributes>&... attrs) {
diff --git a/include/nwgraph/containers/zip.hpp b/include/nwgraph/containers/zip.hpp
index 0237962..b353b16 100644
--- a/include/nwgraph/containers/zip.hpp
+++ b/include/nwgraph/containers/zip.hpp
@@ -297,7 +297,7 @@ struct zipped : std::tuple<Ranges&...> {
   }
 
   bool operator==(zipped& a) {
-    return std::equal(std::execution::par, begin(), end(), a.begin());
+    return size() == a.size() && std::equal(std::execution::par, begin(), end(), a.begin());
   }
 
   bool operator!=(const storage_type& a) {
-- 
2.43.0


From 762f32c8a442f74bb9ad04fc3bdce38e451f8b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:24 +0000
Subject: [PATCH 36/72] fix: lists of forward lists build from edge lists;
 lists of lists count the edges pushed

---
 include/nwgraph/vofos.hpp | 7 ++++---
 include/nwgraph/volos.hpp | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/nwgraph/vofos.hpp b/include/nwgraph/vofos.hpp
index 8ad8b02..81b3c4c 100644
--- a/include/nwgraph/vofos.hpp
+++ b/include/nwgraph/vofos.hpp
@@ -55,9 +55,9 @@ public:
 
   index_adj_flist(size_t N = 0) : base(N) {}
 
-  index_adj_flist(edge_list<directedness::directed, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_flist(A, *this); }
+  index_adj_flist(edge_list<directedness::directed, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list(A, *this); }
 
-  index_adj_flist(edge_list<directedness::undirected, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_flist(A, *this); }
+  index_adj_flist(edge_list<directedness::undirected, Attributes...>& A) : base(A.num_vertices()[0]) { num_edges_ = fill_adj_list(A, *this); }
 
   using iterator = typename base::outer_iterator;
 
@@ -78,13 +78,14 @@ public:
       }
     }
     base::operator[](i).emplace_front(j, attrs...);
+    ++num_edges_;
   }
 
   num_vertices_type num_vertices() const { return {base::size()}; };
   num_edges_type    num_edges() const { return num_edges_; }
 
 private:
-  num_edges_type num_edges_;
+  num_edges_type num_edges_ = 0;
 };
 
 template <int idx, typename... Attributes>
diff --git a/include/nwgraph/volos.hpp b/include/nwgraph/volos.hpp
index e68edb0..c4a6f5d 100644
--- a/include/nwgraph/volos.hpp
+++ b/include/nwgraph/volos.hpp
@@ -78,13 +78,14 @@ public:
       }
     }
     base::operator[](i).emplace_back(j, attrs...);
+    ++num_edges_;
   }
 
   num_vertices_type num_vertices() const { return {base::size()}; };
   num_edges_type    num_edges() const { return num_edges_; }
 
 private:
-  num_edges_type num_edges_;
+  num_edges_type num_edges_ = 0;
 };
 
 template <int idx, typename... Attributes>
-- 
2.43.0


From 0f86d5cd81ab127123bc2467a5e08ede72842e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:24 +0000
Subject: [PATCH 37/72] fix: edge_range iterators at different edges of a row
 compare unequal; postfix increment compiles

---
 include/nwgraph/adaptors/edge_range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/adaptors/edge_range.hpp b/include/nwgraph/adaptors/edge_range.hpp
index 14492df..2ae8984 100644
--- a/include/nwgraph/adaptors/edge_range.hpp
+++ b/include/nwgraph/adaptors/edge_range.hpp
@@ -126,7 +126,7 @@ public:
     }
 
     friend bool operator==(const my_iterator& a, const my_iterator& b) {
-      return a.first_ == b.first_;
+      return a.first_ == b.first_ && (a.first_ == a.last_ || b.first_ == b.last_ || a.u_begin_ == b.u_begin_);
     }
 
     friend auto operator<=>(const my_iterator& a, const my_iterator& b) {
@@ -141,7 +141,7 @@ public:
       return *this;
     }
 
-    my_iterator operator++(int) const {
+    my_iterator operator++(int) {
       my_iterator it = *this;
       ++(*this);
       return it;
-- 
2.43.0


From c9894705df6c4da7fff4bd5cce52c565deb930c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:32 +0000
Subject: [PATCH 38/72] fix: splitting a vertex_range divides its vertices and
 terminates

---
 include/nwgraph/adaptors/vertex_range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/adaptors/vertex_range.hpp b/include/nwgraph/adaptors/vertex_range.hpp
index 4a178cd..5b6f284 100644
--- a/include/nwgraph/adaptors/vertex_range.hpp
+++ b/include/nwgraph/adaptors/vertex_range.hpp
@@ -88,7 +88,7 @@ public:
   vertex_range(vertex_range&&)      = default;
 
   vertex_range(vertex_range& rhs, tbb::split)
-      : begin_(rhs.begin_), end_(rhs.end_) {}
+      : begin_(rhs.begin_), end_(rhs.begin_ += rhs.size() / 2) {}
 
   counting_iterator<vertex_id_type> begin() const { return begin_; }
   counting_iterator<vertex_id_type> end() const { return end_; }
@@ -97,7 +97,7 @@ public:
   bool empty() const { return size() == 0; }
 
   /// Runtime check to see if the range is divisible.
-  bool is_divisible() const { return begin_ <= end_; }
+  bool is_divisible() const { return size() > 1; }
 };  // vertex_range
 
 }    // namespace graph
-- 
2.43.0


From b9c55a35c1c7bcc61865c7f423d1a4af145bf783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:58 +0000
Subject: [PATCH 39/72] fix: a const counting_iterator can be dereferenced

---
 include/nwgraph/adaptors/vertex_range.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/adaptors/vertex_range.hpp b/include/nwgraph/adaptors/vertex_range.hpp
index 5b6f284..1d134e8 100644
--- a/include/nwgraph/adaptors/vertex_range.hpp
+++ b/include/nwgraph/adaptors/vertex_range.hpp
@@ -28,13 +28,13 @@ public:
     using iterator_category = std::random_access_iterator_tag;
     using value_type        = T;
     using difference_type   = std::make_signed<T>::type;
-    using reference         = value_type&;
-    using pointer           = value_type*;
+    using reference         = const value_type&;
+    using pointer           = const value_type*;
 
     counting_iterator() : my_counter_() {}
     explicit counting_iterator(T init) : my_counter_(init) {}
 
-    reference operator*() { return my_counter_; }
+    reference operator*() const { return my_counter_; }
     value_type operator[](difference_type index) const { return *(*this + index); }
 
     difference_type operator-(const counting_iterator& it) const {return my_counter_ - it.my_counter_; }
-- 
2.43.0


From dc0da75e5315ecd4c6521246a52fd6d2877aea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:58 +0000
Subject: [PATCH 40/72] fix: a cyclic range with cutoff n splits into at most n
 cycles, as documented

---
 include/nwgraph/adaptors/cyclic_neighbor_range.hpp | 2 +-
 include/nwgraph/adaptors/cyclic_range_adaptor.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/adaptors/cyclic_neighbor_range.hpp b/include/nwgraph/adaptors/cyclic_neighbor_range.hpp
index d557c00..a114c6f 100644
--- a/include/nwgraph/adaptors/cyclic_neighbor_range.hpp
+++ b/include/nwgraph/adaptors/cyclic_neighbor_range.hpp
@@ -106,7 +106,7 @@ public:
   ///
   /// The range can be subdivided if its stride can be increased relative to the
   /// cutoff.
-  bool is_divisible() const { return stride_ <= cutoff_; }
+  bool is_divisible() const { return stride_ < cutoff_; }
 };
 
 template <class Range, class Cutoff>
diff --git a/include/nwgraph/adaptors/cyclic_range_adaptor.hpp b/include/nwgraph/adaptors/cyclic_range_adaptor.hpp
index 6cca678..40d009b 100644
--- a/include/nwgraph/adaptors/cyclic_range_adaptor.hpp
+++ b/include/nwgraph/adaptors/cyclic_range_adaptor.hpp
@@ -93,7 +93,7 @@ public:
   ///
   /// The range can be subdivided if its stride can be increased relative to the
   /// cutoff.
-  bool is_divisible() const { return stride_ <= cutoff_; }
+  bool is_divisible() const { return stride_ < cutoff_; }
 };
 
 template <class Range, class Cutoff>
-- 
2.43.0


From 18eda5624a19cb04b325b1c5352fea747affdd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:58 +0000
Subject: [PATCH 41/72] fix: reverse_path can be traversed again and is empty
 when it starts where it stops

---
 include/nwgraph/adaptors/reverse.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nwgraph/adaptors/reverse.hpp b/include/nwgraph/adaptors/reverse.hpp
index 8bcd2c6..9b42f6b 100644
--- a/include/nwgraph/adaptors/reverse.hpp
+++ b/include/nwgraph/adaptors/reverse.hpp
@@ -62,7 +62,10 @@ public:
     bool operator!=(const end_sentinel_type&) const { return !rev_.done; }
   };
 
-  auto begin() { return reverse_iterator(*this); }
+  auto begin() {
+    done = found(start_);
+    return reverse_iterator(*this);
+  }
   auto end() { return typename reverse_iterator::end_sentinel_type(); }
 };
 
-- 
2.43.0


From cbef282c0c96c7aeb6f70a7219c15be065f427bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:58 +0000
Subject: [PATCH 42/72] fix: bfs_edge_range starts at an edge to an unvisited
 vertex, if the seed reaches any

---
 include/nwgraph/adaptors/bfs_edge_range.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/nwgraph/adaptors/bfs_edge_range.hpp b/include/nwgraph/adaptors/bfs_edge_range.hpp
index 1859239..bbd5e66 100644
--- a/include/nwgraph/adaptors/bfs_edge_range.hpp
+++ b/include/nwgraph/adaptors/bfs_edge_range.hpp
@@ -146,7 +146,9 @@ public:
 
   public:
     bfs_edge_range_iterator(bfs_edge_range<Graph, Queue>& range)
-        : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.front()), u_begin(G[v_].begin()), u_end(G[v_].end()) {}
+        : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.front()), u_begin(G[v_].begin()), u_end(G[v_].end()) {
+      find_next();
+    }
 
     bfs_edge_range_iterator(const bfs_edge_range_iterator& ite)
         : the_range_(ite.the_range_), G(ite.G), v_(ite.v_), u_begin(ite.u_begin), u_end(ite.u_end) {}
@@ -160,6 +162,14 @@ public:
       Q.push(std::get<0>(*u_begin));
 
       ++u_begin;
+      return find_next();
+    }
+
+    // Move to the next edge that leads to an unvisited vertex.
+    bfs_edge_range_iterator& find_next() {
+      auto& Q      = the_range_.Q_;
+      auto& visited = the_range_.visited_;
+
       while (u_begin != u_end && visited[std::get<0>(*u_begin)] == true) {
         ++u_begin;
       }
-- 
2.43.0


From 5a75e3927fc76356db59fe5a748a9960d41fbaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:37 +0000
Subject: [PATCH 43/72] fix: dfs_range finishes vertices without out-edges and
 restarts within the graph, at every unvisited vertex

---
 include/nwgraph/adaptors/new_dfs_range.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/adaptors/new_dfs_range.hpp b/include/nwgraph/adaptors/new_dfs_range.hpp
index d57bc7c..c7a9d8b 100644
--- a/include/nwgraph/adaptors/new_dfs_range.hpp
+++ b/include/nwgraph/adaptors/new_dfs_range.hpp
@@ -61,6 +61,7 @@ private:
       Q.push(v);
       colors[v] = black;
     }
+    colors[v] = black;
   }
 
 public:
@@ -79,8 +80,8 @@ public:
       if (!Q.empty()) {
         dfs_visit(G, Q, colors, Q.top());
       } else {
-        while (colors[++cursor_] != white && cursor_ != the_range_.the_graph_.size())
-          ;
+        while (cursor_ != the_range_.the_graph_.size() && colors[cursor_] != white)
+          ++cursor_;
         if (cursor_ != the_range_.the_graph_.size()) {
           Q.push(cursor_);
           colors[cursor_] = grey;
-- 
2.43.0


From 980cc7a3947926c0ff3a2dfbf6943db6ead8b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:48 +0000
Subject: [PATCH 44/72] fix: dfs_edge_range does not read past the end of a row
 or an uninitialised flag, and is empty for a seed without edges

---
 include/nwgraph/adaptors/new_dfs_range.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/adaptors/new_dfs_range.hpp b/include/nwgraph/adaptors/new_dfs_range.hpp
index c7a9d8b..e2ffd3a 100644
--- a/include/nwgraph/adaptors/new_dfs_range.hpp
+++ b/include/nwgraph/adaptors/new_dfs_range.hpp
@@ -144,7 +144,9 @@ public:
   public:
     dfs_edge_range_iterator(dfs_edge_range<Graph, Stack>& range)
         : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.top()), u_begin(G[v_].begin()), u_end(G[v_].end()),
-          back_edge_(false) {}
+          has_parent_(false), back_edge_(false) {
+      if (u_begin == u_end) the_range_.Q_.pop();
+    }
 
     dfs_edge_range_iterator& operator++() {
       auto& Q      = the_range_.Q_;
@@ -160,7 +162,7 @@ public:
           u_begin = G[v_].begin();
           u_end   = G[v_].end();
 
-          while (std::get<0>(*u_begin) == Q.top()) {
+          while (u_begin != u_end && std::get<0>(*u_begin) == Q.top()) {
             has_parent_ = true;
             u_parent    = u_begin;
             ++u_begin;
@@ -201,7 +203,7 @@ public:
         u_begin = G[v_].begin();
         u_end   = G[v_].end();
 
-        while (std::get<0>(*u_begin) == Q.top()) {
+        while (u_begin != u_end && std::get<0>(*u_begin) == Q.top()) {
           u_parent    = u_begin;
           has_parent_ = true;
           ++u_begin;
-- 
2.43.0


From 3d9b1cdea48de640a23035958fe171c0e283e545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:56 +0000
Subject: [PATCH 45/72] fix: filtered_bfs_edge_range starts at an admissible
 edge to an unvisited vertex, if there is one

---
 include/nwgraph/adaptors/filtered_bfs_range.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/nwgraph/adaptors/filtered_bfs_range.hpp b/include/nwgraph/adaptors/filtered_bfs_range.hpp
index bd7617b..a40d190 100644
--- a/include/nwgraph/adaptors/filtered_bfs_range.hpp
+++ b/include/nwgraph/adaptors/filtered_bfs_range.hpp
@@ -57,17 +57,11 @@ public:
         : the_range_(range), G(the_range_.the_graph_.begin()), v_(the_range_.Q_.front()), u_begin(G[v_].begin()),
           iterator_target_(the_range_.target_), filter_(the_range_.filter_) {
 
-      while (filter_(v_, u_begin)) {
-        ++u_begin;
-        if (u_begin == G[v_].end()) {
-          the_range_.unreachable = true;
-          break;
-        }
-      }
+      find_next();
     }
 
     filtered_bfs_edge_range_iterator(const filtered_bfs_edge_range_iterator& ite)
-        : the_range_(ite.the_range_), G(ite.G), v_(ite.v_), u_begin(ite.u_begin), filter_(ite.filter_) {}
+        : the_range_(ite.the_range_), G(ite.G), v_(ite.v_), u_begin(ite.u_begin), iterator_target_(ite.iterator_target_), filter_(ite.filter_) {}
 
     filtered_bfs_edge_range_iterator& operator++() {
       auto& Q      = the_range_.Q_;
@@ -81,6 +75,13 @@ public:
         return *this;
       }
       ++u_begin;
+      return find_next();
+    }
+
+    // Move to the next admissible edge that leads to an unvisited vertex.
+    filtered_bfs_edge_range_iterator& find_next() {
+      auto& Q      = the_range_.Q_;
+      auto& colors = the_range_.colors_;
 
       while (u_begin != G[v_].end()) {
         if (colors[std::get<0>(*u_begin)] == white && !filter_(v_, u_begin)) break;
-- 
2.43.0


From 234e995f5b371bbb3fc7b6856be6815b7afe4ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:19 +0000
Subject: [PATCH 46/72] fix: a bipartite graph indexed by its right vertices
 has a row for each of them

---
 include/nwgraph/build.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index adfb5d5..6d69d9c 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -792,7 +792,7 @@ auto make_plain_bipartite_graph(const V1& left_vertices, const V2& right_vertice
   auto index_edges = data_to_graph_edge_list(left_vertices, right_vertices, edges);
   auto graph_size  = idx == 0 ? size(left_vertices) : size(right_vertices);
 
-  Graph G(size(left_vertices));
+  Graph G(graph_size);
   push_back_fill(index_edges, G, true, idx);
 
   return G;
@@ -820,7 +820,7 @@ auto make_bipartite_graph(const V& left_vertices, const V& right_vertices, const
   auto index_edges = data_to_graph_edge_list(left_vertices, right_vertices, edges);
   auto graph_size  = idx == 0 ? size(left_vertices) : size(right_vertices);
 
-  Graph G(size(left_vertices));
+  Graph G(graph_size);
   push_back_fill(index_edges, G, true, idx);
 
   return G;
-- 
2.43.0


From 0bbd03e10fd50e38292e5beb8b0094ff6b378393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:17 +0000
Subject: [PATCH 47/72] fix: the non-zeros of an AtomicBitVector can be reduced
 in parallel

---
 include/nwgraph/util/AtomicBitVector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/util/AtomicBitVector.hpp b/include/nwgraph/util/AtomicBitVector.hpp
index 86d1b29..5918bae 100644
--- a/include/nwgraph/util/AtomicBitVector.hpp
+++ b/include/nwgraph/util/AtomicBitVector.hpp
@@ -231,8 +231,8 @@ public:
     non_zero_range(non_zero_range& a, tbb::split)
         : data_(a.data_), n_(a.n_), begin_(a.begin_), end_(a.begin_ += a.size() / 2), cutoff_(a.cutoff_) {}
 
-    non_zero_iterator begin() { return {data_, n_, begin_}; }
-    non_zero_iterator end() { return {data_, n_, end_}; }
+    non_zero_iterator begin() const { return {data_, n_, begin_}; }
+    non_zero_iterator end() const { return {data_, n_, end_}; }
 
     std::size_t size() const { return end_ - begin_; }
     bool        empty() const { return size() == 0; }
-- 
2.43.0


From b76badb0d3d21b34926385c6a2034f5ed5926729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:56 +0000
Subject: [PATCH 48/72] fix: an unsupported Matrix Market header is refused
 with an exception, not std::terminate

---
 include/nwgraph/io/mmio.hpp | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index 430aba4..2a1b2e2 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -23,6 +23,7 @@
 #include <future>
 #include <iostream>
 #include <sstream>
+#include <stdexcept>
 #include <sys/mman.h>
 #include <sys/stat.h>
 #include <sys/types.h>
@@ -181,16 +182,14 @@ edge_list<sym, Attributes...> read_mm(std::istream& inputStream) {
     h >> s;
 
   if (header[0] != "%%MatrixMarket") {
-    std::cerr << "Unsupported format" << std::endl;
-    throw;
+    throw std::runtime_error("Unsupported format");
   }
   if (header[4] == "symmetric") {
     file_symmetry = true;
   } else if (header[4] == "general") {
     file_symmetry = false;
   } else {
-    std::cerr << "Bad format (symmetry): " << header[4] << std::endl;
-    throw;
+    throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
   while (std::getline(inputStream, string_input)) {
@@ -230,16 +229,14 @@ edge_list_t read_mm(const std::string& filename) {
     h >> s;
 
   if (header[0] != "%%MatrixMarket") {
-    std::cerr << "Unsupported format" << std::endl;
-    throw;
+    throw std::runtime_error("Unsupported format");
   }
   if (header[4] == "symmetric") {
     file_symmetry = true;
   } else if (header[4] == "general") {
     file_symmetry = false;
   } else {
-    std::cerr << "Bad format (symmetry): " << header[4] << std::endl;
-    throw;
+    throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
   while (std::getline(inputStream, string_input)) {
@@ -254,14 +251,12 @@ edge_list_t read_mm(const std::string& filename) {
     //mm_fill(inputStream, A, nNonzeros, file_symmetry, (header[3] == "pattern"));
 
     //return A;
-    std::cerr << "Can not populate unipartite graph with symmetric matrix" << std::endl;
-    throw;
+    throw std::runtime_error("Can not populate unipartite graph with symmetric matrix");
   }
   else if (n0 != n1 && false == is_unipartite<edge_list_t>::value){
     //bipartite edge list
     if (file_symmetry) {
-      std::cerr << "Can not populate bipartite graph with symmetric matrix" << std::endl;
-      throw;
+      throw std::runtime_error("Can not populate bipartite graph with symmetric matrix");
     }
     bi_edge_list<sym, Attributes...> A(n0, n1);
     mm_fill(inputStream, A, nNonzeros, file_symmetry, (header[3] == "pattern"));
@@ -269,8 +264,7 @@ edge_list_t read_mm(const std::string& filename) {
     return A;
   }
   else {
-    std::cerr << "Mismatch edge list type with matrix symmetry" << std::endl;
-    throw;    
+    throw std::runtime_error("Mismatch edge list type with matrix symmetry");
   }
 }
 
@@ -289,16 +283,14 @@ auto read_mm_vector(std::istream& inputStream) {
     h >> s;
 
   if (header[0] != "%%MatrixMarket") {
-    std::cerr << "Unsupported format" << std::endl;
-    throw;
+    throw std::runtime_error("Unsupported format");
   }
   if (header[4] == "symmetric") {
     file_symmetry = true;
   } else if (header[4] == "general") {
     file_symmetry = false;
   } else {
-    std::cerr << "Bad format (symmetry): " << header[4] << std::endl;
-    throw;
+    throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
   while (std::getline(inputStream, string_input)) {
@@ -364,8 +356,7 @@ directedness get_mm_symmetry(const std::string& filename) {
   }
 
   if (header[0] != "%%MatrixMarket") {
-    std::cerr << "Unsupported format: " << header[0] << std::endl;
-    throw;
+    throw std::runtime_error("Unsupported format: " + header[0]);
   }
   if (header[4] == "symmetric") {
     return directedness::undirected;
-- 
2.43.0


From 9f0140ae10153f2430812e8f976bb3ffefe9bf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:47 +0000
Subject: [PATCH 49/72] fix: a Matrix Market file that ends early or has
 malformed lines is refused, blank lines are skipped

---
 include/nwgraph/io/mmio.hpp | 51 +++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index 2a1b2e2..03d81fe 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -22,6 +22,7 @@
 #include <fcntl.h>
 #include <future>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <sys/mman.h>
@@ -39,16 +40,23 @@
 namespace nw {
 namespace graph {
 
+/// The (one-based) indices of an entry, 0 if the file has ended or the line is not an entry.
+inline void mm_check_entry(size_t d0, size_t d1) {
+  constexpr size_t max = std::numeric_limits<default_vertex_id_type>::max();
+  if (d0 == 0 || d1 == 0 || d0 > max || d1 > max) throw std::runtime_error("Malformed Matrix Market entry");
+}
+
 void mm_fill(std::istream& inputStream, bi_edge_list<directedness::directed>& A, size_t nNonzeros, bool file_symmetry, bool pattern) {
   A.reserve((file_symmetry ? 2 : 1) * nNonzeros);
   A.open_for_push_back();
   for (size_t i = 0; i < nNonzeros; ++i) {
     std::string buffer;
-    size_t      d0, d1;
+    size_t      d0 = 0, d1 = 0;
 
-    std::getline(inputStream, buffer);
+    std::getline(inputStream >> std::ws, buffer);
     std::stringstream(buffer) >> d0 >> d1;
 
+    mm_check_entry(d0, d1);
     A.push_back(d0-1, d1-1);
 
     if (file_symmetry && (d0 != d1)) {
@@ -65,16 +73,17 @@ void mm_fill(std::istream& inputStream, bi_edge_list<directedness::directed, T>&
   A.open_for_push_back();
   for (size_t i = 0; i < nNonzeros; ++i) {
     std::string buffer;
-    size_t      d0, d1;
+    size_t      d0 = 0, d1 = 0;
     T           v(1.0);
 
-    std::getline(inputStream, buffer);
+    std::getline(inputStream >> std::ws, buffer);
     if (pattern) {
       std::stringstream(buffer) >> d0 >> d1;
     } else {
       std::stringstream(buffer) >> d0 >> d1 >> v;
     }
 
+    mm_check_entry(d0, d1);
     A.push_back(d0-1, d1-1, v);
 
     if (file_symmetry && (d0 != d1)) {
@@ -89,11 +98,12 @@ void mm_fill(std::istream& inputStream, edge_list<directedness::directed>& A, si
   A.open_for_push_back();
   for (size_t i = 0; i < nNonzeros; ++i) {
     std::string buffer;
-    size_t      d0, d1;
+    size_t      d0 = 0, d1 = 0;
 
-    std::getline(inputStream, buffer);
+    std::getline(inputStream >> std::ws, buffer);
     std::stringstream(buffer) >> d0 >> d1;
 
+    mm_check_entry(d0, d1);
     A.push_back(d0-1, d1-1);
 
     if (file_symmetry && (d0 != d1)) {
@@ -110,16 +120,17 @@ void mm_fill(std::istream& inputStream, edge_list<directedness::directed, T>& A,
   A.open_for_push_back();
   for (size_t i = 0; i < nNonzeros; ++i) {
     std::string buffer;
-    size_t      d0, d1;
+    size_t      d0 = 0, d1 = 0;
     T           v(1.0);
 
-    std::getline(inputStream, buffer);
+    std::getline(inputStream >> std::ws, buffer);
     if (pattern) {
       std::stringstream(buffer) >> d0 >> d1;
     } else {
       std::stringstream(buffer) >> d0 >> d1 >> v;
     }
 
+    mm_check_entry(d0, d1);
     A.push_back(d0-1, d1-1, v);
 
     if (file_symmetry && (d0 != d1)) {
@@ -135,7 +146,7 @@ void mm_fill(std::istream& inputStream, edge_list<directedness::undirected>& A,
   A.open_for_push_back();
 
   for (size_t i = 0; i < nNonzeros; ++i) {
-    size_t d0, d1;
+    size_t d0 = 0, d1 = 0;
     double d2;
 
     if (pattern) {
@@ -144,6 +155,7 @@ void mm_fill(std::istream& inputStream, edge_list<directedness::undirected>& A,
       inputStream >> d0 >> d1 >> d2;
     }
 
+    mm_check_entry(d0, d1);
     A.push_back(d0-1, d1-1);
   }
   A.close_for_push_back();
@@ -156,14 +168,15 @@ void mm_fill(std::istream& inputStream, edge_list<directedness::undirected, T>&
   A.open_for_push_back();
   for (size_t i = 0; i < nNonzeros; ++i) {
     std::string buffer;
-    size_t      d0, d1;
+    size_t      d0 = 0, d1 = 0;
     T           v(1.0);
-    std::getline(inputStream, buffer);
+    std::getline(inputStream >> std::ws, buffer);
     if (pattern) {
       std::stringstream(buffer) >> d0 >> d1;
     } else {
       std::stringstream(buffer) >> d0 >> d1 >> v;
     }
+    mm_check_entry(d0, d1);
     A.push_back(d0-1, d1-1, v);
   }
   A.close_for_push_back();
@@ -192,11 +205,11 @@ edge_list<sym, Attributes...> read_mm(std::istream& inputStream) {
     throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
-  while (std::getline(inputStream, string_input)) {
+  while (std::getline(inputStream >> std::ws, string_input)) {
     if (string_input[0] != '%') break;
   }
   size_t n0, n1, nNonzeros;
-  std::stringstream(string_input) >> n0 >> n1 >> nNonzeros;
+  if (!(std::stringstream(string_input) >> n0 >> n1 >> nNonzeros)) throw std::runtime_error("Bad format (sizes): " + string_input);
 
   // assert(n0 == n1);
 
@@ -239,11 +252,11 @@ edge_list_t read_mm(const std::string& filename) {
     throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
-  while (std::getline(inputStream, string_input)) {
+  while (std::getline(inputStream >> std::ws, string_input)) {
     if (string_input[0] != '%') break;
   }
   size_t n0, n1, nNonzeros;
-  std::stringstream(string_input) >> n0 >> n1 >> nNonzeros;
+  if (!(std::stringstream(string_input) >> n0 >> n1 >> nNonzeros)) throw std::runtime_error("Bad format (sizes): " + string_input);
 
   if (n0 == n1 && is_unipartite<edge_list_t>::value) {
     //unipartite edge list
@@ -293,11 +306,11 @@ auto read_mm_vector(std::istream& inputStream) {
     throw std::runtime_error("Bad format (symmetry): " + header[4]);
   }
 
-  while (std::getline(inputStream, string_input)) {
+  while (std::getline(inputStream >> std::ws, string_input)) {
     if (string_input[0] != '%') break;
   }
   size_t n0, n1;
-  std::stringstream(string_input) >> n0 >> n1;
+  if (!(std::stringstream(string_input) >> n0 >> n1)) throw std::runtime_error("Bad format (sizes): " + string_input);
 
   assert(1 == n1);
 
@@ -306,13 +319,13 @@ auto read_mm_vector(std::istream& inputStream) {
   if (header[3] == "real") {
     double d;
     for (size_t i = 0; i < n0; ++i) {
-      inputStream >> d;
+      if (!(inputStream >> d)) throw std::runtime_error("Malformed Matrix Market entry");
       vec[i] = d - 1;
     }
   } else {
     size_t d;
     for (size_t i = 0; i < n0; ++i) {
-      inputStream >> d;
+      if (!(inputStream >> d)) throw std::runtime_error("Malformed Matrix Market entry");
       vec[i] = d - 1;
     }
   }
-- 
2.43.0


From ac570c45fce5d00f955e7f27e356cf4e0569e989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:57 +0000
Subject: [PATCH 50/72] fix: Matrix Market files of an unsupported format
 (array, complex) are refused instead of misread

---
 include/nwgraph/io/mmio.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index 03d81fe..b4b991b 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -197,6 +197,9 @@ edge_list<sym, Attributes...> read_mm(std::istream& inputStream) {
   if (header[0] != "%%MatrixMarket") {
     throw std::runtime_error("Unsupported format");
   }
+  if (header[1] != "matrix" || header[2] != "coordinate" || header[3] == "complex") {
+    throw std::runtime_error("Unsupported format: " + header[1] + " " + header[2] + " " + header[3]);
+  }
   if (header[4] == "symmetric") {
     file_symmetry = true;
   } else if (header[4] == "general") {
@@ -244,6 +247,9 @@ edge_list_t read_mm(const std::string& filename) {
   if (header[0] != "%%MatrixMarket") {
     throw std::runtime_error("Unsupported format");
   }
+  if (header[1] != "matrix" || header[2] != "coordinate" || header[3] == "complex") {
+    throw std::runtime_error("Unsupported format: " + header[1] + " " + header[2] + " " + header[3]);
+  }
   if (header[4] == "symmetric") {
     file_symmetry = true;
   } else if (header[4] == "general") {
@@ -298,6 +304,9 @@ auto read_mm_vector(std::istream& inputStream) {
   if (header[0] != "%%MatrixMarket") {
     throw std::runtime_error("Unsupported format");
   }
+  if (header[1] != "matrix" || header[2] != "array" || header[3] == "complex") {
+    throw std::runtime_error("Unsupported format: " + header[1] + " " + header[2] + " " + header[3]);
+  }
   if (header[4] == "symmetric") {
     file_symmetry = true;
   } else if (header[4] == "general") {
@@ -312,7 +321,7 @@ auto read_mm_vector(std::istream& inputStream) {
   size_t n0, n1;
   if (!(std::stringstream(string_input) >> n0 >> n1)) throw std::runtime_error("Bad format (sizes): " + string_input);
 
-  assert(1 == n1);
+  if (n1 != 1) throw std::runtime_error("Not a vector");
 
   std::vector<T> vec(n0);
 
-- 
2.43.0


From b5d30bb88f38bb1eb706f6da512808bf4914544e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:57 +0000
Subject: [PATCH 51/72] fix: write_mm writes floating-point values with all
 their digits

---
 include/nwgraph/io/mmio.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index b4b991b..ee88c21 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -389,6 +389,7 @@ directedness get_mm_symmetry(const std::string& filename) {
 
 template <size_t w_idx, directedness sym, typename... Attributes>
 void aos_stream(std::ofstream& outputStream, edge_list<sym, Attributes...> A, const std::string& file_symmetry, std::string& w_type) {
+  outputStream.precision(std::numeric_limits<double>::max_digits10);
   outputStream << "%%MatrixMarket matrix coordinate " << w_type << " " << file_symmetry << "\n%%\n";
 
   if constexpr (is_unipartite<edge_list<sym, Attributes...>>::value) {
@@ -432,6 +433,7 @@ void write_mm(const std::string& filename, edge_list<sym, Attributes...>& A, con
 
 template <size_t w_idx, int idx, typename... Attributes>
 void adjacency_stream(std::ofstream& outputStream, adjacency<idx, Attributes...>& A, const std::string& file_symmetry, std::string& w_type) {
+  outputStream.precision(std::numeric_limits<double>::max_digits10);
   outputStream << "%%MatrixMarket matrix coordinate " << w_type << " " << file_symmetry << "\n%%\n";
 
   outputStream << num_vertices(A) << " " << num_vertices(A) << " "
@@ -464,6 +466,7 @@ void write_mm(const std::string& filename, adjacency<idx, Attributes...>& A, con
 
 template <size_t w_idx, int idx, typename... Attributes>
 void adjacency_stream(std::ofstream& outputStream, biadjacency<idx, Attributes...>& A, const std::string& file_symmetry, std::string& w_type) {
+  outputStream.precision(std::numeric_limits<double>::max_digits10);
   outputStream << "%%MatrixMarket matrix coordinate " << w_type << " " << file_symmetry << "\n%%\n";
 
   outputStream << num_vertices(A, 0) << " " << num_vertices(A, 1) << " "
-- 
2.43.0


From 4737390831698da295645ebcf1ef995396ee4eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:57 +0000
Subject: [PATCH 52/72] fix: write_mm of a graph indexed by targets writes its
 edges, not zero-based transposed ones

---
 include/nwgraph/io/mmio.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/nwgraph/io/mmio.hpp b/include/nwgraph/io/mmio.hpp
index ee88c21..976d285 100644
--- a/include/nwgraph/io/mmio.hpp
+++ b/include/nwgraph/io/mmio.hpp
@@ -441,7 +441,10 @@ void adjacency_stream(std::ofstream& outputStream, adjacency<idx, Attributes...>
 
   for (auto first = A.begin(); first != A.end(); ++first) {
     for (auto v = (*first).begin(); v != (*first).end(); ++v) {
-      outputStream << first - A.begin() + (1 - idx) << " " << std::get<0>(*v) + (1 - idx);
+      if (idx == 0)
+        outputStream << first - A.begin() + 1 << " " << std::get<0>(*v) + 1;
+      else
+        outputStream << std::get<0>(*v) + 1 << " " << first - A.begin() + 1;
       if (w_idx != 0) outputStream << " " << std::get<w_idx>(*v);
       outputStream << std::endl;
     }
@@ -469,12 +472,15 @@ void adjacency_stream(std::ofstream& outputStream, biadjacency<idx, Attributes..
   outputStream.precision(std::numeric_limits<double>::max_digits10);
   outputStream << "%%MatrixMarket matrix coordinate " << w_type << " " << file_symmetry << "\n%%\n";
 
-  outputStream << num_vertices(A, 0) << " " << num_vertices(A, 1) << " "
+  outputStream << num_vertices(A, idx) << " " << num_vertices(A, 1 - idx) << " "
                << std::accumulate(A.begin(), A.end(), 0, [&](int a, auto b) { return a + (int)(b.end() - b.begin()); }) << std::endl;
 
   for (auto first = A.begin(); first != A.end(); ++first) {
     for (auto v = (*first).begin(); v != (*first).end(); ++v) {
-      outputStream << first - A.begin() + (1 - idx) << " " << std::get<0>(*v) + (1 - idx);
+      if (idx == 0)
+        outputStream << first - A.begin() + 1 << " " << std::get<0>(*v) + 1;
+      else
+        outputStream << std::get<0>(*v) + 1 << " " << first - A.begin() + 1;
       if (w_idx != 0) outputStream << " " << std::get<w_idx>(*v);
       outputStream << std::endl;
     }
-- 
2.43.0


From 381a14b6311ca84a3567266dd93cacecf2d38b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:08 +0000
Subject: [PATCH 53/72] fix: the memory-mapped Matrix Market reader starts
 after the size line also if blank lines precede it

---
 include/nwgraph/io/mmio_nist.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/nwgraph/io/mmio_nist.h b/include/nwgraph/io/mmio_nist.h
index 3c84614..85e589a 100644
--- a/include/nwgraph/io/mmio_nist.h
+++ b/include/nwgraph/io/mmio_nist.h
@@ -281,17 +281,12 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
             return MM_PREMATURE_EOF;
     }while (line[0] == '%');
 
-    /* line[] is either blank or has M,N, nz */
-    if (sscanf(line, "%d %d %d", M, N, nz) == 3)
-        return 0;
-        
-    else
-    do
+    /* line[] is either blank or has M,N, nz; leave f at the line after it */
+    while ((num_items_read = sscanf(line, "%d %d %d", M, N, nz)) != 3)
     { 
-        num_items_read = fscanf(f, "%d %d %d", M, N, nz); 
-        if (num_items_read == EOF) return MM_PREMATURE_EOF;
+        if (line[0] != '%' && num_items_read != EOF) return MM_PREMATURE_EOF;
+        if (fgets(line,MM_MAX_LINE_LENGTH,f) == NULL) return MM_PREMATURE_EOF;
     }
-    while (num_items_read != 3);
 
     return 0;
 }
-- 
2.43.0


From 2a4cc52f072396372c17feb766931786f8969e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:08 +0000
Subject: [PATCH 54/72] fix: the memory-mapped Matrix Market reader reads
 several values of an entry in order

---
 include/nwgraph/io/MatrixMarketFile.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/io/MatrixMarketFile.hpp b/include/nwgraph/io/MatrixMarketFile.hpp
index 73554d6..d358321 100644
--- a/include/nwgraph/io/MatrixMarketFile.hpp
+++ b/include/nwgraph/io/MatrixMarketFile.hpp
@@ -155,7 +155,7 @@ public:
       const char* i = i_;
       int         u = get<int>(i) - 1;
       int         v = get<int>(i) - 1;
-      return std::tuple(u, v, get<Vs>(i)...);
+      return std::tuple<int, int, Vs...>{u, v, get<Vs>(i)...};    // braces: the values are read from left to right
     }
 
     iterator& operator++() {
-- 
2.43.0


From b421b3dada356fb9a8f85af36631e76049af4ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:27 +0000
Subject: [PATCH 55/72] fix: the memory-mapped Matrix Market reader ends with
 the last entry, whether newlines follow it or not

---
 include/nwgraph/io/MatrixMarketFile.hpp | 28 +++++++++++++++++--------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/nwgraph/io/MatrixMarketFile.hpp b/include/nwgraph/io/MatrixMarketFile.hpp
index d358321..029935a 100644
--- a/include/nwgraph/io/MatrixMarketFile.hpp
+++ b/include/nwgraph/io/MatrixMarketFile.hpp
@@ -14,6 +14,8 @@
 #ifndef NW_GRAPH_MATRIXMARKETFILE_HPP
 #define NW_GRAPH_MATRIXMARKETFILE_HPP
 
+#include <algorithm>
+#include <cctype>
 #include <cstdio>
 #include <cstring>
 #include <fcntl.h>
@@ -48,7 +50,8 @@ class MatrixMarketFile final {
 
   char* base_ = nullptr;    // base pointer to mmap-ed file
   long  i_    = 0;          // byte offset of the first edge
-  long  e_    = 0;          // bytes in the mmap-ed file
+  long  e_    = 0;          // byte offset of the end of the last edge
+  long  size_ = 0;          // bytes in the mmap-ed file, and a null byte
 
   MM_typecode type_;
 
@@ -85,12 +88,17 @@ public:
     fseek(f, 0L, SEEK_END);
     e_ = ftell(f);
 
-    base_ = static_cast<char*>(mmap(nullptr, e_, PROT_READ, MAP_PRIVATE, fd_, 0));
-    if (base_ == MAP_FAILED) {
+    // The file may not end with a newline, and may end at the end of a page: leave room for the null byte that ends its last token.
+    size_ = e_ + 1;
+    base_ = static_cast<char*>(mmap(nullptr, size_, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
+    if (base_ == MAP_FAILED || mmap(base_, e_, PROT_READ, MAP_PRIVATE | MAP_FIXED, fd_, 0) == MAP_FAILED) {
       fprintf(stderr, "mmap failed, %d: %s\n", errno, strerror(errno));
       goto error;
     }
 
+    while (e_ > i_ && std::isspace(static_cast<unsigned char>(base_[e_ - 1]))) {
+      --e_;
+    }
     return;
 
   error:
@@ -102,7 +110,7 @@ public:
 
   /// Release the memory mapping and file descriptor early.
   void release() {
-    if (base_ && munmap(base_, e_)) {
+    if (base_ && munmap(base_, size_)) {
       fprintf(stderr, "munmap failed, %d: %s\n", errno, strerror(errno));
     }
     base_ = nullptr;
@@ -130,6 +138,7 @@ public:
   template <typename... Vs>
   class iterator {
     const char* i_;
+    const char* e_;
 
     /// Read the next token in the stream as a U, and update the pointer.
     ///
@@ -149,7 +158,7 @@ public:
     }
 
   public:
-    iterator(const char* i) : i_(i) {}
+    iterator(const char* i, const char* e) : i_(i), e_(e) {}
 
     std::tuple<int, int, Vs...> operator*() const {
       const char* i = i_;
@@ -159,7 +168,8 @@ public:
     }
 
     iterator& operator++() {
-      ++(i_ = std::strchr(i_, '\n'));
+      i_ = std::find(i_, e_, '\n');
+      if (i_ != e_) ++i_;
       return *this;
     }
 
@@ -168,12 +178,12 @@ public:
 
   template <typename... Vs>
   iterator<Vs...> begin() const {
-    return {base_ + i_};
+    return {base_ + i_, base_ + e_};
   }
 
   template <typename... Vs>
   iterator<Vs...> end() const {
-    return {base_ + e_};
+    return {base_ + e_, base_ + e_};
   }
 
   template <typename... Vs>
@@ -189,7 +199,7 @@ public:
       --approx;
     }
     ++approx;
-    return {base_ + approx};
+    return {base_ + approx, base_ + e_};
   }
 };
 
-- 
2.43.0


From d8e137a58999d563dfda656a015d5b7c75900e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:09 +0000
Subject: [PATCH 56/72] fix: make_plain_edges takes the endpoints of an edge as
 they are in the data, not converted to indices

---
 include/nwgraph/build.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index 6d69d9c..402bd63 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -675,7 +675,7 @@ template <class M, std::ranges::random_access_range E, class Edge = decltype(std
 auto make_plain_edges(M& map, const E& edges) {
   EdgeList index_edges;
 
-  for (Edge&& e : edges) {
+  for (auto&& e : edges) {
     std::apply([&](auto&& u, auto&& v, auto... props_) { index_edges.push_back(std::make_tuple(map[u], map[v])); }, e);
   }
 
-- 
2.43.0


From 6e58d15cb88850b1e5f42b6bcd403c8d7502c952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:06 +0000
Subject: [PATCH 57/72] fix: push_back_fill accepts the edge lists that the
 make_*_graph builders pass to it

---
 include/nwgraph/build.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/build.hpp b/include/nwgraph/build.hpp
index 402bd63..a2304c3 100644
--- a/include/nwgraph/build.hpp
+++ b/include/nwgraph/build.hpp
@@ -98,7 +98,7 @@ void push_back_fill(edge_list_t& el, adjacency_t& cs) {
 /**
  * Fill a plain or non-plain graph from edge list
  */
-template <edge_list_graph EdgeList, adjacency_list_graph Adjacency>
+template <property_edge_list_c EdgeList, adjacency_list_graph Adjacency>
 void push_back_fill(const EdgeList& edge_list, Adjacency& adj, bool directed, size_t idx) {
   const size_t jdx = (idx + 1) % 2;
 
-- 
2.43.0


From 8e9661273d023f944e72b55894595c7d02ceb39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:47 +0000
Subject: [PATCH 58/72] fix: page_rank formats its trace without changing the
 shared state of std::cout

---
 include/nwgraph/algorithms/page_rank.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/nwgraph/algorithms/page_rank.hpp b/include/nwgraph/algorithms/page_rank.hpp
index d0e107c..24f1e8b 100644
--- a/include/nwgraph/algorithms/page_rank.hpp
+++ b/include/nwgraph/algorithms/page_rank.hpp
@@ -21,6 +21,7 @@
 #include <iomanip>
 #include <iostream>
 #include <memory>
+#include <sstream>
 #include <tuple>
 #include <vector>
 
@@ -41,15 +42,15 @@ namespace pagerank {
  * 
  */
 constexpr auto trace = [](auto iter, auto error, auto time, auto max) {
-  auto p = std::cout.precision(10);
-  auto f = std::cout.setf(std::ios::fixed, std::ios::floatfield);
-  std::cout << std::setw(5) << std::left << iter;
-  std::cout << std::setw(20) << std::left << error;
-  std::cout << std::setw(20) << std::left << time;
-  std::cout << std::setw(20) << std::left << max;
-  std::cout << "\n";
-  std::cout.precision(p);
-  std::cout.setf(f, std::ios::floatfield);
+  std::ostringstream out;    // formatted apart: the state of std::cout is shared with other threads
+  out.precision(10);
+  out.setf(std::ios::fixed, std::ios::floatfield);
+  out << std::setw(5) << std::left << iter;
+  out << std::setw(20) << std::left << error;
+  out << std::setw(20) << std::left << time;
+  out << std::setw(20) << std::left << max;
+  out << "\n";
+  std::cout << out.str();
 };
 /**
  * @brief Helper to time an operation.
-- 
2.43.0


From 7bd8e5bacf76e72562975f2d603b551a645881ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:07 +0000
Subject: [PATCH 59/72] fix: delta_stepping_m1 relaxes the edges of its
 frontier, which it took for empty

---
 include/nwgraph/algorithms/delta_stepping.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/algorithms/delta_stepping.hpp b/include/nwgraph/algorithms/delta_stepping.hpp
index 4cb358c..4d6180e 100644
--- a/include/nwgraph/algorithms/delta_stepping.hpp
+++ b/include/nwgraph/algorithms/delta_stepping.hpp
@@ -47,9 +47,9 @@ class _priority_queue : public std::priority_queue<T, Container, Compare> {
 public:
   explicit _priority_queue(const Compare& compare = Compare(), const Container& cont = Container()) : base(compare, cont) {}
   auto begin() { return base::c.begin(); }
-  auto end() { return base::c.begin(); }
+  auto end() { return base::c.end(); }
   auto begin() const { return base::c.begin(); }
-  auto end() const { return base::c.begin(); }
+  auto end() const { return base::c.end(); }
 };
 
 template <class distance_t, adjacency_list_graph Graph, class Id, class Weight>
-- 
2.43.0


From f0e5c71e8337a1c5246a33313fc35a8dfb58dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:24 +0000
Subject: [PATCH 60/72] fix: BCVerifier compares scores in their own type and
 rejects NaN instead of accepting any score when counts are integers

---
 include/nwgraph/algorithms/betweenness_centrality.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/algorithms/betweenness_centrality.hpp b/include/nwgraph/algorithms/betweenness_centrality.hpp
index b930e9c..869da7d 100644
--- a/include/nwgraph/algorithms/betweenness_centrality.hpp
+++ b/include/nwgraph/algorithms/betweenness_centrality.hpp
@@ -26,6 +26,7 @@
 #include "nwgraph/adaptors/vertex_range.hpp"
 
 #include <algorithm>
+#include <cmath>
 
 #if defined(CL_SYCL_LANGUAGE_VERSION)
 #include <dpstd/algorithm>
@@ -117,8 +118,8 @@ bool BCVerifier(const Graph& g, std::vector<typename graph_traits<Graph>::vertex
   bool all_ok = true;
 
   for (size_t i = 0; i < scores.size(); ++i) {
-    accum_t delta = abs(scores_to_test[i] - scores[i]);
-    if (delta > 1e-6) {
+    score_t delta = std::abs(scores_to_test[i] - scores[i]);
+    if (!(delta <= 1e-6)) {
       std::cout << i << ": " << scores[i] << " != " << scores_to_test[i] << " " << scores[i] - scores_to_test[i] << std::endl;
       all_ok = false;
     }
-- 
2.43.0


From bb966a160efd1fd2b9897ab1a334a51944714710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:25 +0000
Subject: [PATCH 61/72] fix: build_random_sources draws sources from the
 vertices of the graph only

---
 bench/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/common.hpp b/bench/common.hpp
index a5e378a..c724951 100644
--- a/bench/common.hpp
+++ b/bench/common.hpp
@@ -126,7 +126,7 @@ auto build_random_sources(const Graph& graph, size_t n, long seed) {
   auto sources = std::vector<Id>(n);
   auto degrees = build_degrees(graph);
   auto gen     = std::mt19937(seed);
-  auto dis     = std::uniform_int_distribution<Id>(0, num_vertices(graph));
+  auto dis     = std::uniform_int_distribution<Id>(0, num_vertices(graph) - 1);
 
   for (auto& id : sources) {
     for (id = dis(gen); degrees[id] == 0; id = dis(gen)) {
-- 
2.43.0


From bfd6c4dd11bc8bca24591b7971bf43d59f2562a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:58 +0000
Subject: [PATCH 62/72] fix: lpcc and lpcc_cyclic keep a frontier for every
 slot of the task arena

---
 .../nwgraph/experimental/algorithms/connected_components.hpp    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nwgraph/experimental/algorithms/connected_components.hpp b/include/nwgraph/experimental/algorithms/connected_components.hpp
index 32f309b..f76f346 100644
--- a/include/nwgraph/experimental/algorithms/connected_components.hpp
+++ b/include/nwgraph/experimental/algorithms/connected_components.hpp
@@ -314,6 +314,7 @@ std::vector<T> lpcc(Execution& exec, Graph& g, int num_bins = 32) {
     cur[n] = n;
   });
 
+  num_bins = std::max(num_bins, tbb::this_task_arena::max_concurrency());    // a frontier for every slot a worker may take
   std::vector<T> frontier[num_bins];
   auto propagate = [&](auto& g, auto& cur, auto& bitmap, auto& labels) {
     tbb::parallel_for(tbb::blocked_range<T>(0ul, cur.size()), [&](tbb::blocked_range<T>& r) {
@@ -377,6 +378,7 @@ std::vector<T> lpcc_cyclic(Execution& exec, Graph& g, int num_bins = 32) {
     cur[n] = n;
   });
 
+  num_bins = std::max(num_bins, tbb::this_task_arena::max_concurrency());    // a frontier for every slot a worker may take
   std::vector<T> frontier[num_bins];
   auto propagate = [&](auto& g, auto& cur, auto& bitmap, auto& labels) {
     tbb::parallel_for(cyclic_neighbor_range(g, num_bins), [&](auto& i) {
-- 
2.43.0


From 09ae600bc4bbf60e17ed80f5773621a035c44b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:58 +0000
Subject: [PATCH 63/72] fix: experimental bfs_v1 and bfs_v2 keep a frontier for
 every slot of the task arena

---
 include/nwgraph/experimental/algorithms/bfs.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/experimental/algorithms/bfs.hpp b/include/nwgraph/experimental/algorithms/bfs.hpp
index 13be7fb..98ab0e9 100644
--- a/include/nwgraph/experimental/algorithms/bfs.hpp
+++ b/include/nwgraph/experimental/algorithms/bfs.hpp
@@ -29,6 +29,7 @@
 #include <tbb/concurrent_queue.h>
 #include <tbb/concurrent_vector.h>
 #include <tbb/parallel_for_each.h>
+#include <tbb/task_arena.h>
 
 
 namespace nw {
@@ -469,7 +470,7 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
 
   using vertex_id_type = vertex_id_t<OutGraph>;
   using Vector = std::vector<vertex_id_type>;
-  const std::size_t                                   n = nw::graph::pow2(nw::graph::ceil_log2(num_bins));
+  const std::size_t                                   n = nw::graph::pow2(nw::graph::ceil_log2(std::max(num_bins, tbb::this_task_arena::max_concurrency())));
   const std::size_t                                   N = num_vertices(out_graph);
   const std::size_t                                   M = out_graph.to_be_indexed_.size();
   Vector queue;
@@ -564,7 +565,7 @@ template <adjacency_list_graph OutGraph, adjacency_list_graph InGraph>
 
   using vertex_id_type = vertex_id_t<OutGraph>;
   using Vector = std::vector<vertex_id_type>;
-  size_t n = nw::graph::pow2(nw::graph::ceil_log2(num_bins));
+  size_t n = nw::graph::pow2(nw::graph::ceil_log2(std::max(num_bins, tbb::this_task_arena::max_concurrency())));
   size_t N = num_vertices(out_graph);
   Vector parents(N);
   constexpr const auto null_vertex = null_vertex_v<vertex_id_type>();
-- 
2.43.0


From 2fcc88a89db1e741e2312a340b07d2eebae70e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:58 +0000
Subject: [PATCH 64/72] fix: the sssp benchmark has a source for every
 iteration of every trial

---
 bench/sssp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bench/sssp.cpp b/bench/sssp.cpp
index 238712f..a2459fe 100644
--- a/bench/sssp.cpp
+++ b/bench/sssp.cpp
@@ -182,10 +182,10 @@ int main(int argc, char* argv[]) {
     sources = load_sources_from_file(graph, args["--sources"].asString());
     assert(size_t(trials * iterations) <= sources.size());
   } else if (args["-r"]) {
-    sources.resize(trials);
+    sources.resize(trials * iterations);
     std::fill(sources.begin(), sources.end(), args["-r"].asLong());
   } else {
-    sources = build_random_sources(graph, trials, args["--seed"].asLong());
+    sources = build_random_sources(graph, trials * iterations, args["--seed"].asLong());
   }
 
   Times times;
-- 
2.43.0


From 5504cd8db5ff31fc63a99314becaba7b205b7d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:58 +0000
Subject: [PATCH 65/72] fix: the sssp verifier gives unreached vertices the
 distance that delta_stepping gives them

---
 bench/sssp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/sssp.cpp b/bench/sssp.cpp
index a2459fe..3673481 100644
--- a/bench/sssp.cpp
+++ b/bench/sssp.cpp
@@ -59,7 +59,7 @@ static auto dijkstra(const Graph& graph, vertex_id_t<Graph> source,
 
 
   // Distances
-  std::vector<distance_t> dist(num_vertices(graph), std::numeric_limits<distance_t>::max()/4);
+  std::vector<distance_t> dist(num_vertices(graph), std::numeric_limits<distance_t>::max());
 
   // Workqueue
   //  using WN = std::tuple<vertex_id_type, distance_t>;
-- 
2.43.0


From cd4a205444c22401260361538ca363b6ea66959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:58 +0000
Subject: [PATCH 66/72] fix: the bc benchmark takes its trial sources without
 subscripting past the end

---
 bench/bc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/bc.cpp b/bench/bc.cpp
index 512b0e1..794b7bc 100644
--- a/bench/bc.cpp
+++ b/bench/bc.cpp
@@ -119,7 +119,7 @@ int main(int argc, char* argv[]) {
       }
 
       for (int i = 0; i < trials; ++i) {
-        std::vector<vertex_id_type> trial_sources(&sources[iterations * i], &sources[iterations * (i + 1)]);
+        std::vector<vertex_id_type> trial_sources(sources.begin() + iterations * i, sources.begin() + iterations * (i + 1));
         auto&& [centrality] = times.record(file, id, thread, [&]() -> std::vector<score_t> {
           switch (id) {
             case 0:
-- 
2.43.0


From c13b42bd0ca2bca66e439bc5de3195d5c0433108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:58 +0000
Subject: [PATCH 67/72] fix: print_n_ranks of the bc and pr benchmarks prints n
 ranks and does not read past the last vertex

---
 bench/bc.cpp | 2 +-
 bench/pr.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bench/bc.cpp b/bench/bc.cpp
index 794b7bc..73a073e 100644
--- a/bench/bc.cpp
+++ b/bench/bc.cpp
@@ -54,7 +54,7 @@ using accum_t = double;
 template <typename Vector>
 void print_n_ranks(const Vector& centrality, size_t n) {
   auto perm = proxysort<size_t>(centrality, std::greater<float>());
-  for (size_t i = 0; i < 10; ++i) {
+  for (size_t i = 0, e = std::min(n, perm.size()); i < e; ++i) {
     std::cout << std::to_string(perm[i]) + ": " << std::to_string(centrality[perm[i]]) << std::endl;
   }
 }
diff --git a/bench/pr.cpp b/bench/pr.cpp
index 1ba3aa1..035484d 100644
--- a/bench/pr.cpp
+++ b/bench/pr.cpp
@@ -46,7 +46,7 @@ using namespace nw::util;
 template <typename Vector>
 void print_n_ranks(const Vector& rankings, size_t n) {
   auto perm = proxysort<size_t>(rankings, std::greater<float>());
-  for (size_t i = 0; i < 10; ++i) {
+  for (size_t i = 0, e = std::min(n, perm.size()); i < e; ++i) {
     std::cout << std::to_string(perm[i]) + ": " << std::to_string(rankings[perm[i]]) << std::endl;
   }
 }
-- 
2.43.0


From 7196a2e873f7e589aef7d22c7f97923add73e61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:58 +0000
Subject: [PATCH 68/72] fix: TCVerifier of the tc benchmark writes
 intersections within its vector

---
 bench/tc.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bench/tc.cpp b/bench/tc.cpp
index 52022e4..a3b3a6a 100644
--- a/bench/tc.cpp
+++ b/bench/tc.cpp
@@ -114,13 +114,12 @@ static std::size_t TCVerifier(Graph& graph) {
   life_timer                              _(__func__);
   std::size_t                             total = 0;
   std::vector<std::tuple<vertex_id_type>> intersection;
-  intersection.reserve(graph.size());
+  intersection.resize(graph.size());
   for (auto&& [u, v] : edge_range(graph)) {
     auto u_out = graph[u];
     auto v_out = graph[v];
     auto end   = std::set_intersection(u_out.begin(), u_out.end(), v_out.begin(), v_out.end(), intersection.begin());
-    intersection.resize(end - intersection.begin());
-    total += intersection.size();
+    total += end - intersection.begin();
   }
   return total;    // note that our processed Graph doesn't produce extra counts
                    // like the GAP verifier normally would
-- 
2.43.0


From fe78f32735f2a34f2211584625b581abeeeaa56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:58 +0000
Subject: [PATCH 69/72] fix: the benchmark log terminates a host name that does
 not fit

---
 bench/Log.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bench/Log.hpp b/bench/Log.hpp
index 3560b8d..4d5d4c7 100644
--- a/bench/Log.hpp
+++ b/bench/Log.hpp
@@ -60,6 +60,7 @@ struct Log {
 
     if (int e = gethostname(host_, sizeof(host_))) {
       std::cerr << "truncated host name\n";
+      host_[sizeof(host_) - 1] = '\0';    // the part that fits is not terminated
       //exit(e);
     }
 
-- 
2.43.0


From 930d4ce53c9fb534a1abc7398d45d30045fce322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:58 +0000
Subject: [PATCH 70/72] fix: select does not move the elements out of a tuple
 that is still owned by the caller

---
 include/nwgraph/util/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nwgraph/util/util.hpp b/include/nwgraph/util/util.hpp
index c0c3b60..97baeb7 100644
--- a/include/nwgraph/util/util.hpp
+++ b/include/nwgraph/util/util.hpp
@@ -114,7 +114,7 @@ struct counter : public std::iterator<std::output_iterator_tag, std::ptrdiff_t>
 template <std::size_t... Is, class Tuple, class = std::enable_if_t<is_tuple_v<std::decay_t<Tuple>>>>
 constexpr auto select(Tuple&& t) -> std::tuple<std::tuple_element_t<Is, std::decay_t<Tuple>>...> {
   static_assert(((Is < std::tuple_size_v<std::decay_t<Tuple>>)&&...), "tuple index out of range during select");
-  return {std::forward<std::tuple_element_t<Is, std::decay_t<Tuple>>>(std::get<Is>(std::forward<Tuple>(t)))...};
+  return {std::get<Is>(std::forward<Tuple>(t))...};
 }
 
 /// Meta-function to get the type of a tuple after selection (see `select`).
-- 
2.43.0


From 4cb23e7faf0cecf76d0223a9d27b39c8935b7f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 71/72] fix: AtomicBitVector move assignment frees the bitmap
 it replaces

---
 include/nwgraph/util/AtomicBitVector.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nwgraph/util/AtomicBitVector.hpp b/include/nwgraph/util/AtomicBitVector.hpp
index 5918bae..215e43d 100644
--- a/include/nwgraph/util/AtomicBitVector.hpp
+++ b/include/nwgraph/util/AtomicBitVector.hpp
@@ -69,8 +69,11 @@ public:
 
   /// The move assignment operator needs to be explicit.
   AtomicBitVector& operator=(AtomicBitVector&& rhs) {
-    bits_ = std::exchange(rhs.bits_, 0);
-    data_ = std::exchange(rhs.data_, nullptr);
+    if (this != &rhs) {
+      delete[] data_;
+      bits_ = std::exchange(rhs.bits_, 0);
+      data_ = std::exchange(rhs.data_, nullptr);
+    }
     return *this;
   }
 
-- 
2.43.0


From b1c2f76d52f318f76379c7c6ca1cc0ade9b3b63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 72/72] fix: MatrixMarketFile closes the stream it reads the
 header through

---
 include/nwgraph/io/MatrixMarketFile.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nwgraph/io/MatrixMarketFile.hpp b/include/nwgraph/io/MatrixMarketFile.hpp
index 029935a..3e2fe49 100644
--- a/include/nwgraph/io/MatrixMarketFile.hpp
+++ b/include/nwgraph/io/MatrixMarketFile.hpp
@@ -96,6 +96,10 @@ public:
       goto error;
     }
 
+    // The mapping outlives the stream, which closes the descriptor it was made from.
+    fclose(f);
+    fd_ = -1;
+
     while (e_ > i_ && std::isspace(static_cast<unsigned char>(base_[e_ - 1]))) {
       --e_;
     }
-- 
2.43.0

