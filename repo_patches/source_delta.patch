From 5d7cb4bbfe700ceb07f39f4404557869b6c21c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 01/27] sim: guarded hook for node hash keys (LBDD_SIM, off by
 default)

---
 src/bdd_node.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 7518bc8..95f6bac 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -5,6 +5,11 @@
 #include <cstring>
 #include <deque>
 
+#ifdef LBDD_SIM
+// simulation seam: lets a simulator replace the drawn hash key of a new node
+extern "C" std::size_t lbdd_sim_hash_key(std::size_t drawn);
+#endif
+
 namespace BDD {
 
     //static std::random_device rd;
@@ -27,6 +32,9 @@ namespace BDD {
         static std::uniform_int_distribution<std::size_t> unique_table_distribution(0,hashtablesize-1);
 
         hash_key = unique_table_distribution(unique_table_gen);
+#ifdef LBDD_SIM
+        hash_key = lbdd_sim_hash_key(hash_key);
+#endif
 
     }
 
-- 
2.43.0


From eb004376f921644ebb331a1a8a8c03a2d64afd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 02/27] fix: xor shares its memo entries with or

xor_symb() returned the symbol of the disjunction, so that an exclusive-or
could return a memoised disjunction of the same operands and vice versa.
---
 include/bdd_memo_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_memo_cache.h b/include/bdd_memo_cache.h
index cfa6b39..d5e7f4a 100644
--- a/include/bdd_memo_cache.h
+++ b/include/bdd_memo_cache.h
@@ -25,7 +25,7 @@ namespace BDD {
 
         template<typename T>
         constexpr static node* xor_symb_impl() { return static_cast<T*>(nullptr) + 3; }
-        constexpr static node* xor_symb() { return or_symb_impl<node>(); }
+        constexpr static node* xor_symb() { return xor_symb_impl<node>(); }
 
         bool operator==(const memo_struct& m) const;
         bool operator!=(const memo_struct& m) const;
-- 
2.43.0


From 8cc6655b4be3a139c80fd88b535716e63762273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 03/27] fix: xor_rec splits on the wrong variable

The recursion branched on the later of the two top variables, which builds
diagrams that violate the variable order.
---
 src/bdd_mgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index af87c96..85c3d85 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -242,7 +242,7 @@ namespace BDD {
         var& vf = vars[f.variable()];
         assert(g.variable() < nr_variables());
         var& vg = vars[g.variable()];
-        var& v = *std::max(&vg,&vf);
+        var& v = *std::min(&vg,&vf);
 
         node_ref r0 = xor_rec(&v == &vf ? f.low() : f, &v == &vg ? g.low() : g);
         assert(r0.ref != nullptr);
-- 
2.43.0


From 9e37a1a8c454cc96be07fc92ef15098fde98dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 04/27] fix: ite_rec descends into terminal nodes

A terminal operand is given the last variable as its top variable. When f
branches on that variable, the children of the terminal were taken.
---
 src/bdd_mgr.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 85c3d85..50f6769 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -287,15 +287,15 @@ namespace BDD {
 
         node_ref r0 = ite_rec(
                 (&vf == &v ? f.low() : f),
-                (&vg == &v ? g.low() : g),
-                (&vh == &v ? h.low() : h)
+                (&vg == &v && !g.is_terminal() ? g.low() : g),
+                (&vh == &v && !h.is_terminal() ? h.low() : h)
                 );
         assert(r0.ref != nullptr);
 
         node_ref r1 = ite_rec(
                 (&vf == &v ? f.high() : f),
-                (&vg == &v ? g.high() : g),
-                (&vh == &v ? h.high() : h)
+                (&vg == &v && !g.is_terminal() ? g.high() : g),
+                (&vh == &v && !h.is_terminal() ? h.high() : h)
                 );
         assert(r1.ref != nullptr);
 
-- 
2.43.0


From d589a6b2ff7385fd8506ccce564d6f9a17d7aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 05/27] fix: remove_dead_nodes corrupts the unique table

Nodes moved up in a probe sequence kept their old slot as well, dead nodes found
in a probe sequence were dropped without being freed, and the shrinking branch
computed wrong sizes, stored nodes at wrong slots and did not update the number
of free slots.
---
 src/bdd_var.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index d0d52f3..ffe04ba 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -199,7 +199,7 @@ namespace BDD {
 
     double var_struct::occupied_rate(const size_t new_page_size) const
     {
-        return double(new_page_size - free) / double(new_page_size);
+        return double(hash_table_size() - free) / double(new_page_size);
     }
 
     void var_struct::remove_dead_nodes()
@@ -213,7 +213,6 @@ namespace BDD {
                 store_node(k, nullptr);
                 free++;
                 // move nodes that follow this one back if hash value indicates so
-                size_t first_free_slot = k;
                 for(size_t j = k+1;; ++j)
                 {
                     const size_t jj = j & mask;
@@ -223,9 +222,10 @@ namespace BDD {
                         k = j;
                         break;
                     }
+                    store_node(jj, nullptr);
                     if(p->dead())
                     {
-                        store_node(jj, nullptr);
+                        bdd_mgr_.get_node_cache().free_node(p);
                         free++;
                     }
                     else
@@ -243,8 +243,8 @@ namespace BDD {
         {
             const size_t new_mask = [&]() {
                 size_t n = (mask+1)/2 - 1;
-                while(n >= 63 && occupied_rate(n) >= min_unique_table_fill)
-                    n /= (mask+1)/2 - 1;
+                while(n > 63 && occupied_rate(n+1) <= min_unique_table_fill)
+                    n = (n+1)/2 - 1;
                 return n;
             }();
 
@@ -256,10 +256,10 @@ namespace BDD {
                 if(p != nullptr)
                 {
                     const size_t next_free_slot = [&]() {
-                        for(size_t l=k;; l++)
+                        for(size_t l=hash_code(p);; l++)
                         {
                             l = l & new_mask;
-                            if(new_base[k] == nullptr)
+                            if(new_base[l] == nullptr)
                                 return l;
                         }
                         assert(false);
@@ -272,6 +272,7 @@ namespace BDD {
 
             free_page(base, mask);
             base = new_base;
+            free -= mask - new_mask;
             mask = new_mask;
         }
     }
-- 
2.43.0


From 1f514baad8caabf775cfa5ab851095656d31606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 06/27] fix: memo cache keeps entries of collected nodes

purge() looks for a negative reference count, which freed nodes did not have,
never looked at g for binary operations and never at h. Operations after a
garbage collection could return freed nodes.
---
 src/bdd_memo_cache.cpp | 5 ++++-
 src/bdd_node_cache.cpp | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bdd_memo_cache.cpp b/src/bdd_memo_cache.cpp
index ab090f6..3076bb1 100644
--- a/src/bdd_memo_cache.cpp
+++ b/src/bdd_memo_cache.cpp
@@ -152,7 +152,10 @@ namespace BDD {
             return true;
         if(f->xref < 0)
             return true;
-        if(h != nullptr && g->xref < 0)
+        if(g->xref < 0)
+            return true;
+        // h is a node only for if-then-else
+        if(h != and_symb() && h != or_symb() && h != xor_symb() && h->xref < 0)
             return true;
         return false;
     }
diff --git a/src/bdd_node_cache.cpp b/src/bdd_node_cache.cpp
index 87db577..2be82cd 100644
--- a/src/bdd_node_cache.cpp
+++ b/src/bdd_node_cache.cpp
@@ -70,6 +70,7 @@ namespace BDD {
         p->lo->xref--;
         assert(p->hi->xref > 0);
         p->hi->xref--;
+        p->xref = -1; // lets memo_cache::purge recognise freed nodes
         p->next_available = nodeavail;
         nodeavail = p;
         total_nodes--;
-- 
2.43.0


From ec5a79d1771cdee0a1eb84792153492e202be979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 07/27] fix: unique table pages are taken from the wrong pool

new_page() took pages of twice the needed size, which free_page() then returned to
the pool of the needed size, and refused the largest size. A variable could
therefore not hold more than 262144 nodes although the table is meant to grow to
1048576 slots.
---
 src/bdd_var.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index ffe04ba..cccf678 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -38,21 +38,21 @@ namespace BDD {
     {
         unique_table_page_caches& cache = bdd_mgr_.get_unique_table_page_cache();
         switch(new_mask) {
-            case 63: return reinterpret_cast<node**>(cache.cache_128.reserve_page()); 
-            case 127: return reinterpret_cast<node**>(cache.cache_256.reserve_page());
-            case 255: return reinterpret_cast<node**>(cache.cache_512.reserve_page());
-            case 511: return reinterpret_cast<node**>(cache.cache_1024.reserve_page());
-            case 1023: return reinterpret_cast<node**>(cache.cache_2048.reserve_page());
-            case 2047: return reinterpret_cast<node**>(cache.cache_4096.reserve_page());
-            case 4095: return reinterpret_cast<node**>(cache.cache_8192.reserve_page());
-            case 8191: return reinterpret_cast<node**>(cache.cache_16384.reserve_page());
-            case 16383: return reinterpret_cast<node**>(cache.cache_32768.reserve_page());
-            case 32767: return reinterpret_cast<node**>(cache.cache_65536.reserve_page());
-            case 65535: return reinterpret_cast<node**>(cache.cache_131072.reserve_page());
-            case 131071:return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
+            case 63: return reinterpret_cast<node**>(cache.cache_64.reserve_page()); 
+            case 127: return reinterpret_cast<node**>(cache.cache_128.reserve_page());
+            case 255: return reinterpret_cast<node**>(cache.cache_256.reserve_page());
+            case 511: return reinterpret_cast<node**>(cache.cache_512.reserve_page());
+            case 1023: return reinterpret_cast<node**>(cache.cache_1024.reserve_page());
+            case 2047: return reinterpret_cast<node**>(cache.cache_2048.reserve_page());
+            case 4095: return reinterpret_cast<node**>(cache.cache_4096.reserve_page());
+            case 8191: return reinterpret_cast<node**>(cache.cache_8192.reserve_page());
+            case 16383: return reinterpret_cast<node**>(cache.cache_16384.reserve_page());
+            case 32767: return reinterpret_cast<node**>(cache.cache_32768.reserve_page());
+            case 65535: return reinterpret_cast<node**>(cache.cache_65536.reserve_page());
+            case 131071:return reinterpret_cast<node**>(cache.cache_131072.reserve_page());
             case 262143:return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
             case 524287:return reinterpret_cast<node**>(cache.cache_524288.reserve_page());
-            case 1048575: throw std::runtime_error("Cannot increase unique table page cache size.");;
+            case 1048575: return reinterpret_cast<node**>(cache.cache_1048576.reserve_page());
             default: assert(false);
         } 
     }
@@ -61,7 +61,11 @@ namespace BDD {
     {
         // if maximum size is already reached, do not double
         if(mask == 1048575)
+        {
+            if(free <= 1) // lookups need one free slot
+                throw std::runtime_error("Cannot increase unique table page cache size.");
             return;
+        }
 
         assert(free == nr_free_slots_debug());
         node** old_page = base;
-- 
2.43.0


From bb92cd49667009ca0129ed54221c88e09bd234b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 08/27] fix: unique table is inconsistent after a failed
 allocation

double_cache() changed the mask before allocating the new page, a failed
allocation while shrinking ended garbage collection before the memo cache was
purged, and increase_cache() leaked pages if the list of pages could not grow.
---
 include/bdd_var.h |  4 +++-
 src/bdd_var.cpp   | 13 ++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/bdd_var.h b/include/bdd_var.h
index ffc5f76..0c05b58 100644
--- a/include/bdd_var.h
+++ b/include/bdd_var.h
@@ -158,7 +158,9 @@ unique_table_page_cache<PAGE_SIZE, NR_SIMUL_ALLOC>::~unique_table_page_cache()
 void unique_table_page_cache<PAGE_SIZE, NR_SIMUL_ALLOC>::increase_cache()
 {
     assert(page_avail == nullptr);
-    pages.push_back(new unique_table_page<PAGE_SIZE>[nr_pages_simultaneous_allocation]);
+    std::unique_ptr<unique_table_page<PAGE_SIZE>[]> new_pages(new unique_table_page<PAGE_SIZE>[nr_pages_simultaneous_allocation]);
+    pages.push_back(new_pages.get());
+    new_pages.release();
     for(std::size_t i=0; i+1 < nr_pages_simultaneous_allocation; ++i)
         pages.back()[i].next_available = &(pages.back()[i+1]);
     page_avail = &(pages.back()[0]);
diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index cccf678..7c3b727 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -3,6 +3,7 @@
 #include <cassert>
 #include <algorithm>
 #include <stdexcept>
+#include <new>
 
 namespace BDD {
 
@@ -71,8 +72,9 @@ namespace BDD {
         node** old_page = base;
         const size_t old_mask = mask;
 
-        mask = mask + mask + 1;
-        base = new_page(mask); 
+        const size_t new_mask = mask + mask + 1;
+        base = new_page(new_mask); // may throw, must not leave a changed mask behind
+        mask = new_mask;
 
         for(size_t i=0; i<=mask; ++i)
             assert(base[i] == nullptr);
@@ -252,7 +254,12 @@ namespace BDD {
                 return n;
             }();
 
-            node** new_base = new_page(new_mask);
+            node** new_base = [&]() -> node** {
+                try { return new_page(new_mask); }
+                catch(const std::bad_alloc&) { return nullptr; } // shrinking can wait
+            }();
+            if(new_base == nullptr)
+                return;
 
             for(std::size_t k = 0; k <= mask; ++k)
             {
-- 
2.43.0


From fb9205c403ac4a3dfa053821a150111410baf031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 09/27] fix: at_most with a bound above the number of operands
 is true

at_most returned false when fewer operands than the bound were given.
---
 include/bdd_mgr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index cbc72b6..689ef8d 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -346,7 +346,7 @@ namespace BDD {
             const size_t n = std::distance(begin, end);
 
             if(n < b)
-                return node_cache_.botsink();
+                return node_cache_.topsink();
 
             if(n == 1 && b == 1)
                 return node_cache_.topsink();
-- 
2.43.0


From cc256c3e4e9ee8dcc3b7cf5f1d8bc14dedb08767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 10/27] fix: importing a diagram from a large collection aborts

add_bdd asserted that the diagram lies in the first 1000 entries of the collection.
---
 src/bdd_mgr.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 50f6769..49380bc 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -412,7 +412,6 @@ namespace BDD {
             }
             else
             { 
-                assert(bdd_col.offset(bdd) < 1000); // TODO: remove
                 assert(bdd_map.count(bdd.lo) > 0);
                 node_ref lo = bdd_map.find(bdd.lo)->second;
 
-- 
2.43.0


From 73d2638fb6d214cb21c90ad3cec9b1974e00ae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 11/27] fix: sink nodes are not fully initialised

hash_key and marked_ of the two sinks kept whatever the memory held before: a sink
with a set mark makes assertions in the traversals fail.
---
 src/bdd_node.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 95f6bac..0bfe3bb 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -126,6 +126,8 @@ namespace BDD {
         this->bdd_mgr_2 = mgr;
         this->xref = 1;
         this->index = botsink_index;
+        this->hash_key = 1;
+        this->marked_ = 0;
     }
 
     bool node::is_botsink() const
@@ -140,7 +142,8 @@ namespace BDD {
         this->bdd_mgr_2 = mgr;
         this->xref = 1;
         this->index = topsink_index;
-
+        this->hash_key = 2;
+        this->marked_ = 0;
     }
 
     bool node::is_topsink() const
-- 
2.43.0


From ac271c23961b5062cfbe0962257640f85d452b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 12/27] fix: nodes_bfs dereferences the children of a sink

For a constant the bdd manager was interpreted as a node and the sink was left
marked. Like nodes_postorder, return no nodes.
---
 src/bdd_node.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 0bfe3bb..8ac5930 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -91,6 +91,8 @@ namespace BDD {
     {
         assert(marked_ == 0);
         std::vector<node*> nodes;
+        if(is_terminal())
+            return nodes;
         std::deque<node*> dq;
 
         dq.push_back(this);
-- 
2.43.0


From 80ebefdf3b6234e6ff8a92e362812da993b4ba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 13/27] fix: nodes stay marked when a traversal is left by an
 exception

When an allocation failed in nodes_postorder, nodes_bfs or variables, or the stream
threw in print, visited nodes kept their marks and later queries gave wrong answers.
---
 include/bdd_node.h |  3 ++-
 src/bdd_node.cpp   | 57 ++++++++++++++++++++++++++++------------------
 2 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/include/bdd_node.h b/include/bdd_node.h
index c3b536a..c5a2fe4 100644
--- a/include/bdd_node.h
+++ b/include/bdd_node.h
@@ -150,7 +150,8 @@ template<typename STREAM>
 void node_struct::print(STREAM& s)
 {
     s << "digraph BDD {\n";
-    print_rec(s);
+    try { print_rec(s); }
+    catch(...) { unmark(); throw; }
     unmark();
     s << "}\n";
 }
diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 8ac5930..f890bfd 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -38,6 +38,14 @@ namespace BDD {
 
     }
 
+    namespace {
+        // removes the marks of a traversal, also when it is left by an exception
+        struct unmark_guard {
+            node* n;
+            ~unmark_guard() { n->unmark(); }
+        };
+    }
+
     size_t node::nr_nodes()
     {
         assert(marked_ == 0);
@@ -67,8 +75,10 @@ namespace BDD {
     {
         assert(marked_ == 0);
         std::vector<node*> n;
-        nodes_postorder_impl(n);
-        unmark();
+        {
+            unmark_guard guard{this};
+            nodes_postorder_impl(n);
+        }
         assert(n.size() == nr_nodes());
         return n;
     }
@@ -95,28 +105,29 @@ namespace BDD {
             return nodes;
         std::deque<node*> dq;
 
-        dq.push_back(this);
-        this->marked_ = 1;
-        while(!dq.empty())
         {
-            node* n = dq.front();
-            dq.pop_front();
-            assert(n->marked_ == 1);
-            nodes.push_back(n);
-
-            if(!n->lo->is_terminal() && n->lo->marked_ == 0)
+            unmark_guard guard{this};
+            dq.push_back(this);
+            this->marked_ = 1;
+            while(!dq.empty())
             {
-                dq.push_back(n->lo);
-                n->lo->marked_ = 1;
-            }
-            if(!n->hi->is_terminal() && n->hi->marked_ == 0)
-            {
-                dq.push_back(n->hi);
-                n->hi->marked_ = 1;
+                node* n = dq.front();
+                dq.pop_front();
+                assert(n->marked_ == 1);
+                nodes.push_back(n);
+
+                if(!n->lo->is_terminal() && n->lo->marked_ == 0)
+                {
+                    dq.push_back(n->lo);
+                    n->lo->marked_ = 1;
+                }
+                if(!n->hi->is_terminal() && n->hi->marked_ == 0)
+                {
+                    dq.push_back(n->hi);
+                    n->hi->marked_ = 1;
+                }
             }
         }
-
-        unmark();
         assert(nodes.size() == nr_nodes());
         return nodes; 
     }
@@ -193,8 +204,10 @@ namespace BDD {
     std::vector<size_t> node_struct::variables()
     {
         std::vector<size_t> v;
-        variables_impl(v);
-        unmark();
+        {
+            unmark_guard guard{this};
+            variables_impl(v);
+        }
         std::sort(v.begin(), v.end());
         v.erase( std::unique(v.begin(), v.end() ), v.end());
         return v; 
-- 
2.43.0


From 13631d4a4256a020406dfdc793a590ff6f7bfa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 14/27] fix: rebase of a constant by an iterator range reads
 from empty ranges

---
 include/bdd_mgr.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index 689ef8d..792bbec 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -128,6 +128,9 @@ namespace BDD {
     template<typename ITERATOR>
     node_ref bdd_mgr::rebase(node_ref p, ITERATOR var_map_begin, ITERATOR var_map_end)
     {
+        if(p.is_terminal())
+            return p;
+
         const size_t nr_vars = std::distance(var_map_begin, var_map_end);
         assert(p.variables().back() <= nr_vars);
         const size_t last_var = *std::max_element(var_map_begin, var_map_end);
-- 
2.43.0


From c7e8da14a125f420a2423270f4af30abd18c8ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 15/27] fix: hash key generator is shared between threads

Managers used by different threads drew hash keys from one unsynchronised generator.
---
 src/bdd_node.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index f890bfd..05f5b29 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -27,9 +27,9 @@ namespace BDD {
         marked_ = 0;
         xref = 0;
 
-        static std::random_device rd;
-        static std::mt19937 unique_table_gen(rd());
-        static std::uniform_int_distribution<std::size_t> unique_table_distribution(0,hashtablesize-1);
+        static thread_local std::random_device rd;
+        static thread_local std::mt19937 unique_table_gen(rd());
+        static thread_local std::uniform_int_distribution<std::size_t> unique_table_distribution(0,hashtablesize-1);
 
         hash_key = unique_table_distribution(unique_table_gen);
 #ifdef LBDD_SIM
-- 
2.43.0


From 7a65ca3932d0d76942f87a57e8874d3346be4ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 16/27] fix: and_rec_limited counts shared nodes repeatedly and
 ignores its limit

Nodes of both subresults were added up, so conjunctions well below the
limit were refused, while trivial conjunctions ignored the limit.
---
 include/bdd_mgr.h |  2 ++
 src/bdd_mgr.cpp   | 74 ++++++++++++++++++++++++++---------------------
 2 files changed, 43 insertions(+), 33 deletions(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index 792bbec..b2726fb 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -6,6 +6,7 @@
 #include "bdd_memo_cache.h"
 #include <vector>
 #include <unordered_map>
+#include <unordered_set>
 #include <tuple>
 #include <algorithm>
 #include <cassert>
@@ -88,6 +89,7 @@ namespace BDD {
             node_ref add_bdd(bdd_collection& bdd_col, const size_t bdd_nr);
 
         private:
+            node_ref and_rec_limited(node_ref f, node_ref g, const size_t node_limit, std::unordered_set<node*>& nodes);
 
             bdd_node_cache node_cache_;
             unique_table_page_caches page_cache_;
diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 49380bc..58076fe 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -100,39 +100,52 @@ namespace BDD {
         return node_ref(r); 
     }
 
-    // return
+    namespace {
+        // record the nodes of the diagram p. Return false as soon as there are node_limit or more
+        bool count_nodes(node* p, const size_t node_limit, std::unordered_set<node*>& nodes)
+        {
+            if(p->is_terminal() || nodes.count(p) > 0)
+                return true;
+            if(nodes.size() + 1 >= node_limit)
+                return false;
+            nodes.insert(p);
+            return count_nodes(p->lo, node_limit, nodes) && count_nodes(p->hi, node_limit, nodes);
+        }
+    }
+
+    // return conjunction and its number of nodes, if there are less than node_limit, otherwise null reference and maximum value
     std::tuple<node_ref,size_t> bdd_mgr::and_rec_limited(node_ref f, node_ref g, const size_t node_limit)
     {
+        std::unordered_set<node*> nodes; // nodes of the result constructed so far
+        node_ref r = node_limit > 0 ? and_rec_limited(f, g, node_limit, nodes) : node_ref(nullptr);
+        if(r.ref == nullptr)
+            return {r, std::numeric_limits<size_t>::max()};
+        return {r, nodes.size()};
+    }
+
+    // every subresult is part of the final result, hence we can stop as soon as the subresults have too many nodes
+    node_ref bdd_mgr::and_rec_limited(node_ref f, node_ref g, const size_t node_limit, std::unordered_set<node*>& nodes)
+    {
+        auto limited = [&](node* r) { return count_nodes(r, node_limit, nodes) ? node_ref(r) : node_ref(nullptr); };
+
         if(f == g)
-        {
-            const size_t nr_nodes = f.nr_nodes();
-            if(nr_nodes > node_limit)
-               return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
-            return {f,nr_nodes};
-        }
+            return limited(f.ref);
 
         if(f.ref > g.ref)
-            return and_rec_limited(g,f,node_limit);
+            return and_rec_limited(g, f, node_limit, nodes);
 
         if(f.ref == node_cache_.topsink())
-            return {g,g.nr_nodes()};
+            return limited(g.ref);
         else if(f.ref == node_cache_.botsink())
-            return {node_ref(node_cache_.botsink()),0};
+            return node_ref(node_cache_.botsink());
         else if(g.ref == node_cache_.topsink())
-            return {f,f.nr_nodes()};
+            return limited(f.ref);
         else if(g.ref == node_cache_.botsink())
-            return {node_ref(node_cache_.botsink()),0};
+            return node_ref(node_cache_.botsink());
 
         node* m = memo_.cache_lookup(f.ref, g.ref, memo_struct::and_symb());
         if(m != nullptr)
-        {
-            const size_t m_nr_nodes = m->nr_nodes();
-            if(m != nullptr)
-                if(m_nr_nodes <= node_limit)
-                    return {node_ref(m), m_nr_nodes};
-                else 
-                    return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
-        }
+            return limited(m);
 
         var& f_var = vars[f.variable()];
         var& g_var = vars[g.variable()];
@@ -143,22 +156,17 @@ namespace BDD {
                 return g_var;
         }();
 
-        auto [r0, r0_nr_nodes] = and_rec_limited(&v == &f_var ? f.low() : f, &v == &g_var ? g.low() : g, node_limit);
-        assert((r0 == nullptr) == (r0_nr_nodes == std::numeric_limits<size_t>::max()));
-        assert(r0.ref != nullptr || r0_nr_nodes == std::numeric_limits<size_t>::max());
-        if(r0_nr_nodes > node_limit)
-            return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
-        auto [r1, r1_nr_nodes] = and_rec_limited(&v == &f_var ? f.high() : f, &v == &g_var ? g.high() : g, node_limit);
-        assert((r1 == nullptr) == (r1_nr_nodes == std::numeric_limits<size_t>::max()));
-        assert(r1.ref != nullptr || r1_nr_nodes == std::numeric_limits<size_t>::max());
-        if(r0_nr_nodes == std::numeric_limits<size_t>::max() || r1_nr_nodes == std::numeric_limits<size_t>::max() || r0_nr_nodes + r1_nr_nodes > node_limit)
-            return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
-        
+        node_ref r0 = and_rec_limited(&v == &f_var ? f.low() : f, &v == &g_var ? g.low() : g, node_limit, nodes);
+        if(r0.ref == nullptr)
+            return r0;
+        node_ref r1 = and_rec_limited(&v == &f_var ? f.high() : f, &v == &g_var ? g.high() : g, node_limit, nodes);
+        if(r1.ref == nullptr)
+            return r1;
+
         node* r = v.unique_find(r0.ref, r1.ref);
         assert(r != nullptr);
-        //if(r != nullptr)
         memo_.cache_insert(f.ref, g.ref, memo_struct::and_symb(), r);
-        return {node_ref(r),r0_nr_nodes + r1_nr_nodes}; 
+        return limited(r);
     }
 
     node_ref bdd_mgr::or_rec(node_ref f, node_ref g)
-- 
2.43.0


From 16f71880ade166b34bdf78440ae67d222013dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 17/27] fix: collections cannot hold constants

Conjunctions that are constant and constants added from a manager ran
into assertions or undefined behaviour. Store them with their terminal
as the first of the two instructions.
---
 include/bdd_collection.h |  4 ++--
 src/bdd_collection.cpp   | 17 +++++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 7d6ff09..0d4e5f3 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -286,7 +286,7 @@ namespace BDD {
                             new_bdd_instructions.push_back(bdd_instr);
                     }
                     new_bdd_delimiters.push_back(new_bdd_instructions.size());
-                    assert(new_bdd_delimiters.back() - new_bdd_delimiters[ new_bdd_delimiters.size()-2 ] > 2);
+                    assert(new_bdd_delimiters.back() - new_bdd_delimiters[ new_bdd_delimiters.size()-2 ] >= 2);
                 }
             }
             assert(bdd_it == bdd_it_end);
@@ -482,7 +482,7 @@ namespace BDD {
             for(auto [x,y] : cluster_nodes)
                 cluster_nodes2.push_back({x,y});
             std::sort(cluster_nodes2.begin(), cluster_nodes2.end(), [](const auto a, const auto b) { return a[0] < b[0]; });
-            for(size_t c=0; c<cluster_nodes2.size()-1; ++c)
+            for(size_t c=0; c+1<cluster_nodes2.size(); ++c)
                 s << cluster_nodes2[c][1] << " -> " << cluster_nodes2[c+1][1] << " [style=invis];\n";
 
             for(size_t i=bdd_delimiters[bdd_nr]; i<bdd_delimiters[bdd_nr+1]; ++i)
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index d9c08ec..c521d8e 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -29,7 +29,8 @@ namespace BDD {
 
         if(root_idx != std::numeric_limits<size_t>::max())
         {
-            assert(stack.size() > 2);
+            if(root_idx == 0) // root comes first
+                std::swap(stack[0], stack[1]);
             const size_t offset = bdd_delimiters.back();
             for(ptrdiff_t s = stack.size()-1; s>=0; --s)
             {
@@ -131,7 +132,8 @@ namespace BDD {
 
             if(root_idx != std::numeric_limits<size_t>::max())
             {
-                assert(stack.size() > 2);
+                if(root_idx == 0) // root comes first
+                    std::swap(stack[0], stack[1]);
                 const size_t offset = bdd_delimiters.back();
                 for(ptrdiff_t s = stack.size()-1; s>=0; --s)
                 {
@@ -293,14 +295,17 @@ namespace BDD {
         }
 
         // TODO: not most efficient, record top and botsink above
-        node_ref_hash.insert({nodes.back().botsink(), bdd_instructions.size()});
+        node_ref_hash.insert({root.botsink(), bdd_instructions.size()});
         bdd_instructions.push_back(bdd_instruction::botsink());
         assert(bdd_instructions.back().is_botsink());
 
-        node_ref_hash.insert({nodes.back().topsink(), bdd_instructions.size()});
+        node_ref_hash.insert({root.topsink(), bdd_instructions.size()});
         bdd_instructions.push_back(bdd_instruction::topsink());
         assert(bdd_instructions.back().is_topsink());
 
+        if(root.is_topsink()) // root comes first
+            std::swap(bdd_instructions[bdd_instructions.size()-2], bdd_instructions[bdd_instructions.size()-1]);
+
         const size_t offset = bdd_delimiters.back();
         for(size_t i=0; i<nodes.size(); ++i)
         {
@@ -324,7 +329,8 @@ namespace BDD {
     node_ref bdd_collection::export_bdd(bdd_mgr& mgr, const size_t bdd_nr) const
     {
         assert(bdd_nr < nr_bdds());
-        assert(nr_bdd_nodes(bdd_nr) > 2);
+        if(nr_bdd_nodes(bdd_nr) == 2) // constant
+            return bdd_instructions[bdd_delimiters[bdd_nr]].is_topsink() ? mgr.topsink() : mgr.botsink();
         // TODO: use vector and shift indices by offset
         std::unordered_map<size_t, node_ref> bdd_instr_hash;
         assert(bdd_instructions[bdd_delimiters[bdd_nr+1]-2].is_terminal());
@@ -535,7 +541,6 @@ namespace BDD {
             vars.push_back(bdd_instructions[i].index);
         }
 
-        assert(vars.size() > 0);
         std::sort(vars.begin(), vars.end());
         vars.erase( std::unique(vars.begin(), vars.end() ), vars.end());
         return vars;
-- 
2.43.0


From 4bfb9b2162b9605bdae41547d36086448fb38984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 18/27] fix: bdd_collection::remove reads past the end of its
 range

---
 include/bdd_collection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 0d4e5f3..07920e0 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -265,7 +265,7 @@ namespace BDD {
             auto bdd_it = bdd_it_begin;
             for(size_t bdd_nr=*bdd_it; bdd_nr<nr_bdds(); ++bdd_nr)
             {
-                if(bdd_nr == *bdd_it) // skip bdd
+                if(bdd_it != bdd_it_end && bdd_nr == *bdd_it) // skip bdd
                 {
                     ++bdd_it;
                 }
-- 
2.43.0


From d545d3b30c44ca0dfaaf194d32e783a4110fdd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 19/27] fix: terminals of synthesised collection entries are
 mixed up

---
 src/bdd_collection.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index c521d8e..ff79d43 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -644,16 +644,19 @@ namespace BDD {
         return bdd_collection_node(bdd_col.bdd_delimiters[bdd_nr+1]-3, *this);
     }
 
+    // order of the two terminals depends on how the bdd was constructed
     bdd_collection_node bdd_collection_entry::botsink() const
     {
-        bdd_collection_node node(bdd_col.bdd_delimiters[bdd_nr+1]-2, *this);
+        const size_t end = bdd_col.bdd_delimiters[bdd_nr+1];
+        bdd_collection_node node(bdd_col.bdd_instructions[end-2].is_botsink() ? end-2 : end-1, *this);
         assert(node.is_botsink());
         return node;
     }
 
     bdd_collection_node bdd_collection_entry::topsink() const
     {
-        bdd_collection_node node(bdd_col.bdd_delimiters[bdd_nr+1]-1, *this);
+        const size_t end = bdd_col.bdd_delimiters[bdd_nr+1];
+        bdd_collection_node node(bdd_col.bdd_instructions[end-1].is_topsink() ? end-1 : end-2, *this);
         assert(node.is_topsink());
         return node;
     }
-- 
2.43.0


From b3e6ab9c55e77c11352acb2a8511af349347b661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 20/27] fix: bdd_or_var does not compute the disjunction with
 the literals

Literals of variables that are not tested on a path were ignored, and
the subsequent reduction mixed up terminals, aborted on unreachable
nodes and wrote to standard output. Synthesise the disjunction the way
bdd_and does.
---
 include/bdd_collection.h |  58 +++++-------------
 src/bdd_collection.cpp   | 125 ++++++++++++++++++---------------------
 2 files changed, 73 insertions(+), 110 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 07920e0..7fafc63 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -2,6 +2,7 @@
 
 #include "bdd_mgr.h"
 #include <vector>
+#include <map>
 #include <iterator>
 #include <unordered_map> // TODO: replace with faster hash map
 
@@ -126,6 +127,7 @@ namespace BDD {
 
             // compute disjunction 
             size_t bdd_or(const size_t i, const size_t j);
+            // compute disjunction with positive and negative literals
             template<typename VAR_MAP>
                 size_t bdd_or_var(const size_t i, const VAR_MAP& positive_variables, const VAR_MAP& negative_variables);
 
@@ -168,8 +170,13 @@ namespace BDD {
             size_t splitting_variable(const bdd_instruction& k, const bdd_instruction& l) const;
             size_t add_bdd_impl(node_ref bdd);
             bool is_bdd(const size_t i) const;
-            // bring last DAG into BDD-form
-            void reduce();
+            // for bdd_or_var
+            struct literals { bool positive = false; bool negative = false; };
+            static size_t variable_index(const size_t var) { return var; }
+            template<typename T>
+                static size_t variable_index(const std::pair<const size_t,T>& x) { return x.first; }
+            size_t bdd_or_literals(const size_t i, const std::vector<std::pair<size_t,literals>>& vars);
+            size_t bdd_or_literals_impl(const size_t i, const size_t vars_idx, const std::vector<std::pair<size_t,literals>>& vars);
 
             std::vector<bdd_instruction> bdd_instructions;
             std::vector<size_t> bdd_delimiters = {0};
@@ -373,46 +380,13 @@ namespace BDD {
     template<typename VAR_SET>
         size_t bdd_collection::bdd_or_var(const size_t i, const VAR_SET& positive_variables, const VAR_SET& negative_variables)
         {
-            assert(i < nr_bdds());
-            // copy old bdd instructions
-            for(size_t idx=bdd_delimiters[i]; idx<bdd_delimiters[i+1]; ++idx)
-            {
-                bdd_instruction instr = bdd_instructions[idx];
-                if(!instr.is_terminal())
-                {
-                    instr.lo += bdd_delimiters.back() - bdd_delimiters[i];
-                    instr.hi += bdd_delimiters.back() - bdd_delimiters[i];
-                }
-                bdd_instructions.push_back(instr);
-            }
-            bdd_delimiters.push_back(bdd_instructions.size());
-
-            assert(bdd_instructions.back().is_terminal());
-            assert(bdd_instructions[bdd_instructions.size()-2].is_terminal());
-            assert(bdd_instructions[bdd_instructions.size()-1] != bdd_instructions[bdd_instructions.size()-2]);
-
-            const size_t botsink_index = bdd_instructions[bdd_instructions.size()-1].is_botsink() ? bdd_instructions.size()-1 : bdd_instructions.size()-2;
-            assert(bdd_instructions[botsink_index].is_botsink());
-            const size_t topsink_index = bdd_instructions[bdd_instructions.size()-1].is_topsink() ? bdd_instructions.size()-1 : bdd_instructions.size()-2;
-            assert(bdd_instructions[topsink_index].is_topsink());
-            assert(botsink_index != topsink_index);
-
-            // reroute arcs to topsink for instructions that cover positive or negative variables
-            const size_t new_bdd_nr = bdd_delimiters.size()-2;
-            for(size_t idx=bdd_delimiters[new_bdd_nr]; idx<bdd_delimiters[new_bdd_nr+1]; ++idx)
-            {
-                auto& instr = bdd_instructions[idx];
-                if(instr.is_terminal())
-                    continue;
-                if(positive_variables.count(instr.index) > 0)
-                    instr.hi = topsink_index; 
-                if(negative_variables.count(instr.index) > 0)
-                    instr.lo = topsink_index; 
-            }
-
-            reduce(); 
-            assert(is_bdd(new_bdd_nr));
-            return new_bdd_nr;
+            // also works for maps with variables as keys
+            std::map<size_t, literals> vars;
+            for(const auto& x : positive_variables)
+                vars[variable_index(x)].positive = true;
+            for(const auto& x : negative_variables)
+                vars[variable_index(x)].negative = true;
+            return bdd_or_literals(i, std::vector<std::pair<size_t,literals>>(vars.begin(), vars.end()));
         }
 
 
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index ff79d43..a8c9444 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -2,7 +2,6 @@
 #include <deque>
 #include <cassert>
 #include <unordered_set>
-#include <iostream> // TODO: remove
 
 namespace BDD {
 
@@ -453,81 +452,71 @@ namespace BDD {
         return true;
     }
 
-    void bdd_collection::reduce()
+    size_t bdd_collection::bdd_or_literals(const size_t i, const std::vector<std::pair<size_t,literals>>& vars)
     {
-        assert(nr_bdds() > 0);
-        const size_t bdd_nr = nr_bdds() - 1;
+        assert(i < nr_bdds());
+        assert(stack.empty());
+        assert(generated_nodes.empty());
+        assert(reduction.empty());
 
-        std::vector<char> remove(nr_bdd_nodes(bdd_nr), false);
-        
-        // remove nodes with identical lo and hi arcs
-        for(std::ptrdiff_t idx=bdd_delimiters[bdd_nr+1]-3; idx>=bdd_delimiters[bdd_nr]; --idx)
-        {
-            bdd_instruction& instr = bdd_instructions[idx];
-            bdd_instruction& lo = bdd_instructions[instr.lo];
-            bdd_instruction& hi = bdd_instructions[instr.hi];
-            if(!lo.is_terminal() && lo.lo == lo.hi)
-                instr.lo = bdd_instructions[lo.lo].lo;
-            if(!hi.is_terminal() && hi.lo == hi.hi)
-                instr.hi = bdd_instructions[hi.hi].hi;
-            if(instr.lo == instr.hi)
-            {
-                std::cout << "remove instr due to same lo and hi\n";
-                remove[idx - bdd_delimiters[bdd_nr]] = true;
-            }
-        }
+        // generate terminal vertices
+        stack.push_back(bdd_instruction::botsink());
+        stack.push_back(bdd_instruction::topsink());
+        const size_t root_idx = bdd_or_literals_impl(bdd_delimiters[i], 0, vars);
 
-        // remove isomorphic subgraphs
-        std::unordered_map<bdd_instruction, size_t, bdd_instruction_hasher> bdd_map;
-        bdd_map.insert({bdd_instructions[bdd_delimiters[bdd_nr+1]-1], bdd_delimiters[bdd_nr+1]-1});
-        bdd_map.insert({bdd_instructions[bdd_delimiters[bdd_nr+1]-2], bdd_delimiters[bdd_nr+1]-2});
-        for(std::ptrdiff_t idx=bdd_delimiters[bdd_nr+1]-3; idx>=bdd_delimiters[bdd_nr]; --idx)
+        if(root_idx == 0) // root comes first
+            std::swap(stack[0], stack[1]);
+        const size_t offset = bdd_delimiters.back();
+        for(ptrdiff_t s = stack.size()-1; s>=0; --s)
         {
-            if(remove[idx - bdd_delimiters[bdd_nr]])
-                continue;
-            bdd_instruction& instr = bdd_instructions[idx];
-            auto it = bdd_map.find(instr);
-            if(it == bdd_map.end())
-                bdd_map.insert({instr, idx});
-            else
-            {
-                remove[idx - bdd_delimiters[bdd_nr]] = true;
-                std::cout << "remove due to isomorphic subgraphs\n";
-            }
-            assert(bdd_map.count(bdd_instructions[instr.lo]) > 0);
-            assert(bdd_map.count(bdd_instructions[instr.hi]) > 0);
-            instr.lo = bdd_map.find(bdd_instructions[instr.lo])->second;
-            instr.hi = bdd_map.find(bdd_instructions[instr.hi])->second;
+            const bdd_instruction bdd_stack = stack[s];
+            const size_t lo = offset + stack.size() - bdd_stack.lo - 1;
+            const size_t hi = offset + stack.size() - bdd_stack.hi - 1;
+            bdd_instructions.push_back({lo, hi, stack[s].index});
         }
+        bdd_delimiters.push_back(bdd_instructions.size());
+        assert(is_bdd(bdd_delimiters.size()-2));
+
+        generated_nodes.clear();
+        reduction.clear();
+        stack.clear();
+        return bdd_delimiters.size()-2;
+    }
+
+    // disjunction of bdd instruction with all literals from vars_idx on. Return index on stack.
+    size_t bdd_collection::bdd_or_literals_impl(const size_t f_i, const size_t vars_idx, const std::vector<std::pair<size_t,literals>>& vars)
+    {
+        const bdd_instruction& f = bdd_instructions[f_i];
+        if(f.is_topsink())
+            return 1; //topsink position on stack
+        if(f.is_botsink() && vars_idx == vars.size())
+            return 0; //botsink position on stack
+
+        if(generated_nodes.count({f_i, vars_idx}) > 0)
+            return generated_nodes.find({f_i, vars_idx})->second;
+
+        const bool has_literal = vars_idx < vars.size() && (f.is_botsink() || vars[vars_idx].first <= f.index);
+        const size_t v = has_literal ? vars[vars_idx].first : f.index;
+        const bool branch = !f.is_botsink() && f.index == v;
+        const size_t next_vars_idx = vars_idx + has_literal;
 
-        // compactify: remove unused instructions and move remaining ones to contiguous placement
-        const size_t nr_remaining_instructions = std::count(remove.begin(), remove.end(), false);
-        std::vector<bdd_instruction> new_bdd_instructions;
-        new_bdd_instructions.reserve(nr_remaining_instructions);
-        std::vector<size_t> address_delta;
-        // TODO: counted correctly?
-        address_delta.reserve(nr_bdd_nodes(bdd_nr));
-        address_delta.push_back(0);
-        std::partial_sum(remove.begin(), remove.end()-1, std::back_inserter(address_delta));
-            
-        for(size_t idx=bdd_delimiters[bdd_nr]; idx<bdd_delimiters[bdd_nr+1]-2; ++idx)
+        const size_t lo = has_literal && vars[vars_idx].second.negative ? 1 : bdd_or_literals_impl(branch ? f.lo : f_i, next_vars_idx, vars);
+        const size_t hi = has_literal && vars[vars_idx].second.positive ? 1 : bdd_or_literals_impl(branch ? f.hi : f_i, next_vars_idx, vars);
+
+        size_t idx;
+        if(lo == hi)
+            idx = lo;
+        else if(reduction.count({lo,hi,v}) > 0)
+            idx = reduction.find({lo,hi,v})->second;
+        else
         {
-            if(remove[idx - bdd_delimiters[bdd_nr]])
-                continue;
-            bdd_instruction instr = bdd_instructions[idx];
-            instr.lo -= address_delta[instr.lo-bdd_delimiters[bdd_nr]];
-            instr.hi -= address_delta[instr.hi-bdd_delimiters[bdd_nr]]; 
-            new_bdd_instructions.push_back(instr);
+            idx = stack.size();
+            stack.push_back({lo, hi, v});
+            reduction.insert(std::make_pair(bdd_instruction{lo,hi,v}, idx));
         }
-        new_bdd_instructions.push_back(bdd_instructions[bdd_delimiters[bdd_nr+1]-2]);
-        new_bdd_instructions.push_back(bdd_instructions[bdd_delimiters[bdd_nr+1]-1]);
-        std::cout << "new bdd has " << new_bdd_instructions.size() << " nodes\n";
-
-        bdd_instructions.resize(bdd_delimiters[bdd_nr]);
-        for(const auto instr : new_bdd_instructions)
-            bdd_instructions.push_back(instr);
-        bdd_delimiters.back() = bdd_instructions.size(); 
-        assert(is_bdd(bdd_nr));
+        generated_nodes.insert(std::make_pair(std::array<size_t,2>{f_i, vars_idx}, idx));
+
+        return idx;
     }
 
     std::vector<size_t> bdd_collection::variables(const size_t bdd_nr) const
-- 
2.43.0


From 33b56f35c47b39ee6dbaef7651887ee10f650d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 21/27] fix: collections are left inconsistent by failed
 allocations

Temporary memory was not cleared and partially appended bdds were not
removed when a collection operation was left by std::bad_alloc.
---
 include/bdd_collection.h | 14 ++++++++++----
 src/bdd_collection.cpp   | 39 ++++++++++++++++++++++++++++-----------
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 7fafc63..7c011c4 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -162,6 +162,7 @@ namespace BDD {
             void close_bdd();
 
         private:
+            struct synthesis_guard;
             size_t bdd_and_impl(const size_t i, const size_t j, const size_t node_limit);
             template<size_t N>
                 size_t bdd_and(const std::array<size_t,N>& bdds, const size_t node_limit);
@@ -298,13 +299,18 @@ namespace BDD {
             }
             assert(bdd_it == bdd_it_end);
 
-            std::swap(bdd_delimiters, new_bdd_delimiters);
-            std::swap(bdd_instructions, new_bdd_instructions);
+            // checking can fail as well, hence only take over the remaining bdds afterwards
+            bdd_collection remaining;
+            std::swap(remaining.bdd_delimiters, new_bdd_delimiters);
+            std::swap(remaining.bdd_instructions, new_bdd_instructions);
 
-            for(size_t i=0; i<nr_bdds(); ++i)
+            for(size_t i=0; i<remaining.nr_bdds(); ++i)
             {
-                assert(is_bdd(i));
+                assert(remaining.is_bdd(i));
             }
+
+            std::swap(bdd_delimiters, remaining.bdd_delimiters);
+            std::swap(bdd_instructions, remaining.bdd_instructions);
         }
 
     template<size_t N, typename ITERATOR>
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index a8c9444..8f23bea 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -12,6 +12,26 @@ namespace BDD {
         return std::distance(&bdd_instructions[0], &instr); 
     }
 
+    // clears temporary memory, and when left by an exception also removes what has been appended
+    struct bdd_collection::synthesis_guard {
+        bdd_collection& c;
+        const size_t nr_delimiters;
+        bool finished = false;
+        synthesis_guard(bdd_collection& _c) : c(_c), nr_delimiters(_c.bdd_delimiters.size()) {}
+        ~synthesis_guard()
+        {
+            c.generated_nodes.clear();
+            c.reduction.clear();
+            c.stack.clear();
+            c.node_ref_hash.clear();
+            if(!finished)
+            {
+                c.bdd_delimiters.resize(nr_delimiters);
+                c.bdd_instructions.resize(c.bdd_delimiters.back());
+            }
+        }
+    };
+
     size_t bdd_collection::bdd_and(const size_t i, const size_t j, const size_t node_limit)
     {
         assert(i < nr_bdds());
@@ -21,6 +41,7 @@ namespace BDD {
         assert(reduction.empty());
         assert(node_limit > 2);
 
+        synthesis_guard guard(*this);
         // generate terminal vertices
         stack.push_back(bdd_instruction::botsink());
         stack.push_back(bdd_instruction::topsink());
@@ -42,9 +63,7 @@ namespace BDD {
             assert(is_bdd(bdd_delimiters.size()-2));
         }
 
-        generated_nodes.clear();
-        reduction.clear();
-        stack.clear();
+        guard.finished = true;
         if(root_idx == std::numeric_limits<size_t>::max())
             return std::numeric_limits<size_t>::max();
         return bdd_delimiters.size()-2;
@@ -123,6 +142,7 @@ namespace BDD {
             for(size_t i=0; i<N; ++i)
                 bdd_indices[i] = bdd_delimiters[bdds[i]];
 
+            synthesis_guard guard(*this);
             // generate terminal vertices
             stack.push_back(bdd_instruction::botsink());
             stack.push_back(bdd_instruction::topsink());
@@ -145,9 +165,7 @@ namespace BDD {
                 assert(is_bdd(bdd_delimiters.size()-2));
             }
 
-            //generated_nodes.clear();
-            reduction.clear();
-            stack.clear();
+            guard.finished = true;
             if(root_idx == std::numeric_limits<size_t>::max())
                 return std::numeric_limits<size_t>::max();
             return bdd_delimiters.size()-2;
@@ -283,6 +301,7 @@ namespace BDD {
     size_t bdd_collection::add_bdd(node_ref root)
     {
         assert(bdd_delimiters.back() == bdd_instructions.size());
+        synthesis_guard guard(*this);
 
         auto nodes = root.nodes_postorder();
         std::reverse(nodes.begin(), nodes.end());
@@ -318,10 +337,9 @@ namespace BDD {
 
         bdd_delimiters.push_back(bdd_instructions.size());
 
-        // clean-up
-        node_ref_hash.clear();
         assert(is_bdd(bdd_delimiters.size()-2));
         assert(nr_bdd_nodes(bdd_delimiters.size()-2) == nodes.size()+2);
+        guard.finished = true;
         return bdd_delimiters.size()-2;
     }
 
@@ -459,6 +477,7 @@ namespace BDD {
         assert(generated_nodes.empty());
         assert(reduction.empty());
 
+        synthesis_guard guard(*this);
         // generate terminal vertices
         stack.push_back(bdd_instruction::botsink());
         stack.push_back(bdd_instruction::topsink());
@@ -477,9 +496,7 @@ namespace BDD {
         bdd_delimiters.push_back(bdd_instructions.size());
         assert(is_bdd(bdd_delimiters.size()-2));
 
-        generated_nodes.clear();
-        reduction.clear();
-        stack.clear();
+        guard.finished = true;
         return bdd_delimiters.size()-2;
     }
 
-- 
2.43.0


From b7fda29a1ab727dae191af34ddc4e9737a9db784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 22/27] fix: constructing a bdd node by node in a collection
 does not work

Nodes were not part of the bdd until it was closed, so adding the first
node failed an assertion; arcs to terminals referred to terminals not
yet present; nodes kept a reference to a temporary entry; and unset arcs
were reported only after the collection had been changed.
---
 include/bdd_collection.h | 58 +++++++++++++++++++++-------------------
 src/bdd_collection.cpp   | 42 +++++++++++++++++++----------
 2 files changed, 58 insertions(+), 42 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 7c011c4..3045267 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -55,7 +55,35 @@ namespace BDD {
         } 
     };
 
-    class bdd_collection_entry;
+    class bdd_collection_node;
+    class bdd_collection;
+
+    // convenience class to make bdd_collection bdds behave similary to node_ref
+    class bdd_collection_entry 
+    {
+        friend class bdd_collection_node;
+        public:
+            bdd_collection_entry(const size_t _bdd_nr, bdd_collection& _bdd_col);
+            std::vector<size_t> variables();
+            bdd_collection_entry operator&(bdd_collection_entry& o);
+            bdd_collection_node operator[](const size_t i) const;
+            size_t nr_nodes() const;
+            size_t nr_nodes(const size_t variable) const;
+            template<typename ITERATOR>
+                void rebase(ITERATOR var_map_begin, ITERATOR var_map_end);
+            template<typename VAR_MAP>
+                void rebase(const VAR_MAP& var_map);
+
+            bdd_collection_node root_node() const;
+            bdd_collection_node first_node_postorder() const;
+            bdd_collection_node botsink() const;
+            bdd_collection_node topsink() const;
+
+        private:
+            bool closed() const; // false while the bdd is being constructed
+            const size_t bdd_nr;
+            bdd_collection& bdd_col;
+    };
 
     // convenience class for wrapping bdd node
     class bdd_collection_node
@@ -86,33 +114,7 @@ namespace BDD {
 
         private:
             size_t i; 
-            const bdd_collection_entry& bce;
-    };
-
-    // convenience class to make bdd_collection bdds behave similary to node_ref
-    class bdd_collection_entry 
-    {
-        friend class bdd_collection_node;
-        public:
-            bdd_collection_entry(const size_t _bdd_nr, bdd_collection& _bdd_col);
-            std::vector<size_t> variables();
-            bdd_collection_entry operator&(bdd_collection_entry& o);
-            bdd_collection_node operator[](const size_t i) const;
-            size_t nr_nodes() const;
-            size_t nr_nodes(const size_t variable) const;
-            template<typename ITERATOR>
-                void rebase(ITERATOR var_map_begin, ITERATOR var_map_end);
-            template<typename VAR_MAP>
-                void rebase(const VAR_MAP& var_map);
-
-            bdd_collection_node root_node() const;
-            bdd_collection_node first_node_postorder() const;
-            bdd_collection_node botsink() const;
-            bdd_collection_node topsink() const;
-
-        private:
-            const size_t bdd_nr;
-            bdd_collection& bdd_col;
+            bdd_collection_entry bce;
     };
 
     class bdd_collection {
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 8f23bea..5d6e655 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -570,37 +570,45 @@ namespace BDD {
         instr.lo = bdd_instruction::temp_undefined_index;
         instr.hi = bdd_instruction::temp_undefined_index;
         bdd_instructions.push_back(instr);
+        bdd_delimiters.back() = bdd_instructions.size();
         return bdd_collection_node(bdd_instructions.size()-1, bdd_collection_entry(bdd_delimiters.size()-2, *this));
     }
 
     void bdd_collection::close_bdd()
     {
+        const size_t bdd_begin = bdd_delimiters[bdd_delimiters.size()-2];
+        const size_t bdd_end = bdd_delimiters.back();
+        for(size_t idx=bdd_begin; idx<bdd_end; ++idx)
+        {
+            if(bdd_instructions[idx].lo == bdd_instruction::temp_undefined_index)
+                throw std::runtime_error("bdd lo arc not set");
+            if(bdd_instructions[idx].hi == bdd_instruction::temp_undefined_index)
+                throw std::runtime_error("bdd hi arc not set");
+        }
+
         // add top and botsink
+        bdd_instructions.reserve(bdd_end+2);
         bdd_instructions.push_back(bdd_instruction::topsink());
         bdd_instructions.push_back(bdd_instruction::botsink());
 
         // go over previous bdd instructions and reroute topsink and botsink entries to correct entries
-        for(size_t idx=bdd_delimiters[bdd_delimiters.size()-2]; idx<bdd_delimiters[bdd_delimiters.size()-1]-2; ++idx)
+        for(size_t idx=bdd_begin; idx<bdd_end; ++idx)
         {
             auto& instr = bdd_instructions[idx];
 
-            if(instr.lo == bdd_instruction::temp_undefined_index)
-                throw std::runtime_error("bdd lo arc not set");
-            else if(instr.lo == bdd_instruction::temp_topsink_index)
+            if(instr.lo == bdd_instruction::temp_topsink_index)
                 instr.lo = bdd_instructions.size()-2;
             else if(instr.lo == bdd_instruction::temp_botsink_index)
                 instr.lo = bdd_instructions.size()-1;
             else
-                assert(instr.lo < bdd_instructions.size() && instr.lo >= bdd_delimiters[bdd_delimiters.size()-2]);
+                assert(instr.lo < bdd_end && instr.lo >= bdd_begin);
 
-            if(instr.hi == bdd_instruction::temp_undefined_index)
-                throw std::runtime_error("bdd hi arc not set");
-            else if(instr.hi == bdd_instruction::temp_topsink_index)
+            if(instr.hi == bdd_instruction::temp_topsink_index)
                 instr.hi = bdd_instructions.size()-2;
             else if(instr.hi == bdd_instruction::temp_botsink_index)
                 instr.hi = bdd_instructions.size()-1;
             else
-                assert(instr.hi < bdd_instructions.size() && instr.hi >= bdd_delimiters[bdd_delimiters.size()-2]); 
+                assert(instr.hi < bdd_end && instr.hi >= bdd_begin); 
         }
 
         bdd_delimiters.back() = bdd_instructions.size();
@@ -617,6 +625,12 @@ namespace BDD {
         assert(bdd_nr < bdd_col.nr_bdds());
     }
 
+    bool bdd_collection_entry::closed() const
+    {
+        const size_t end = bdd_col.bdd_delimiters[bdd_nr+1];
+        return bdd_col.bdd_instructions[end-1].is_botsink() || bdd_col.bdd_instructions[end-1].is_topsink();
+    }
+
     std::vector<size_t> bdd_collection_entry::variables()
     {
         return bdd_col.variables(bdd_nr);
@@ -733,25 +747,25 @@ namespace BDD {
     void bdd_collection_node::set_lo_to_0_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.lo = bce.botsink().i;
+        instr.lo = bce.closed() ? bce.botsink().i : bdd_instruction::temp_botsink_index;
     }
 
     void bdd_collection_node::set_lo_to_1_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.lo = bce.topsink().i;
+        instr.lo = bce.closed() ? bce.topsink().i : bdd_instruction::temp_topsink_index;
     }
 
     void bdd_collection_node::set_hi_to_0_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.hi = bce.botsink().i;
+        instr.hi = bce.closed() ? bce.botsink().i : bdd_instruction::temp_botsink_index;
     }
 
     void bdd_collection_node::set_hi_to_1_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.hi = bce.topsink().i;
+        instr.hi = bce.closed() ? bce.topsink().i : bdd_instruction::temp_topsink_index;
     }
 
     bdd_collection_node bdd_collection_node::next_postorder() const
@@ -774,7 +788,7 @@ namespace BDD {
 
     bdd_collection_node bdd_collection_node::operator=(const bdd_collection_node& o)
     {
-        assert(&bce == &o.bce);
+        assert(&bce.bdd_col == &o.bce.bdd_col && bce.bdd_nr == o.bce.bdd_nr);
         i = o.i;
         return *this;
     }
-- 
2.43.0


From a41c24649b90be6e1d52e0f4be8150d2f05893de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:21 +0000
Subject: [PATCH 23/27] fix: negate takes exponential time on shared nodes

---
 src/bdd_mgr.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 58076fe..91c2d4d 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -46,9 +46,18 @@ namespace BDD {
             return node_ref(node_cache_.botsink());
         else
         {
+            // the negation is the exclusive or with the topsink
+            node* m = memo_.cache_lookup(p.ref, node_cache_.topsink(), memo_struct::xor_symb());
+            if(m != nullptr)
+                return node_ref(m);
+
             const std::size_t v = p.variable();
             assert(v < nr_variables());
-            return node_ref(vars[v].unique_find( negate(p.low()).ref, negate(p.high()).ref));
+            node_ref r0 = negate(p.low());
+            node_ref r1 = negate(p.high());
+            node* r = vars[v].unique_find(r0.ref, r1.ref);
+            memo_.cache_insert(p.ref, node_cache_.topsink(), memo_struct::xor_symb(), r);
+            return node_ref(r);
         }
     }
 
-- 
2.43.0


From 12230f991fd5ac8c353d417d2b45581359112cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 24/27] fix: conjunctions of stored bdds take exponential time
 when nodes are reduced

---
 src/bdd_collection.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 5d6e655..90ae19f 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -80,18 +80,10 @@ namespace BDD {
         const bdd_instruction& g = bdd_instructions[g_i];
 
         // check if instructions are terminals
-        // TODO: more efficient
-        if(f.is_terminal() && g.is_terminal())
-            if(f.is_topsink() && g.is_topsink())
-                return 1; //topsink position on stack
-            else
-                return 0; //botsink position on stack
-        else if(f.is_terminal() && !g.is_terminal())
-            if(f.is_botsink())
-                return 0; //botsink position on stack
-            else if(!f.is_terminal() && g.is_terminal())
-                if(g.is_botsink())
-                    return 0; //botsink position on stack 
+        if(f.is_botsink() || g.is_botsink())
+            return 0; //botsink position on stack
+        if(f.is_topsink() && g.is_topsink())
+            return 1; //topsink position on stack
 
         // compute lo and hi and see if they are present already. It not, add new branch instruction
         const size_t v = std::min(f.index, g.index);
@@ -110,11 +102,19 @@ namespace BDD {
         if(hi == std::numeric_limits<size_t>::max())
             return std::numeric_limits<size_t>::max();
 
+        // also record nodes that are reduced, they can be reached repeatedly
         if(lo == hi)
+        {
+            generated_nodes.insert(std::make_pair(std::array<size_t,2>{f_i,g_i}, lo));
             return lo;
+        }
 
         if(reduction.count({lo,hi,v}) > 0)
-            return reduction.find({lo,hi,v})->second;
+        {
+            const size_t idx = reduction.find({lo,hi,v})->second;
+            generated_nodes.insert(std::make_pair(std::array<size_t,2>{f_i,g_i}, idx));
+            return idx;
+        }
 
         stack.push_back({lo, hi, v});
         if(stack.size() > node_limit)
@@ -282,11 +282,19 @@ namespace BDD {
         if(hi == std::numeric_limits<size_t>::max())
             return std::numeric_limits<size_t>::max();
 
+        // also record nodes that are reduced, they can be reached repeatedly
         if(lo == hi)
+        {
+            generated_nodes.insert(std::make_pair(bdds, lo));
             return lo;
+        }
 
         if(reduction.count({lo,hi,v}) > 0)
-            return reduction.find({lo,hi,v})->second;
+        {
+            const size_t idx = reduction.find({lo,hi,v})->second;
+            generated_nodes.insert(std::make_pair(bdds, idx));
+            return idx;
+        }
 
         stack.push_back({lo, hi, v});
         if(stack.size() > node_limit)
-- 
2.43.0


From e9beb66c61c1aebac92cd52118d44ea3c75596cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 25/27] fix: stored bdds with long chains take quadratic time

The hash of an instruction combined consecutive indices by exclusive or,
so that most nodes of a chain collided in the reduction table.
---
 include/bdd_collection.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 3045267..878f602 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -33,7 +33,13 @@ namespace BDD {
     };
 
     struct bdd_instruction_hasher {
-        size_t operator()(const bdd_instruction& bdd) const { return std::hash<size_t>()(bdd.lo) ^ std::hash<size_t>()(bdd.hi) ^ std::hash<size_t>()(bdd.index); }
+        // the indices of a bdd and its descendants follow one another, hence a plain exclusive or collides
+        static size_t hash_combine(size_t lhs, size_t rhs)
+        {
+            lhs ^= rhs + 0x9e3779b97f4a7c15 + (lhs << 6) + (lhs >> 2);
+            return lhs;
+        }
+        size_t operator()(const bdd_instruction& bdd) const { return hash_combine(hash_combine(std::hash<size_t>()(bdd.lo), std::hash<size_t>()(bdd.hi)), std::hash<size_t>()(bdd.index)); }
     };
 
     template<size_t N>
-- 
2.43.0


From 18bad0d89e08c3563958e79ef9869f43fd3a4a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:53 +0000
Subject: [PATCH 26/27] fix: exported collections use the number format of the
 stream

---
 include/bdd_collection.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 878f602..0e7312a 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -459,7 +459,7 @@ namespace BDD {
 
             for(auto& [idx, str] : clusters)
             {
-                s << "subgraph cluster_" << idx << " {\n";
+                s << "subgraph cluster_" << std::to_string(idx) << " {\n";
                 s << str;
                 s << "color = blue\n";
                 s << "}\n"; 
@@ -471,7 +471,7 @@ namespace BDD {
                 cluster_nodes2.push_back({x,y});
             std::sort(cluster_nodes2.begin(), cluster_nodes2.end(), [](const auto a, const auto b) { return a[0] < b[0]; });
             for(size_t c=0; c+1<cluster_nodes2.size(); ++c)
-                s << cluster_nodes2[c][1] << " -> " << cluster_nodes2[c+1][1] << " [style=invis];\n";
+                s << std::to_string(cluster_nodes2[c][1]) << " -> " << std::to_string(cluster_nodes2[c+1][1]) << " [style=invis];\n";
 
             for(size_t i=bdd_delimiters[bdd_nr]; i<bdd_delimiters[bdd_nr+1]; ++i)
             {
@@ -479,8 +479,10 @@ namespace BDD {
                 if(bdd_instr.is_terminal())
                     continue;
 
-                s << i - bdd_delimiters[bdd_nr] << " -> " << bdd_instr.hi - bdd_delimiters[bdd_nr] << ";\n";
-                s << i - bdd_delimiters[bdd_nr] << " -> " << bdd_instr.lo - bdd_delimiters[bdd_nr] << "[style=\"dashed\"];\n";
+                // strings, because numbers are subject to the formatting state of the stream
+                const std::string node = std::to_string(i - bdd_delimiters[bdd_nr]);
+                s << node << " -> " << std::to_string(bdd_instr.hi - bdd_delimiters[bdd_nr]) << ";\n";
+                s << node << " -> " << std::to_string(bdd_instr.lo - bdd_delimiters[bdd_nr]) << "[style=\"dashed\"];\n";
             } 
             s << "}\n";
         }
-- 
2.43.0


From 9a45f129f5625a51ba97a37977a29d723781b0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:53 +0000
Subject: [PATCH 27/27] fix: a failed assignment leaves a bdd collection
 corrupted

---
 include/bdd_collection.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 0e7312a..f318277 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -127,6 +127,21 @@ namespace BDD {
         friend class bdd_collection_node;
         friend class bdd_collection_entry;
         public:
+            bdd_collection() = default;
+            bdd_collection(const bdd_collection&) = default;
+            bdd_collection(bdd_collection&&) = default;
+            // assigning member by member could fail in between
+            bdd_collection& operator=(bdd_collection o) { swap(o); return *this; }
+            void swap(bdd_collection& o)
+            {
+                std::swap(bdd_instructions, o.bdd_instructions);
+                std::swap(bdd_delimiters, o.bdd_delimiters);
+                std::swap(stack, o.stack);
+                std::swap(generated_nodes, o.generated_nodes);
+                std::swap(reduction, o.reduction);
+                std::swap(node_ref_hash, o.node_ref_hash);
+            }
+
             // synthesize bdd unless it has too many nodes. If so, return std::numeric_limits<size_t>::max()
             size_t bdd_and(const size_t i, const size_t j, const size_t node_limit = std::numeric_limits<size_t>::max());
             size_t bdd_and(const int i, const int j, const size_t node_limit = std::numeric_limits<size_t>::max()) { return bdd_and(size_t(i), size_t(j), node_limit); }
-- 
2.43.0

