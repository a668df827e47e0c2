From 4b773b5fbc6b37bd9562c4be511a89e54dbfe953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 01/65] fix: exact and prefix lookup must not match an edge
 label longer than the rest of the key

traverseFromEdge() and traversePrefixFromEdge() compared a whole edge label with the
caller's buffer even when fewer key bytes were left.  A lookup or a removal of a key that
is a proper prefix of stored keys could therefore succeed (bytes past the key's end decided),
and up to 255 bytes past the key were read.
---
 src/detail/search_engine.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index c7e2d65..ca0c2eb 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -468,6 +468,11 @@ namespace detail {
 #endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
+            // The rest of the key is shorter than the edge label: no match
+            if (edge_len > len) {
+                rval = MBError::NOT_EXIST;
+                break;
+            }
             rval = compareCurrEdgeTail(edge_ptrs, data, key_cursor, key_buff, edge_len, edge_len_m1);
             if (rval == MBError::READ_ERROR)
                 break;
@@ -552,6 +557,11 @@ namespace detail {
 #endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
+            // The rest of the key is shorter than the edge label: no match
+            if (edge_len > len) {
+                rval = MBError::NOT_EXIST;
+                break;
+            }
             // match edge string
             if (edge_len > LOCAL_EDGE_LEN) {
                 size_t edge_str_off = Get5BInteger(edge_ptrs.ptr);
-- 
2.43.0


From 62ac4344019aa6a0bcb4a162f150243b8bab6572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 02/65] fix: size the data free list for the largest data
 buffer

The free list of data buffers was created with the number of index buffer sizes (8192), so
storing or releasing a value longer than about 8 KB, which is within the documented limit of
32767 bytes, indexed past the end of its table and crashed.
---
 src/drm_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drm_base.h b/src/drm_base.h
index 4deb27f..0552e3c 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -259,7 +259,7 @@ public:
                 if (index) {
                     free_lists = new FreeList(mbdir + "_ibfl", BUFFER_ALIGNMENT, NUM_BUFFER_RESERVE);
                 } else {
-                    free_lists = new FreeList(mbdir + "_dbfl", BUFFER_ALIGNMENT, NUM_BUFFER_RESERVE);
+                    free_lists = new FreeList(mbdir + "_dbfl", DATA_BUFFER_ALIGNMENT, NUM_DATA_BUFFER_RESERVE);
                 }
             }
         }
-- 
2.43.0


From c90cf2b88553e7978fd36067ad5e638249aa0c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 03/65] fix: InDB and key-only lookup must not report a key
 that only labels an internal node

InDB reported a proper prefix of stored keys as stored whenever an internal node happened to
end exactly there, although Find returned NOT_EXIST for the same key.
---
 src/db.cpp                 | 4 ++--
 src/detail/search_engine.h | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index ac47816..9018d64 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -887,10 +887,10 @@ bool DB::InDB(const char* key, int len, int& err)
         err = MBError::NOT_ALLOWED;
         return false;
     }
-    MBData data(0, CONSTS::OPTION_FIND_AND_STORE_PARENT);
+    MBData data(0, CONSTS::OPTION_KEY_ONLY);
     detail::SearchEngine engine(*dict);
     int rval = engine.find(reinterpret_cast<const uint8_t*>(key), len, data);
-    if (rval == MBError::IN_DICT) {
+    if (rval == MBError::SUCCESS) {
         return true; // found it
     } else if (rval != MBError::NOT_EXIST) {
         err = rval; // error
diff --git a/src/detail/search_engine.h b/src/detail/search_engine.h
index 08b5e25..8813630 100644
--- a/src/detail/search_engine.h
+++ b/src/detail/search_engine.h
@@ -155,7 +155,13 @@ namespace detail {
             return MBError::IN_DICT;
         }
         if (data.options & CONSTS::OPTION_KEY_ONLY) {
-            return MBError::SUCCESS;
+            if (isLeaf(edge_ptrs))
+                return MBError::SUCCESS;
+            // Path ends at an internal node, which may not hold an entry
+            uint8_t node_flag;
+            if (dict.mm.ReadData(&node_flag, 1, Get6BInteger(edge_ptrs.offset_ptr)) != 1)
+                return MBError::READ_ERROR;
+            return (node_flag & FLAG_NODE_MATCH) ? MBError::SUCCESS : MBError::NOT_EXIST;
         }
         return dict.ReadDataFromEdge(data, edge_ptrs);
     }
-- 
2.43.0


From fe8e8fc72ad0538861433de21ccbebb748a50acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 04/65] fix: never resolve a lookup through a stale prefix
 cache entry

Prefix cache entries are copies of edges, but nothing dropped them when the edge was removed
(Remove, RemoveAll, eviction), moved (resource collection) or left over from an earlier writer,
so Find returned removed keys or values of other keys.  Drop entries on removal and bulk moves,
start a writer with an empty cache, and use an entry only if the slot was not rewritten while
being copied and the edge it describes is unchanged.
---
 src/detail/search_engine.h |  6 ++++++
 src/dict.cpp               | 13 +++++++++++++
 src/dict.h                 |  2 ++
 src/mb_rc.cpp              |  3 +++
 src/util/prefix_cache.cpp  | 33 +++++++++++++++++++++++++++++----
 src/util/prefix_cache.h    |  2 ++
 6 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/src/detail/search_engine.h b/src/detail/search_engine.h
index 8813630..0457ed4 100644
--- a/src/detail/search_engine.h
+++ b/src/detail/search_engine.h
@@ -210,6 +210,12 @@ namespace detail {
         int lrem = len_remaining;
         int cons = consumed;
 
+        // The cached edge is usable only as long as the edge itself has not changed.
+        uint8_t curr_edge[EDGE_SIZE];
+        if (dict.mm.ReadData(curr_edge, EDGE_SIZE, entry.edge_offset) != EDGE_SIZE
+            || memcmp(curr_edge, entry.edge_buff, EDGE_SIZE) != 0)
+            return false;
+
         // Use cached edge directly (shared and non-shared behave identically here).
         edge_ptrs.offset = entry.edge_offset;
         memcpy(edge_ptrs.edge_buff, entry.edge_buff, EDGE_SIZE);
diff --git a/src/dict.cpp b/src/dict.cpp
index 0833d48..d0b81aa 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -140,6 +140,9 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
         if (want_cache) {
             try {
                 prefix_cache = std::unique_ptr<PrefixCache>(new PrefixCache(mbdir_, header, /*capacity hint*/65536));
+                // Entries left by a previous writer may describe edges that changed since
+                if (options & CONSTS::ACCESS_MODE_WRITER)
+                    prefix_cache->Clear();
             } catch (...) {
                 // Leave cache disabled on failure; DB remains operational.
             }
@@ -951,6 +954,7 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
         return MBError::INVALID_ARG;
 
     int rval;
+    const int orig_len = len;
     {
         detail::SearchEngine engine(*this);
         rval = engine.find(key, len, data);
@@ -973,6 +977,8 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
         }
     }
 
+    if (prefix_cache)
+        prefix_cache->Invalidate(key, orig_len);
     if (rval == MBError::SUCCESS) {
         header->count--;
     }
@@ -984,6 +990,7 @@ int Dict::RemoveAll()
 {
     int rval = MBError::SUCCESS;
 
+    ClearPrefixCache();
     mm.ClearMem(); // clear memory will re-initialize jemalloc
     if (options & CONSTS::OPTION_JEMALLOC) {
         mm.InitRootNode();
@@ -1374,6 +1381,12 @@ void Dict::PrintPrefixCacheStats(std::ostream& os) const
     }
 }
 
+void Dict::ClearPrefixCache()
+{
+    if (prefix_cache)
+        prefix_cache->Clear();
+}
+
 PrefixCache* Dict::ActivePrefixCache() const
 {
     if (prefix_cache)
diff --git a/src/dict.h b/src/dict.h
index a7bdfba..8f89973 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -133,6 +133,8 @@ public:
     // Unified prefix cache (shared-memory backed): automatically enabled
     // when the DB was created with embedded cache. Readers attach if present.
     PrefixCache* ActivePrefixCache() const;
+    // Drop all prefix cache entries, e.g. when edges are removed or moved in bulk
+    void ClearPrefixCache();
 
 private:
     // Allow internal SearchEngine to orchestrate lookups without exposing members publicly
diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index e6b2597..458957e 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -198,9 +198,12 @@ void ResourceCollection::ReclaimResource(int64_t min_index_size,
             rc_type & RESOURCE_COLLECTION_TYPE_DATA ? " yes" : "no");
         gettimeofday(&start, NULL);
 
+        // Every node and edge may move
+        dict->ClearPrefixCache();
         ReorderBuffers();
         CollectBuffers();
         Finish();
+        dict->ClearPrefixCache();
 
         gettimeofday(&stop, NULL);
         async_writer_ptr = NULL;
diff --git a/src/util/prefix_cache.cpp b/src/util/prefix_cache.cpp
index 8df7c6f..198474e 100644
--- a/src/util/prefix_cache.cpp
+++ b/src/util/prefix_cache.cpp
@@ -369,7 +369,11 @@ int PrefixCache::GetDepth(const uint8_t* key, int len, PrefixCacheEntry& out) co
             uint32_t t4 = tag4[idx4].load(std::memory_order_acquire);
             if (t4 == p4) {
                 out = tab4[idx4];
-                return 4;
+                // The slot may have been rewritten for another prefix while it was copied
+                std::atomic_thread_fence(std::memory_order_acquire);
+                if (valid4[idx4].load(std::memory_order_relaxed) != 0
+                    && tag4[idx4].load(std::memory_order_relaxed) == p4)
+                    return 4;
             }
         }
         // fall through to 3/2 below on miss or alias
@@ -382,7 +386,9 @@ int PrefixCache::GetDepth(const uint8_t* key, int len, PrefixCacheEntry& out) co
         uint32_t t3 = tag3[idx3].load(std::memory_order_acquire);
         if (t3 == (p3 + 1)) {
             out = tab3[idx3];
-            return 3;
+            std::atomic_thread_fence(std::memory_order_acquire);
+            if (tag3[idx3].load(std::memory_order_relaxed) == t3)
+                return 3;
         }
         // Fall back to 2-byte table using lower 2 bytes of p3 (LE)
         uint16_t p2 = static_cast<uint16_t>(p3 & 0xFFFFu);
@@ -390,7 +396,9 @@ int PrefixCache::GetDepth(const uint8_t* key, int len, PrefixCacheEntry& out) co
         uint32_t t2 = tag2[idx2].load(std::memory_order_acquire);
         if ((full2 && t2) || (!full2 && t2 == (static_cast<uint32_t>(p2) + 1))) {
             out = tab2[idx2];
-            return 2;
+            std::atomic_thread_fence(std::memory_order_acquire);
+            if (tag2[idx2].load(std::memory_order_relaxed) == t2)
+                return 2;
         }
         return 0;
     }
@@ -401,7 +409,9 @@ int PrefixCache::GetDepth(const uint8_t* key, int len, PrefixCacheEntry& out) co
         uint32_t t2 = tag2[idx2].load(std::memory_order_acquire);
         if ((full2 && t2) || (!full2 && t2 == (static_cast<uint32_t>(p2) + 1))) {
             out = tab2[idx2];
-            return 2;
+            std::atomic_thread_fence(std::memory_order_acquire);
+            if (tag2[idx2].load(std::memory_order_relaxed) == t2)
+                return 2;
         }
     }
     return 0;
@@ -548,6 +558,21 @@ void PrefixCache::Clear()
     }
 }
 
+// Drop the entries at depths 2/3/4 for the key's prefixes. Used by the writer when
+// the edges along the key's path are removed.
+void PrefixCache::Invalidate(const uint8_t* key, int len)
+{
+    uint32_t p4;
+    if (cap4 > 0 && build4(key, len, p4))
+        valid4[static_cast<size_t>(p4) & mask4].store(0u, std::memory_order_release);
+    uint32_t p3;
+    if (cap3 > 0 && build3(key, len, p3))
+        tag3[static_cast<size_t>(p3) & mask3].store(0u, std::memory_order_release);
+    uint16_t p2;
+    if (build2(key, len, p2))
+        tag2[static_cast<size_t>(p2) & mask2].store(0u, std::memory_order_release);
+}
+
 // Count populated slots in the 4-byte table using the valid[] bitmap.
 size_t PrefixCache::Size4() const
 {
diff --git a/src/util/prefix_cache.h b/src/util/prefix_cache.h
index 520da8e..a96ac63 100644
--- a/src/util/prefix_cache.h
+++ b/src/util/prefix_cache.h
@@ -95,6 +95,8 @@ public:
     size_t Memory3() const;
     size_t Memory4() const;
     void Clear();
+    // Drop the entries at every depth that the key maps to.
+    void Invalidate(const uint8_t* key, int len);
 
     // Simple counters for diagnostics (single-threaded use)
     uint64_t HitCount() const { return 0; }
-- 
2.43.0


From 0274a78ee4cb5bc88ea13f74c584260ed5cf4353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 05/65] fix: store a key of the maximal length of 256 bytes

The first key below a root edge becomes one edge, whose length is stored in one byte: a 256-byte
key, which is the documented maximum, was stored with length 0 and lost although Add succeeded.
Split such an edge in two.
---
 src/dict_mem.cpp | 30 ++++++++++++++++++++++++++++--
 src/drm_base.h   |  1 +
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 5c363ee..4d9cb86 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -278,6 +278,32 @@ bool DictMem::IsValid() const
 void DictMem::AddRootEdge(EdgePtrs& edge_ptrs, const uint8_t* key,
     int len, size_t data_offset)
 {
+    uint8_t edge_flag = EDGE_FLAG_DATA_OFF;
+    size_t edge_offset = data_offset;
+    if (len > MAX_EDGE_LEN) {
+        // The edge length is stored in one byte. Put the rest of the key
+        // into a child node with one edge.
+        NodePtrs node_ptrs;
+        EdgePtrs tail_edge;
+        uint8_t* node;
+        bool node_move = ReserveNode(0, node_ptrs.offset, node);
+        InitNodePtrs(node, 0, node_ptrs);
+        node[0] = FLAG_NODE_NONE | FLAG_NODE_SORTED;
+        node[1] = 0;
+        node_ptrs.edge_key_ptr[0] = key[MAX_EDGE_LEN];
+        InitEdgePtrs(node_ptrs, 0, tail_edge);
+        tail_edge.len_ptr[0] = len - MAX_EDGE_LEN;
+        memcpy(tail_edge.ptr, key + MAX_EDGE_LEN + 1, len - MAX_EDGE_LEN - 1);
+        tail_edge.flag_ptr[0] = EDGE_FLAG_DATA_OFF;
+        Write6BInteger(tail_edge.offset_ptr, data_offset);
+        if (node_move)
+            WriteData(node, node_size[0], node_ptrs.offset);
+        header->n_edges++;
+        edge_flag = 0;
+        edge_offset = node_ptrs.offset;
+        len = MAX_EDGE_LEN;
+    }
+
     edge_ptrs.len_ptr[0] = len;
     if (len > LOCAL_EDGE_LEN) {
         size_t edge_str_off;
@@ -287,8 +313,8 @@ void DictMem::AddRootEdge(EdgePtrs& edge_ptrs, const uint8_t* key,
         memcpy(edge_ptrs.ptr, key + 1, len - 1);
     }
 
-    edge_ptrs.flag_ptr[0] = EDGE_FLAG_DATA_OFF;
-    Write6BInteger(edge_ptrs.offset_ptr, data_offset);
+    edge_ptrs.flag_ptr[0] = edge_flag;
+    Write6BInteger(edge_ptrs.offset_ptr, edge_offset);
 
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
diff --git a/src/drm_base.h b/src/drm_base.h
index 0552e3c..dc7fe1f 100644
--- a/src/drm_base.h
+++ b/src/drm_base.h
@@ -39,6 +39,7 @@
 #define BUFFER_ALIGNMENT 1
 #define LOCAL_EDGE_LEN 6
 #define LOCAL_EDGE_LEN_M1 5
+#define MAX_EDGE_LEN 255 // edge length is stored in one byte
 #define EDGE_NODE_LEADING_POS 7
 #define EXCEP_STATUS_NONE 0
 #define EXCEP_STATUS_ADD_EDGE 1
-- 
2.43.0


From 18e82ef7233b28dd579edb2b9982174048ce55fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 06/65] fix: lower bound must consider sub-trees below the
 first edge and prefixes of the key

FindLowerBound missed entries when the first edge label was less than the key,
longer than the key or a leaf, compared labels past the end of the key, and
accumulated match_len over calls so that the bound key was wrong when MBData
was reused. A long edge label that is not mapped was left out of the bound key.
---
 src/db.cpp                   |  1 +
 src/detail/search_engine.cpp | 82 ++++++++++++++++++------------------
 2 files changed, 43 insertions(+), 40 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 9018d64..89d905a 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -935,6 +935,7 @@ int DB::FindLowerBound(const char* key, int len, MBData& data, std::string* boun
         return MBError::NOT_ALLOWED;
 
     data.options = 0;
+    data.match_len = 0;
     if (bound_key != nullptr)
         bound_key->reserve(CONSTS::MAX_KEY_LENGHTH);
     detail::SearchEngine engine(*dict);
diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index ca0c2eb..34e28ad 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -168,37 +168,32 @@ namespace detail {
             edge_label_ptr = edge_ptrs.ptr;
         }
 
-        if (edge_len < len) {
-            int label_cmp = memcmp(edge_label_ptr, key_cursor + 1, edge_label_len);
-            if (label_cmp != 0) {
-                if (label_cmp < 0) {
-                    bound_state.use_curr_edge = true;
-                    if (bound_key) {
-                        bound_key->push_back(static_cast<char>(key[0]));
-                        bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), edge_label_len);
-                    }
-                }
-                return readBoundFromRootEdge(edge_ptrs, data, root_key, bound_key);
+        // Compare no more than what is left of the key
+        int cmp_len = edge_len < len ? edge_label_len : len - 1;
+        int label_cmp = cmp_len > 0 ? memcmp(edge_label_ptr, key_cursor + 1, cmp_len) : 0;
+        if (label_cmp < 0) {
+            // All entries along this edge are less than the key
+            bound_state.use_curr_edge = true;
+            if (bound_key) {
+                bound_key->push_back(static_cast<char>(key[0]));
+                bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), edge_label_len);
             }
+            return MBError::NOT_EXIST;
+        }
+        // All entries along this edge are greater than the key
+        if (label_cmp > 0 || edge_len > len)
+            return readBoundFromRootEdge(edge_ptrs, data, root_key, bound_key);
 
+        if (edge_len < len && !(edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)) {
             len -= edge_len;
             key_cursor += edge_len;
             data.match_len += edge_len;
             rval = traverseToLowerBound(key_cursor, len, edge_ptrs, data, bound_edge_ptrs, bound_state);
-        } else if (edge_len == len) {
-            if (len > 1 && memcmp(edge_label_ptr, key + 1, len - 1) != 0) {
-                if (memcmp(edge_label_ptr, key + 1, len - 1) < 0) {
-                    bound_state.use_curr_edge = true;
-                    if (bound_key) {
-                        bound_key->append(reinterpret_cast<const char*>(key), data.match_len + 1);
-                        bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), len - 1);
-                    }
-                }
-            } else {
-                rval = dict.ReadDataFromEdge(data, edge_ptrs);
-                if (rval == MBError::SUCCESS)
-                    data.match_len += edge_len;
-            }
+        } else {
+            // The edge ends at the key or at a leaf, which is a prefix of the key
+            rval = dict.ReadDataFromEdge(data, edge_ptrs);
+            if (rval == MBError::SUCCESS)
+                data.match_len += edge_len;
         }
 
         return rval;
@@ -609,6 +604,11 @@ namespace detail {
         if (edge_len_m1 + 1 > LOCAL_EDGE_LEN) {
             size_t edge_str_off = Get5BInteger(edge_ptrs.ptr);
             uint8_t* edge_str_buff = dict.mm.GetShmPtr(edge_str_off, edge_len_m1);
+            uint8_t edge_str[NUM_ALPHABET];
+            if (edge_str_buff == nullptr && dict.mm.ReadData(edge_str, edge_len_m1, edge_str_off) == edge_len_m1) {
+                // not mapped
+                edge_str_buff = edge_str;
+            }
             if (edge_str_buff != nullptr) {
                 key->append((const char*)edge_str_buff, edge_len_m1);
             }
@@ -729,24 +729,26 @@ namespace detail {
             // Compare the remainder of the edge label with the remaining key bytes.
             // Any divergence returns NOT_EXIST to the caller, carrying the best
             // candidate captured so far in bound_edge_ptrs.
-            if (edge_label_len > 0) {
-                int label_cmp = memcmp(edge_label_ptr, key + 1, edge_label_len);
-                if (label_cmp != 0) {
-                    // If the edge label is strictly less than the key suffix, signal
-                    // that the current subtree itself is a valid lower-bound pivot.
-                    if (label_cmp < 0) {
-                        state.use_curr_edge = true;
-                        if (state.bound_key) {
-                            state.bound_key->append(reinterpret_cast<const char*>(state.key), data.match_len + 1);
-                            state.bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), edge_label_len);
-                        }
-                    }
-                    return MBError::NOT_EXIST;
-                }
-            } else if (edge_label_len < 0) {
+            if (edge_label_len < 0) {
                 // Malformed edge; treat as not found.
                 return MBError::NOT_EXIST;
             }
+            // Compare no more than what is left of the key.
+            int cmp_len = edge_len < len ? edge_label_len : len - 1;
+            int label_cmp = cmp_len > 0 ? memcmp(edge_label_ptr, key + 1, cmp_len) : 0;
+            if (label_cmp < 0) {
+                // If the edge label is strictly less than the key suffix, signal
+                // that the current subtree itself is a valid lower-bound pivot.
+                state.use_curr_edge = true;
+                if (state.bound_key) {
+                    state.bound_key->append(reinterpret_cast<const char*>(state.key), data.match_len + 1);
+                    state.bound_key->append(reinterpret_cast<const char*>(edge_label_ptr), edge_label_len);
+                }
+                return MBError::NOT_EXIST;
+            }
+            // All entries along this edge are greater than the key.
+            if (label_cmp > 0 || edge_len > len)
+                return MBError::NOT_EXIST;
 
             // Advance. If we've consumed all input or landed on a data edge,
             // read and return the value.
-- 
2.43.0


From 9f8a144174fab983f3a38baa7593c64a4d27ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 07/65] fix: iterate and prefix-match the entry whose data is
 at offset zero

The first data buffer in jemalloc mode is at offset zero, which was taken for
a missing value when the key ended at an internal node. Iteration stopped there.
---
 src/dict.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index d0b81aa..d49fc49 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -731,10 +731,8 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
 
 int Dict::ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const
 {
+    // Note offset zero is valid in jemalloc mode. Caller has checked the match flag.
     size_t data_off = Get6BInteger(node_ptr + 2);
-    if (data_off == 0)
-        return MBError::NOT_EXIST;
-
     data.data_offset = data_off;
 
     // Read data length first
-- 
2.43.0


From 4fe357f8462025fece8833dd4ad464aee8391bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 08/65] fix: report the length of the stored prefix as match
 length

An internal node without a value at the end of the query left its length in match_len.
---
 src/detail/search_engine.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 34e28ad..541bae7 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -269,8 +269,10 @@ namespace detail {
                         return _r;
                 }
 #endif
-                data.match_len = key_cursor - key;
-                return dict.ReadDataFromEdge(data, edge_ptrs);
+                rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                if (rval == MBError::SUCCESS)
+                    data.match_len = key_cursor - key;
+                return rval;
             }
 
             uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST];
@@ -280,8 +282,9 @@ namespace detail {
                 rval = dict.ReadDataFromNode(data, last_node_buffer);
         } else if (edge_len == len) {
             if (edge_len_m1 == 0 || memcmp(key_buff, key + 1, edge_len_m1) == 0) {
-                data.match_len = len;
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                if (rval == MBError::SUCCESS)
+                    data.match_len = len;
             }
         }
 
@@ -578,8 +581,10 @@ namespace detail {
             len -= edge_len;
             key_cursor += edge_len;
             if (len <= 0 || (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF)) {
-                data.match_len = key_cursor - key_base;
+                // The edge may end at a node without a value
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
+                if (rval == MBError::SUCCESS)
+                    data.match_len = key_cursor - key_base;
                 break;
             }
 #ifdef __LOCK_FREE__
-- 
2.43.0


From 3937f95ec87fabfae679f5c23ad7886d0d470bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 09/65] fix: keep the buffer bookkeeping of MBData when a
 prefix match comes from the rc tree

---
 src/detail/search_engine.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 541bae7..57d4c50 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -87,7 +87,10 @@ namespace detail {
 
         // Prefer the longer match: copy value and match_len when rc-path wins.
         if (data_rc.match_len > data.match_len) {
-            data_rc.TransferValueTo(data.buff, data.data_len);
+            uint8_t* rc_buff = nullptr;
+            int rc_len = 0;
+            data_rc.TransferValueTo(rc_buff, rc_len);
+            data.TransferValueFrom(rc_buff, rc_len);
             // Preserve the longer match length from rc-path.
             data.match_len = data_rc.match_len;
             rval = MBError::SUCCESS;
-- 
2.43.0


From 39e8767f125bad8cec40c338a1d7cfab37dd0e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 10/65] fix: reader handles must not own or reset the jemalloc
 arena of the writer

---
 src/dict.cpp          |  3 ++-
 src/rollable_file.cpp | 15 ++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index d49fc49..231e52e 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -128,7 +128,8 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
 
     // In jemalloc mode, ensure the data-file arena starts after the reserved
     // embedded prefix-cache region so allocations do not overwrite cache tables.
-    if ((options & CONSTS::OPTION_JEMALLOC) && header->pfxcache_size > 0) {
+    if ((options & CONSTS::ACCESS_MODE_WRITER) && (options & CONSTS::OPTION_JEMALLOC)
+        && header->pfxcache_size > 0) {
         // header->m_data_offset already points to the first user-data byte.
         // PreAlloc advances the arena's alloc_size to this offset for block 0.
         (void)kv_file->PreAlloc(header->m_data_offset);
diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 41ed77c..93e89d2 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -112,7 +112,8 @@ void RollableFile::InitShmSlidingAddr(std::atomic<size_t>* shm_sliding_addr)
 
 void RollableFile::Close()
 {
-    if (mode & CONSTS::OPTION_JEMALLOC) {
+    // The arena is shared with reader handles opened in the same process
+    if ((mode & CONSTS::OPTION_JEMALLOC) && (mode & CONSTS::ACCESS_MODE_WRITER)) {
         DestroyJemallocArena(false);
     }
     if (sliding_addr != NULL) {
@@ -153,11 +154,9 @@ int RollableFile::OpenAndMapBlockFile(size_t block_order, bool create_file)
         return MBError::NO_MEMORY;
     bool init_jem = false;
     if (block_order == 0 && (mode & CONSTS::OPTION_JEMALLOC)) {
-        // Check if jemalloc is initialized already
-        if (ResourcePool::getInstance().GetResourceByPath(path + "0") == nullptr) {
-            // mm_meta is only initialized for the first block
-            init_jem = true;
-        }
+        // mm_meta is only initialized for the first block
+        // Only writer allocates and therefore owns the arena
+        init_jem = (mode & CONSTS::ACCESS_MODE_WRITER);
     }
     files[block_order] = ResourcePool::getInstance().OpenFile(path + ss.str(),
         mode,
@@ -175,7 +174,9 @@ int RollableFile::OpenAndMapBlockFile(size_t block_order, bool create_file)
                     return rval;
                 }
             }
-            rval = ConfigureJemalloc(files[0]->mm_meta);
+            // Check if jemalloc is initialized already
+            if (files[0]->mm_meta->arena_index == 0)
+                rval = ConfigureJemalloc(files[0]->mm_meta);
         }
     } else if ((mode & CONSTS::MEMORY_ONLY_MODE) || (mode & CONSTS::OPTION_JEMALLOC)) {
         rval = MBError::MMAP_FAILED;
-- 
2.43.0


From ef9d29185dc0a8bc92472fc4f959822b4e734970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 11/65] fix: keep the prefix cache region reserved when
 RemoveAll resets the jemalloc arena

---
 src/dict.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dict.cpp b/src/dict.cpp
index 231e52e..3d9f451 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -994,6 +994,9 @@ int Dict::RemoveAll()
     if (options & CONSTS::OPTION_JEMALLOC) {
         mm.InitRootNode();
         kv_file->ResetJemalloc();
+        // The reset arena must not allocate from the embedded prefix cache region
+        if (header->pfxcache_size > 0)
+            (void)kv_file->PreAlloc(header->m_data_offset);
         for (int c = 0; c < NUM_ALPHABET; c++) {
             rval = mm.ClearRootEdge(c);
             if (rval != MBError::SUCCESS)
-- 
2.43.0


From 76e6be5b082025e14095d660199369eb43e01bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 12/65] fix: jemalloc keep-db restarts must not use up the
 blocks of a small db

---
 src/mb_rc.cpp         | 21 +++++++++++++++++++++
 src/mb_rc.h           |  4 ++++
 src/rollable_file.cpp |  5 +++--
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index 458957e..7c82cc7 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -83,6 +83,8 @@ ResourceCollection::ResourceCollection(const DB& db, int rct)
     : DBTraverseBase(db)
     , rc_type(rct)
 {
+    live_index_end = 0;
+    live_data_end = 0;
     evacuate_index_block_start = 0;
     evacuate_index_block_end = 0;
     evacuate_data_block_start = 0;
@@ -252,6 +254,15 @@ int ResourceCollection::StartupShrink()
         return MBError::INVALID_SIZE;
     }
 
+    // The existing blocks may contain no live buffer at all. The workspace only needs
+    // to be placed beyond the live buffers, otherwise the db takes more blocks at each
+    // restart until the maximum is reached.
+    live_index_end = 0;
+    live_data_end = 0;
+    TraverseDB(RESOURCE_COLLECTION_PHASE_FIND_LIVE_END);
+    index_tail = AlignUpToBlock(std::max(live_index_end, index_size), header->index_block_size);
+    data_tail = AlignUpToBlock(std::max(live_data_end, data_size), header->data_block_size);
+
     startup_rebuild_.Reset(REBUILD_STATE_COPY);
     startup_rebuild_.rebuild_index_alloc_end = index_tail;
     startup_rebuild_.rebuild_data_alloc_end = data_tail;
@@ -842,6 +853,16 @@ bool ResourceCollection::MoveDataBuffer(int phase, size_t& offset_src, int size)
 
 void ResourceCollection::DoTask(int phase, DBTraverseNode& dbt_node)
 {
+    if (phase == RESOURCE_COLLECTION_PHASE_FIND_LIVE_END) {
+        if (dbt_node.buffer_type & BUFFER_TYPE_NODE)
+            live_index_end = std::max(live_index_end, dbt_node.node_offset + dbt_node.node_size);
+        if (dbt_node.buffer_type & BUFFER_TYPE_EDGE_STR)
+            live_index_end = std::max(live_index_end, dbt_node.edgestr_offset + dbt_node.edgestr_size);
+        if (dbt_node.buffer_type & BUFFER_TYPE_DATA)
+            live_data_end = std::max(live_data_end, dbt_node.data_offset + dbt_node.data_size);
+        return;
+    }
+
     if (phase == RESOURCE_COLLECTION_PHASE_EVACUATE_INDEX) {
         header->excep_lf_offset = dbt_node.edge_offset;
         if (dbt_node.buffer_type & BUFFER_TYPE_NODE) {
diff --git a/src/mb_rc.h b/src/mb_rc.h
index a8667b3..5e679b5 100644
--- a/src/mb_rc.h
+++ b/src/mb_rc.h
@@ -31,6 +31,7 @@
 #define RESOURCE_COLLECTION_PHASE_COLLECT 0x02
 #define RESOURCE_COLLECTION_PHASE_EVACUATE_INDEX 0x04
 #define RESOURCE_COLLECTION_PHASE_EVACUATE_DATA 0x08
+#define RESOURCE_COLLECTION_PHASE_FIND_LIVE_END 0x10
 
 namespace mabain {
 
@@ -149,6 +150,9 @@ private:
     size_t evacuate_index_block_end;
     size_t evacuate_data_block_start;
     size_t evacuate_data_block_end;
+    // End of the last live buffer, determined before startup shrink
+    size_t live_index_end;
+    size_t live_data_end;
     StartupRebuildRuntimeState startup_rebuild_;
 };
 
diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 93e89d2..6204cf5 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -780,7 +780,7 @@ void* RollableFile::custom_extent_alloc(void* new_addr, size_t size, size_t alig
         aligned_offset = (relative_offset + alignment - 1) & ~(alignment - 1);
         if (aligned_offset + size > mgr->block_size) {
             if (!mm_meta->reusable_block_order.empty()) {
-                block_order = static_cast<int>(mm_meta->reusable_block_order.back());
+                block_order = static_cast<int>(mm_meta->reusable_block_order.front());
                 int rval = mgr->CheckAndOpenFile(block_order, true);
                 if (rval != MBError::SUCCESS) {
                     Logger::Log(LOG_LEVEL_ERROR, "custom_extent_alloc: arena %u failed to open"
@@ -797,7 +797,8 @@ void* RollableFile::custom_extent_alloc(void* new_addr, size_t size, size_t alig
                     g_jemalloc_alloc_error = MBError::NO_MEMORY;
                     return nullptr;
                 }
-                mm_meta->reusable_block_order.pop_back();
+                // Use lower blocks first to keep the live buffers away from the end
+                mm_meta->reusable_block_order.erase(mm_meta->reusable_block_order.begin());
                 mm_meta->active_reusable_block_order = block_order;
                 mm_meta->active_reusable_block_offset = size;
                 ptr = mgr->files[block_order]->GetMapAddr();
-- 
2.43.0


From 6db4288e9df26e325dd8d19998f728e2635879f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 13/65] fix: start a reopened jemalloc writer from fresh arena
 metadata

---
 src/rollable_file.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 6204cf5..eaf052c 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -168,15 +168,17 @@ int RollableFile::OpenAndMapBlockFile(size_t block_order, bool create_file)
     if (map_file) {
         mem_used += block_size;
         if (init_jem) {
-            if (files[0]->mm_meta == nullptr) {
+            // Check if jemalloc is initialized already
+            if (files[0]->mm_meta == nullptr || files[0]->mm_meta->arena_index == 0) {
+                // The metadata of an arena destroyed by a previous writer is stale
+                delete files[0]->mm_meta;
+                files[0]->mm_meta = nullptr;
                 rval = files[0]->InitMemoryManager();
                 if (rval != MBError::SUCCESS) {
                     return rval;
                 }
-            }
-            // Check if jemalloc is initialized already
-            if (files[0]->mm_meta->arena_index == 0)
                 rval = ConfigureJemalloc(files[0]->mm_meta);
+            }
         }
     } else if ((mode & CONSTS::MEMORY_ONLY_MODE) || (mode & CONSTS::OPTION_JEMALLOC)) {
         rval = MBError::MMAP_FAILED;
-- 
2.43.0


From f53f672c58e71081e8f33323bcb48ed3440373bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:40 +0000
Subject: [PATCH 14/65] fix: reserve the prefix cache region, not the last data
 offset, in the jemalloc arena

---
 src/dict.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 3d9f451..4c45bc4 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -130,9 +130,9 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
     // embedded prefix-cache region so allocations do not overwrite cache tables.
     if ((options & CONSTS::ACCESS_MODE_WRITER) && (options & CONSTS::OPTION_JEMALLOC)
         && header->pfxcache_size > 0) {
-        // header->m_data_offset already points to the first user-data byte.
-        // PreAlloc advances the arena's alloc_size to this offset for block 0.
-        (void)kv_file->PreAlloc(header->m_data_offset);
+        // PreAlloc advances the arena's alloc_size to the first user-data byte in block 0.
+        // Note header->m_data_offset can be in another block after a startup rebuild.
+        (void)kv_file->PreAlloc(GetStartDataOffset());
     }
     // Instantiate the prefix cache only if the DB has an embedded cache region
     // and the caller requested prefix cache via OPTION_PREFIX_CACHE.
@@ -996,7 +996,8 @@ int Dict::RemoveAll()
         kv_file->ResetJemalloc();
         // The reset arena must not allocate from the embedded prefix cache region
         if (header->pfxcache_size > 0)
-            (void)kv_file->PreAlloc(header->m_data_offset);
+            (void)kv_file->PreAlloc(GetStartDataOffset());
+        header->m_data_offset = GetStartDataOffset();
         for (int c = 0; c < NUM_ALPHABET; c++) {
             rval = mm.ClearRootEdge(c);
             if (rval != MBError::SUCCESS)
-- 
2.43.0


From b3c394c5b309694611aaab61c35c345a4ee1bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 15/65] fix: validate the whole path and the value of a
 lock-free lookup

A lookup checked only the last edge, took a new snapshot half way, and did not check anything
after reading the node header or the value, so lookups overlapping writer calls returned values of
other keys, torn values and errors.  The edge saved by the writer was also taken for the edge of
any key.  Remember the edges on the path and validate all of them after everything was read.
---
 src/detail/lf_guard.h        |  60 ++++--
 src/detail/search_engine.cpp | 364 ++++++++++-------------------------
 src/detail/search_engine.h   |   8 +-
 src/lock_free.cpp            |  42 ++++
 src/lock_free.h              |   7 +
 5 files changed, 206 insertions(+), 275 deletions(-)

diff --git a/src/detail/lf_guard.h b/src/detail/lf_guard.h
index e543803..237f975 100644
--- a/src/detail/lf_guard.h
+++ b/src/detail/lf_guard.h
@@ -4,25 +4,63 @@
  */
 #pragma once
 
-#ifdef __LOCK_FREE__
+#include <stddef.h>
+
+#include "error.h"
 #include "lock_free.h"
-#include "mb_data.h"
+#include "mabain_consts.h"
 
 namespace mabain {
 
-struct ReaderLFGuard {
-    LockFree& lf;
-    MBData& data;
-    LockFreeData snap;
-    explicit ReaderLFGuard(LockFree& l, MBData& d)
+// Everything a lookup reads (node, edge string, value) is reachable through the edges
+// on its path only, and the writer reports each edge it updates before the buffers
+// behind the edge are released. So the result of a lookup is valid if none of the
+// edges on the path was updated since the lookup was started.
+class ReaderLFGuard {
+public:
+    explicit ReaderLFGuard(LockFree& l)
         : lf(l)
-        , data(d)
     {
+        restart();
+    }
+    inline void restart()
+    {
+        num_edge = 0;
+#ifdef __LOCK_FREE__
         lf.ReaderLockFreeStart(snap);
+#endif
     }
-    inline int stop(size_t edge_off) { return lf.ReaderLockFreeStop(snap, edge_off, data); }
+    // Add an edge to the path. The edge must be checked before following it.
+    inline int visit(size_t edge_off)
+    {
+        if (num_edge >= MAX_PATH)
+            return MBError::TRY_AGAIN; // longer than any key
+        path[num_edge++] = edge_off;
+        return stop();
+    }
+    inline int stop() const
+    {
+#ifdef __LOCK_FREE__
+        return lf.ReaderValidate(snap, path, num_edge);
+#else
+        return MBError::SUCCESS;
+#endif
+    }
+    inline bool unchanged() const
+    {
+#ifdef __LOCK_FREE__
+        return lf.ReaderUnchanged(snap);
+#else
+        return true;
+#endif
+    }
+
+private:
+    static const int MAX_PATH = 260; // MAX_KEY_LENGHTH and the root edge
+    LockFree& lf;
+    LockFreeData snap;
+    int num_edge;
+    size_t path[MAX_PATH];
 };
 
 } // namespace mabain
-
-#endif // __LOCK_FREE__
diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 57d4c50..863c994 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -203,28 +203,31 @@ namespace detail {
     }
 
     int SearchEngine::findPrefixInternal(size_t root_off, const uint8_t* key, int len, MBData& data)
+    {
+        ReaderLFGuard lf_guard(dict.lfree);
+        int rval = findPrefixFromRoot(root_off, key, len, data, lf_guard);
+        // Validate everything that was read, including the value
+        if (lf_guard.stop() != MBError::SUCCESS)
+            return MBError::TRY_AGAIN;
+        return rval;
+    }
+
+    int SearchEngine::findPrefixFromRoot(size_t root_off, const uint8_t* key, int len, MBData& data,
+        ReaderLFGuard& lf_guard) const
     {
         int rval;
         EdgePtrs& edge_ptrs = data.edge_ptrs;
-#ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
-#endif
 
         rval = dict.mm.GetRootEdge(root_off, key[0], edge_ptrs);
         if (rval != MBError::SUCCESS) {
             return MBError::READ_ERROR;
         }
+        rval = lf_guard.visit(edge_ptrs.offset);
+        if (rval != MBError::SUCCESS)
+            return rval;
 
-        if (edge_ptrs.len_ptr[0] == 0) {
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_ptrs.offset);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
+        if (edge_ptrs.len_ptr[0] == 0)
             return MBError::NOT_EXIST;
-        }
 
         const uint8_t* key_buff;
         uint8_t* node_buff = data.node_buff;
@@ -233,16 +236,8 @@ namespace detail {
         int edge_len_m1 = edge_len - 1;
         if (edge_len > LOCAL_EDGE_LEN) {
             if (dict.mm.ReadData(node_buff, edge_len_m1, Get5BInteger(edge_ptrs.ptr))
-                != edge_len_m1) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
+                != edge_len_m1)
                 return MBError::READ_ERROR;
-            }
             key_buff = node_buff;
         } else {
             key_buff = edge_ptrs.ptr;
@@ -250,28 +245,13 @@ namespace detail {
 
         rval = MBError::NOT_EXIST;
         if (edge_len < len) {
-            if (edge_len > 1 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
+            if (edge_len > 1 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0)
                 return MBError::NOT_EXIST;
-            }
 
             len -= edge_len;
             key_cursor += edge_len;
 
             if (edge_ptrs.flag_ptr[0] & EDGE_FLAG_DATA_OFF) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
                 if (rval == MBError::SUCCESS)
                     data.match_len = key_cursor - key;
@@ -280,7 +260,8 @@ namespace detail {
 
             uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST];
             int last_prefix_rval = MBError::NOT_EXIST;
-            rval = traversePrefixFromEdge(key, key_cursor, len, edge_ptrs, data, last_prefix_rval, last_node_buffer);
+            rval = traversePrefixFromEdge(key, key_cursor, len, edge_ptrs, data, last_prefix_rval,
+                last_node_buffer, lf_guard);
             if (rval == MBError::NOT_EXIST && last_prefix_rval != rval)
                 rval = dict.ReadDataFromNode(data, last_node_buffer);
         } else if (edge_len == len) {
@@ -290,250 +271,133 @@ namespace detail {
                     data.match_len = len;
             }
         }
-
-#ifdef __LOCK_FREE__
-        {
-            int _r = lf_guard.stop(edge_ptrs.offset);
-            if (_r != MBError::SUCCESS)
-                return _r;
-        }
-#endif
         return rval;
     }
 
     int SearchEngine::findInternal(size_t root_off, const uint8_t* key, int len, MBData& data)
     {
-        EdgePtrs& edge_ptrs = data.edge_ptrs;
         int rval;
-        const uint8_t* key_cursor = key;
-        int orig_len = len;
-        int consumed = 0;
-        const uint8_t* key_buff;
+        ReaderLFGuard lf_guard(dict.lfree);
         // Do not seed from prefix cache for operations that require
         // precise parent/edge bookkeeping (e.g., remove) or during rc view.
         bool use_cache = true
             && !(dict.reader_rc_off != 0 && root_off == dict.reader_rc_off)
             && !(data.options & CONSTS::OPTION_FIND_AND_STORE_PARENT);
-        bool used_cache = use_cache ? seedFromCache(key, len, edge_ptrs, data, key_cursor, len, consumed) : false;
-
-        if (!used_cache) {
-#ifdef __LOCK_FREE__
-            ReaderLFGuard lf_guard(dict.lfree, data);
-#endif
-
-            rval = dict.mm.GetRootEdge(root_off, key[0], edge_ptrs);
-            if (rval != MBError::SUCCESS) {
-                return MBError::READ_ERROR;
-            }
-            if (edge_ptrs.len_ptr[0] == 0) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
+        if (use_cache) {
+            EdgePtrs& edge_ptrs = data.edge_ptrs;
+            const uint8_t* key_cursor = key;
+            int remain = len;
+            int consumed = 0;
+            if (seedFromCache(key, len, edge_ptrs, data, key_cursor, remain, consumed)) {
+                // The edges above the cached one are not known. So the result can only
+                // be used if there was no update at all.
+                if (lf_guard.unchanged()) {
+                    if (remain <= 0)
+                        rval = resolveMatchOrInDict(data, edge_ptrs, false);
+                    else if (isLeaf(edge_ptrs))
+                        rval = MBError::NOT_EXIST;
+                    else
+                        rval = traverseFromEdge(key_cursor, remain, data, lf_guard);
+                    if (lf_guard.unchanged())
+                        return rval;
                 }
-#endif
-                return MBError::NOT_EXIST;
+                // Search again from root
+                lf_guard.restart();
             }
+        }
 
-            int edge_len = edge_ptrs.len_ptr[0];
-            int edge_len_m1 = edge_len - 1;
-            rval = MBError::NOT_EXIST;
-            if ((rval = loadEdgeKey(edge_ptrs, data, key_buff, edge_len_m1)) != MBError::SUCCESS) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::READ_ERROR;
-            }
+        rval = findFromRoot(root_off, key, len, data, lf_guard);
+        // Validate everything that was read, including the value
+        if (lf_guard.stop() != MBError::SUCCESS)
+            return MBError::TRY_AGAIN;
+        return rval;
+    }
 
-            if (edge_len < len) {
-                if (!remainderMatches(key_buff, key_cursor, edge_len_m1)) {
-#ifdef __LOCK_FREE__
-                    {
-                        int _r = lf_guard.stop(edge_ptrs.offset);
-                        if (_r != MBError::SUCCESS)
-                            return _r;
-                    }
-#endif
-                    return MBError::NOT_EXIST;
-                }
-                key_cursor += edge_len;
-                consumed += edge_len;
-                len -= edge_len;
-                if (len <= 0) {
-                    return resolveMatchOrInDict(data, edge_ptrs, true);
-                }
-                if (isLeaf(edge_ptrs)) {
-#ifdef __LOCK_FREE__
-                    {
-                        int _r = lf_guard.stop(edge_ptrs.offset);
-                        if (_r != MBError::SUCCESS)
-                            return _r;
-                    }
-#endif
-                    return MBError::NOT_EXIST;
-                }
-                // Find does not update prefix cache; writer seeds during Add
-            } else if (edge_len == len) {
-                if (remainderMatches(key_buff, key_cursor, edge_len_m1)) {
-                    // Find does not update prefix cache; writer seeds during Add
-                    return resolveMatchOrInDict(data, edge_ptrs, true);
-                }
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::NOT_EXIST;
-            } else {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
-                return MBError::NOT_EXIST;
-            }
+    int SearchEngine::findFromRoot(size_t root_off, const uint8_t* key, int len, MBData& data,
+        ReaderLFGuard& lf_guard)
+    {
+        EdgePtrs& edge_ptrs = data.edge_ptrs;
+        const uint8_t* key_buff;
 
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_ptrs.offset);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
-        }
+        int rval = dict.mm.GetRootEdge(root_off, key[0], edge_ptrs);
+        if (rval != MBError::SUCCESS)
+            return MBError::READ_ERROR;
+        rval = lf_guard.visit(edge_ptrs.offset);
+        if (rval != MBError::SUCCESS)
+            return rval;
 
-        if (used_cache) {
-            if (len <= 0)
-                return resolveMatchOrInDict(data, edge_ptrs, false);
-            if (isLeaf(edge_ptrs))
-                return MBError::NOT_EXIST;
-        }
-        return traverseFromEdge(key_cursor, len, consumed, key, orig_len, edge_ptrs, data);
+        int edge_len = edge_ptrs.len_ptr[0];
+        int edge_len_m1 = edge_len - 1;
+        if (edge_len == 0 || edge_len > len)
+            return MBError::NOT_EXIST;
+        if (loadEdgeKey(edge_ptrs, data, key_buff, edge_len_m1) != MBError::SUCCESS)
+            return MBError::READ_ERROR;
+        if (!remainderMatches(key_buff, key, edge_len_m1))
+            return MBError::NOT_EXIST;
+        // Find does not update prefix cache; writer seeds during Add
+        if (edge_len == len)
+            return resolveMatchOrInDict(data, edge_ptrs, true);
+        if (isLeaf(edge_ptrs))
+            return MBError::NOT_EXIST;
+        return traverseFromEdge(key + edge_len, len - edge_len, data, lf_guard);
     }
 
-    int SearchEngine::traverseFromEdge(const uint8_t*& key_cursor, int& len, int& consumed,
-        const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data)
+    int SearchEngine::traverseFromEdge(const uint8_t* key_cursor, int len, MBData& data,
+        ReaderLFGuard& lf_guard)
     {
-
+        EdgePtrs& edge_ptrs = data.edge_ptrs;
         const uint8_t* key_buff;
         uint8_t* node_buff = data.node_buff;
-        int rval = MBError::SUCCESS;
-#ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
-        size_t edge_offset_prev = edge_ptrs.offset;
-#else
-        size_t edge_offset_prev = edge_ptrs.offset;
-#endif
+        int rval;
         int steps = 0;
         while (true) {
-            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
+            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT)
                 return MBError::UNKNOWN_ERROR;
-            }
             if (data.options & CONSTS::OPTION_FIND_AND_STORE_PARENT) {
                 rval = dict.mm.NextEdge(key_cursor, edge_ptrs, node_buff, data);
             } else {
                 // Try fast path first; on any non-success, fall back to the
                 // generic path which is more permissive and uses RandomRead.
-                int rf = dict.mm.NextEdgeFast(key_cursor, edge_ptrs, data);
-                if (rf != MBError::SUCCESS) {
+                rval = dict.mm.NextEdgeFast(key_cursor, edge_ptrs, data);
+                if (rval != MBError::SUCCESS)
                     rval = dict.mm.NextEdge(key_cursor, edge_ptrs, node_buff, data);
-                } else {
-                    rval = rf;
-                }
             }
             if (rval != MBError::SUCCESS)
-                break;
+                return rval;
+            rval = lf_guard.visit(edge_ptrs.offset);
+            if (rval != MBError::SUCCESS)
+                return rval;
 
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_offset_prev);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
             // The rest of the key is shorter than the edge label: no match
-            if (edge_len > len) {
-                rval = MBError::NOT_EXIST;
-                break;
-            }
+            if (edge_len > len)
+                return MBError::NOT_EXIST;
             rval = compareCurrEdgeTail(edge_ptrs, data, key_cursor, key_buff, edge_len, edge_len_m1);
-            if (rval == MBError::READ_ERROR)
-                break;
-            if (rval == MBError::NOT_EXIST)
-                break;
+            if (rval != MBError::SUCCESS)
+                return rval;
 
             len -= edge_len;
-            if (len <= 0) {
-                int _ret = resolveMatchOrInDict(data, edge_ptrs, false);
-                return _ret;
-            }
-            if (isLeaf(edge_ptrs)) {
+            if (len <= 0)
+                return resolveMatchOrInDict(data, edge_ptrs, false);
+            if (isLeaf(edge_ptrs))
                 return MBError::NOT_EXIST;
-            }
-
             key_cursor += edge_len;
-            consumed += edge_len;
             // Find does not update prefix cache; writer seeds during Add
-#ifdef __LOCK_FREE__
-            edge_offset_prev = edge_ptrs.offset;
-#else
-            edge_offset_prev = edge_ptrs.offset;
-#endif
-        }
-
-#ifdef __LOCK_FREE__
-        {
-            int _r = lf_guard.stop(edge_ptrs.offset);
-            if (_r != MBError::SUCCESS)
-                return _r;
         }
-#endif
-
-        return rval;
     }
 
     int SearchEngine::traversePrefixFromEdge(const uint8_t* key_base, const uint8_t*& key_cursor, int& len,
-        EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval, uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST]) const
+        EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval, uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST],
+        ReaderLFGuard& lf_guard) const
     {
         int rval;
         uint8_t* node_buff = data.node_buff;
-#ifdef __LOCK_FREE__
-        ReaderLFGuard lf_guard(dict.lfree, data);
-        size_t edge_offset_prev = edge_ptrs.offset;
-#else
-        size_t edge_offset_prev = edge_ptrs.offset;
-#endif
         const uint8_t* key_buff;
         int steps = 0;
         while (true) {
-            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT) {
-#ifdef __LOCK_FREE__
-                {
-                    int _r = lf_guard.stop(edge_ptrs.offset);
-                    if (_r != MBError::SUCCESS)
-                        return _r;
-                }
-#endif
+            if (++steps > CONSTS::FIND_TRAVERSAL_LIMIT)
                 return MBError::UNKNOWN_ERROR;
-            }
             // For prefix traversal we must read the node header into node_buff
             // to detect FLAG_NODE_MATCH at internal nodes. NextEdgeFast does not
             // populate node_buff and would miss recording the last matching node.
@@ -547,39 +411,29 @@ namespace detail {
             }
 
             if (rval != MBError::SUCCESS)
-                break;
+                return rval;
+            rval = lf_guard.visit(edge_ptrs.offset);
+            if (rval != MBError::SUCCESS)
+                return rval;
 
-#ifdef __LOCK_FREE__
-            {
-                int _r = lf_guard.stop(edge_offset_prev);
-                if (_r != MBError::SUCCESS)
-                    return _r;
-            }
-#endif
             int edge_len = edge_ptrs.len_ptr[0];
             int edge_len_m1 = edge_len - 1;
             // The rest of the key is shorter than the edge label: no match
-            if (edge_len > len) {
-                rval = MBError::NOT_EXIST;
-                break;
-            }
+            if (edge_len > len)
+                return MBError::NOT_EXIST;
             // match edge string
             if (edge_len > LOCAL_EDGE_LEN) {
                 size_t edge_str_off = Get5BInteger(edge_ptrs.ptr);
-                if (dict.mm.ReadData(node_buff, edge_len_m1, edge_str_off) != edge_len_m1) {
-                    rval = MBError::READ_ERROR;
-                    break;
-                }
+                if (dict.mm.ReadData(node_buff, edge_len_m1, edge_str_off) != edge_len_m1)
+                    return MBError::READ_ERROR;
                 key_buff = node_buff;
             } else {
                 key_buff = edge_ptrs.ptr;
             }
 
             // Compare remainder of the edge string when present and ensure edge is valid
-            if (edge_len == 0 || (edge_len_m1 > 0 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0)) {
-                rval = MBError::NOT_EXIST;
-                break;
-            }
+            if (edge_len == 0 || (edge_len_m1 > 0 && memcmp(key_buff, key_cursor + 1, edge_len_m1) != 0))
+                return MBError::NOT_EXIST;
 
             len -= edge_len;
             key_cursor += edge_len;
@@ -588,21 +442,9 @@ namespace detail {
                 rval = dict.ReadDataFromEdge(data, edge_ptrs);
                 if (rval == MBError::SUCCESS)
                     data.match_len = key_cursor - key_base;
-                break;
+                return rval;
             }
-#ifdef __LOCK_FREE__
-            edge_offset_prev = edge_ptrs.offset;
-#endif
-        }
-
-#ifdef __LOCK_FREE__
-        {
-            int _r = lf_guard.stop(edge_ptrs.offset);
-            if (_r != MBError::SUCCESS)
-                return _r;
         }
-#endif
-        return rval;
     }
 
     void SearchEngine::appendEdgeKey(std::string* key, int edge_key, const EdgePtrs& edge_ptrs) const
diff --git a/src/detail/search_engine.h b/src/detail/search_engine.h
index 0457ed4..61a29d8 100644
--- a/src/detail/search_engine.h
+++ b/src/detail/search_engine.h
@@ -54,14 +54,16 @@ namespace detail {
         // Exact-find internals
         inline int tryFindAtRoot(size_t root_off, const uint8_t* key, int len, MBData& data);
         int findInternal(size_t root_off, const uint8_t* key, int len, MBData& data);
-        int traverseFromEdge(const uint8_t*& key_cursor, int& len, int& consumed,
-            const uint8_t* full_key, int full_len, EdgePtrs& edge_ptrs, MBData& data);
+        int findFromRoot(size_t root_off, const uint8_t* key, int len, MBData& data, ReaderLFGuard& lf_guard);
+        int traverseFromEdge(const uint8_t* key_cursor, int len, MBData& data, ReaderLFGuard& lf_guard);
 
         // Prefix internals
         int findPrefixInternal(size_t root_off, const uint8_t* key, int len, MBData& data);
+        int findPrefixFromRoot(size_t root_off, const uint8_t* key, int len, MBData& data,
+            ReaderLFGuard& lf_guard) const;
         int traversePrefixFromEdge(const uint8_t* key_base, const uint8_t*& key_cursor, int& len,
             EdgePtrs& edge_ptrs, MBData& data, int& last_prefix_rval,
-            uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST]) const;
+            uint8_t last_node_buffer[NODE_EDGE_KEY_FIRST], ReaderLFGuard& lf_guard) const;
 
         // Small helpers
         // Exact-match path helper: always copy edge tail into node_buff
diff --git a/src/lock_free.cpp b/src/lock_free.cpp
index 0323324..bb33807 100644
--- a/src/lock_free.cpp
+++ b/src/lock_free.cpp
@@ -133,4 +133,46 @@ int LockFree::ReaderLockFreeStop(const LockFreeData& snapshot, size_t reader_off
     return MBError::SUCCESS;
 }
 
+//////////////////////////////////////////////////
+// DO NOT CHANGE THE LOAD ORDER IN THIS FUNCTION.
+//////////////////////////////////////////////////
+int LockFree::ReaderValidate(const LockFreeData& snapshot, const size_t* edge_offsets, int num_edge) const
+{
+    // All reads of the reader must be done before checking for updates
+    std::atomic_thread_fence(MEMORY_ORDER_READER);
+    size_t curr_offset = shm_data_ptr->offset.load(MEMORY_ORDER_READER);
+    uint32_t count_diff = shm_data_ptr->counter.load(MEMORY_ORDER_READER) - snapshot.counter;
+
+    if (curr_offset != MAX_6B_OFFSET) {
+        for (int i = 0; i < num_edge; i++) {
+            if (edge_offsets[i] == curr_offset)
+                return MBError::TRY_AGAIN;
+        }
+    }
+    if (count_diff == 0)
+        return MBError::SUCCESS;
+    if (count_diff >= MAX_OFFSET_CACHE)
+        return MBError::TRY_AGAIN; // Cache is overwritten. Have to retry.
+
+    for (unsigned i = 0; i < count_diff; i++) {
+        int index = (snapshot.counter + i) % MAX_OFFSET_CACHE;
+        size_t changed_offset = shm_data_ptr->offset_cache[index].load(MEMORY_ORDER_READER);
+        for (int j = 0; j < num_edge; j++) {
+            if (edge_offsets[j] == changed_offset)
+                return MBError::TRY_AGAIN;
+        }
+    }
+
+    // Need to recheck the counter difference
+    count_diff = shm_data_ptr->counter.load(MEMORY_ORDER_READER) - snapshot.counter;
+    return count_diff < MAX_OFFSET_CACHE ? MBError::SUCCESS : MBError::TRY_AGAIN;
+}
+
+bool LockFree::ReaderUnchanged(const LockFreeData& snapshot) const
+{
+    std::atomic_thread_fence(MEMORY_ORDER_READER);
+    return shm_data_ptr->offset.load(MEMORY_ORDER_READER) == MAX_6B_OFFSET
+        && shm_data_ptr->counter.load(MEMORY_ORDER_READER) == snapshot.counter;
+}
+
 }
diff --git a/src/lock_free.h b/src/lock_free.h
index 7549508..51a64d3 100644
--- a/src/lock_free.h
+++ b/src/lock_free.h
@@ -59,6 +59,11 @@ public:
     // If there was race condition, this function returns MBError::TRY_AGAIN.
     int ReaderLockFreeStop(const LockFreeData& snapshot, size_t reader_offset,
         MBData& mbdata);
+    // Check the edges (given by their offsets) a reader went through since the snapshot was taken.
+    // MBError::SUCCESS is returned if none of them was or is being updated by the writer.
+    int ReaderValidate(const LockFreeData& snapshot, const size_t* edge_offsets, int num_edge) const;
+    // Same as above for all the edges in the DB
+    bool ReaderUnchanged(const LockFreeData& snapshot) const;
 
 private:
     LockFreeShmData* shm_data_ptr;
@@ -68,6 +73,8 @@ private:
 inline void LockFree::WriterLockFreeStart(size_t offset)
 {
     shm_data_ptr->offset.store(offset, MEMORY_ORDER_WRITER);
+    // The offset must be visible to readers before any update
+    std::atomic_thread_fence(MEMORY_ORDER_WRITER);
 }
 
 inline void LockFree::ReaderLockFreeStart(LockFreeData& snapshot)
-- 
2.43.0


From 2026d6aa7002009be21ce8712eaf71a256c73668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 16/65] fix: release buffers only after they are disconnected
 from the tree

Nodes, edge strings and values were released (and could be reused by the same call) while readers
still could reach them through the old edge.  Removing the last entry below a node released the
nodes bottom-up before the edge above was updated.  Disconnect with a single edge update first, and
report the update when the match flag of a node is cleared.
---
 src/dict.cpp     | 78 +++++++++++++++++++++++++++++++++---------------
 src/dict.h       |  3 +-
 src/dict_mem.cpp | 68 ++++++++++++++++++++++++++++++++---------
 src/dict_mem.h   | 11 +++++++
 4 files changed, 121 insertions(+), 39 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 4c45bc4..1a23e19 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -673,8 +673,9 @@ int Dict::ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const
 // Delete operations:
 //   If this is a leaf node, need to remove the edge. Otherwise, unset the match flag.
 //   Also need to set the delete flag in the data block so that it can be reclaimed later.
-int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
+int Dict::DeleteDataFromEdge(const uint8_t* key, int len, MBData& data)
 {
+    EdgePtrs& edge_ptrs = data.edge_ptrs;
     int rval = MBError::SUCCESS;
     size_t data_off;
     uint16_t data_len;
@@ -691,8 +692,10 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
         } else {
             rel_size = free_lists->GetAlignmentSize(data_len + DATA_HDR_BYTE);
         }
-        ReleaseBuffer(data_off, rel_size);
-        rval = mm.RemoveEdgeByIndex(edge_ptrs, data);
+        rval = RemoveLeafEdge(key, len, data);
+        // Readers may use the data until the edge is removed
+        if (rval == MBError::SUCCESS)
+            ReleaseBuffer(data_off, rel_size);
     } else {
         // No exception handling in this case
         header->excep_lf_offset = 0;
@@ -708,7 +711,13 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
         if (node_buff[0] & FLAG_NODE_MATCH) {
             // Unset the match flag
             node_buff[0] &= ~FLAG_NODE_MATCH;
+#ifdef __LOCK_FREE__
+            lfree.WriterLockFreeStart(edge_ptrs.offset);
+#endif
             mm.WriteData(&node_buff[0], 1, node_off);
+#ifdef __LOCK_FREE__
+            lfree.WriterLockFreeStop();
+#endif
 
             // Release data buffer
             data_off = Get6BInteger(node_buff + 2);
@@ -730,6 +739,37 @@ int Dict::DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs)
     return rval;
 }
 
+// Remove the leaf edge found for the key, including the nodes above that do not hold anything else.
+// The nodes are disconnected by a single edge update, and must not be released before that.
+int Dict::RemoveLeafEdge(const uint8_t* key, int len, MBData& data)
+{
+    std::vector<EmptyNode> empty_nodes;
+    EmptyNode node;
+    int rval;
+
+    while ((rval = mm.GetEmptyNode(data.edge_ptrs, node)) == MBError::SUCCESS) {
+        empty_nodes.push_back(node);
+        len -= data.edge_ptrs.len_ptr[0];
+#ifdef __DEBUG__
+        assert(len > 0);
+#endif
+        data.Clear();
+        detail::SearchEngine engine(*this);
+        rval = engine.find(key, len, data);
+        if (rval != MBError::IN_DICT)
+            return rval;
+    }
+    if (rval != MBError::NOT_EXIST)
+        return rval;
+
+    rval = mm.RemoveEdgeByIndex(data.edge_ptrs, data);
+    if (rval == MBError::SUCCESS) {
+        for (size_t i = 0; i < empty_nodes.size(); i++)
+            mm.ReleaseEmptyNode(empty_nodes[i]);
+    }
+    return rval;
+}
+
 int Dict::ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const
 {
     // Note offset zero is valid in jemalloc mode. Caller has checked the match flag.
@@ -953,31 +993,16 @@ int Dict::Remove(const uint8_t* key, int len, MBData& data)
         return MBError::INVALID_ARG;
 
     int rval;
-    const int orig_len = len;
     {
         detail::SearchEngine engine(*this);
         rval = engine.find(key, len, data);
     }
     if (rval == MBError::IN_DICT) {
-        rval = DeleteDataFromEdge(data, data.edge_ptrs);
-        while (rval == MBError::TRY_AGAIN) {
-            data.Clear();
-            len -= data.edge_ptrs.len_ptr[0];
-#ifdef __DEBUG__
-            assert(len > 0);
-#endif
-            {
-                detail::SearchEngine engine(*this);
-                rval = engine.find(key, len, data);
-            }
-            if (MBError::IN_DICT == rval) {
-                rval = mm.RemoveEdgeByIndex(data.edge_ptrs, data);
-            }
-        }
+        rval = DeleteDataFromEdge(key, len, data);
     }
 
     if (prefix_cache)
-        prefix_cache->Invalidate(key, orig_len);
+        prefix_cache->Invalidate(key, len);
     if (rval == MBError::SUCCESS) {
         header->count--;
     }
@@ -1199,8 +1224,7 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         mbd.data_offset = Get6BInteger(edge_ptrs.offset_ptr);
         if (!overwrite)
             return MBError::IN_DICT;
-        if (ReleaseBuffer(mbd.data_offset) != MBError::SUCCESS)
-            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer: %llu", mbd.data_offset);
+        size_t old_data_offset = mbd.data_offset;
         ReserveData(mbd.buff, mbd.data_len, mbd.data_offset);
         Write6BInteger(edge_ptrs.offset_ptr, mbd.data_offset);
 
@@ -1215,6 +1239,9 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         lfree.WriterLockFreeStop();
 #endif
         header->excep_updating_status = EXCEP_STATUS_NONE;
+        // Readers may use the old data until the edge is updated
+        if (ReleaseBuffer(old_data_offset) != MBError::SUCCESS)
+            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer: %llu", old_data_offset);
     } else {
         uint8_t* node_buff = header->excep_buff;
         size_t node_off = Get6BInteger(edge_ptrs.offset_ptr);
@@ -1222,13 +1249,13 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         if (mm.ReadData(node_buff, NODE_EDGE_KEY_FIRST, node_off) != NODE_EDGE_KEY_FIRST)
             return MBError::READ_ERROR;
 
+        size_t old_data_offset = 0;
         if (node_buff[0] & FLAG_NODE_MATCH) {
             inc_count = false;
             mbd.data_offset = Get6BInteger(node_buff + 2);
             if (!overwrite)
                 return MBError::IN_DICT;
-            if (ReleaseBuffer(mbd.data_offset) != MBError::SUCCESS)
-                Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer %llu", mbd.data_offset);
+            old_data_offset = mbd.data_offset;
             node_buff[NODE_EDGE_KEY_FIRST] = 0;
         } else {
             // set the match flag
@@ -1251,6 +1278,9 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
         lfree.WriterLockFreeStop();
 #endif
         header->excep_updating_status = EXCEP_STATUS_NONE;
+        // Readers may use the old data until the node is updated
+        if (!inc_count && ReleaseBuffer(old_data_offset) != MBError::SUCCESS)
+            Logger::Log(LOG_LEVEL_WARN, "failed to release data buffer %llu", old_data_offset);
     }
 
     return MBError::SUCCESS;
diff --git a/src/dict.h b/src/dict.h
index 8f89973..d1b4fba 100644
--- a/src/dict.h
+++ b/src/dict.h
@@ -147,7 +147,8 @@ private:
     int UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, bool& inc_count);
     int ReadDataFromEdge(MBData& data, const EdgePtrs& edge_ptrs) const;
     int ReadDataFromNode(MBData& data, const uint8_t* node_ptr) const;
-    int DeleteDataFromEdge(MBData& data, EdgePtrs& edge_ptrs);
+    int DeleteDataFromEdge(const uint8_t* key, int len, MBData& data);
+    int RemoveLeafEdge(const uint8_t* key, int len, MBData& data);
     int ReadNodeMatch(size_t node_off, int& match, MBData& data) const;
     int SHMQ_PrepareSlot(AsyncNode* node_ptr);
     AsyncNode* SHMQ_AcquireSlot(int& err) const;
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 4d9cb86..01ea6bf 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -457,8 +457,6 @@ int DictMem::InsertNode(EdgePtrs& edge_ptrs, int match_len,
     if (node_move)
         WriteData(node, node_size[0], node_ptrs.offset);
 
-    if (release_buffer_size > 0)
-        ReleaseBuffer(edge_str_off, release_buffer_size);
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
     header->excep_updating_status = EXCEP_STATUS_ADD_EDGE;
@@ -469,6 +467,9 @@ int DictMem::InsertNode(EdgePtrs& edge_ptrs, int match_len,
     lfree->WriterLockFreeStop();
     header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    // Readers may use the old edge string until the edge is updated
+    if (release_buffer_size > 0)
+        ReleaseBuffer(edge_str_off, release_buffer_size);
 
     header->n_edges++;
     return MBError::SUCCESS;
@@ -562,8 +563,6 @@ int DictMem::AddLink(EdgePtrs& edge_ptrs, int match_len, const uint8_t* key,
         WriteData(node, node_size[1], node_ptrs.offset);
 
     // Update the parent edge
-    if (release_buffer_size > 0)
-        ReleaseBuffer(edge_str_off, release_buffer_size);
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
     header->excep_updating_status = EXCEP_STATUS_ADD_EDGE;
@@ -575,6 +574,10 @@ int DictMem::AddLink(EdgePtrs& edge_ptrs, int match_len, const uint8_t* key,
     header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
 
+    // Readers may use the old edge string until the edge is updated
+    if (release_buffer_size > 0)
+        ReleaseBuffer(edge_str_off, release_buffer_size);
+
     header->n_edges += 2;
     return MBError::SUCCESS;
 }
@@ -694,8 +697,6 @@ int DictMem::UpdateNode(EdgePtrs& edge_ptrs, const uint8_t* key, int key_len,
     if (node_move)
         WriteData(node, node_size[nt], node_ptrs.offset);
 
-    if (release_node_index >= 0)
-        ReleaseNode(old_node_off, release_node_index);
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
     header->excep_updating_status = EXCEP_STATUS_ADD_EDGE;
@@ -706,6 +707,9 @@ int DictMem::UpdateNode(EdgePtrs& edge_ptrs, const uint8_t* key, int key_len,
     lfree->WriterLockFreeStop();
     header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    // Readers may use the old node until the edge is updated
+    if (release_node_index >= 0)
+        ReleaseNode(old_node_off, release_node_index);
 
     header->n_edges++;
     return MBError::SUCCESS;
@@ -1317,8 +1321,12 @@ void DictMem::RemoveRootEdge(const EdgePtrs& edge_ptrs)
 {
     // Clear the edge
     // Root node needs special handling.
-    if (edge_ptrs.len_ptr[0] > LOCAL_EDGE_LEN)
-        ReleaseBuffer(Get5BInteger(edge_ptrs.ptr), edge_ptrs.len_ptr[0] - 1);
+    size_t edge_str_off = 0;
+    int edge_str_size = 0;
+    if (edge_ptrs.len_ptr[0] > LOCAL_EDGE_LEN) {
+        edge_str_off = Get5BInteger(edge_ptrs.ptr);
+        edge_str_size = edge_ptrs.len_ptr[0] - 1;
+    }
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
     header->excep_updating_status = EXCEP_STATUS_CLEAR_EDGE;
@@ -1329,6 +1337,9 @@ void DictMem::RemoveRootEdge(const EdgePtrs& edge_ptrs)
     lfree->WriterLockFreeStop();
     header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
+    // Readers may use the edge string until the edge is cleared
+    if (edge_str_size > 0)
+        ReleaseBuffer(edge_str_off, edge_str_size);
 }
 
 int DictMem::RemoveEdgeSizeN(const EdgePtrs& edge_ptrs,
@@ -1431,6 +1442,34 @@ int DictMem::RemoveEdgeSizeOne(uint8_t* old_node_buffer,
     return rval;
 }
 
+int DictMem::GetEmptyNode(const EdgePtrs& edge_ptrs, EmptyNode& node) const
+{
+    if (edge_ptrs.curr_node_offset == root_offset || edge_ptrs.curr_nt != 1)
+        return MBError::NOT_EXIST;
+
+    uint8_t node_flag;
+    if (ReadData(&node_flag, 1, edge_ptrs.curr_node_offset) != 1)
+        return MBError::READ_ERROR;
+    if (node_flag & FLAG_NODE_MATCH)
+        return MBError::NOT_EXIST;
+
+    node.node_offset = edge_ptrs.curr_node_offset;
+    node.edge_str_size = 0;
+    if (edge_ptrs.len_ptr[0] > LOCAL_EDGE_LEN) {
+        node.edge_str_offset = Get5BInteger(edge_ptrs.ptr);
+        node.edge_str_size = edge_ptrs.len_ptr[0] - 1;
+    }
+    return MBError::SUCCESS;
+}
+
+void DictMem::ReleaseEmptyNode(const EmptyNode& node)
+{
+    header->n_edges--;
+    ReleaseNode(node.node_offset, 0);
+    if (node.edge_str_size > 0)
+        ReleaseBuffer(node.edge_str_offset, node.edge_str_size);
+}
+
 int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
 {
     header->excep_offset = edge_ptrs.curr_node_offset;
@@ -1465,12 +1504,7 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
     }
     header->excep_updating_status = EXCEP_STATUS_NONE;
 
-    header->n_edges--;
-    ReleaseNode(header->excep_offset, nt - 1);
-    if (str_size_rel > 0)
-        ReleaseBuffer(str_off_rel, str_size_rel);
-
-        // Clear the edge
+    // Clear the edge
 #ifdef __LOCK_FREE__
     header->excep_lf_offset = edge_ptrs.offset;
     header->excep_updating_status = EXCEP_STATUS_CLEAR_EDGE;
@@ -1482,6 +1516,12 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
     header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
 
+    // Readers may use the old node until it is disconnected
+    header->n_edges--;
+    ReleaseNode(header->excep_offset, nt - 1);
+    if (str_size_rel > 0)
+        ReleaseBuffer(str_off_rel, str_size_rel);
+
     return rval;
 }
 
diff --git a/src/dict_mem.h b/src/dict_mem.h
index bcb9374..706f9dd 100644
--- a/src/dict_mem.h
+++ b/src/dict_mem.h
@@ -47,6 +47,13 @@ typedef struct _NodePtrs {
 } NodePtrs;
 
 // Memory management class for the dictionary
+// A node without a match and with only one edge, which is to be removed
+typedef struct _EmptyNode {
+    size_t node_offset;
+    size_t edge_str_offset;
+    int edge_str_size;
+} EmptyNode;
+
 class DictMem : public DRMBase {
 public:
     DictMem(const std::string& mbdir, bool init_header, size_t memsize,
@@ -85,6 +92,10 @@ public:
         uint8_t* node_buff, MBData& mbdata, EdgePtrs& less_edge_ptrs, int& le_edge_key) const;
     int NextMaxEdge(EdgePtrs& edge_ptrs, uint8_t* node_buff, MBData& mbdata, int& max_key) const;
     int RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data);
+    // Get the node of the edge if it holds nothing but this edge. Otherwise return NOT_EXIST.
+    int GetEmptyNode(const EdgePtrs& edge_ptrs, EmptyNode& node) const;
+    // Release a node which is not connected any more
+    void ReleaseEmptyNode(const EmptyNode& node);
     void InitRootNode();
     inline void WriteEdge(const EdgePtrs& edge_ptrs) const;
     void WriteData(const uint8_t* buff, unsigned len, size_t offset) const;
-- 
2.43.0


From a936eedceab5df6fd89dfa927f473bdfcf86ce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:04 +0000
Subject: [PATCH 17/65] fix: run the recovery of an interrupted update when a
 writer opens the database

Dict::ExceptionRecovery was not called by anything but the unit test. A writer that
died while it was changing an edge left the torn edge in the tree for good.
---
 src/db.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/db.cpp b/src/db.cpp
index 89d905a..559f68d 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -490,6 +490,14 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
 
     process_start_time = ReadSelfProcStartTime();
 
+    // Complete the update in which a previous writer was terminated. In jemalloc mode
+    // the startup rebuild takes care of it.
+    if ((config.options & CONSTS::ACCESS_MODE_WRITER) && !(config.options & CONSTS::OPTION_JEMALLOC)) {
+        int rval = dict->ExceptionRecovery();
+        if (rval != MBError::SUCCESS)
+            Logger::Log(LOG_LEVEL_WARN, "exception recovery failed: %s", MBError::get_error_str(rval));
+    }
+
     if (config.options & CONSTS::ACCESS_MODE_WRITER) {
         int rval = PrepareStartupRebuild(config, init_header);
         if (rval != MBError::SUCCESS) {
-- 
2.43.0


From 2b5166e5b44074a609c00e11f243e17e540a73a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 18/65] fix: RemoveAll clears the root edges before it gives
 the memory back

A writer killed inside RemoveAll left entries reachable whose memory was already
free for new entries, which then corrupted them.
---
 src/dict.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 1a23e19..ad958aa 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1015,8 +1015,8 @@ int Dict::RemoveAll()
     int rval = MBError::SUCCESS;
 
     ClearPrefixCache();
-    mm.ClearMem(); // clear memory will re-initialize jemalloc
     if (options & CONSTS::OPTION_JEMALLOC) {
+        mm.ClearMem(); // clear memory will re-initialize jemalloc
         mm.InitRootNode();
         kv_file->ResetJemalloc();
         // The reset arena must not allocate from the embedded prefix cache region
@@ -1029,11 +1029,14 @@ int Dict::RemoveAll()
                 break;
         }
     } else {
+        // Disconnect all entries first. If the writer is terminated before the end, the entries
+        // that can still be reached must not be in the memory to be used for new entries.
         for (int c = 0; c < NUM_ALPHABET; c++) {
             rval = mm.ClearRootEdge(c);
             if (rval != MBError::SUCCESS)
                 break;
         }
+        mm.ClearMem();
         header->m_data_offset = GetStartDataOffset();
         free_lists->Empty();
     }
-- 
2.43.0


From 2aad47e50eb57d428a44613aeffc09a0ff19c3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:41 +0000
Subject: [PATCH 19/65] fix: complete an interrupted removal of an edge instead
 of restoring half of it

The recovery wrote back the old node offset without the edge flag, so an edge whose
flag had been written already held a node offset as data offset.
---
 src/dict.cpp     |  6 +++---
 src/dict_mem.cpp | 44 ++++++++++++++++++++++++--------------------
 src/dict_mem.h   |  1 +
 3 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index ad958aa..bdaabc3 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1481,9 +1481,9 @@ int Dict::ExceptionRecovery()
 #ifdef __LOCK_FREE__
         lfree.WriterLockFreeStart(header->excep_lf_offset);
 #endif
-        Write6BInteger(header->excep_buff, header->excep_offset);
-        mm.WriteData(header->excep_buff, OFFSET_SIZE,
-            header->excep_lf_offset + EDGE_NODE_LEADING_POS);
+        mm.WriteData(header->excep_buff + EDGE_FLAG_POS, OFFSET_SIZE + 1,
+            header->excep_lf_offset + EDGE_FLAG_POS);
+        header->count--;
         break;
     case EXCEP_STATUS_CLEAR_EDGE:
 #ifdef __LOCK_FREE__
diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 01ea6bf..f642c42 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -1391,15 +1391,31 @@ int DictMem::RemoveEdgeSizeN(const EdgePtrs& edge_ptrs,
         WriteData(node, node_size[nt - 2], new_node_offset);
 
     // Update the link from parent edge to the new node offset
-    Write6BInteger(header->excep_buff, new_node_offset);
+    return UpdateParentEdge(0, new_node_offset, parent_edge_offset);
+}
+
+// Replace the flag and the offset of the parent edge of the node from which an edge is removed.
+// The whole new edge is kept in the header so that the update can be completed if the writer
+// is terminated in the middle.
+int DictMem::UpdateParentEdge(uint8_t flag, size_t offset, size_t parent_edge_offset) const
+{
+    uint8_t* parent_edge_buff = header->excep_buff;
+    if (ReadData(parent_edge_buff, EDGE_SIZE, parent_edge_offset) != EDGE_SIZE)
+        return MBError::READ_ERROR;
+    parent_edge_buff[EDGE_FLAG_POS] = flag;
+    Write6BInteger(parent_edge_buff + EDGE_NODE_LEADING_POS, offset);
+
+    header->excep_lf_offset = parent_edge_offset;
+    header->excep_updating_status = EXCEP_STATUS_REMOVE_EDGE;
 #ifdef __LOCK_FREE__
     lfree->WriterLockFreeStart(parent_edge_offset);
 #endif
-    WriteData(header->excep_buff, OFFSET_SIZE, parent_edge_offset + EDGE_NODE_LEADING_POS);
+    // Write the one-byte flag and 6-byte offset
+    WriteData(parent_edge_buff + EDGE_FLAG_POS, OFFSET_SIZE_P1, parent_edge_offset + EDGE_FLAG_POS);
 #ifdef __LOCK_FREE__
     lfree->WriterLockFreeStop();
 #endif
-
+    header->excep_updating_status = EXCEP_STATUS_NONE;
     return MBError::SUCCESS;
 }
 
@@ -1413,18 +1429,9 @@ int DictMem::RemoveEdgeSizeOne(uint8_t* old_node_buffer,
     int rval = MBError::SUCCESS;
 
     if (old_node_buffer[0] & FLAG_NODE_MATCH) {
-        uint8_t* parent_edge_buff = header->excep_buff;
-        size_t data_offset = Get6BInteger(old_node_buffer + 2);
-        parent_edge_buff[0] = EDGE_FLAG_DATA_OFF;
-        Write6BInteger(parent_edge_buff + 1, data_offset);
-#ifdef __LOCK_FREE__
-        lfree->WriterLockFreeStart(parent_edge_offset);
-#endif
-        // Write the one-byte flag and 6-byte offset
-        WriteData(parent_edge_buff, OFFSET_SIZE_P1, parent_edge_offset + EDGE_FLAG_POS);
-#ifdef __LOCK_FREE__
-        lfree->WriterLockFreeStop();
-#endif
+        rval = UpdateParentEdge(EDGE_FLAG_DATA_OFF, Get6BInteger(old_node_buffer + 2), parent_edge_offset);
+        if (rval != MBError::SUCCESS)
+            return rval;
     } else {
         // This is an internal node.
         rval = MBError::TRY_AGAIN;
@@ -1493,16 +1500,13 @@ int DictMem::RemoveEdgeByIndex(const EdgePtrs& edge_ptrs, MBData& data)
     size_t str_off_rel;
     int str_size_rel = 0;
 
-    header->excep_lf_offset = edge_ptrs.parent_offset;
-    header->excep_updating_status = EXCEP_STATUS_REMOVE_EDGE;
     if (nt > 1) {
         rval = RemoveEdgeSizeN(edge_ptrs, nt, header->excep_offset, old_node_buffer,
-            str_off_rel, str_size_rel, header->excep_lf_offset);
+            str_off_rel, str_size_rel, edge_ptrs.parent_offset);
     } else {
-        rval = DictMem::RemoveEdgeSizeOne(old_node_buffer, header->excep_lf_offset,
+        rval = DictMem::RemoveEdgeSizeOne(old_node_buffer, edge_ptrs.parent_offset,
             header->excep_offset, nt, str_off_rel, str_size_rel);
     }
-    header->excep_updating_status = EXCEP_STATUS_NONE;
 
     // Clear the edge
 #ifdef __LOCK_FREE__
diff --git a/src/dict_mem.h b/src/dict_mem.h
index 706f9dd..501c9a8 100644
--- a/src/dict_mem.h
+++ b/src/dict_mem.h
@@ -130,6 +130,7 @@ private:
     int RemoveEdgeSizeN(const EdgePtrs& edge_ptrs, int nt, size_t node_offset,
         uint8_t* old_node_buffer, size_t& str_off_rel,
         int& str_size_rel, size_t parent_edge_offset);
+    int UpdateParentEdge(uint8_t flag, size_t offset, size_t parent_edge_offset) const;
     int RemoveEdgeSizeOne(uint8_t* old_node_buffer, size_t parent_edge_offset,
         size_t node_offset, int nt, size_t& str_off_rel,
         int& str_size_rel);
-- 
2.43.0


From 5e38612d7f2b2a574c4da41f21c34d6299bd159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:41 +0000
Subject: [PATCH 20/65] fix: process queued updates in order and never skip one
 that is still being queued

---
 src/async_writer.cpp | 46 ++++++++++++++++++++++++------------
 src/async_writer.h   |  3 ++-
 src/mb_pipe.cpp      | 12 ++++++----
 src/mb_pipe.h        |  3 ++-
 src/shm_queue_mgr.h  |  5 ++++
 src/shmq_update.cpp  | 56 +++++++++++++++++++++++++++++++-------------
 6 files changed, 87 insertions(+), 38 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index a02514c..c42fdb0 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -164,10 +164,7 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
                 break;
             }
 
-            header->writer_index++;
-            node_ptr->num_reader.store(0, std::memory_order_release);
-            node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
-            node_ptr->in_use.store(false, std::memory_order_release);
+            ReleaseSlot(node_ptr);
             mbd.Clear();
             count++;
         } else {
@@ -186,11 +183,29 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
     return MBError::SUCCESS;
 }
 
-uint32_t AsyncWriter::NextShmSlot(uint32_t windex, uint32_t qindex)
+// The writer index advances last so that the slot is not lost if the writer is terminated.
+void AsyncWriter::ReleaseSlot(AsyncNode* node_ptr)
 {
+    node_ptr->num_reader.store(SHMQ_SLOT_FREE, std::memory_order_release);
+    node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
+    node_ptr->in_use.store(false, std::memory_order_release);
+    std::atomic_thread_fence(std::memory_order_release);
+    header->writer_index++;
+}
+
+// Give up waiting for the slot at windex, and find the next slot to be processed.
+// state is the state of the slot before waiting.
+uint32_t AsyncWriter::NextShmSlot(uint32_t windex, uint32_t qindex, uint16_t state)
+{
+    AsyncNode* node_ptr = &queue[windex % header->async_queue_size];
+    if (state != SHMQ_SLOT_FREE)
+        node_ptr->num_reader.compare_exchange_strong(state, SHMQ_SLOT_FREE);
+
     int cnt = 0;
     while (windex != qindex) {
-        if (queue[windex % header->async_queue_size].in_use.load(std::memory_order_consume))
+        node_ptr = &queue[windex % header->async_queue_size];
+        if (node_ptr->in_use.load(std::memory_order_consume)
+            || node_ptr->num_reader.load(std::memory_order_consume) != SHMQ_SLOT_FREE)
             break;
         if (++cnt > header->async_queue_size) {
             windex = qindex;
@@ -234,14 +249,18 @@ void* AsyncWriter::async_writer_thread()
             }
 
 #define __ASYNC_THREAD_SLEEP_TIME 1000
-            mbp.Wait(__ASYNC_THREAD_SLEEP_TIME);
-
             auto windex = header->writer_index;
-            auto qindex = header->queue_index.load(std::memory_order_consume);
-            if (windex != qindex) {
+            uint16_t state = node_ptr->num_reader.load(std::memory_order_consume);
+            bool pending = state != SHMQ_SLOT_FREE
+                || windex != header->queue_index.load(std::memory_order_consume);
+            bool timed_out = mbp.Wait(__ASYNC_THREAD_SLEEP_TIME);
+
+            // The slot may still be being filled. It can be skipped only if this did not
+            // complete during the whole waiting time.
+            if (pending && timed_out && !node_ptr->in_use.load(std::memory_order_consume)) {
                 // Reader process may have exited unexpectedly. Recover index.
                 skip = true;
-                header->writer_index = NextShmSlot(windex, qindex);
+                header->writer_index = NextShmSlot(windex, header->queue_index.load(std::memory_order_consume), state);
                 break;
             }
         }
@@ -316,10 +335,7 @@ void* AsyncWriter::async_writer_thread()
             break;
         }
 
-        header->writer_index++;
-        node_ptr->num_reader.store(0, std::memory_order_release);
-        node_ptr->type = MABAIN_ASYNC_TYPE_NONE;
-        node_ptr->in_use.store(false, std::memory_order_release);
+        ReleaseSlot(node_ptr);
 
         if (rval != MBError::SUCCESS) {
             Logger::Log(LOG_LEVEL_DEBUG, "failed to run update %d: %s",
diff --git a/src/async_writer.h b/src/async_writer.h
index 56f6db9..32caf00 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -48,7 +48,8 @@ private:
     AsyncNode* AcquireSlot();
     int PrepareSlot(AsyncNode* node_ptr) const;
     void* async_writer_thread();
-    uint32_t NextShmSlot(uint32_t windex, uint32_t qindex);
+    void ReleaseSlot(AsyncNode* node_ptr);
+    uint32_t NextShmSlot(uint32_t windex, uint32_t qindex, uint16_t state);
 
     // db pointer
     DB* db;
diff --git a/src/mb_pipe.cpp b/src/mb_pipe.cpp
index d50bc9c..93e314c 100644
--- a/src/mb_pipe.cpp
+++ b/src/mb_pipe.cpp
@@ -68,7 +68,7 @@ void MBPipe::Close()
     fd = -1;
 }
 
-void MBPipe::Wait(int timeout)
+bool MBPipe::Wait(int timeout)
 {
     if (fd < 0) {
         fd = open(fifo_path.c_str(), O_RDONLY | O_NONBLOCK);
@@ -76,7 +76,7 @@ void MBPipe::Wait(int timeout)
             Logger::Log(LOG_LEVEL_DEBUG, "failed to open fifo %s %d",
                 fifo_path.c_str(), strerror(errno));
             usleep(timeout * 1000);
-            return;
+            return true;
         }
     }
 
@@ -88,12 +88,12 @@ void MBPipe::Wait(int timeout)
     pollret = poll(&pfd, 1, timeout);
 
     if (pollret == 0)
-        return;
+        return true;
     if (pollret < 0) {
         Logger::Log(LOG_LEVEL_DEBUG, "poll on pipe read failed errno: %s",
             strerror(errno));
         usleep(timeout * 1000);
-        return;
+        return true;
     }
 #ifdef __APPLE__
     if (pfd.revents & (POLLERR | POLLHUP | POLLNVAL))
@@ -104,7 +104,7 @@ void MBPipe::Wait(int timeout)
         Logger::Log(LOG_LEVEL_DEBUG, "pipe read poll error");
         Close();
         usleep(timeout * 1000);
-        return;
+        return true;
     }
 
 #define __MB_ASYNC_READ_BUFFER_SIZE 1024
@@ -126,6 +126,8 @@ void MBPipe::Wait(int timeout)
             Close();
         }
     } while (nread == __MB_ASYNC_READ_BUFFER_SIZE);
+
+    return false;
 }
 
 int MBPipe::Signal()
diff --git a/src/mb_pipe.h b/src/mb_pipe.h
index 973d288..b00fa1c 100644
--- a/src/mb_pipe.h
+++ b/src/mb_pipe.h
@@ -30,7 +30,8 @@ public:
     MBPipe(const std::string& mbdir, int mode);
     ~MBPipe();
     // timeout is in millisecond
-    void Wait(int timeout);
+    // Return true if the timeout elapsed without a signal.
+    bool Wait(int timeout);
     int Signal();
 
 private:
diff --git a/src/shm_queue_mgr.h b/src/shm_queue_mgr.h
index 4cae61f..7911d90 100644
--- a/src/shm_queue_mgr.h
+++ b/src/shm_queue_mgr.h
@@ -34,6 +34,11 @@ namespace mabain {
 #define MABAIN_ASYNC_TYPE_RC 4
 #define MABAIN_ASYNC_TYPE_BACKUP 5
 
+// state of a slot in AsyncNode::num_reader
+#define SHMQ_SLOT_FREE 0
+#define SHMQ_SLOT_FILLING 1
+#define SHMQ_SLOT_READY 2
+
 #define MB_ASYNC_SHM_KEY_SIZE 256
 #define MB_ASYNC_SHM_DATA_SIZE 0x7FFF
 #define MB_ASYNC_SHM_LOCK_TMOUT 5
diff --git a/src/shmq_update.cpp b/src/shmq_update.cpp
index 6bd1cdb..aea370e 100644
--- a/src/shmq_update.cpp
+++ b/src/shmq_update.cpp
@@ -114,27 +114,51 @@ int Dict::SHMQ_CollectResource(int64_t m_index_rc_size,
 
 AsyncNode* Dict::SHMQ_AcquireSlot(int& err) const
 {
-    uint32_t index = header->queue_index.fetch_add(1, std::memory_order_release);
-    AsyncNode* node_ptr = queue + (index % header->async_queue_size);
-
-    if (node_ptr->in_use.load(std::memory_order_consume)) {
-        // This slot is being processed by writer.
-        err = MBError::TRY_AGAIN;
-        return nullptr;
-    }
-
-    uint16_t nreader = node_ptr->num_reader.fetch_add(1, std::memory_order_release);
-    if (nreader != 0) {
-        // This slot is being processed by another reader.
-        err = MBError::TRY_AGAIN;
-        return nullptr;
+    err = MBError::TRY_AGAIN;
+    uint32_t index = header->queue_index.load(std::memory_order_acquire);
+    while (true) {
+        AsyncNode* node_ptr = queue + (index % header->async_queue_size);
+
+        // The queue index must only advance with a slot that will be filled. Otherwise
+        // slots are skipped and updates are not processed in the order of the queue.
+        uint32_t writer_index = __atomic_load_n(&header->writer_index, __ATOMIC_ACQUIRE);
+        if (index - writer_index >= (uint32_t)header->async_queue_size
+            || node_ptr->in_use.load(std::memory_order_acquire)) {
+            // This slot is being processed by writer.
+            return nullptr;
+        }
+
+        uint16_t expected = SHMQ_SLOT_FREE;
+        if (!node_ptr->num_reader.compare_exchange_strong(expected, SHMQ_SLOT_FILLING)) {
+            uint32_t curr = header->queue_index.load(std::memory_order_acquire);
+            if (curr == index) {
+                // This slot is being processed by another reader.
+                return nullptr;
+            }
+            index = curr;
+            continue;
+        }
+
+        uint32_t expected_index = index;
+        if (header->queue_index.compare_exchange_strong(expected_index, index + 1)) {
+            err = MBError::SUCCESS;
+            return node_ptr;
+        }
+
+        // Another reader took this position of the queue.
+        expected = SHMQ_SLOT_FILLING;
+        node_ptr->num_reader.compare_exchange_strong(expected, SHMQ_SLOT_FREE);
+        index = expected_index;
     }
-
-    return node_ptr;
 }
 
 int Dict::SHMQ_PrepareSlot(AsyncNode* node_ptr)
 {
+    uint16_t expected = SHMQ_SLOT_FILLING;
+    if (!node_ptr->num_reader.compare_exchange_strong(expected, SHMQ_SLOT_READY)) {
+        // The writer gave up waiting for this slot.
+        return MBError::TRY_AGAIN;
+    }
     node_ptr->in_use.store(true, std::memory_order_release);
 
     mbp.Signal();
-- 
2.43.0


From d9844cfc40bf26ec7fc7c273450ed99985db26d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:41 +0000
Subject: [PATCH 21/65] fix: do not drop removals that are queued during
 resource collection

---
 src/async_writer.cpp | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index c42fdb0..68c2506 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -120,29 +120,17 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
                 }
                 break;
             case MABAIN_ASYNC_TYPE_REMOVE:
-                // FIXME
+            case MABAIN_ASYNC_TYPE_REMOVE_ALL:
                 // Removing entries during rc is currently not supported.
                 // The index or data index could have been reset in fucntion ResourceColletion::Finish.
                 // However, the deletion may be run for some entry which still exist in the rc root tree.
                 // This requires modifying buffer in high end, where the offset for writing is greather than
                 // header->m_index_offset. This causes exception thrown from DictMem::WriteData.
                 // Note this is not a problem for Dict::Add since Add does not modify buffers in high end.
-                // This problem will be fixed when resolving issue: https://github.com/chxdeng/mabain/issues/21
-                rval = MBError::SUCCESS;
-                break;
-            case MABAIN_ASYNC_TYPE_REMOVE_ALL:
-                if (!rc_mode) {
-                    try {
-                        rval = dict->RemoveAll();
-                    } catch (int err) {
-                        Logger::Log(LOG_LEVEL_ERROR, "dict->Add throws error %s",
-                            MBError::get_error_str(err));
-                        rval = err;
-                    }
-                } else {
-                    rval = MBError::SUCCESS;
-                }
-                break;
+                // See issue: https://github.com/chxdeng/mabain/issues/21
+                // Leave the removal and everything after it in the queue. They are processed
+                // in order when rc or pruning is completed.
+                return stop_processing ? MBError::RC_SKIPPED : MBError::SUCCESS;
             case MABAIN_ASYNC_TYPE_RC:
                 // ignore rc task since it is running already.
                 rval = MBError::RC_SKIPPED;
-- 
2.43.0


From 94673d13c5d484a42e548215c6c9e24c1e713d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:41 +0000
Subject: [PATCH 22/65] fix: an update in the writer's process must not
 overtake queued updates

---
 src/async_writer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index 68c2506..e9593a1 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -375,6 +375,11 @@ int AsyncWriter::AddWithLock(const char* key, int len, MBData& mbdata, bool over
 
     using Ms = std::chrono::milliseconds;
     if (writer_lock.try_lock_for(Ms(1000))) {
+        // Updates already queued by this caller must be processed first.
+        if (header->queue_index.load(std::memory_order_acquire) != header->writer_index) {
+            writer_lock.unlock();
+            return MBError::TRY_AGAIN;
+        }
         int rval;
         try {
             rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
-- 
2.43.0


From 5e6dc49d231211ddc6f11f3fc880d4f997fa7a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:40 +0000
Subject: [PATCH 23/65] fix: queue updates to the async writer of the same
 database only, and not to a closed one

---
 src/async_writer.cpp | 8 +++++++-
 src/async_writer.h   | 3 ++-
 src/db.cpp           | 2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index e9593a1..27dbb53 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -38,8 +38,11 @@ AsyncWriter* AsyncWriter::CreateInstance(DB* db_ptr)
     return writer_instance;
 }
 
-AsyncWriter* AsyncWriter::GetInstance()
+// Get the async writer of the database in this process
+AsyncWriter* AsyncWriter::GetInstance(const std::string& db_dir)
 {
+    if (writer_instance == NULL || writer_instance->db_dir != db_dir)
+        return NULL;
     return writer_instance;
 }
 
@@ -53,6 +56,7 @@ AsyncWriter::AsyncWriter(DB* db_ptr)
     dict = NULL;
     if (!(db_ptr->GetDBOptions() & CONSTS::ACCESS_MODE_WRITER))
         throw (int)MBError::NOT_ALLOWED;
+    db_dir = db_ptr->GetDBDir();
     if (db == NULL)
         throw (int)MBError::INVALID_ARG;
     dict = db->GetDictPtr();
@@ -77,6 +81,8 @@ AsyncWriter::AsyncWriter(DB* db_ptr)
 
 AsyncWriter::~AsyncWriter()
 {
+    if (writer_instance == this)
+        writer_instance = NULL;
 }
 
 int AsyncWriter::StopAsyncThread()
diff --git a/src/async_writer.h b/src/async_writer.h
index 32caf00..8250a61 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -40,7 +40,7 @@ public:
     int AddWithLock(const char* key, int len, MBData& mbdata, bool overwrite);
 
     static AsyncWriter* CreateInstance(DB* db_ptr);
-    static AsyncWriter* GetInstance();
+    static AsyncWriter* GetInstance(const std::string& db_dir);
 
 private:
     AsyncWriter(DB* db_ptr);
@@ -53,6 +53,7 @@ private:
 
     // db pointer
     DB* db;
+    std::string db_dir;
     Dict* dict;
 
     // thread id
diff --git a/src/db.cpp b/src/db.cpp
index 559f68d..08e18e6 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1014,7 +1014,7 @@ int DB::Add(const char* key, int len, MBData& mbdata, bool overwrite)
     if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
         rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
     } else {
-        AsyncWriter* awr = AsyncWriter::GetInstance();
+        AsyncWriter* awr = AsyncWriter::GetInstance(mb_dir);
         if (awr) {
             try {
                 rval = awr->AddWithLock(key, len, mbdata, overwrite);
-- 
2.43.0


From a92635c083c93abe89d2fc39f38858be56ccc22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 24/65] fix: an add without overwrite during resource
 collection must not replace an existing entry

---
 src/async_writer.cpp | 14 ++++++++++++++
 src/async_writer.h   |  1 +
 2 files changed, 15 insertions(+)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index 27dbb53..db6af5a 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -21,6 +21,7 @@
 #include <unistd.h>
 
 #include "async_writer.h"
+#include "detail/search_engine.h"
 #include "dict.h"
 #include "error.h"
 #include "integer_4b_5b.h"
@@ -118,6 +119,11 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
                 mbd.buff = (uint8_t*)node_ptr->data;
                 mbd.data_len = node_ptr->data_len;
                 try {
+                    // The rc tree does not have the entries of the main tree.
+                    if (rc_mode && !node_ptr->overwrite && KeyExists(node_ptr)) {
+                        rval = MBError::IN_DICT;
+                        break;
+                    }
                     rval = dict->Add((uint8_t*)node_ptr->key, node_ptr->key_len, mbd, node_ptr->overwrite);
                 } catch (int err) {
                     rval = err;
@@ -177,6 +183,14 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
     return MBError::SUCCESS;
 }
 
+// Check if the key to be added is in the database already
+bool AsyncWriter::KeyExists(const AsyncNode* node_ptr) const
+{
+    MBData mbd(0, CONSTS::OPTION_KEY_ONLY);
+    detail::SearchEngine engine(*dict);
+    return engine.find((const uint8_t*)node_ptr->key, node_ptr->key_len, mbd) == MBError::SUCCESS;
+}
+
 // The writer index advances last so that the slot is not lost if the writer is terminated.
 void AsyncWriter::ReleaseSlot(AsyncNode* node_ptr)
 {
diff --git a/src/async_writer.h b/src/async_writer.h
index 8250a61..07de373 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -48,6 +48,7 @@ private:
     AsyncNode* AcquireSlot();
     int PrepareSlot(AsyncNode* node_ptr) const;
     void* async_writer_thread();
+    bool KeyExists(const AsyncNode* node_ptr) const;
     void ReleaseSlot(AsyncNode* node_ptr);
     uint32_t NextShmSlot(uint32_t windex, uint32_t qindex, uint16_t state);
 
-- 
2.43.0


From 0c12233e0662c9b7164f30bfacf153f0c9849c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 25/65] fix: merge the whole rc tree before newer updates are
 processed

---
 src/mb_rc.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index 7c82cc7..8d6c9a1 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -1040,18 +1040,15 @@ void ResourceCollection::ProcessRCTree()
 {
     Logger::Log(LOG_LEVEL_INFO, "resource collection done, traversing the rc tree %llu entries", header->rc_count);
 
-    int count = 0;
     int rval;
     DB db_itr(db_ref);
+    // Queued updates are newer than the rc tree. They must not be processed before the
+    // whole rc tree is merged.
     for (DB::iterator iter = db_itr.begin(false, true); iter != db_itr.end(); ++iter) {
         iter.value.options = 0;
         rval = dict->Add((const uint8_t*)iter.key.data(), iter.key.size(), iter.value, true);
         if (rval != MBError::SUCCESS)
             Logger::Log(LOG_LEVEL_WARN, "failed to add: %s", MBError::get_error_str(rval));
-        if (count++ > RC_TASK_CHECK) {
-            count = 0;
-            async_writer_ptr->ProcessTask(NUM_ASYNC_TASK, false);
-        }
 
         if (header->m_index_offset > rc_index_offset || header->m_data_offset > rc_data_offset) {
             Logger::Log(LOG_LEVEL_ERROR, "not enough space for insertion: %llu, %llu",
-- 
2.43.0


From 4468e47d19f053b2bd046e843d0b200f3a1d6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:09 +0000
Subject: [PATCH 26/65] fix: an rc tree must not start with the entries of the
 rc tree of a terminated writer

---
 src/dict_mem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index f642c42..19db416 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -1075,6 +1075,8 @@ size_t DictMem::InitRootNode_RC()
     for (int i = 0; i < NUM_ALPHABET; i++) {
         root_node[NODE_EDGE_KEY_FIRST + i] = static_cast<uint8_t>(i);
     }
+    // The memory may have the edges of the rc tree of a terminated writer.
+    memset(root_node + NODE_EDGE_KEY_FIRST + NUM_ALPHABET, 0, NUM_ALPHABET * EDGE_SIZE);
 
     if (node_move)
         WriteData(root_node, node_size[NUM_ALPHABET - 1], root_offset_rc);
-- 
2.43.0


From 0fd66b7aebbd8996cfcdb829274716cd01abdf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 27/65] fix: reject queued updates without key or value, and
 keep the length of a queued backup directory

---
 src/shmq_update.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/shmq_update.cpp b/src/shmq_update.cpp
index aea370e..1066f1a 100644
--- a/src/shmq_update.cpp
+++ b/src/shmq_update.cpp
@@ -29,7 +29,7 @@ namespace mabain {
 int Dict::SHMQ_Add(const char* key, int key_len, const char* data, int data_len,
     bool overwrite)
 {
-    if (key_len > MB_ASYNC_SHM_KEY_SIZE || data_len > MB_ASYNC_SHM_DATA_SIZE) {
+    if (key_len <= 0 || data_len <= 0 || key_len > MB_ASYNC_SHM_KEY_SIZE || data_len > MB_ASYNC_SHM_DATA_SIZE) {
         return MBError::OUT_OF_BOUND;
     }
 
@@ -50,7 +50,7 @@ int Dict::SHMQ_Add(const char* key, int key_len, const char* data, int data_len,
 
 int Dict::SHMQ_Remove(const char* key, int len)
 {
-    if (len > MB_ASYNC_SHM_KEY_SIZE)
+    if (len <= 0 || len > MB_ASYNC_SHM_KEY_SIZE)
         return MBError::OUT_OF_BOUND;
 
     int err = MBError::SUCCESS;
@@ -87,6 +87,7 @@ int Dict::SHMQ_Backup(const char* backup_dir)
     if (node_ptr == nullptr)
         return err;
     snprintf(node_ptr->data, MB_ASYNC_SHM_DATA_SIZE, "%s", backup_dir);
+    node_ptr->data_len = strlen(node_ptr->data);
     node_ptr->type = MABAIN_ASYNC_TYPE_BACKUP;
     return SHMQ_PrepareSlot(node_ptr);
 }
-- 
2.43.0


From 250e89a346287f9a522f9f15f8a08fc8808dca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:29 +0000
Subject: [PATCH 28/65] fix: a writer terminated at the end of resource
 collection must not prevent the recovery

---
 src/dict_mem.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 19db416..12a011b 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -1109,18 +1109,17 @@ int DictMem::ClearRootEdges_RC() const
     if (root_offset_rc == 0)
         return MBError::INVALID_ARG;
 
+    // No exception status is set. The rc tree is not in use any more, and its root may be
+    // beyond the current index offset, where recovery cannot write.
     size_t offset;
     for (int i = 0; i < NUM_ALPHABET; i++) {
         offset = root_offset_rc + NODE_EDGE_KEY_FIRST + NUM_ALPHABET + i * EDGE_SIZE;
 #ifdef __LOCK_FREE__
-        header->excep_lf_offset = offset;
-        header->excep_updating_status = EXCEP_STATUS_CLEAR_EDGE;
         lfree->WriterLockFreeStart(offset);
 #endif
         DRMBase::WriteData(DictMem::empty_edge, EDGE_SIZE, offset);
 #ifdef __LOCK_FREE__
         lfree->WriterLockFreeStop();
-        header->excep_updating_status = EXCEP_STATUS_NONE;
 #endif
     }
 
-- 
2.43.0


From 485021b67cad03231f80efb86cc5d68c7d50a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 29/65] fix: start the async writer thread when the database is
 open

---
 src/db.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 08e18e6..dbe045b 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -509,11 +509,6 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
     lock.Init(dict->GetShmLockPtr());
     UpdateNumHandlers(config.options, 1);
 
-    if (config.options & CONSTS::ACCESS_MODE_WRITER) {
-        if (config.options & CONSTS::ASYNC_WRITER_MODE)
-            async_writer = AsyncWriter::CreateInstance(this);
-    }
-
     if (!(init_header || update_header)) {
         IndexHeader* header = dict->GetHeaderPtr();
         if (header != NULL && header->async_queue_size != (int)config.queue_size) {
@@ -566,6 +561,10 @@ void DB::PostDBUpdate(const MBConfig& config, bool init_header, bool update_head
                 }
             }
         }
+
+        // The writer thread uses this handle and must not start before it is open.
+        if (status == MBError::SUCCESS && (config.options & CONSTS::ASYNC_WRITER_MODE))
+            async_writer = AsyncWriter::CreateInstance(this);
     }
 }
 
-- 
2.43.0


From 7943c14a5136430ea718e6cb59bfa4b9c68a5ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 30/65] Revert "fix: an rc tree must not start with the entries
 of the rc tree of a terminated writer"

The memory of a reserved node is cleared already.
---
 src/dict_mem.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/dict_mem.cpp b/src/dict_mem.cpp
index 12a011b..80fe1cc 100644
--- a/src/dict_mem.cpp
+++ b/src/dict_mem.cpp
@@ -1075,8 +1075,6 @@ size_t DictMem::InitRootNode_RC()
     for (int i = 0; i < NUM_ALPHABET; i++) {
         root_node[NODE_EDGE_KEY_FIRST + i] = static_cast<uint8_t>(i);
     }
-    // The memory may have the edges of the rc tree of a terminated writer.
-    memset(root_node + NODE_EDGE_KEY_FIRST + NUM_ALPHABET, 0, NUM_ALPHABET * EDGE_SIZE);
 
     if (node_move)
         WriteData(root_node, node_size[NUM_ALPHABET - 1], root_offset_rc);
-- 
2.43.0


From d4f3e905b2f95567bf9b399e7eb47f86a291656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 31/65] fix: LRU eviction must not remove entries updated since
 they were iterated

---
 src/mb_rc.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index 8d6c9a1..e40959a 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -24,6 +24,7 @@
 #include <sstream>
 #include <sys/time.h>
 
+#include "detail/search_engine.h"
 #include "dict.h"
 #include "dict_mem.h"
 #include "integer_4b_5b.h"
@@ -123,6 +124,12 @@ int ResourceCollection::LRUEviction(int64_t max_dbsz, int64_t max_dbcnt)
     for (DB::iterator iter = db_itr.begin(false); iter != db_itr.end(); ++iter) {
         if (CIRCULAR_PRUNE_DIFF(iter.value.bucket_index, header->eviction_bucket_index) < prune_diff) {
             if (async_writer_ptr != NULL) {
+                // The entry may have been updated by a queued task since the iterator loaded it.
+                MBData data;
+                rval = detail::SearchEngine(*dict).find((const uint8_t*)iter.key.data(), iter.key.size(), data);
+                if (rval == MBError::SUCCESS
+                    && CIRCULAR_PRUNE_DIFF(data.bucket_index, header->eviction_bucket_index) >= prune_diff)
+                    continue;
                 rval = dict->Remove((const uint8_t*)iter.key.data(), iter.key.size());
             } else
                 rval = dict->Remove((const uint8_t*)iter.key.data(), iter.key.size());
-- 
2.43.0


From 14595cac82606c43603b611725fb739b89735e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 32/65] fix: only the handle that holds the writer lock
 releases it

---
 src/db.cpp | 19 +++++++++++++++----
 src/db.h   |  2 ++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index dbe045b..c678202 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -155,10 +155,12 @@ int DB::Close()
     rebuild_guard_file.reset();
 
     status = MBError::DB_CLOSED;
-    if (options & CONSTS::ACCESS_MODE_WRITER) {
+    // A handle that was refused or that is already closed must not release the lock
+    // of another writer.
+    if (!writer_lock_path.empty()) {
         release_file_lock(writer_lock_fd);
-        std::string lock_file = mb_dir + "_lock";
-        ResourcePool::getInstance().RemoveResourceByPath(lock_file);
+        ResourcePool::getInstance().RemoveResourceByPath(writer_lock_path);
+        writer_lock_path.clear();
     }
     Logger::Log(LOG_LEVEL_DEBUG, "connector %u disconnected from DB", identifier);
     return rval;
@@ -400,15 +402,24 @@ void DB::PreCheckDB(const MBConfig& config, bool& init_header, bool& update_head
 {
     if (config.options & CONSTS::ACCESS_MODE_WRITER) {
         std::string lock_file = mb_dir + "_lock";
+        // The same directory can be given by different paths
+        char* real_dir = realpath(mb_dir.c_str(), NULL);
+        if (real_dir != NULL && !(config.options & CONSTS::MEMORY_ONLY_MODE))
+            lock_file = std::string(real_dir) + "/_lock";
+        free(real_dir);
         // internal check first
         int ret = ResourcePool::getInstance().AddResourceByPath(lock_file, NULL);
         if (ret == MBError::SUCCESS) {
             if (!(config.options & CONSTS::MEMORY_ONLY_MODE)) {
                 // process check by file lock
                 writer_lock_fd = acquire_file_lock_wait_n(lock_file, 1);
-                if (writer_lock_fd < 0)
+                if (writer_lock_fd < 0) {
+                    ResourcePool::getInstance().RemoveResourceByPath(lock_file);
                     status = MBError::WRITER_EXIST;
+                }
             }
+            if (status != MBError::WRITER_EXIST)
+                writer_lock_path = lock_file;
         } else {
             status = MBError::WRITER_EXIST;
         }
diff --git a/src/db.h b/src/db.h
index 37bf8b3..096b983 100644
--- a/src/db.h
+++ b/src/db.h
@@ -268,6 +268,8 @@ private:
     AsyncWriter* async_writer;
 
     int writer_lock_fd;
+    // path of the lock held by this writer, empty if the lock is not held
+    std::string writer_lock_path;
 };
 
 }
-- 
2.43.0


From 6f51aa6481d54d7d91f14345dd26021ff35dc2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 33/65] fix: opening a writer with an invalid configuration
 must not erase the database

---
 src/db.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index c678202..5bc026a 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -308,11 +308,14 @@ DB::DB(const char* db_path,
     size_t memcap_data,
     uint32_t id,
     uint32_t queue_size)
-    : status(MBError::NOT_INITIALIZED)
+    : options(0)
+    , dict(NULL)
+    , status(MBError::NOT_INITIALIZED)
     , rebuild_guard_file(NULL)
     , process_start_time(0)
     , reader_guard_fast_slot_count(0)
     , reader_guard_barrier_fallback_count(0)
+    , async_writer(NULL)
     , writer_lock_fd(-1)
 {
     MBConfig config;
@@ -328,11 +331,14 @@ DB::DB(const char* db_path,
 }
 
 DB::DB(MBConfig& config)
-    : status(MBError::NOT_INITIALIZED)
+    : options(0)
+    , dict(NULL)
+    , status(MBError::NOT_INITIALIZED)
     , rebuild_guard_file(NULL)
     , process_start_time(0)
     , reader_guard_fast_slot_count(0)
     , reader_guard_barrier_fallback_count(0)
+    , async_writer(NULL)
     , writer_lock_fd(-1)
 {
     InitDB(config);
@@ -766,7 +772,8 @@ void DB::ReInit(MBConfig& config)
 
 void DB::InitDB(MBConfig& config)
 {
-    if (config.mbdir == nullptr)
+    // An invalid configuration says nothing about the database and must not touch it.
+    if (ValidateConfig(config) != MBError::SUCCESS)
         return;
     std::string db_dir = std::string(config.mbdir);
     std::string lock_file = "/tmp/_mbh_lock";
@@ -788,9 +795,6 @@ void DB::InitDBEx(MBConfig& config)
     dict = NULL;
     async_writer = NULL;
 
-    if (ValidateConfig(config) != MBError::SUCCESS)
-        return;
-
     // save the configuration
     memcpy(&dbConfig, &config, sizeof(MBConfig));
     dbConfig.mbdir = NULL;
@@ -846,11 +850,14 @@ int DB::Status() const
 }
 
 DB::DB(const DB& db)
-    : status(MBError::NOT_INITIALIZED)
+    : options(0)
+    , dict(NULL)
+    , status(MBError::NOT_INITIALIZED)
     , rebuild_guard_file(NULL)
     , process_start_time(0)
     , reader_guard_fast_slot_count(0)
     , reader_guard_barrier_fallback_count(0)
+    , async_writer(NULL)
     , writer_lock_fd(-1)
 {
     MBConfig db_config = db.dbConfig;
-- 
2.43.0


From 8b3383fb14facae05ae52d2ebcaa14db8912032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 34/65] fix: a reader handle must not write by offset

---
 src/db.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/db.cpp b/src/db.cpp
index 5bc026a..bf1f01b 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1002,6 +1002,8 @@ int DB::WriteDataByOffset(size_t offset, const char* data, int data_len) const
 {
     if (status != MBError::SUCCESS)
         return MBError::NOT_INITIALIZED;
+    if (!(options & CONSTS::ACCESS_MODE_WRITER))
+        return MBError::NOT_ALLOWED;
 
     try {
         dict->WriteData(reinterpret_cast<const uint8_t*>(data), data_len, offset);
-- 
2.43.0


From 32c375a8bdacfee7b92542f84e05d003a39f9bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 35/65] fix: make backups of synchronous writers, report their
 failures and give them their own queue

---
 src/db.cpp            |   2 +-
 src/dict.cpp          |   4 +-
 src/mb_backup.cpp     | 117 ++++++++++++++++++++++++++----------------
 src/mb_backup.h       |   3 ++
 src/shm_queue_mgr.cpp |  10 +++-
 src/shm_queue_mgr.h   |   3 +-
 src/util/utils.cpp    |   1 -
 7 files changed, 90 insertions(+), 50 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index bf1f01b..f2d82e4 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1172,7 +1172,7 @@ int DB::Backup(const char* bk_dir)
         return MBError::NOT_ALLOWED;
 
     try {
-        if (async_writer == NULL && (options & CONSTS::ASYNC_WRITER_MODE)) {
+        if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
             DBBackup bk(*this);
             rval = bk.Backup(bk_dir);
         } else {
diff --git a/src/dict.cpp b/src/dict.cpp
index bdaabc3..3150f7c 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -69,7 +69,9 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
 
     if (!(db_options & CONSTS::READ_ONLY_DB)) {
         // initialize shared memory queue
-        slaq = qmgr.CreateFile(header->shm_queue_id, queue_size, queue_dir, db_options);
+        if (db_options & CONSTS::MEMORY_ONLY_MODE)
+            queue_dir = mbdir.c_str();
+        slaq = qmgr.CreateFile(header->shm_queue_id, queue_size, queue_dir, db_options, init_header);
         queue = slaq->queue;
     }
     lfree.LockFreeInit(&header->lock_free, header, db_options);
diff --git a/src/mb_backup.cpp b/src/mb_backup.cpp
index a6a5525..47a6639 100644
--- a/src/mb_backup.cpp
+++ b/src/mb_backup.cpp
@@ -24,6 +24,8 @@
 #include "integer_4b_5b.h"
 #include "mb_backup.h"
 #include "mb_data.h"
+#include "shm_queue_mgr.h"
+#include "util/utils.h"
 
 namespace mabain {
 
@@ -53,12 +55,12 @@ void DBBackup::copy_file(const std::string& src_path, const std::string& dest_pa
 
     if ((fp_read = fopen(src_path.c_str(), "rb")) == NULL) {
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not open file %s", src_path.c_str());
-        throw MBError::OPEN_FAILURE;
+        throw (int)MBError::OPEN_FAILURE;
     }
     if ((fp_write = fopen(dest_path.c_str(), "wb")) == NULL) {
         fclose(fp_read);
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not open file %s", dest_path.c_str());
-        throw MBError::OPEN_FAILURE;
+        throw (int)MBError::OPEN_FAILURE;
     }
 
     int rval = MBError::SUCCESS;
@@ -81,9 +83,66 @@ void DBBackup::copy_file(const std::string& src_path, const std::string& dest_pa
         }
     }
     fclose(fp_read);
-    fclose(fp_write);
+    if (fclose(fp_write) != 0 && rval == MBError::SUCCESS)
+        rval = MBError::WRITE_ERROR;
+
+    if (rval != MBError::SUCCESS) {
+        Logger::Log(LOG_LEVEL_ERROR, "Backup failed %s", MBError::get_error_str(rval));
+        throw rval;
+    }
+}
+
+// Copy the block files. A block does not exist before it is used.
+void DBBackup::copy_blocks(const std::string& src_base, const std::string& dest_base,
+    size_t max_offset, size_t block_size, char* buffer)
+{
+    for (size_t i = 0;; i++) {
+        std::string src_path = src_base + std::to_string(i);
+        if (access(src_path.c_str(), F_OK) != 0) {
+            if (i * block_size >= max_offset || header->count == 0)
+                break;
+            throw (int)MBError::OPEN_FAILURE;
+        }
+        copy_file(src_path, dest_base + std::to_string(i), buffer, BLOCK_SIZE_ALIGN);
+    }
+}
 
+// The backup is a database of its own. It has no writer or reader and must not
+// use the queue of the original one.
+void DBBackup::copy_header(const std::string& dest_path, char* buffer)
+{
+    FILE* fp = fopen(dest_path.c_str(), "wb");
+    if (fp == NULL) {
+        Logger::Log(LOG_LEVEL_ERROR, "Backup failed: Could not open file %s", dest_path.c_str());
+        throw (int)MBError::OPEN_FAILURE;
+    }
+
+    memcpy(buffer, reinterpret_cast<const void*>(header), RollableFile::page_size);
+    IndexHeader* bk_header = reinterpret_cast<IndexHeader*>(buffer);
+    bk_header->num_writer = 0;
+    bk_header->num_reader = 0;
+    bk_header->lock_free.offset = MAX_6B_OFFSET;
+    bk_header->shm_queue_id = get_file_inode(dest_path);
+    bk_header->queue_index = 0;
+    bk_header->writer_index = 0;
+    bk_header->rc_flag = 0;
+
+    int rval = MBError::SUCCESS;
+    try {
+        MBConfig config;
+        db_ref.GetDBConfig(config);
+        ShmQueueMgr qmgr;
+        qmgr.CreateFile(bk_header->shm_queue_id, header->async_queue_size,
+            config.queue_dir, CONSTS::ACCESS_MODE_WRITER, true);
+    } catch (int error) {
+        rval = error;
+    }
+    if (rval == MBError::SUCCESS && fwrite(buffer, RollableFile::page_size, 1, fp) != 1)
+        rval = MBError::WRITE_ERROR;
+    if (fclose(fp) != 0 && rval == MBError::SUCCESS)
+        rval = MBError::WRITE_ERROR;
     if (rval != MBError::SUCCESS) {
+        unlink(dest_path.c_str());
         Logger::Log(LOG_LEVEL_ERROR, "Backup failed %s", MBError::get_error_str(rval));
         throw rval;
     }
@@ -110,54 +169,24 @@ int DBBackup::Backup(const char* bk_dir)
 
     db_ref.Flush();
 
-    int num_data_files, num_index_files;
-    // get the number of files from the header: max_bytes/number_of_bytes_per_file
-    num_data_files = (header->m_data_offset / header->data_block_size) + 1;
-    num_index_files = (header->m_index_offset / header->index_block_size) + 1;
-
     char* buffer = (char*)malloc(BLOCK_SIZE_ALIGN);
     if (buffer == NULL)
         throw (int)MBError::NO_MEMORY;
 
-    // loop through all data files
-    const std::string& orig_dir = db_ref.GetDBDir();
-    std::string read_file_path_base = orig_dir + "/_mabain_d";
-    std::string write_file_path_base = std::string(bk_dir) + "/_mabain_d";
-    std::string read_file_path;
-    std::string write_file_path;
-
-    for (int i = 0; i < num_data_files; i++) {
-        read_file_path = read_file_path_base + std::to_string(i);
-        write_file_path = write_file_path_base + std::to_string(i);
-        copy_file(read_file_path, write_file_path, buffer, BLOCK_SIZE_ALIGN);
-    }
-
-    read_file_path_base = orig_dir + "/_mabain_i";
-    write_file_path_base = std::string(bk_dir) + "/_mabain_i";
-    for (int i = 0; i < num_index_files; i++) {
-        read_file_path = read_file_path_base + std::to_string(i);
-        write_file_path = write_file_path_base + std::to_string(i);
-        copy_file(read_file_path, write_file_path, buffer, BLOCK_SIZE_ALIGN);
+    try {
+        const std::string& orig_dir = db_ref.GetDBDir();
+        copy_blocks(orig_dir + "/_mabain_d", std::string(bk_dir) + "/_mabain_d",
+            header->m_data_offset, header->data_block_size, buffer);
+        copy_blocks(orig_dir + "/_mabain_i", std::string(bk_dir) + "/_mabain_i",
+            header->m_index_offset, header->index_block_size, buffer);
+        // The backup is complete when it has its header.
+        copy_header(bk_header_path, buffer);
+    } catch (...) {
+        free(buffer);
+        throw;
     }
 
-    read_file_path = orig_dir + "/_mabain_h";
-    write_file_path = std::string(bk_dir) + "/_mabain_h";
-    // header is size of page_size
-    copy_file(read_file_path, write_file_path, buffer, RollableFile::page_size);
-
     free(buffer);
-
-    // reset number readers/writers in backed up DB.
-    int rval;
-    DB db = DB(bk_dir, CONSTS::ACCESS_MODE_READER, 0, 0);
-    rval = db.UpdateNumHandlers(CONSTS::ACCESS_MODE_WRITER, -1);
-    if (rval != MBError::SUCCESS)
-        Logger::Log(LOG_LEVEL_WARN, "failed to reset number of writer for DB %s", bk_dir);
-
-    rval = db.UpdateNumHandlers(CONSTS::ACCESS_MODE_READER, INT_MIN);
-    if (rval != MBError::SUCCESS)
-        Logger::Log(LOG_LEVEL_WARN, "failed to reset number of writer for DB %s", bk_dir);
-    db.Close();
     return MBError::SUCCESS;
 }
 
diff --git a/src/mb_backup.h b/src/mb_backup.h
index 1030196..df0850f 100644
--- a/src/mb_backup.h
+++ b/src/mb_backup.h
@@ -36,6 +36,9 @@ public:
 private:
     static void copy_file(const std::string& src_path,
         const std::string& dest_path, char* buffer, int buffer_size);
+    void copy_blocks(const std::string& src_base, const std::string& dest_base,
+        size_t max_offset, size_t block_size, char* buffer);
+    void copy_header(const std::string& dest_path, char* buffer);
 
     const DB& db_ref;
     const IndexHeader* header;
diff --git a/src/shm_queue_mgr.cpp b/src/shm_queue_mgr.cpp
index b607efe..e676b33 100644
--- a/src/shm_queue_mgr.cpp
+++ b/src/shm_queue_mgr.cpp
@@ -43,7 +43,7 @@ void ShmQueueMgr::InitShmObjects(shm_lock_and_queue* slaq, int queue_size)
 }
 
 shm_lock_and_queue* ShmQueueMgr::CreateFile(uint64_t qid, int qsize,
-    const char* queue_dir, int options)
+    const char* queue_dir, int options, bool new_queue)
 {
     if (qsize > MB_MAX_NUM_SHM_QUEUE_NODE)
         throw (int)MBError::INVALID_SIZE;
@@ -57,12 +57,14 @@ shm_lock_and_queue* ShmQueueMgr::CreateFile(uint64_t qid, int qsize,
     if (access(qfile_path.c_str(), F_OK))
         init_queue = true;
 
+    // The queue of a memory-only database is not shared with other processes
+    int mode = CONSTS::ACCESS_MODE_WRITER | (options & CONSTS::MEMORY_ONLY_MODE);
     bool map_qfile = true;
     int q_buff_size = sizeof(shm_lock_and_queue);
     if (qsize < MB_MAX_NUM_SHM_QUEUE_NODE)
         q_buff_size -= sizeof(AsyncNode) * (MB_MAX_NUM_SHM_QUEUE_NODE - qsize);
     qfile = ResourcePool::getInstance().OpenFile(qfile_path,
-        CONSTS::ACCESS_MODE_WRITER,
+        mode,
         q_buff_size,
         map_qfile,
         options & CONSTS::ACCESS_MODE_WRITER);
@@ -72,6 +74,10 @@ shm_lock_and_queue* ShmQueueMgr::CreateFile(uint64_t qid, int qsize,
     if (slaq == NULL)
         throw (int)MBError::MMAP_FAILED;
 
+    // A removed database may have left a queue behind
+    if (new_queue)
+        memset(reinterpret_cast<void*>(slaq), 0, q_buff_size);
+
     if (options & CONSTS::ACCESS_MODE_WRITER) {
         if (init_queue)
             slaq->initialized = 0;
diff --git a/src/shm_queue_mgr.h b/src/shm_queue_mgr.h
index 7911d90..e4a371c 100644
--- a/src/shm_queue_mgr.h
+++ b/src/shm_queue_mgr.h
@@ -65,7 +65,8 @@ class ShmQueueMgr {
 public:
     ShmQueueMgr();
     ~ShmQueueMgr();
-    shm_lock_and_queue* CreateFile(uint64_t qid, int qsize, const char* queue_dir, int options);
+    shm_lock_and_queue* CreateFile(uint64_t qid, int qsize, const char* queue_dir, int options,
+        bool new_queue = false);
     void PrintStats(std::ostream& out_stream, const IndexHeader* hdr) const;
 
 private:
diff --git a/src/util/utils.cpp b/src/util/utils.cpp
index c67497a..6a64f43 100644
--- a/src/util/utils.cpp
+++ b/src/util/utils.cpp
@@ -121,7 +121,6 @@ static int remove_matched_files(const std::string& dpath, const std::string& pat
 
 int remove_db_files(const std::string& db_dir)
 {
-    remove_matched_files("/dev/shm", "_mabain_q");
     remove_matched_files(db_dir, "_mabain_");
     return 0;
 }
-- 
2.43.0


From c50e81cfcb16c919eb42d844189db007cbed92ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 36/65] fix: signalling a closed async writer must not raise
 SIGPIPE

---
 src/mb_pipe.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/mb_pipe.cpp b/src/mb_pipe.cpp
index 93e314c..a560d06 100644
--- a/src/mb_pipe.cpp
+++ b/src/mb_pipe.cpp
@@ -18,6 +18,8 @@
 
 #include <fcntl.h>
 #include <poll.h>
+#include <pthread.h>
+#include <signal.h>
 #include <string.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -130,6 +132,33 @@ bool MBPipe::Wait(int timeout)
     return false;
 }
 
+// Write without raising SIGPIPE in case the async writer has just closed the pipe
+static ssize_t WriteNoSignal(int fd, const void* buf, size_t len)
+{
+    sigset_t pipe_set, old_set, pending;
+    sigemptyset(&pipe_set);
+    sigaddset(&pipe_set, SIGPIPE);
+    sigemptyset(&pending);
+    sigpending(&pending);
+    bool was_pending = sigismember(&pending, SIGPIPE);
+    if (pthread_sigmask(SIG_BLOCK, &pipe_set, &old_set) != 0)
+        return -1;
+
+    ssize_t nwritten = write(fd, buf, len);
+    int err = errno;
+    if (nwritten < 0 && err == EPIPE && !was_pending) {
+        sigemptyset(&pending);
+        sigpending(&pending);
+        int sig;
+        if (sigismember(&pending, SIGPIPE))
+            sigwait(&pipe_set, &sig);
+    }
+
+    pthread_sigmask(SIG_SETMASK, &old_set, NULL);
+    errno = err;
+    return nwritten;
+}
+
 int MBPipe::Signal()
 {
     if (fd < 0) {
@@ -165,7 +194,7 @@ int MBPipe::Signal()
         return MBError::NO_RESOURCE;
     }
 
-    if (write(fd, "", 1) < 0) {
+    if (WriteNoSignal(fd, "", 1) < 0) {
         if (!(errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR)) {
             Logger::Log(LOG_LEVEL_DEBUG, "failed to signal async writer errno: %s",
                 strerror(errno));
-- 
2.43.0


From 698ccd2c88ff26b8bfcb9df1b6d1cf4bda9afda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:05 +0000
Subject: [PATCH 37/65] fix: do not use cached mappings of files that were
 removed or created again

---
 src/file_io.cpp       | 17 +++++++++++++++++
 src/file_io.h         |  5 +++++
 src/mmap_file.cpp     |  5 +++++
 src/mmap_file.h       |  2 ++
 src/resource_pool.cpp |  6 ++++++
 5 files changed, 35 insertions(+)

diff --git a/src/file_io.cpp b/src/file_io.cpp
index 62e0abd..ae78e44 100644
--- a/src/file_io.cpp
+++ b/src/file_io.cpp
@@ -33,6 +33,8 @@ FileIO::FileIO(const std::string& fpath, int oflags, int fmode, bool sync)
     , mode(fmode)
 {
     fd = -1;
+    file_dev = 0;
+    file_ino = 0;
 }
 
 FileIO::~FileIO()
@@ -47,9 +49,24 @@ int FileIO::Open()
     fd = open(path.c_str(), options, mode);
     umask(prev_mask);
 
+    struct stat sb;
+    if (fd >= 0 && fstat(fd, &sb) == 0) {
+        file_dev = sb.st_dev;
+        file_ino = sb.st_ino;
+    }
+
     return fd;
 }
 
+bool FileIO::IsReplaced() const
+{
+    if (options & MMAP_ANONYMOUS_MODE)
+        return false;
+
+    struct stat sb;
+    return stat(path.c_str(), &sb) != 0 || sb.st_dev != file_dev || sb.st_ino != file_ino;
+}
+
 size_t FileIO::Write(const void* data, size_t size)
 {
     if (options & MMAP_ANONYMOUS_MODE)
diff --git a/src/file_io.h b/src/file_io.h
index 120bd1b..d72051d 100644
--- a/src/file_io.h
+++ b/src/file_io.h
@@ -53,6 +53,8 @@ public:
     virtual void Flush();
 
     const std::string& GetFilePath() const;
+    // Check if the path no longer refers to the file that was opened
+    bool IsReplaced() const;
 
 protected:
     std::string path;
@@ -65,6 +67,9 @@ private:
     int mode;
 
     int fd;
+    // identity of the opened file
+    dev_t file_dev;
+    ino_t file_ino;
 };
 
 }
diff --git a/src/mmap_file.cpp b/src/mmap_file.cpp
index f5893a3..92118ac 100644
--- a/src/mmap_file.cpp
+++ b/src/mmap_file.cpp
@@ -288,6 +288,11 @@ size_t MmapFileIO::RandomRead(void* buff, size_t size, off_t offset)
     return bytes_read;
 }
 
+bool MmapFileIO::IsStale(size_t size) const
+{
+    return IsReplaced() || (mmap_file && size > mmap_size);
+}
+
 bool MmapFileIO::IsMapped() const
 {
     return mmap_file;
diff --git a/src/mmap_file.h b/src/mmap_file.h
index a4df172..b5e7ad7 100644
--- a/src/mmap_file.h
+++ b/src/mmap_file.h
@@ -42,6 +42,8 @@ public:
 
     uint8_t* MapFile(size_t size, off_t offset, bool sliding = false);
     bool IsMapped() const;
+    // Check if a cached file can be used to access size bytes of the file at its path
+    bool IsStale(size_t size) const;
     size_t SeqWrite(const void* data, size_t size);
     size_t RandomWrite(const void* data, size_t size, off_t offset);
     size_t SeqRead(void* buff, size_t size);
diff --git a/src/resource_pool.cpp b/src/resource_pool.cpp
index c2f8233..99fd35e 100644
--- a/src/resource_pool.cpp
+++ b/src/resource_pool.cpp
@@ -87,6 +87,12 @@ std::shared_ptr<MmapFileIO> ResourcePool::OpenFileWithKey(const std::string& poo
     pthread_mutex_lock(&pool_mutex);
 
     auto search = file_pool.find(pool_key);
+    if (search != file_pool.end() && search->second && search->second->IsStale(file_size)) {
+        // The file was removed or created again since it was opened.
+        Logger::Log(LOG_LEVEL_DEBUG, "drop stale resource %s", fpath.c_str());
+        file_pool.erase(search);
+        search = file_pool.end();
+    }
     if (search == file_pool.end()) {
         Logger::Log(LOG_LEVEL_DEBUG, "create resource %s", fpath.c_str());
         int flags = O_RDWR;
-- 
2.43.0


From 9508db9831b8ea29c1fa8aff200f96852d1301cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 38/65] fix: ClearResources must not affect databases whose
 path starts with the given one

---
 src/resource_pool.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/resource_pool.cpp b/src/resource_pool.cpp
index 99fd35e..2f4279d 100644
--- a/src/resource_pool.cpp
+++ b/src/resource_pool.cpp
@@ -63,10 +63,16 @@ void ResourcePool::RemoveResourceByPath(const std::string& path)
 
 void ResourcePool::RemoveResourceByDB(const std::string& db_path)
 {
+    // The name of another database can start with the name of this one.
+    std::string db_dir = db_path;
+    if (!db_dir.empty() && db_dir[db_dir.size() - 1] != '/')
+        db_dir += "/";
+
     pthread_mutex_lock(&pool_mutex);
 
     for (auto it = file_pool.begin(); it != file_pool.end();) {
-        if (it->first.compare(0, db_path.size(), db_path) == 0)
+        if (it->first.compare(0, db_dir.size(), db_dir) == 0
+            && (db_dir.empty() || it->first.find('/', db_dir.size()) == std::string::npos))
             it = file_pool.erase(it);
         else
             it++;
-- 
2.43.0


From 20cbd2c40c88908d88e7452ea6af326313bfd31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 39/65] fix: every writer keeps the prefix cache of its readers
 up to date

---
 src/dict.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 3150f7c..aafe51f 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -137,18 +137,17 @@ Dict::Dict(const std::string& mbdir, bool init_header, int datasize,
         (void)kv_file->PreAlloc(GetStartDataOffset());
     }
     // Instantiate the prefix cache only if the DB has an embedded cache region
-    // and the caller requested prefix cache via OPTION_PREFIX_CACHE.
-    if (!(options & CONSTS::ASYNC_WRITER_MODE)) {
-        bool want_cache = (header->pfxcache_size > 0) && (options & CONSTS::OPTION_PREFIX_CACHE);
-        if (want_cache) {
-            try {
-                prefix_cache = std::unique_ptr<PrefixCache>(new PrefixCache(mbdir_, header, /*capacity hint*/65536));
-                // Entries left by a previous writer may describe edges that changed since
-                if (options & CONSTS::ACCESS_MODE_WRITER)
-                    prefix_cache->Clear();
-            } catch (...) {
-                // Leave cache disabled on failure; DB remains operational.
-            }
+    // and the caller requested prefix cache via OPTION_PREFIX_CACHE. A writer has to keep
+    // the cache used by its readers up to date in any case.
+    if (header->pfxcache_size > 0
+        && (options & (CONSTS::OPTION_PREFIX_CACHE | CONSTS::ACCESS_MODE_WRITER))) {
+        try {
+            prefix_cache = std::unique_ptr<PrefixCache>(new PrefixCache(mbdir_, header, /*capacity hint*/65536));
+            // Entries left by a previous writer may describe edges that changed since
+            if (options & CONSTS::ACCESS_MODE_WRITER)
+                prefix_cache->Clear();
+        } catch (...) {
+            // Leave cache disabled on failure; DB remains operational.
         }
     }
     if (mm.IsValid())
-- 
2.43.0


From b7d82df7feb3ccc2ff37634cf11a1d875c244b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 40/65] fix: a new database must not start with root edges left
 in an old index file

---
 src/dict.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dict.cpp b/src/dict.cpp
index aafe51f..f77dba2 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -247,6 +247,9 @@ int Dict::Init(uint32_t id)
     Logger::Log(LOG_LEVEL_DEBUG, "connector %u initializing DictMem", id);
     try {
         mm.InitRootNode();
+        // The index file may have been left by a database that lost its header.
+        for (int c = 0; c < NUM_ALPHABET; c++)
+            mm.ClearRootEdge(c);
     } catch (int error) {
         status = error;
         Logger::Log(LOG_LEVEL_ERROR, "connector %u failed to initialize DictMem: %s",
-- 
2.43.0


From ef38221a83335ab2d8bf9fa929931a76006ce9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 41/65] fix: jemalloc allocation at the start of a block which
 is not open yet

---
 src/rollable_file.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index eaf052c..1ac4a35 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -834,6 +834,22 @@ void* RollableFile::custom_extent_alloc(void* new_addr, size_t size, size_t alig
                 ptr = mgr->files[block_order]->GetMapAddr() + aligned_offset;
             }
         } else {
+            // The tail can be the very beginning of a block not opened yet.
+            if ((size_t)block_order >= mgr->max_num_block) {
+                Logger::Log(LOG_LEVEL_ERROR, "custom_extent_alloc: arena %u max block number exceeded"
+                                             " (used: %zu, size: %zu)",
+                    arena_ind, mm_meta->alloc_size, size);
+                g_jemalloc_alloc_error = MBError::NO_MEMORY;
+                return nullptr;
+            }
+            int rval = mgr->CheckAndOpenFile(block_order, true);
+            if (rval != MBError::SUCCESS) {
+                Logger::Log(LOG_LEVEL_ERROR, "custom_extent_alloc: arena %u failed to open"
+                                             " block file (order: %d, used: %zu, size: %zu)",
+                    arena_ind, block_order, mm_meta->alloc_size, size);
+                g_jemalloc_alloc_error = MBError::MMAP_FAILED;
+                return nullptr;
+            }
             mm_meta->alloc_size = block_order * mgr->block_size + aligned_offset + size;
             ptr = mgr->files[block_order]->GetMapAddr() + aligned_offset;
         }
-- 
2.43.0


From ae1c52ee380e09c0235658e9af846fe0accedb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 42/65] fix: Add, Remove and RemoveAll return an error when the
 database is full

---
 src/db.cpp   | 21 ++++++++++++++++++---
 src/dict.cpp |  7 ++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index f2d82e4..1a6cf7a 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -1031,7 +1031,12 @@ int DB::Add(const char* key, int len, MBData& mbdata, bool overwrite)
         return MBError::NOT_INITIALIZED;
 
     if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
-        rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
+        try {
+            rval = dict->Add(reinterpret_cast<const uint8_t*>(key), len, mbdata, overwrite);
+        } catch (int error) {
+            Logger::Log(LOG_LEVEL_ERROR, "failed to add: %s", MBError::get_error_str(error));
+            rval = error;
+        }
     } else {
         AsyncWriter* awr = AsyncWriter::GetInstance(mb_dir);
         if (awr) {
@@ -1101,7 +1106,12 @@ int DB::Remove(const char* key, int len)
         return MBError::NOT_INITIALIZED;
 
     if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
-        rval = dict->Remove(reinterpret_cast<const uint8_t*>(key), len);
+        try {
+            rval = dict->Remove(reinterpret_cast<const uint8_t*>(key), len);
+        } catch (int error) {
+            Logger::Log(LOG_LEVEL_ERROR, "failed to remove: %s", MBError::get_error_str(error));
+            rval = error;
+        }
     } else {
         rval = dict->SHMQ_Remove(reinterpret_cast<const char*>(key), len);
     }
@@ -1140,7 +1150,12 @@ int DB::RemoveAll()
 
     int rval;
     if (async_writer == NULL && (options & CONSTS::ACCESS_MODE_WRITER)) {
-        rval = dict->RemoveAll();
+        try {
+            rval = dict->RemoveAll();
+        } catch (int error) {
+            Logger::Log(LOG_LEVEL_ERROR, "failed to remove all: %s", MBError::get_error_str(error));
+            rval = error;
+        }
     } else {
         rval = dict->SHMQ_RemoveAll();
     }
diff --git a/src/dict.cpp b/src/dict.cpp
index f77dba2..1a68166 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -393,10 +393,11 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
         if (rval == MBError::SUCCESS)
             header->rc_count++;
     } else {
-        if (rval == MBError::SUCCESS)
+        if (rval == MBError::SUCCESS) {
             header->num_update++;
-        if (inc_count)
-            header->count++;
+            if (inc_count)
+                header->count++;
+        }
     }
     // After a successful add, seed prefix cache at canonical 2/3-byte boundaries.
     if (rval == MBError::SUCCESS && prefix_cache) {
-- 
2.43.0


From 86bf42d14985c8db8b6d5c530780285b50caab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 43/65] fix: a collection that runs out of space must not clear
 the database at the next start

---
 src/mb_rc.cpp | 53 ++++++++++++++++++++++++++++++++++++++++-----------
 src/mb_rc.h   |  1 +
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index e40959a..305c7f4 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -209,8 +209,14 @@ void ResourceCollection::ReclaimResource(int64_t min_index_size,
 
         // Every node and edge may move
         dict->ClearPrefixCache();
-        ReorderBuffers();
-        CollectBuffers();
+        try {
+            ReorderBuffers();
+            CollectBuffers();
+        } catch (int) {
+            Abort();
+            dict->ClearPrefixCache();
+            throw;
+        }
         Finish();
         dict->ClearPrefixCache();
 
@@ -687,11 +693,6 @@ void ResourceCollection::Prepare(int64_t min_index_size, int64_t min_data_size)
         throw (int)MBError::RC_SKIPPED;
     }
 
-    if (index_free_lists != NULL)
-        index_free_lists->Empty();
-    if (data_free_lists != NULL)
-        data_free_lists->Empty();
-
     rc_loop_counter = 0;
     index_reorder_cnt = 0;
     data_reorder_cnt = 0;
@@ -699,8 +700,6 @@ void ResourceCollection::Prepare(int64_t min_index_size, int64_t min_data_size)
     data_rc_status = MBError::NOT_INITIALIZED;
     index_reorder_status = MBError::NOT_INITIALIZED;
     data_reorder_status = MBError::NOT_INITIALIZED;
-    header->rc_m_index_off_pre = header->m_index_offset;
-    header->rc_m_data_off_pre = header->m_data_offset;
 
     if (async_writer_ptr) {
         // set rc root to at the end of max size
@@ -716,7 +715,16 @@ void ResourceCollection::Prepare(int64_t min_index_size, int64_t min_data_size)
                 header->m_data_offset, MIN_RC_OFFSET_GAP, rc_data_offset);
             throw (int)MBError::OUT_OF_BOUND;
         }
+    }
 
+    if (index_free_lists != NULL)
+        index_free_lists->Empty();
+    if (data_free_lists != NULL)
+        data_free_lists->Empty();
+    header->rc_m_index_off_pre = header->m_index_offset;
+    header->rc_m_data_off_pre = header->m_data_offset;
+
+    if (async_writer_ptr) {
         // update current indexs to rc offsets
         header->m_index_offset = rc_index_offset;
         header->m_data_offset = rc_data_offset;
@@ -785,6 +793,23 @@ void ResourceCollection::Finish()
     // dmm->RemoveUnused(header->m_index_offset, true);
 }
 
+// Give up a collection which cannot be completed, e.g. if there is no space for reordering.
+// The buffers moved so far are in use at their new locations and header->m_index_offset
+// and header->m_data_offset are already behind them.
+void ResourceCollection::Abort()
+{
+    if (async_writer_ptr != NULL) {
+        // New buffers cannot overwrite the rc tree.
+        rc_index_offset = MAX_6B_OFFSET;
+        rc_data_offset = MAX_6B_OFFSET;
+        ProcessRCTree();
+        async_writer_ptr = NULL;
+    }
+
+    header->rc_m_index_off_pre = 0;
+    header->rc_m_data_off_pre = 0;
+}
+
 bool ResourceCollection::MoveIndexBuffer(int phase, size_t& offset_src, int size)
 {
     index_size = dmm->CheckAlignment(index_size, size);
@@ -1053,7 +1078,11 @@ void ResourceCollection::ProcessRCTree()
     // whole rc tree is merged.
     for (DB::iterator iter = db_itr.begin(false, true); iter != db_itr.end(); ++iter) {
         iter.value.options = 0;
-        rval = dict->Add((const uint8_t*)iter.key.data(), iter.key.size(), iter.value, true);
+        try {
+            rval = dict->Add((const uint8_t*)iter.key.data(), iter.key.size(), iter.value, true);
+        } catch (int err) {
+            rval = err;
+        }
         if (rval != MBError::SUCCESS)
             Logger::Log(LOG_LEVEL_WARN, "failed to add: %s", MBError::get_error_str(rval));
 
@@ -1091,7 +1120,9 @@ int ResourceCollection::ExceptionRecovery()
                 rval = err;
         }
 
-        if (rval != MBError::SUCCESS) {
+        if (rval == MBError::NO_RESOURCE || rval == MBError::NO_MEMORY) {
+            Logger::Log(LOG_LEVEL_WARN, "not enough space to complete the previous rc");
+        } else if (rval != MBError::SUCCESS) {
             Logger::Log(LOG_LEVEL_ERROR, "failed to run rc recovery: %s, clear db!!!", MBError::get_error_str(rval));
             dict->RemoveAll();
         }
diff --git a/src/mb_rc.h b/src/mb_rc.h
index 5e679b5..c0d9824 100644
--- a/src/mb_rc.h
+++ b/src/mb_rc.h
@@ -108,6 +108,7 @@ private:
     void CollectBuffers();
     void ReorderBuffers();
     void Finish();
+    void Abort();
     bool MoveDataBufferEvacuate(size_t& offset_src, int size);
     bool MoveIndexBufferEvacuate(size_t& offset_src, int size);
     bool MoveIndexBuffer(int phase, size_t& offset_src, int size);
-- 
2.43.0


From f8b8ec6850230481e8630fae0401a840d3f57584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 44/65] fix: eviction index stops short of the wrap of bucket
 indexes

Bucket indexes of entries are taken modulo 0xFFFF, but the eviction index was advanced
modulo 0x10000. At the wrap it was left behind, and the newest buckets were evicted first.
---
 src/dict.cpp  | 8 ++++----
 src/mb_rc.cpp | 5 ++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 1a68166..cde3d89 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1080,8 +1080,8 @@ void Dict::ReserveData(const uint8_t* buff, int size, size_t& offset)
         dsize[0] = static_cast<uint16_t>(size);
         // store bucket index for LRU eviction
         dsize[1] = (header->num_update / header->entry_per_bucket) % 0xFFFF;
-        if (dsize[1] == header->eviction_bucket_index && header->num_update > header->entry_per_bucket) {
-            header->eviction_bucket_index++;
+        if (dsize[1] == header->eviction_bucket_index % 0xFFFF && header->num_update > header->entry_per_bucket) {
+            header->eviction_bucket_index = (dsize[1] + 1) % 0xFFFF;
         }
         memcpy(ptr, &dsize[0], DATA_HDR_BYTE);
         memcpy(static_cast<uint8_t*>(ptr) + DATA_HDR_BYTE, buff, size);
@@ -1109,8 +1109,8 @@ void Dict::reserveDataFL(const uint8_t* buff, int size, size_t& offset)
     dsize[0] = static_cast<uint16_t>(size);
     // store bucket index for LRU eviction
     dsize[1] = (header->num_update / header->entry_per_bucket) % 0xFFFF;
-    if (dsize[1] == header->eviction_bucket_index && header->num_update > header->entry_per_bucket) {
-        header->eviction_bucket_index++;
+    if (dsize[1] == header->eviction_bucket_index % 0xFFFF && header->num_update > header->entry_per_bucket) {
+        header->eviction_bucket_index = (dsize[1] + 1) % 0xFFFF;
     }
 
     if (free_lists->GetBufferCountByIndex(buf_index) > 0) {
diff --git a/src/mb_rc.cpp b/src/mb_rc.cpp
index 305c7f4..6b9cf00 100644
--- a/src/mb_rc.cpp
+++ b/src/mb_rc.cpp
@@ -150,9 +150,8 @@ int ResourceCollection::LRUEviction(int64_t max_dbsz, int64_t max_dbcnt)
     }
 
     if (rval != MBError::RC_SKIPPED) {
-        // It is expected that eviction_bucket_index can overflow since we are only
-        // interested in circular difference.
-        header->eviction_bucket_index += prune_diff;
+        // Bucket indexes are circular, see how they are set when adding an entry.
+        header->eviction_bucket_index = (header->eviction_bucket_index + prune_diff) % 0xFFFF;
         // If not enough pruned, need to retry.
         if (pruned < int64_t(prune_diff * header->entry_per_bucket * 0.75))
             rval = MBError::TRY_AGAIN;
-- 
2.43.0


From 9e4fe43a6d49edd29752571c2dda1ff6eb613e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 45/65] fix: prefix cache entries added during resource
 collection

The nodes of the main tree are still being moved, so the cached edges became invalid and
lookups did not find existing entries.
---
 src/dict.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index cde3d89..4972538 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -399,8 +399,9 @@ int Dict::Add(const uint8_t* key, int len, MBData& data, bool overwrite)
                 header->count++;
         }
     }
-    // After a successful add, seed prefix cache at canonical 2/3-byte boundaries.
-    if (rval == MBError::SUCCESS && prefix_cache) {
+    // After a successful add, seed prefix cache at canonical 2/3-byte boundaries. While
+    // resource collection is running the nodes of the main tree are still being moved.
+    if (rval == MBError::SUCCESS && prefix_cache && !(data.options & CONSTS::OPTION_RC_MODE)) {
         SeedCanonicalBoundariesAfterAdd(key, orig_len, /*from_add=*/true);
     }
     return rval;
-- 
2.43.0


From 55be4233fb132cb0345c781c5169b295ed233b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 46/65] fix: longest prefix lookup of a key overwritten during
 resource collection

The old value in the main tree was returned if the key is in both trees.
---
 src/detail/search_engine.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 863c994..7fc5a42 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -47,6 +47,7 @@ namespace detail {
     int SearchEngine::findPrefix(const uint8_t* key, int len, MBData& data)
     {
         int rval;
+        int rc_rval = MBError::NOT_EXIST;
         MBData data_rc;
         size_t rc_root_offset = dict.GetHeaderPtr()->rc_root_offset.load(MEMORY_ORDER_READER);
         if (rc_root_offset != 0) {
@@ -64,6 +65,7 @@ namespace detail {
 #endif
             if (rval != MBError::NOT_EXIST && rval != MBError::SUCCESS)
                 return rval;
+            rc_rval = rval;
             data.options &= ~(CONSTS::OPTION_RC_MODE | CONSTS::OPTION_READ_SAVED_EDGE);
         } else {
             if (dict.reader_rc_off != 0) {
@@ -85,8 +87,10 @@ namespace detail {
         }
 #endif
 
-        // Prefer the longer match: copy value and match_len when rc-path wins.
-        if (data_rc.match_len > data.match_len) {
+        // Prefer the longer match: copy value and match_len when rc-path wins. An entry in
+        // rc tree is newer than the one with the same key in the main tree.
+        if (rc_rval == MBError::SUCCESS
+            && (rval == MBError::NOT_EXIST || (rval == MBError::SUCCESS && data_rc.match_len >= data.match_len))) {
             uint8_t* rc_buff = nullptr;
             int rc_len = 0;
             data_rc.TransferValueTo(rc_buff, rc_len);
-- 
2.43.0


From 1dc744ca3b0408f8e634c7c0f1c6d7463f01173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 47/65] fix: readers beside a restarting writer must notice its
 updates

A starting writer reset the update counter, so a reader which started before
could not see that edges were updated, and unmarked an edge which the previous
writer left half updated before the recovery restored it.
---
 src/lock_free.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lock_free.cpp b/src/lock_free.cpp
index bb33807..0439210 100644
--- a/src/lock_free.cpp
+++ b/src/lock_free.cpp
@@ -41,9 +41,15 @@ void LockFree::LockFreeInit(LockFreeShmData* lock_free_ptr, IndexHeader* hdr, in
     shm_data_ptr = lock_free_ptr;
     header = hdr;
     if (mode & CONSTS::ACCESS_MODE_WRITER) {
-        // Clear the lock free data
-        shm_data_ptr->counter.store(0, MEMORY_ORDER_WRITER);
-        shm_data_ptr->offset.store(MAX_6B_OFFSET, MEMORY_ORDER_WRITER);
+        // Readers may be searching already. So the counter must go on from the previous writer.
+        size_t offset = shm_data_ptr->offset.load(MEMORY_ORDER_READER);
+        if (offset == 0 || offset == MAX_6B_OFFSET) {
+            shm_data_ptr->offset.store(MAX_6B_OFFSET, MEMORY_ORDER_WRITER);
+        } else if (header->excep_updating_status == EXCEP_STATUS_NONE) {
+            // The previous writer was terminated with the edge completely updated.
+            WriterLockFreeStop();
+        }
+        // Otherwise the edge is still being updated until exception recovery is done.
     }
 }
 
-- 
2.43.0


From 463a348b836b3d2e871f9125478f34abe3f9df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:18 +0000
Subject: [PATCH 48/65] fix: the shell must not take other text for bin( or
 hex(

---
 binaries/expr_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binaries/expr_parser.cpp b/binaries/expr_parser.cpp
index 242bb19..19c97f4 100644
--- a/binaries/expr_parser.cpp
+++ b/binaries/expr_parser.cpp
@@ -72,7 +72,7 @@ int ExprParser::Parse(std::string& result)
 
         switch (expr[pos]) {
         case 'b': { // bin(...) expression
-            if (expr.find("in(", pos + 1, 3) == std::string::npos) {
+            if (expr.compare(pos + 1, 3, "in(") != 0) {
                 err_str = "unrecognized expression " + expr.substr(pos);
                 return -1;
             }
@@ -104,7 +104,7 @@ int ExprParser::Parse(std::string& result)
             break;
         }
         case 'h': { // hex(...) expression
-            if (expr.find("ex(", pos + 1, 3) == std::string::npos) {
+            if (expr.compare(pos + 1, 3, "ex(") != 0) {
                 err_str = "unrecognized expression " + expr.substr(pos);
                 return -1;
             }
-- 
2.43.0


From d5000698f52397566521b79a0a9f560a2f758e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:18 +0000
Subject: [PATCH 49/65] fix: the shell must not be terminated by a malformed
 reclaimResources command

---
 binaries/mbc.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/binaries/mbc.cpp b/binaries/mbc.cpp
index cd759e8..d848baf 100644
--- a/binaries/mbc.cpp
+++ b/binaries/mbc.cpp
@@ -20,6 +20,7 @@
 
 #include <assert.h>
 #include <ctype.h>
+#include <errno.h>
 #include <fstream>
 #include <iostream>
 #include <readline/history.h>
@@ -483,10 +484,21 @@ static int RunCommand(int mode, DB* db, int cmd_id, const std::string& key,
     case COMMAND_PRINT_HEADER:
         db->PrintHeader();
         break;
-    case COMMAND_RECLAIM_RESOURCES:
-        db->CollectResource(arg_list.size() >= 1 ? stol(arg_list[0]) : 1,
-            arg_list.size() >= 2 ? stol(arg_list[1]) : 1);
-        break;
+    case COMMAND_RECLAIM_RESOURCES: {
+        int64_t sizes[2] = { 1, 1 };
+        bool valid = true;
+        for (size_t i = 0; i < 2 && i < arg_list.size(); i++) {
+            char* endp = NULL;
+            errno = 0;
+            sizes[i] = strtoll(arg_list[i].c_str(), &endp, 10);
+            if (errno != 0 || *endp != '\0')
+                valid = false;
+        }
+        if (valid)
+            db->CollectResource(sizes[0], sizes[1]);
+        else
+            std::cout << "invalid query\n";
+    } break;
     case COMMAND_PARSING_ERROR:
         std::cout << "invalid query\n";
         break;
-- 
2.43.0


From c40496d5abc38e4a5cdcd4af97cd44540b1bdcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 50/65] fix: lookups of keys without length must not read the
 first byte

Find, FindLongestPrefix, FindLowerBound, InDB and Remove with a length of zero or
less read key[0], which may be outside the buffer of the caller.
---
 src/detail/search_engine.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/detail/search_engine.cpp b/src/detail/search_engine.cpp
index 7fc5a42..c00cd8a 100644
--- a/src/detail/search_engine.cpp
+++ b/src/detail/search_engine.cpp
@@ -16,6 +16,10 @@ namespace detail {
 
     int SearchEngine::find(const uint8_t* key, int len, MBData& data)
     {
+        // No entry has an empty key; key[0] must not be read
+        if (len <= 0)
+            return MBError::NOT_EXIST;
+
         int rval;
         size_t rc_root_offset = dict.GetHeaderPtr()->rc_root_offset.load(MEMORY_ORDER_READER);
 
@@ -46,6 +50,10 @@ namespace detail {
 
     int SearchEngine::findPrefix(const uint8_t* key, int len, MBData& data)
     {
+        // No entry has an empty key; key[0] must not be read
+        if (len <= 0)
+            return MBError::NOT_EXIST;
+
         int rval;
         int rc_rval = MBError::NOT_EXIST;
         MBData data_rc;
@@ -104,6 +112,10 @@ namespace detail {
 
     int SearchEngine::lowerBound(const uint8_t* key, int len, MBData& data, std::string* bound_key)
     {
+        // No entry has an empty key; key[0] must not be read
+        if (len <= 0)
+            return MBError::NOT_EXIST;
+
         int rval;
         EdgePtrs& edge_ptrs = data.edge_ptrs;
         EdgePtrs bound_edge_ptrs;
-- 
2.43.0


From 2cc5c5ba9fd95c617ba842bc1972ab0e40ccd809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 51/65] fix: calls on handles that are not open must fail and
 not crash

Iteration and AsyncWriterBusy dereferenced the missing dictionary, Lock and UnLock of a
closed handle used the mutex in a header that is not held any more.
---
 src/db.cpp       |  5 +++++
 src/iterator.cpp | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/db.cpp b/src/db.cpp
index 1a6cf7a..9f633d3 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -142,6 +142,9 @@ int DB::Close()
         async_writer = NULL;
     }
 
+    // The mutex is in the header, which is not held any more after closing.
+    lock.Init(NULL);
+
     if (dict != NULL) {
         UpdateNumHandlers(options, -1);
 
@@ -1349,6 +1352,8 @@ bool DB::AsyncWriterEnabled() const
 
 bool DB::AsyncWriterBusy() const
 {
+    if (status != MBError::SUCCESS)
+        return false;
     return dict->SHMQ_Busy();
 }
 
diff --git a/src/iterator.cpp b/src/iterator.cpp
index c9ddd94..92f049b 100644
--- a/src/iterator.cpp
+++ b/src/iterator.cpp
@@ -110,6 +110,13 @@ void DB::iterator::iter_obj_init()
     kv_per_node = NULL;
     lfree = NULL;
 
+    // Nothing to iterate if the handle is not open. Internally the writer iterates while it is
+    // being opened.
+    if (db_ref.dict == NULL) {
+        state = DB_ITER_STATE_DONE;
+        return;
+    }
+
     if (!(db_ref.GetDBOptions() & CONSTS::ACCESS_MODE_WRITER)) {
 #ifdef __LOCK_FREE__
         lfree = db_ref.dict->GetLockFreePtr();
@@ -145,6 +152,9 @@ DB::iterator::~iterator()
 // Initialize the iterator, get the very first key-value pair.
 void DB::iterator::init(bool check_async_mode)
 {
+    if (state == DB_ITER_STATE_DONE)
+        return;
+
     // Writer in async mode cannot be used for lookup
     if (check_async_mode && (db_ref.options & CONSTS::ASYNC_WRITER_MODE)) {
         state = DB_ITER_STATE_DONE;
-- 
2.43.0


From cc189abb8b7715c8e9e9c71184e3ce26b352218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 52/65] fix: copies of handles must not use the caller's freed
 configuration

The saved configuration kept the caller's queue_dir pointer, a copy of a memory-only handle
was opened on disk, and a copy of a handle with an invalid configuration used an
uninitialized one.
---
 src/db.cpp | 15 ++++++++++++++-
 src/db.h   |  2 ++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/db.cpp b/src/db.cpp
index 9f633d3..9f2c5bb 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -801,6 +801,11 @@ void DB::InitDBEx(MBConfig& config)
     // save the configuration
     memcpy(&dbConfig, &config, sizeof(MBConfig));
     dbConfig.mbdir = NULL;
+    // The caller's string may not outlive this call.
+    if (config.queue_dir != NULL) {
+        queue_dir = config.queue_dir;
+        dbConfig.queue_dir = queue_dir.c_str();
+    }
 
     // If id not given, use thread ID
     if (config.connect_id == 0) {
@@ -863,9 +868,13 @@ DB::DB(const DB& db)
     , async_writer(NULL)
     , writer_lock_fd(-1)
 {
+    // A handle with an invalid configuration has nothing to be opened
+    if (db.mb_dir.empty())
+        return;
+
     MBConfig db_config = db.dbConfig;
     db_config.mbdir = db.mb_dir.c_str();
-    db_config.options = CONSTS::ACCESS_MODE_READER;
+    db_config.options = CONSTS::ACCESS_MODE_READER | (db.options & CONSTS::MEMORY_ONLY_MODE);
     InitDB(db_config);
 }
 
@@ -876,6 +885,10 @@ const DB& DB::operator=(const DB& db)
 
     this->Close();
 
+    // A handle with an invalid configuration has nothing to be opened
+    if (db.mb_dir.empty())
+        return *this;
+
     MBConfig db_config = db.dbConfig;
     db_config.mbdir = db.mb_dir.c_str();
     status = MBError::NOT_INITIALIZED;
diff --git a/src/db.h b/src/db.h
index 096b983..25b70da 100644
--- a/src/db.h
+++ b/src/db.h
@@ -264,6 +264,8 @@ private:
     // db lock
     MBLock lock;
     MBConfig dbConfig;
+    // dbConfig.queue_dir points to it if given
+    std::string queue_dir;
 
     AsyncWriter* async_writer;
 
-- 
2.43.0


From edbe484e8fa9685ff74f8f13c35ec0ed0157acdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 53/65] fix: backups queued during a collection must not be
 dropped

---
 src/async_writer.cpp | 20 +++-----------------
 src/async_writer.h   |  1 -
 2 files changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index db6af5a..c839da0 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -71,7 +71,6 @@ AsyncWriter::AsyncWriter(DB* db_ptr)
     queue = dict->GetAsyncQueuePtr();
     header->rc_flag.store(0, std::memory_order_release);
 
-    rc_backup_dir = NULL;
     // start the thread
     if (pthread_create(&tid, NULL, async_thread_wrapper, this) != 0) {
         Logger::Log(LOG_LEVEL_ERROR, "failed to create async thread");
@@ -131,6 +130,9 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
                         MBError::get_error_str(err));
                 }
                 break;
+            case MABAIN_ASYNC_TYPE_BACKUP:
+                // A backup cannot be made during rc. Leave it in the queue as well so that no
+                // backup is lost and each one has the updates queued before it.
             case MABAIN_ASYNC_TYPE_REMOVE:
             case MABAIN_ASYNC_TYPE_REMOVE_ALL:
                 // Removing entries during rc is currently not supported.
@@ -150,15 +152,6 @@ int AsyncWriter::ProcessTask(int ntasks, bool rc_mode)
             case MABAIN_ASYNC_TYPE_NONE:
                 rval = MBError::SUCCESS;
                 break;
-            case MABAIN_ASYNC_TYPE_BACKUP:
-                // clean up existing backup dir varibale buffer.
-                if (rc_backup_dir != NULL)
-                    free(rc_backup_dir);
-                rc_backup_dir = (char*)malloc(node_ptr->data_len + 1);
-                memcpy(rc_backup_dir, node_ptr->data, node_ptr->data_len);
-                rc_backup_dir[node_ptr->data_len] = '\0';
-                rval = MBError::SUCCESS;
-                break;
             default:
                 rval = MBError::INVALID_ARG;
                 break;
@@ -367,13 +360,6 @@ void* AsyncWriter::async_writer_thread()
             writer_lock.unlock();
 
             header->rc_flag.store(0, std::memory_order_release);
-            if (rc_backup_dir != NULL) {
-                if (rval == MBError::SUCCESS) {
-                    dict->SHMQ_Backup(rc_backup_dir);
-                }
-                free(rc_backup_dir);
-                rc_backup_dir = NULL;
-            }
         }
     }
 
diff --git a/src/async_writer.h b/src/async_writer.h
index 07de373..002d438 100644
--- a/src/async_writer.h
+++ b/src/async_writer.h
@@ -65,7 +65,6 @@ private:
     IndexHeader* header;
 
     bool is_rc_running;
-    char* rc_backup_dir;
 
     std::timed_mutex writer_lock;
     static AsyncWriter* writer_instance;
-- 
2.43.0


From 7efd297f5298c0a70715c399e41f88d2558510cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 54/65] fix: a queued backup must not be made while another
 thread updates the database

---
 src/async_writer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/async_writer.cpp b/src/async_writer.cpp
index c839da0..6240e5b 100644
--- a/src/async_writer.cpp
+++ b/src/async_writer.cpp
@@ -324,12 +324,14 @@ void* AsyncWriter::async_writer_thread()
             rval = MBError::SUCCESS;
             break;
         case MABAIN_ASYNC_TYPE_BACKUP:
+            writer_lock.lock();
             try {
                 DBBackup mbbk(*db);
                 rval = mbbk.Backup((const char*)node_ptr->data);
             } catch (int error) {
                 rval = error;
             }
+            writer_lock.unlock();
             break;
         default:
             rval = MBError::INVALID_ARG;
-- 
2.43.0


From 31a52e336adda25072bb636e4fb4a0fcb051cb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 55/65] fix: report a failure to allocate file space instead of
 mapping a sparse file

---
 src/file_io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/file_io.cpp b/src/file_io.cpp
index ae78e44..22da86e 100644
--- a/src/file_io.cpp
+++ b/src/file_io.cpp
@@ -195,6 +195,12 @@ int FileIO::AllocateFile(off_t filesize)
         }
 
         int falloc_errno = errno;
+        if (falloc_errno != EOPNOTSUPP && falloc_errno != ENOSYS) {
+            // A sparse file would be a bus error later on if the disk is full.
+            Logger::Log(LOG_LEVEL_ERROR, "fallocate failed for file %s, errno=%d",
+                path.c_str(), falloc_errno);
+            return 1;
+        }
         Logger::Log(LOG_LEVEL_WARN, "fallocate failed for file %s, errno=%d, falling back to ftruncate",
             path.c_str(), falloc_errno);
 
-- 
2.43.0


From acff13d84063fa8efcf8a723cb366ac957d00dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 56/65] fix: a writer that could not open or map a file must
 not erase the database nor keep the lock

---
 src/db.cpp | 25 ++++++++++++++++++-------
 src/db.h   |  3 ++-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/db.cpp b/src/db.cpp
index 9f2c5bb..efd51cf 100644
--- a/src/db.cpp
+++ b/src/db.cpp
@@ -158,6 +158,13 @@ int DB::Close()
     rebuild_guard_file.reset();
 
     status = MBError::DB_CLOSED;
+    ReleaseWriterLock();
+    Logger::Log(LOG_LEVEL_DEBUG, "connector %u disconnected from DB", identifier);
+    return rval;
+}
+
+void DB::ReleaseWriterLock()
+{
     // A handle that was refused or that is already closed must not release the lock
     // of another writer.
     if (!writer_lock_path.empty()) {
@@ -165,8 +172,6 @@ int DB::Close()
         ResourcePool::getInstance().RemoveResourceByPath(writer_lock_path);
         writer_lock_path.clear();
     }
-    Logger::Log(LOG_LEVEL_DEBUG, "connector %u disconnected from DB", identifier);
-    return rval;
 }
 
 int DB::UpdateNumHandlers(int mode, int delta)
@@ -785,15 +790,20 @@ void DB::InitDB(MBConfig& config)
     }
 
     int fd = acquire_file_lock_wait_n(lock_file, 5000);
-    InitDBEx(config);
+    bool new_db = InitDBEx(config);
     if ((config.options & CONSTS::ACCESS_MODE_WRITER) && !is_open()
         && status != MBError::WRITER_EXIST && status != MBError::NOT_ALLOWED) {
-        ReInit(config);
+        // A file that could not be opened or mapped says nothing about the database.
+        if (new_db || (status != MBError::OPEN_FAILURE && status != MBError::MMAP_FAILED))
+            ReInit(config);
+        if (!is_open())
+            ReleaseWriterLock();
     }
     release_file_lock(fd);
 }
 
-void DB::InitDBEx(MBConfig& config)
+// Returns true if a new database was to be created.
+bool DB::InitDBEx(MBConfig& config)
 {
     dict = NULL;
     async_writer = NULL;
@@ -827,7 +837,7 @@ void DB::InitDBEx(MBConfig& config)
     if (MBError::NOT_INITIALIZED != status) {
         Logger::Log(LOG_LEVEL_ERROR, "database %s check failed: %s", mb_dir.c_str(),
             MBError::get_error_str(status));
-        return;
+        return init_header;
     }
 
     try {
@@ -843,13 +853,14 @@ void DB::InitDBEx(MBConfig& config)
             MBError::get_error_str(status));
         if (!(config.options & CONSTS::ACCESS_MODE_WRITER))
             Logger::Log(LOG_LEVEL_WARN, "check if db writer is running.");
-        return;
+        return init_header;
     }
 
     // Prefix cache: auto-enable only if DB was created with OPTION_PREFIX_CACHE
     // (embedded) or reader requested the option and cache can attach.
 
     PostDBUpdate(config, init_header, update_header);
+    return init_header;
 }
 
 int DB::Status() const
diff --git a/src/db.h b/src/db.h
index 25b70da..e6c845c 100644
--- a/src/db.h
+++ b/src/db.h
@@ -235,7 +235,8 @@ private:
     int AcquireRebuildBarrierExclusive() const;
     void ReleaseRebuildBarrierExclusive() const;
     void InitDB(MBConfig& config);
-    void InitDBEx(MBConfig& config);
+    bool InitDBEx(MBConfig& config);
+    void ReleaseWriterLock();
     void ReInit(MBConfig& config);
     void PreCheckDB(const MBConfig& config, bool& init_header, bool& update_header);
     void PostDBUpdate(const MBConfig& config, bool init_header, bool update_header);
-- 
2.43.0


From 80618d72f14d51fe69d5b95f33d4f4b1aad3c69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 57/65] fix: a file whose mapping failed must not be kept as if
 it were mapped

---
 src/resource_pool.cpp | 3 +++
 src/rollable_file.cpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/resource_pool.cpp b/src/resource_pool.cpp
index 2f4279d..a0467c0 100644
--- a/src/resource_pool.cpp
+++ b/src/resource_pool.cpp
@@ -130,6 +130,9 @@ std::shared_ptr<MmapFileIO> ResourcePool::OpenFileWithKey(const std::string& poo
             } else {
                 Logger::Log(LOG_LEVEL_DEBUG, "failed to map file %s", fpath.c_str());
                 map_file = false;
+                // Not kept, so that the next one to open it tries again
+                pthread_mutex_unlock(&pool_mutex);
+                return mmap_file;
             }
         }
 
diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index 1ac4a35..f2baad3 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -181,6 +181,8 @@ int RollableFile::OpenAndMapBlockFile(size_t block_order, bool create_file)
             }
         }
     } else if ((mode & CONSTS::MEMORY_ONLY_MODE) || (mode & CONSTS::OPTION_JEMALLOC)) {
+        // These modes cannot use a file that is not mapped
+        files[block_order] = nullptr;
         rval = MBError::MMAP_FAILED;
     }
     return rval;
-- 
2.43.0


From 94204d74407b8410176397af1ba9b35b692026e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 58/65] fix: RemoveAll changes nothing if the root node cannot
 be accessed

---
 src/dict.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dict.cpp b/src/dict.cpp
index 4972538..d96b5ad 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1020,6 +1020,12 @@ int Dict::RemoveAll()
 {
     int rval = MBError::SUCCESS;
 
+    // Nothing is changed, and no update is announced in the header, if the root node
+    // cannot be accessed.
+    uint8_t node_head[NODE_EDGE_KEY_FIRST];
+    if (mm.ReadData(node_head, NODE_EDGE_KEY_FIRST, mm.GetRootOffset()) != NODE_EDGE_KEY_FIRST)
+        return MBError::READ_ERROR;
+
     ClearPrefixCache();
     if (options & CONSTS::OPTION_JEMALLOC) {
         mm.ClearMem(); // clear memory will re-initialize jemalloc
-- 
2.43.0


From 092ef89417ec5fd22ae79671a0e20cc49a0ec4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 59/65] fix: jemalloc tail growth must not hand out blocks that
 are reused after a rebuild

---
 src/mb_mm.h           | 4 ++++
 src/rollable_file.cpp | 9 +++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mb_mm.h b/src/mb_mm.h
index 83c3b99..d160a32 100644
--- a/src/mb_mm.h
+++ b/src/mb_mm.h
@@ -32,6 +32,7 @@ public:
         : alloc_size(0)
         , extent_hooks(nullptr)
         , arena_index(0)
+        , tail_block_start(0)
         , active_reusable_block_order(-1)
         , active_reusable_block_offset(0)
     {
@@ -48,6 +49,9 @@ public:
     extent_hooks_t* extent_hooks;
     unsigned arena_index;
 
+    // First block the tail can go on to. The blocks below were there before and are
+    // used through the list of reusable blocks only.
+    size_t tail_block_start;
     std::vector<uint32_t> reusable_block_order;
     int active_reusable_block_order;
     size_t active_reusable_block_offset;
diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index f2baad3..cae7424 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -556,6 +556,7 @@ int RollableFile::ReseedJemalloc(size_t alloc_size)
         return MBError::MMAP_FAILED;
     }
 
+    const size_t existing_block_end = GetExistingBlockEnd();
     size_t block_order = alloc_size / block_size;
     rval = CheckAndOpenFile(block_order, true);
     if (rval != MBError::SUCCESS) {
@@ -566,6 +567,7 @@ int RollableFile::ReseedJemalloc(size_t alloc_size)
     }
 
     files[0]->mm_meta->alloc_size = alloc_size;
+    files[0]->mm_meta->tail_block_start = existing_block_end / block_size;
     return MBError::SUCCESS;
 }
 
@@ -782,7 +784,10 @@ void* RollableFile::custom_extent_alloc(void* new_addr, size_t size, size_t alig
         int block_order = mm_meta->alloc_size / mgr->block_size;
         size_t relative_offset = mm_meta->alloc_size % mgr->block_size;
         aligned_offset = (relative_offset + alignment - 1) & ~(alignment - 1);
-        if (aligned_offset + size > mgr->block_size) {
+        // A tail at the very end of a block must not run into a block that was there before
+        bool tail_full = relative_offset == 0 && block_order > 0
+            && (size_t)block_order < mm_meta->tail_block_start;
+        if (tail_full || aligned_offset + size > mgr->block_size) {
             if (!mm_meta->reusable_block_order.empty()) {
                 block_order = static_cast<int>(mm_meta->reusable_block_order.front());
                 int rval = mgr->CheckAndOpenFile(block_order, true);
@@ -808,7 +813,7 @@ void* RollableFile::custom_extent_alloc(void* new_addr, size_t size, size_t alig
                 ptr = mgr->files[block_order]->GetMapAddr();
             } else {
                 // Try next tail block
-                block_order++;
+                block_order = (int)std::max((size_t)block_order + 1, mm_meta->tail_block_start);
                 if ((size_t)block_order >= mgr->max_num_block) {
                     Logger::Log(LOG_LEVEL_ERROR, "custom_extent_alloc: arena %u max block number exceeded",
                         " new memory (aligned offset: %zu, used: %zu, size: %zu)",
-- 
2.43.0


From 2ae4fd39dc598d2207fcc1275e85ad151d77b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:19 +0000
Subject: [PATCH 60/65] fix: a log message longer than 255 bytes overflowed the
 stack

The message was formatted with vsprintf into a buffer of 256 bytes. Paths
are part of many messages, so that a database in a directory with a long
name overflowed it.
---
 src/logger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index 4761d7f..b04968f 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -126,10 +126,11 @@ void Logger::Log(int level, const char* format, ...)
     if (level > log_level_)
         return;
 
-    char message[256];
+    char message[8192];
     va_list args;
     va_start(args, format);
-    vsprintf(message, format, args);
+    // A message, e.g. with a long path, can be larger than the buffer.
+    vsnprintf(message, sizeof(message), format, args);
     if (log_stream != NULL) {
         char buffer[64];
         FillDateTime(buffer, sizeof(buffer));
-- 
2.43.0


From 51fdb532a42d412aac2991f18373c6cd884c2544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:19 +0000
Subject: [PATCH 61/65] fix: threads with databases of their own raced for the
 map of jemalloc arenas

Each database with jemalloc registers its arenas in one static map. Its
lookups, insertions and erasures were not synchronized between threads.
---
 src/rollable_file.cpp | 22 ++++++++++++++++++----
 src/rollable_file.h   |  3 +++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/rollable_file.cpp b/src/rollable_file.cpp
index cae7424..ce59904 100644
--- a/src/rollable_file.cpp
+++ b/src/rollable_file.cpp
@@ -45,6 +45,7 @@ thread_local int g_jemalloc_alloc_error = MBError::SUCCESS;
 
 const long RollableFile::page_size = sysconf(_SC_PAGESIZE);
 std::unordered_map<unsigned, RollableFile*> RollableFile::arena_manager_map;
+std::mutex RollableFile::arena_manager_lock;
 
 int RollableFile::ShmSync(uint8_t* addr, int size)
 {
@@ -450,7 +451,7 @@ int RollableFile::ConfigureJemalloc(MemoryManagerMetadata* mm_meta)
     extent_hooks->alloc = [](extent_hooks_t* extent_hooks, void* addr, size_t size,
                               size_t alignment, bool* zero, bool* commit,
                               unsigned arena_ind) -> void* {
-        return arena_manager_map[arena_ind]->custom_extent_alloc(addr, size, alignment,
+        return GetArenaManager(arena_ind)->custom_extent_alloc(addr, size, alignment,
             zero, commit, arena_ind);
     };
     extent_hooks->dalloc = custom_extent_dalloc;
@@ -480,7 +481,10 @@ int RollableFile::ConfigureJemalloc(MemoryManagerMetadata* mm_meta)
     }
 
     // Store the MemoryManager instance in the global map
-    arena_manager_map[arena_ind] = this;
+    {
+        std::lock_guard<std::mutex> guard(arena_manager_lock);
+        arena_manager_map[arena_ind] = this;
+    }
     mm_meta->arena_index = arena_ind;
     return MBError::SUCCESS;
 }
@@ -718,7 +722,10 @@ int RollableFile::DestroyJemallocArena(bool reinitialize)
 
     unsigned arena_index = files[0]->mm_meta->arena_index;
     if (arena_index != 0) {
-        arena_manager_map.erase(arena_index);
+        {
+            std::lock_guard<std::mutex> guard(arena_manager_lock);
+            arena_manager_map.erase(arena_index);
+        }
         std::string arena_destroy = "arena." + std::to_string(arena_index) + ".destroy";
         int rc = mallctl(arena_destroy.c_str(), nullptr, nullptr, nullptr, 0);
         if (rc != 0) {
@@ -741,10 +748,17 @@ int RollableFile::DestroyJemallocArena(bool reinitialize)
     return ConfigureJemalloc(files[0]->mm_meta);
 }
 
+// The writers of several databases can run in different threads.
+RollableFile* RollableFile::GetArenaManager(unsigned arena_ind)
+{
+    std::lock_guard<std::mutex> guard(arena_manager_lock);
+    return arena_manager_map[arena_ind];
+}
+
 void* RollableFile::custom_extent_alloc(void* new_addr, size_t size, size_t alignment,
     bool* zero, bool* commit, unsigned arena_ind)
 {
-    RollableFile* mgr = arena_manager_map[arena_ind];
+    RollableFile* mgr = GetArenaManager(arena_ind);
     assert(mgr != nullptr);
 
     void* ptr = nullptr;
diff --git a/src/rollable_file.h b/src/rollable_file.h
index c0ea060..bad907f 100644
--- a/src/rollable_file.h
+++ b/src/rollable_file.h
@@ -22,6 +22,7 @@
 #include <assert.h>
 #include <atomic>
 #include <memory>
+#include <mutex>
 #include <stdint.h>
 #include <string>
 #include <sys/mman.h>
@@ -129,7 +130,9 @@ private:
     size_t mem_used;
 
     // jemalloc only
+    static RollableFile* GetArenaManager(unsigned arena_ind);
     static std::unordered_map<unsigned, RollableFile*> arena_manager_map;
+    static std::mutex arena_manager_lock;
 };
 
 // Find the block index that contains the given pointer
-- 
2.43.0


From 6eb50c74c9e58b037075da34f638e4132a96c7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:20 +0000
Subject: [PATCH 62/65] fix: a handle without queue took the address of a
 member of a null pointer

Dict::GetShmLockPtr computed the address of the lock in the header of the
queue, also for a read-only handle, which has none.
---
 src/dict.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index d96b5ad..4f23a6a 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1061,7 +1061,7 @@ int Dict::RemoveAll()
 
 pthread_mutex_t* Dict::GetShmLockPtr() const
 {
-    return &(slaq->lock);
+    return (slaq != NULL) ? &(slaq->lock) : NULL;
 }
 
 AsyncNode* Dict::GetAsyncQueuePtr() const
-- 
2.43.0


From 76f2729dc9528d855ff92fa14e6912811a8a2a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:20 +0000
Subject: [PATCH 63/65] fix: readers opened or closed at the same time
 miscounted the readers

The count in the shared header was updated without synchronization, so that
updates of several threads or processes got lost.
---
 src/dict.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dict.cpp b/src/dict.cpp
index 4f23a6a..4abff32 100644
--- a/src/dict.cpp
+++ b/src/dict.cpp
@@ -1304,12 +1304,16 @@ int Dict::UpdateDataBuffer(EdgePtrs& edge_ptrs, bool overwrite, MBData& mbd, boo
 // delta should be either +1 or -1.
 void Dict::UpdateNumReader(int delta) const
 {
-    header->num_reader += delta;
-    if (header->num_reader < 0)
-        header->num_reader = 0;
+    // Readers can be opened and closed by several threads and processes at once.
+    int num_reader = __atomic_load_n(&header->num_reader, __ATOMIC_RELAXED);
+    int updated;
+    do {
+        updated = (num_reader + delta < 0) ? 0 : num_reader + delta;
+    } while (!__atomic_compare_exchange_n(&header->num_reader, &num_reader, updated,
+        false, __ATOMIC_RELAXED, __ATOMIC_RELAXED));
 
     Logger::Log(LOG_LEVEL_DEBUG, "number of reader is set to: %d",
-        header->num_reader);
+        updated);
 }
 
 // delta should be either +1 or -1.
-- 
2.43.0


From cb05fa824332a7ac3ce39ef3145cba2bbe897509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:54 +0000
Subject: [PATCH 64/65] fix: threads that logged to a file wrote to its stream
 at the same time

A stream is not safe to be used by several threads, and one of them could
rotate or close it while others wrote.
---
 src/logger.cpp | 5 +++++
 src/logger.h   | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/logger.cpp b/src/logger.cpp
index b04968f..2068927 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -29,6 +29,7 @@ namespace mabain {
 
 std::string Logger::log_file = "";
 std::ofstream* Logger::log_stream = NULL;
+std::mutex Logger::log_lock;
 int Logger::log_level_ = LOG_LEVEL_INFO;
 int Logger::roll_size = 50 * 1024 * 1024;
 const char* Logger::LOG_LEVEL[4] = {
@@ -48,6 +49,7 @@ Logger::~Logger()
 
 void Logger::Close()
 {
+    std::lock_guard<std::mutex> guard(log_lock);
     if (log_stream != NULL) {
         if (log_stream->is_open())
             log_stream->close();
@@ -62,6 +64,7 @@ void Logger::Close()
 void Logger::InitLogFile(const std::string& logfile)
 {
     if (!logfile.empty()) {
+        std::lock_guard<std::mutex> guard(log_lock);
         log_file = logfile;
         log_level_ = LOG_LEVEL_INFO;
         log_stream = new std::ofstream();
@@ -109,6 +112,7 @@ void Logger::Log(int level, const std::string& message)
     if (level > log_level_)
         return;
 
+    std::lock_guard<std::mutex> guard(log_lock);
     if (log_stream != NULL) {
         char buffer[80];
         FillDateTime(buffer, sizeof(buffer));
@@ -131,6 +135,7 @@ void Logger::Log(int level, const char* format, ...)
     va_start(args, format);
     // A message, e.g. with a long path, can be larger than the buffer.
     vsnprintf(message, sizeof(message), format, args);
+    std::lock_guard<std::mutex> guard(log_lock);
     if (log_stream != NULL) {
         char buffer[64];
         FillDateTime(buffer, sizeof(buffer));
diff --git a/src/logger.h b/src/logger.h
index b199f24..ecc4761 100644
--- a/src/logger.h
+++ b/src/logger.h
@@ -20,6 +20,7 @@
 #define __MB_LOGGER_H__
 
 #include <fstream>
+#include <mutex>
 #include <string>
 
 namespace mabain {
@@ -54,6 +55,7 @@ private:
     static const char* LOG_LEVEL[4];
     static int log_level_;
     static int roll_size;
+    static std::mutex log_lock; // Protects log_stream
 };
 
 }
-- 
2.43.0


From a9ed7e83ed3c0c2e9c2e8bf46bb7f67ec56ad599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:54 +0000
Subject: [PATCH 65/65] fix: setting another log file left the previous one
 open

Each call of SetLogFile lost the stream and descriptor of the previous file.
---
 src/logger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/logger.cpp b/src/logger.cpp
index 2068927..e98d1a5 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -67,6 +67,7 @@ void Logger::InitLogFile(const std::string& logfile)
         std::lock_guard<std::mutex> guard(log_lock);
         log_file = logfile;
         log_level_ = LOG_LEVEL_INFO;
+        delete log_stream; // also closes the previous file
         log_stream = new std::ofstream();
         log_stream->open(log_file.c_str(), std::ios::out | std::ios::app);
     }
-- 
2.43.0

