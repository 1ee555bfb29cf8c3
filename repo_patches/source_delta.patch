From 6569e8925f88161f23b59360e5d070204ee573cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 01/59] fix: prefix caches no longer drop a node from
 evictable_size when it gains a child

evictable_size counts every unlocked cached token; the deduction made when a
node stopped being a leaf was never restored, so the counter drifted below
the real value and finally went negative.
---
 pymllm/mem_cache/mamba_radix_cache.py | 9 ---------
 pymllm/mem_cache/radix_cache.py       | 8 --------
 2 files changed, 17 deletions(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index bee8027..55d82e2 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -534,15 +534,6 @@ class MambaRadixCache(BasePrefixCache):
         value: torch.Tensor,
         mamba_value: Optional[torch.Tensor] = None,
     ) -> MambaTreeNode:
-        # Parent may lose leaf status
-        if (
-            len(parent.children) == 0
-            and parent != self.root_node
-            and parent.full_lock_ref == 0
-            and not parent.evicted
-        ):
-            self._full_evictable -= len(parent.key)
-
         new_node = MambaTreeNode()
         new_node.parent = parent
         new_node.key = key
diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 80f3d6f..e7d3fec 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -639,14 +639,6 @@ class RadixCache(BasePrefixCache):
         value: torch.Tensor,
         swa_tombstone: bool = False,
     ) -> TreeNode:
-        if (
-            len(parent.children) == 0
-            and parent != self.root_node
-            and parent.lock_ref == 0
-            and not parent.evicted
-        ):
-            self._evictable_size -= len(parent.key)
-
         new_node = TreeNode()
         new_node.parent = parent
         new_node.key = key
-- 
2.43.0


From b0024279a04259ab9c362c08c9e1a11a2b61522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 02/59] fix: do not cache or free a KV entry for the last
 sampled token

The last generated token of a request is never fed back, so row position
prompt_len + len(output_ids) - 1 of req_to_token holds a stale index. It was
inserted into the prefix cache (or freed) on completion, so other requests
could read foreign KV and slots were freed twice.
---
 pymllm/orchestrator/model_runner_process.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index d7b6585..26d689c 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -1037,7 +1037,9 @@ class ModelRunnerProcess:
         # Phase 1: Read all KV indices BEFORE freeing anything.
         # ----------------------------------------------------------
         prompt_len = len(input_ids) if input_ids is not None else 0
-        decode_len = len(output_ids) if output_ids else 0
+        # The last sampled token was never fed back through the model, so it
+        # has no KV entry: only output_ids[:-1] are backed by KV indices.
+        decode_len = len(output_ids) - 1 if output_ids else 0
         total_len = prompt_len + decode_len
 
         all_kv_indices: Optional[torch.Tensor] = None
@@ -1072,8 +1074,8 @@ class ModelRunnerProcess:
             else:
                 # Non-hybrid or no decode tokens: insert full sequence
                 full_token_ids = list(input_ids)
-                if output_ids:
-                    full_token_ids.extend(output_ids)
+                if decode_len > 0:
+                    full_token_ids.extend(output_ids[:decode_len])
                 key = RadixKey(full_token_ids)
                 result = cache.insert(key, all_kv_indices)
                 new_prefix_len = result.prefix_len
-- 
2.43.0


From 295c50fe608e45653dbfe23ee81626f79acd9615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 03/59] fix: a fully cached one-token prompt is recomputed
 instead of extended by zero tokens

---
 pymllm/orchestrator/model_runner_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 26d689c..1a8c62e 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -723,8 +723,8 @@ class ModelRunnerProcess:
             #    where s1 (log-partition) is computed incorrectly, causing
             #    the cascade merge to produce wrong logits → EOS.
             # By ensuring extend_len >= 2, we avoid both issues.
-            if prefix_len >= full_seq_len - 1 and full_seq_len >= 2:
-                prefix_len = full_seq_len - 2
+            if prefix_len > 0 and prefix_len >= full_seq_len - 1:
+                prefix_len = max(full_seq_len - 2, 0)
                 if cached_indices is not None:
                     cached_indices = cached_indices[:prefix_len]
 
-- 
2.43.0


From d3296cf385b84f4c1f90c429c146d96fe43fc1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 04/59] fix: hybrid models drop a truncated prefix-cache hit
 instead of restoring a longer GDN state

When the matched prefix had to be shortened so that two tokens are extended,
the GDN snapshot of the full matched node was still restored, so the recurrent
state ran ahead of the KV prefix.
---
 pymllm/orchestrator/model_runner_process.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 1a8c62e..3b3ec8e 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -725,6 +725,11 @@ class ModelRunnerProcess:
             # By ensuring extend_len >= 2, we avoid both issues.
             if prefix_len > 0 and prefix_len >= full_seq_len - 1:
                 prefix_len = max(full_seq_len - 2, 0)
+                # The GDN snapshot of a node covers its whole prefix and cannot
+                # be truncated with the KV indices, so drop the hit entirely.
+                if gdn_pool is not None:
+                    prefix_len = 0
+                    last_node = None
                 if cached_indices is not None:
                     cached_indices = cached_indices[:prefix_len]
 
-- 
2.43.0


From 9e0b9d623e5d2c0ab6bd80a635bed2391cc7e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 05/59] fix: MambaRadixCache.dec_lock_ref accepts the lock
 token the model runner passes back

With enable_mamba_cache every finishing request raised a TypeError.
---
 pymllm/mem_cache/mamba_radix_cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index 55d82e2..2f84a8d 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -502,7 +502,9 @@ class MambaRadixCache(BasePrefixCache):
             cur = cur.parent
         return None
 
-    def dec_lock_ref(self, node: MambaTreeNode, **kwargs: Any) -> None:
+    def dec_lock_ref(
+        self, node: MambaTreeNode, swa_boundary_id: Optional[Any] = None, **kwargs: Any
+    ) -> None:
         """Unlock full KV and Mamba state."""
         if node is None:
             return
-- 
2.43.0


From 1c6d58043ee0298c1cb9c896ac3b31316317bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 06/59] fix: sliding-window prefix cache no longer double-frees
 duplicate KV indices

In SWA mode the cache frees duplicate indices on insert, including those of the
protected prefix, and the model runner freed the same range again; a split
during insert also attached the rest of the key below the wrong node.
---
 pymllm/mem_cache/radix_cache.py             | 13 ++++++-----
 pymllm/orchestrator/model_runner_process.py | 24 ++++++++++++++-------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index e7d3fec..be57c6c 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -259,7 +259,8 @@ class RadixCache(BasePrefixCache):
 
         Returns how many leading tokens were already present (the prefix
         length).  The caller is responsible for freeing duplicate KV indices
-        in the range ``[cache_protected_len, prefix_len)``.
+        in the range ``[cache_protected_len, prefix_len)``; in SWA mode the
+        cache frees the duplicates beyond *prev_prefix_len* itself.
 
         Parameters
         ----------
@@ -592,19 +593,21 @@ class RadixCache(BasePrefixCache):
             plen = _key_match(node.key, key, self.page_size)
 
             if plen < len(node.key):
-                self._split_node(node.key, node, plen)
+                node = self._split_node(node.key, node, plen)
 
             beyond_protected = prev_prefix_len < total_prefix + plen
+            # Tokens before prev_prefix_len already share the tree's indices.
+            dup_start = max(0, prev_prefix_len - total_prefix)
             if beyond_protected and node.swa_tombstone:
                 if swa_evicted_seqlen <= total_prefix:
-                    self._free_indices(node.value[:plen])
+                    self._free_indices(node.value[dup_start:plen])
                     node.value = value[:plen].clone()
                     node.swa_tombstone = False
                     self._swa_evictable_size += len(node.value)
                 else:
-                    self._free_indices(value[:plen])
+                    self._free_indices(value[dup_start:plen])
             elif beyond_protected:
-                self._free_indices(value[:plen])
+                self._free_indices(value[dup_start:plen])
 
             total_prefix += plen
             key = key[plen:]
diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 3b3ec8e..434a834 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -554,11 +554,14 @@ class ModelRunnerProcess:
                 )
 
             key = RadixKey(input_ids)
-            result = cache.insert(key, kv_indices)
+            cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
+            result = cache.insert(
+                key, kv_indices, prev_prefix_len=cache_protected_len
+            )
             new_prefix_len = result.prefix_len
 
-            # --- Step 2: free duplicates ---
-            cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
+            # --- Step 2: free duplicates (an SWA cache already did so) ---
+            supports_swa = getattr(cache, "supports_swa", False)
             if _dbg:
                 logger.debug(
                     "[CACHE INSERT] rid=%s insert prefix_len=%d cache_protected=%d",
@@ -566,7 +569,7 @@ class ModelRunnerProcess:
                     new_prefix_len,
                     cache_protected_len,
                 )
-            if new_prefix_len > cache_protected_len:
+            if new_prefix_len > cache_protected_len and not supports_swa:
                 dup_indices = kv_indices[cache_protected_len:new_prefix_len]
                 if _dbg:
                     logger.debug(
@@ -1057,6 +1060,7 @@ class ModelRunnerProcess:
         # Phase 2: Insert into radix cache (if enabled).
         # ----------------------------------------------------------
         did_insert = False
+        supports_swa = getattr(cache, "supports_swa", False)
         if cache_enabled and all_kv_indices is not None:
             if self._is_hybrid and decode_len > 0:
                 # Hybrid model: insert only prompt tokens (not decode)
@@ -1064,11 +1068,13 @@ class ModelRunnerProcess:
                 prompt_kv = all_kv_indices[:prompt_len]
                 decode_kv = all_kv_indices[prompt_len:]
                 key = RadixKey(list(input_ids))
-                result = cache.insert(key, prompt_kv)
+                result = cache.insert(
+                    key, prompt_kv, prev_prefix_len=cache_protected_len
+                )
                 new_prefix_len = result.prefix_len
 
                 # Free duplicate KV indices in the overlap region.
-                if new_prefix_len > cache_protected_len:
+                if new_prefix_len > cache_protected_len and not supports_swa:
                     dup_indices = prompt_kv[cache_protected_len:new_prefix_len]
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
@@ -1082,11 +1088,13 @@ class ModelRunnerProcess:
                 if decode_len > 0:
                     full_token_ids.extend(output_ids[:decode_len])
                 key = RadixKey(full_token_ids)
-                result = cache.insert(key, all_kv_indices)
+                result = cache.insert(
+                    key, all_kv_indices, prev_prefix_len=cache_protected_len
+                )
                 new_prefix_len = result.prefix_len
 
                 # Free duplicate KV indices in the overlap region.
-                if new_prefix_len > cache_protected_len:
+                if new_prefix_len > cache_protected_len and not supports_swa:
                     dup_indices = all_kv_indices[cache_protected_len:new_prefix_len]
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
-- 
2.43.0


From 3a3f086b98f2ab00a2bc085a1e0c356c1943c061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 07/59] fix: radix_cache_page_size > 1 caches whole pages only
 and frees the unaligned tail

insert() stored keys of any length while lookups are page aligned, so partial
pages were matched past their end, leaked, or freed while still referenced.
---
 pymllm/mem_cache/mamba_radix_cache.py       |  3 +++
 pymllm/mem_cache/radix_cache.py             |  3 +++
 pymllm/orchestrator/model_runner_process.py | 10 ++++++++++
 3 files changed, 16 insertions(+)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index 2f84a8d..5c2d5c7 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -384,6 +384,9 @@ class MambaRadixCache(BasePrefixCache):
         if value is None:
             value = torch.tensor(key.token_ids, dtype=torch.int64)
 
+        # Only whole pages are cached; the caller keeps the unaligned tail.
+        key = self._page_align_key(key)
+        value = value[: len(key)]
         if len(key) == 0:
             return InsertResult()
 
diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index be57c6c..ef98dde 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -274,6 +274,9 @@ class RadixCache(BasePrefixCache):
         """
         if value is None:
             value = torch.tensor(key.token_ids, dtype=torch.int64)
+        # Only whole pages are cached; the caller keeps the unaligned tail.
+        key = self._page_align_key(key)
+        value = value[: len(key)]
         if self.supports_swa:
             plen = self._insert_swa(
                 self.root_node, key, value, prev_prefix_len, swa_evicted_seqlen
diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 434a834..4a3d991 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -1079,6 +1079,11 @@ class ModelRunnerProcess:
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
 
+                # Free the tail that does not fill a cache page.
+                tail = prompt_kv[prompt_len - prompt_len % cache.page_size :]
+                if tail.numel() > 0:
+                    runner.token_to_kv_pool_allocator.free(tail)
+
                 # Free decode KV indices (tree does not own them)
                 if decode_kv.numel() > 0:
                     runner.token_to_kv_pool_allocator.free(decode_kv)
@@ -1099,6 +1104,11 @@ class ModelRunnerProcess:
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
 
+                # Free the tail that does not fill a cache page.
+                tail = all_kv_indices[total_len - total_len % cache.page_size :]
+                if tail.numel() > 0:
+                    runner.token_to_kv_pool_allocator.free(tail)
+
             did_insert = True
 
         # ----------------------------------------------------------
-- 
2.43.0


From a2b0f44f3f9d775bc875faf758360d330c50d007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 08/59] fix: requests with images no longer share KV by token
 ids alone

---
 pymllm/orchestrator/model_runner_process.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 4a3d991..3575403 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -64,6 +64,11 @@ class ModelRunnerProcess:
         self._rid_to_kv_indices: Dict[str, torch.Tensor] = {}
         # Maps rid -> input_ids used for prefill (needed for radix cache insert)
         self._rid_to_input_ids: Dict[str, List[int]] = {}
+        # rid -> radix-cache namespace.  Requests with multimodal inputs get a
+        # private one: their token ids do not identify the images, so their KV
+        # must not be shared by token ids alone.
+        self._rid_to_extra_key: Dict[str, str] = {}
+        self._mm_namespace_counter: int = 0
         # Maps rid -> list of generated (decode) token ids, appended each step.
         # Used to build the full sequence for radix cache insert at completion.
         self._rid_to_output_ids: Dict[str, List[int]] = {}
@@ -553,7 +558,7 @@ class ModelRunnerProcess:
                     kv_indices[: min(seq_len, 8)].tolist(),
                 )
 
-            key = RadixKey(input_ids)
+            key = RadixKey(input_ids, self._rid_to_extra_key.get(rid))
             cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
             result = cache.insert(
                 key, kv_indices, prev_prefix_len=cache_protected_len
@@ -684,9 +689,12 @@ class ModelRunnerProcess:
 
             # Store input_ids for later radix cache insert
             self._rid_to_input_ids[m["rid"]] = full_input_ids
+            if m.get("mm_inputs") is not None:
+                self._mm_namespace_counter += 1
+                self._rid_to_extra_key[m["rid"]] = f"mm-{self._mm_namespace_counter}"
 
             if cache is not None and len(full_input_ids) > 0:
-                key = RadixKey(full_input_ids)
+                key = RadixKey(full_input_ids, self._rid_to_extra_key.get(m["rid"]))
                 match_result = cache.match_prefix(key)
                 prefix_len = match_result.prefix_len
                 last_node = match_result.last_node
@@ -1029,6 +1037,7 @@ class ModelRunnerProcess:
         slot = self._rid_to_req_pool_idx.pop(rid, None)
         kv_indices = self._rid_to_kv_indices.pop(rid, None)
         input_ids = self._rid_to_input_ids.pop(rid, None)
+        extra_key = self._rid_to_extra_key.pop(rid, None)
         output_ids = self._rid_to_output_ids.pop(rid, None)
         cache_protected_len = self._rid_to_cache_protected_len.pop(rid, 0)
         radix_lock = self._rid_to_radix_lock.pop(rid, None)
@@ -1067,7 +1076,7 @@ class ModelRunnerProcess:
                 # because GDN state is only tracked at the prompt boundary.
                 prompt_kv = all_kv_indices[:prompt_len]
                 decode_kv = all_kv_indices[prompt_len:]
-                key = RadixKey(list(input_ids))
+                key = RadixKey(list(input_ids), extra_key)
                 result = cache.insert(
                     key, prompt_kv, prev_prefix_len=cache_protected_len
                 )
@@ -1092,7 +1101,7 @@ class ModelRunnerProcess:
                 full_token_ids = list(input_ids)
                 if decode_len > 0:
                     full_token_ids.extend(output_ids[:decode_len])
-                key = RadixKey(full_token_ids)
+                key = RadixKey(full_token_ids, extra_key)
                 result = cache.insert(
                     key, all_kv_indices, prev_prefix_len=cache_protected_len
                 )
-- 
2.43.0


From 614e4154c76a6b0079067b7b6a02c269ee596e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 09/59] fix: Qwen3-VL positions continue after a cached prefix
 instead of restarting at 0

---
 pymllm/models/qwen3_vl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymllm/models/qwen3_vl.py b/pymllm/models/qwen3_vl.py
index 273a291..9a80578 100644
--- a/pymllm/models/qwen3_vl.py
+++ b/pymllm/models/qwen3_vl.py
@@ -1192,6 +1192,10 @@ class Qwen3VLForConditionalGeneration(nn.Module):
                     self.vision_start_token_id,
                     self.spatial_merge_size,
                 )
+                # input_ids only holds the tokens after the cached prefix.
+                prefix_lens = getattr(forward_batch, "extend_prefix_lens", None)
+                if prefix_lens is not None:
+                    pos3d = pos3d + int(prefix_lens[i].item())
                 mrope_positions_list.append(pos3d)
                 deltas.append(delta)
 
-- 
2.43.0


From 069f95073136e892241bafdf908987b9ec5dc172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 10/59] fix: CUDA-graph padding rows use a reserved request
 slot instead of a live request's

---
 pymllm/executor/cuda_graph_runner.py | 1 +
 pymllm/mem_cache/memory_pool.py      | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pymllm/executor/cuda_graph_runner.py b/pymllm/executor/cuda_graph_runner.py
index 7fa674b..b518583 100644
--- a/pymllm/executor/cuda_graph_runner.py
+++ b/pymllm/executor/cuda_graph_runner.py
@@ -182,6 +182,7 @@ class _InputBuffers:
         # Reset padding slots when the padded size exceeds the real size.
         if padded_bs != real_bs:
             self.seq_lens.fill_(seq_len_fill_value)
+            self.req_pool_indices.zero_()
             self.out_cache_loc.zero_()
             self.mrope_position_deltas.zero_()
 
diff --git a/pymllm/mem_cache/memory_pool.py b/pymllm/mem_cache/memory_pool.py
index 9c8ab2a..06d6859 100644
--- a/pymllm/mem_cache/memory_pool.py
+++ b/pymllm/mem_cache/memory_pool.py
@@ -383,10 +383,12 @@ class ReqToTokenPool:
         self.max_context_len = max_context_len
         self.device = torch.device(device)
 
+        # Row 0 is reserved for padding rows (CUDA-graph batches), as in
+        # KVPool and GDNPool; requests use rows [1, max_reqs].
         self.req_to_token = torch.zeros(
-            (max_reqs, max_context_len), dtype=torch.int32, device=self.device
+            (max_reqs + 1, max_context_len), dtype=torch.int32, device=self.device
         )
-        self._free_slots: List[int] = list(range(max_reqs))
+        self._free_slots: List[int] = list(range(1, max_reqs + 1))
 
     def available_size(self) -> int:
         return len(self._free_slots)
@@ -411,7 +413,7 @@ class ReqToTokenPool:
         self.req_to_token[index] = values
 
     def clear(self) -> None:
-        self._free_slots = list(range(self.size))
+        self._free_slots = list(range(1, self.size + 1))
         self.req_to_token.zero_()
 
 
-- 
2.43.0


From 64d0e0dfb7d9128d72622e70c29f0118dafd1035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 11/59] fix: KVPool covers the last page of a page-aligned
 allocator

---
 pymllm/mem_cache/memory_pool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/memory_pool.py b/pymllm/mem_cache/memory_pool.py
index 06d6859..6476094 100644
--- a/pymllm/mem_cache/memory_pool.py
+++ b/pymllm/mem_cache/memory_pool.py
@@ -459,7 +459,8 @@ def make_full_attention_net_mem_pool(
     (KVPool, TokenToKVPoolAllocator)
     """
     pool = KVPool(
-        size=size,
+        # Pages are numbered from 1, so the last page ends past ``size``.
+        size=size + page_size - 1,
         layer_num=layer_num,
         k_head_num=k_head_num,
         k_head_dim=k_head_dim,
-- 
2.43.0


From 9dd93059ed6874208e57ee74822120e5ff09de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 12/59] fix: streamed reasoning split no longer depends on
 chunk boundaries or loses held-back text

---
 pymllm/parsers/reasoning_parser.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pymllm/parsers/reasoning_parser.py b/pymllm/parsers/reasoning_parser.py
index 1f73c78..82b279a 100644
--- a/pymllm/parsers/reasoning_parser.py
+++ b/pymllm/parsers/reasoning_parser.py
@@ -83,6 +83,7 @@ class ReasoningParser:
         self._in_reasoning = cfg.force
         self._start_consumed = False  # True once start tag has been stripped
         self._done = False  # True once end tag has been seen
+        self._held_reasoning = ""  # reasoning withheld when not streaming it
 
     # ------------------------------------------------------------------ #
     # Non-streaming
@@ -94,7 +95,6 @@ class ReasoningParser:
         Returns ``(reasoning_content, content)`` where either may be empty.
         """
         start_idx = text.find(self._start)
-        end_idx = text.find(self._end)
 
         if start_idx == -1 and not self._force:
             return None, text
@@ -107,8 +107,9 @@ class ReasoningParser:
             reason_start = start_idx + len(self._start)
 
         before = text[:start_idx] if start_idx != -1 else ""
+        end_idx = text.find(self._end, reason_start)
 
-        if end_idx != -1 and end_idx >= reason_start:
+        if end_idx != -1:
             reasoning = text[reason_start:end_idx]
             after = text[end_idx + len(self._end) :]
         else:
@@ -141,12 +142,12 @@ class ReasoningParser:
         # In forced reasoning mode, consume the start tag if it appears
         # (the model may or may not emit it explicitly).
         if self._in_reasoning and not self._start_consumed:
-            idx = self._buffer.find(self._start)
-            if idx != -1:
-                # Start tag found — strip it and any text before it
-                self._buffer = self._buffer[idx + len(self._start) :]
+            head = self._buffer.lstrip()
+            if head.startswith(self._start):
+                # Start tag found — strip it and the whitespace before it
+                self._buffer = head[len(self._start) :]
                 self._start_consumed = True
-            elif _could_be_partial(self._buffer, self._start):
+            elif self._start.startswith(head):
                 # Might be a partial start tag — hold the buffer
                 return "", ""
             else:
@@ -194,8 +195,22 @@ class ReasoningParser:
                 self._buffer = ""
 
         if not self._stream_reasoning:
+            self._held_reasoning += reasoning_out
             reasoning_out = ""
+            if self._done:
+                reasoning_out, self._held_reasoning = self._held_reasoning, ""
+
+        return reasoning_out, content_out
 
+    def flush(self) -> Tuple[str, str]:
+        """Return ``(reasoning, content)`` text still held back at end of stream."""
+        reasoning_out, self._held_reasoning = self._held_reasoning, ""
+        content_out = ""
+        if self._in_reasoning:
+            reasoning_out += self._buffer
+        else:
+            content_out = self._buffer
+        self._buffer = ""
         return reasoning_out, content_out
 
 
-- 
2.43.0


From 561d37e540206322a50b98d74a70972734d596ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 13/59] fix: streamed tool calls find an end tag split across
 deltas and send complete arguments

---
 pymllm/parsers/tool_call_parser.py | 59 +++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/pymllm/parsers/tool_call_parser.py b/pymllm/parsers/tool_call_parser.py
index fdfe939..3d207b9 100644
--- a/pymllm/parsers/tool_call_parser.py
+++ b/pymllm/parsers/tool_call_parser.py
@@ -242,10 +242,14 @@ class ToolCallParser:
             if self._in_call:
                 # --- look for end token ---
                 if self._end:
-                    end_pos = self._buffer.find(self._end)
+                    # The end token may be split across deltas: search the
+                    # whole call body, not just the newest delta.
+                    self._current_call_buf += self._buffer
+                    self._buffer = ""
+                    end_pos = self._current_call_buf.find(self._end)
                     if end_pos != -1:
-                        self._current_call_buf += self._buffer[:end_pos]
-                        self._buffer = self._buffer[end_pos + len(self._end) :]
+                        self._buffer = self._current_call_buf[end_pos + len(self._end) :]
+                        self._current_call_buf = self._current_call_buf[:end_pos]
                         # Emit final tool call
                         item = self._finalize_call()
                         if item is not None:
@@ -254,9 +258,7 @@ class ToolCallParser:
                         self._current_tool_idx += 1
                         continue  # there may be more calls
                     else:
-                        # Accumulate and stream arguments
-                        self._current_call_buf += self._buffer
-                        self._buffer = ""
+                        # Stream arguments
                         item = self._stream_partial_call()
                         if item is not None:
                             items.append(item)
@@ -282,6 +284,13 @@ class ToolCallParser:
             self._in_call = False
         return items
 
+    def flush_content(self) -> str:
+        """Return normal text still held back as a possible tool-call start."""
+        held = "" if self._in_call else self._buffer
+        if not self._in_call:
+            self._buffer = ""
+        return held
+
     # ------------------------------------------------------------------ #
     # Internal helpers
     # ------------------------------------------------------------------ #
@@ -372,6 +381,12 @@ class ToolCallParser:
 
         # Name was already sent — emit remaining arguments
         full_args = parsed.arguments
+        if self._model_type != "qwen3_coder":
+            # Continue the raw text that was streamed so far.
+            full_args = (
+                self._try_extract_args_partial(self._current_call_buf.strip())
+                or full_args
+            )
         new_chars = full_args[self._prev_args_len :]
         if new_chars:
             return ToolCallItem(
@@ -395,7 +410,7 @@ class ToolCallParser:
             # Build JSON incrementally from <parameter=K>V</parameter> tags
             params: Dict[str, Any] = {}
             for pm in re.finditer(
-                r"<parameter=([^>]+)>(.*?)(?:</parameter>)",
+                r"<parameter=([^>]+)>(.*?)(?:</parameter>|(?=<parameter=)|(?=</function>))",
                 partial,
                 re.DOTALL,
             ):
@@ -406,14 +421,15 @@ class ToolCallParser:
                 except (json.JSONDecodeError, ValueError):
                     params[key] = val
             if params:
-                return json.dumps(params, ensure_ascii=False)
+                # More parameters may follow: leave the object open.
+                return json.dumps(params, ensure_ascii=False)[:-1]
             return None
         m = re.search(r'"arguments"\s*:\s*(\{.*)', partial, re.DOTALL)
         if m:
-            return m.group(1)
+            return _json_object_prefix(m.group(1))
         m = re.search(r'"parameters"\s*:\s*(\{.*)', partial, re.DOTALL)
         if m:
-            return m.group(1)
+            return _json_object_prefix(m.group(1))
         return None
 
 
@@ -426,6 +442,29 @@ def _make_tool_call_id() -> str:
     return f"call_{uuid.uuid4().hex[:24]}"
 
 
+def _json_object_prefix(text: str) -> str:
+    """Return *text* up to the ``}`` closing the object it starts with."""
+    depth = 0
+    in_string = escaped = False
+    for i, ch in enumerate(text):
+        if in_string:
+            if escaped:
+                escaped = False
+            elif ch == "\\":
+                escaped = True
+            elif ch == '"':
+                in_string = False
+        elif ch == '"':
+            in_string = True
+        elif ch == "{":
+            depth += 1
+        elif ch == "}":
+            depth -= 1
+            if depth == 0:
+                return text[: i + 1]
+    return text
+
+
 def _could_be_partial(text: str, pattern: str) -> bool:
     for i in range(1, len(pattern)):
         if text.endswith(pattern[:i]):
-- 
2.43.0


From cab1cb850bce9eb35413379389973d54f6649f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 14/59] fix: chat streaming delivers text the parsers held back
 when the stream ends

---
 pymllm/server/launch.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 19b9520..f509b36 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -965,6 +965,11 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
                         reasoning_delta, content_delta = r_parser.parse_stream_chunk(
                             raw_delta
                         )
+                    if r_parser and finish_reason is not None:
+                        # Text held back as a possible tag
+                        held_reasoning, held_content = r_parser.flush()
+                        reasoning_delta += held_reasoning
+                        content_delta += held_content
 
                     # --- Phase 2: tool-call parser ---
                     tool_items: list = []
@@ -972,6 +977,8 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
                         content_delta, tool_items = tc_parser.parse_stream_chunk(
                             content_delta
                         )
+                    if tc_parser and finish_reason is not None:
+                        content_delta += tc_parser.flush_content()
 
                     # --- Emit chunks ---
                     # Role chunk (first)
-- 
2.43.0


From d7ef0280806cba0883023cdf0aac4c9b49d2932d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 15/59] fix: streamed deltas no longer corrupt characters whose
 bytes span several tokens

---
 pymllm/orchestrator/detokenizer_process.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pymllm/orchestrator/detokenizer_process.py b/pymllm/orchestrator/detokenizer_process.py
index 7b8bf26..cd1e8af 100644
--- a/pymllm/orchestrator/detokenizer_process.py
+++ b/pymllm/orchestrator/detokenizer_process.py
@@ -157,10 +157,13 @@ class DetokenizerProcess:
             else:
                 text = ""
 
-            # Compute incremental delta by diffing against previous text
+            # Compute incremental delta by diffing against previous text.  A
+            # trailing U+FFFD may be a character whose bytes are still
+            # incomplete: hold it back until more tokens arrive.
             prev_text = self._rid_to_prev_text.get(rid, "")
-            delta_text = text[len(prev_text):]
-            self._rid_to_prev_text[rid] = text
+            stable_text = text if is_finished else text.rstrip("\ufffd")
+            delta_text = stable_text[len(prev_text):]
+            self._rid_to_prev_text[rid] = stable_text
 
             # Clean up tracking when request finishes
             if is_finished:
-- 
2.43.0


From 80fc48b30cfedc991921c0f2e418da7880052eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 16/59] fix: a batch of one prompt is split into a single
 request instead of being sent as lists

---
 pymllm/engine/io_struct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/engine/io_struct.py b/pymllm/engine/io_struct.py
index 06c8d78..f948af3 100644
--- a/pymllm/engine/io_struct.py
+++ b/pymllm/engine/io_struct.py
@@ -85,7 +85,7 @@ class GenerateReqInput(BaseReq):
     def __getitem__(self, i: int) -> "GenerateReqInput":
         if i < 0 or i >= self.batch_size:
             raise IndexError(f"index {i} out of range for batch size {self.batch_size}")
-        if self.batch_size == 1:
+        if self.is_single:
             return self
         return GenerateReqInput(
             rid=self._pick(self.rid, i),
-- 
2.43.0


From a7faae9998fc0ad386cd44b68b96ed9912aa4cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 17/59] fix: completions of a prompt list carry the index of
 the prompt they answer

---
 pymllm/server/launch.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index f509b36..5787beb 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -736,6 +736,14 @@ async def openai_completions(obj: CompletionRequest, request: Request):
     include_usage = (
         obj.stream_options is not None and obj.stream_options.include_usage
     )
+    # Results of a prompt list arrive in completion order: the request id
+    # tells which prompt (choice index) each one answers.
+    choice_index: Dict[str, int] = {}
+    gen_kwargs: Dict[str, Any] = {"prompt": obj.prompt, "sampling_params": sp}
+    if isinstance(obj.prompt, list):
+        rids = [uuid.uuid4().hex for _ in obj.prompt]
+        choice_index = {r: i for i, r in enumerate(rids)}
+        gen_kwargs["rid"] = rids
 
     if obj.stream:
 
@@ -743,13 +751,16 @@ async def openai_completions(obj: CompletionRequest, request: Request):
             comp_id = _make_completion_id()
             prompt_tokens = 0
             completion_tokens = 0
-            gen = engine.generate_async(
-                prompt=obj.prompt, sampling_params=sp, stream=True
-            )
+            gen = engine.generate_async(**gen_kwargs, stream=True)
+            usage_by_rid: Dict[Any, tuple] = {}
             try:
                 async for chunk in _iter_with_disconnect_check(gen, request):
-                    prompt_tokens = chunk.get("prompt_tokens", prompt_tokens)
-                    completion_tokens = chunk.get("completion_tokens", completion_tokens)
+                    usage_by_rid[chunk.get("rid")] = (
+                        chunk.get("prompt_tokens", 0),
+                        chunk.get("completion_tokens", 0),
+                    )
+                    prompt_tokens = sum(u[0] for u in usage_by_rid.values())
+                    completion_tokens = sum(u[1] for u in usage_by_rid.values())
                     delta_text = chunk.get("delta", "")
                     finish_reason = _normalize_finish_reason(
                         chunk.get("finished_reason")
@@ -764,7 +775,7 @@ async def openai_completions(obj: CompletionRequest, request: Request):
                         "model": model_name,
                         "choices": [
                             {
-                                "index": 0,
+                                "index": choice_index.get(chunk.get("rid"), 0),
                                 "text": delta_text,
                                 "logprobs": None,
                                 "finish_reason": finish_reason,
@@ -797,13 +808,12 @@ async def openai_completions(obj: CompletionRequest, request: Request):
 
         return StreamingResponse(_stream(), media_type="text/event-stream")
 
-    gen = engine.generate_async(
-        prompt=obj.prompt, sampling_params=sp
-    )
+    gen = engine.generate_async(**gen_kwargs)
     try:
         results = []
         async for item in _iter_with_disconnect_check(gen, request):
             results.append(item)
+        results.sort(key=lambda r: choice_index.get(r.get("rid"), 0))
         choices = []
         prompt_tokens = 0
         completion_tokens = 0
-- 
2.43.0


From f02f907482bc50eade2c1525c7668dd21949509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 18/59] fix: radix tree followed children of partially matched
 edges and mixed namespaces

---
 mllm/engine/prefix_cache/RadixTree.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mllm/engine/prefix_cache/RadixTree.cpp b/mllm/engine/prefix_cache/RadixTree.cpp
index d9049c5..9acce5e 100644
--- a/mllm/engine/prefix_cache/RadixTree.cpp
+++ b/mllm/engine/prefix_cache/RadixTree.cpp
@@ -11,7 +11,9 @@ namespace mllm::prefix_cache {
 RadixTreeNodeKey::RadixTreeNodeKey(const VectorView<int64_t>& token_ids_tmp, int64_t extra_key_tmp)
     : token_ids(token_ids_tmp), extra_key(extra_key_tmp) {}
 
-bool RadixTreeNodeKey::operator==(const RadixTreeNodeKey& o) const noexcept { return token_ids == o.token_ids; }
+bool RadixTreeNodeKey::operator==(const RadixTreeNodeKey& o) const noexcept {
+  return extra_key == o.extra_key && token_ids == o.token_ids;
+}
 
 bool RadixTreeNodeKey::operator!=(const RadixTreeNodeKey& o) const noexcept { return !(*this == o); }
 
@@ -70,6 +72,8 @@ bool RadixTree::insert(const RadixTreeNodeKey& key, const RadixTreeNodeValue& va
     }
     if (!found) break;
     cur = deepest;
+    // The key diverges (or ends) inside this edge, its children are not reachable.
+    if (edge_matched < static_cast<size_t>(deepest->key.token_ids.size())) break;
   }
 
   if (matched == key.token_ids.size()) {
@@ -129,7 +133,8 @@ RadixSearchResult RadixTree::search(const RadixTreeNodeKey& key) {
         cur_node = child_node;
         cur_searched_len += matched_len;
         path.emplace_back(cur_node, matched_len);
-        found_next_child = true;
+        // Only a fully matched edge leads to the children.
+        found_next_child = matched_len == static_cast<size_t>(child_key.token_ids.size());
         break;
       }
     }
-- 
2.43.0


From f46fad593443b29ae2829980ce4ad2524f5d1996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 19/59] fix: clone of a view copied the whole storage of its
 source

---
 mllm/backends/cpu/ops/CloneOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/ops/CloneOp.cpp b/mllm/backends/cpu/ops/CloneOp.cpp
index 96109ef..66ec451 100644
--- a/mllm/backends/cpu/ops/CloneOp.cpp
+++ b/mllm/backends/cpu/ops/CloneOp.cpp
@@ -15,7 +15,7 @@ void CPUCloneOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
   // Only Support Contiguous Tensor
   MLLM_RT_ASSERT(i.isContiguous());
 
-  std::memcpy(o.ptr<char>(), i.ptr<char>(), i.bytes());
+  std::memcpy(o.ptr<char>(), i.ptr<char>(), o.bytes());
 }
 
 }  // namespace mllm::cpu
-- 
2.43.0


From e3bcf8276bcd1b4789ad9d1e490d171d315364e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 20/59] fix: copy of a view copied the whole storage of its
 source

---
 mllm/backends/cpu/ops/CopyOp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/ops/CopyOp.cpp b/mllm/backends/cpu/ops/CopyOp.cpp
index 33f1cad..28c19c7 100644
--- a/mllm/backends/cpu/ops/CopyOp.cpp
+++ b/mllm/backends/cpu/ops/CopyOp.cpp
@@ -14,7 +14,8 @@ void CPUCopyOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
 
   // FIXME: Maybe we should handle contiguous issues here.
 
-  std::memcpy(i1.ptr<char>(), i0.ptr<char>(), i0.bytes());
+  // The storage may be larger than the view, bytes() is the size of the storage.
+  std::memcpy(i1.ptr<char>(), i0.ptr<char>(), i0.numel() / lanesOfType(i0.dtype()) * bytesOfType(i0.dtype()));
 }
 
 }  // namespace mllm::cpu
-- 
2.43.0


From 6777c30e8defbdc8294c3b97980bf5f1075db66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 21/59] fix: contiguous() of a view with rank above one
 gathered the wrong elements

---
 mllm/backends/cpu/ops/ContiguousOp.cpp | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/mllm/backends/cpu/ops/ContiguousOp.cpp b/mllm/backends/cpu/ops/ContiguousOp.cpp
index 33a1c8f..80a29eb 100644
--- a/mllm/backends/cpu/ops/ContiguousOp.cpp
+++ b/mllm/backends/cpu/ops/ContiguousOp.cpp
@@ -74,33 +74,18 @@ void CPUContiguousOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
     return;
   }
 
-  bool last_dim_contiguous = true;
-  for (int d = ndim - 2; d >= 0; --d) {
-    if (i.stride()[d] != i.stride()[d + 1] * i.stride()[d + 1]) {
-      last_dim_contiguous = false;
-      break;
-    }
-  }
-
-  if (last_dim_contiguous) {
+  if (i.stride()[ndim - 1] == 1) {
     const int32_t inner_size = i.shape()[ndim - 1];
     const int32_t inner_bytes = inner_size * ele_size;
     const int32_t outer_count = total_elements / inner_size;
 
-    std::vector<int32_t> outer_strides(ndim - 1);
-    int64_t cumulative_stride = 1;
-    for (int d = ndim - 2; d >= 0; --d) {
-      cumulative_stride *= i.shape()[d + 1];
-      outer_strides[d] = i.stride()[d] * cumulative_stride;
-    }
-
     for (int32_t idx = 0; idx < outer_count; ++idx) {
       int64_t offset = 0;
       int32_t temp = idx;
-      for (int d = 0; d < ndim - 1; ++d) {
+      for (int d = ndim - 2; d >= 0; --d) {
         const int32_t dim_index = temp % i.shape()[d];
         temp /= i.shape()[d];
-        offset += dim_index * outer_strides[d];
+        offset += (int64_t)dim_index * i.stride()[d];
       }
       std::memcpy(dst_ptr, src_ptr + offset * ele_size, inner_bytes);
       dst_ptr += inner_bytes;
-- 
2.43.0


From 469d9ef712e9054f7fa1170194a5b4ce6a894933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 22/59] fix: transposing the last two dimensions of a tensor of
 rank above two

---
 mllm/backends/cpu/ops/TransposeOp.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/mllm/backends/cpu/ops/TransposeOp.cpp b/mllm/backends/cpu/ops/TransposeOp.cpp
index d9817f8..8851f8e 100644
--- a/mllm/backends/cpu/ops/TransposeOp.cpp
+++ b/mllm/backends/cpu/ops/TransposeOp.cpp
@@ -91,19 +91,18 @@ void CPUTransposeOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
   }
 
   // CASE 3. Exchange last 2 dims.
-  // FIXME: (dim0 + dim1 == 1) is error logic.
-  else if (input_shape.size() != 2 && (dim0 + dim1 == 1)) {
-    int batch = 0;
+  else if (input_shape.size() > 2 && dim0 != dim1 && dim0 + dim1 == 2 * (int)input_shape.size() - 3) {
+    int batch = 1;
     for (int i = 0; i < input_shape.size() - 2; i++) { batch *= input_shape[i]; }
+    const int rows = input_shape[input_shape.size() - 2];
+    const int cols = input_shape[input_shape.size() - 1];
 
     switch (dtype) {
       case kFloat32: {
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-        x86::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, input_shape[0],
-                                      input_shape[1]);
+        x86::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, rows, cols);
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-        arm::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, input_shape[0],
-                                      input_shape[1]);
+        arm::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, rows, cols);
 #endif
         break;
       }
@@ -111,18 +110,15 @@ void CPUTransposeOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
         NYI("Transpose op(BSHD -> BSDH) fp16 not supported in x86");
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-        arm::transpose_last_dims_fp16(input.ptr<mllm_fp16_t>(), output.ptr<mllm_fp16_t>(), batch, input_shape[0],
-                                      input_shape[1]);
+        arm::transpose_last_dims_fp16(input.ptr<mllm_fp16_t>(), output.ptr<mllm_fp16_t>(), batch, rows, cols);
 #endif
         break;
       }
       case kInt64: {
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-        x86::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, input_shape[0],
-                                       input_shape[1]);
+        x86::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, rows, cols);
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-        arm::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, input_shape[0],
-                                       input_shape[1]);
+        arm::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, rows, cols);
 #endif
         break;
       }
-- 
2.43.0


From f57bc656a2cfbe7da83174eaad3ae5a8b7c068f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 23/59] fix: scatter to shards along the first or the last
 dimension

---
 mllm/backends/cpu/ops/Scatter2ShardsOp.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp b/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
index cde9497..7bf2f29 100644
--- a/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
+++ b/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
@@ -26,8 +26,6 @@ void CPUScatter2ShardsOp::forward(const std::vector<Tensor>& inputs, std::vector
   for (int i = options_.dim + 1; i < src.rank(); ++i) { floating_shards_point_right *= src.shape()[i]; }
   int32_t floating_shards_point_stride = 1;
   for (int i = options_.dim; i < src.rank(); ++i) { floating_shards_point_stride *= src.shape()[i]; }
-  if (options_.dim == src.rank() - 1) { floating_shards_point_stride = 1; }
-  if (options_.dim == 0) { floating_shards_point_left = src.stride()[0]; }
 
   int32_t loop_times = src.shape()[options_.dim];
   for (int lo = 0; lo < loop_times; ++lo) {
-- 
2.43.0


From 05a2e97c699cb0e2ab80c581904a1cdfb43f7001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 24/59] fix: static key/value cache wrote past its capacity

---
 mllm/nn/lmcache/StaticCache.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mllm/nn/lmcache/StaticCache.cpp b/mllm/nn/lmcache/StaticCache.cpp
index d1938d9..876fc83 100644
--- a/mllm/nn/lmcache/StaticCache.cpp
+++ b/mllm/nn/lmcache/StaticCache.cpp
@@ -92,6 +92,10 @@ std::array<Tensor, 2> StaticCache::updateKVCache(int32_t layer_idx, Tensor k, Te
 
     auto inputs_seq_len = k.shape()[2];
 
+    if (current_seq_cnt_[layer_idx] + inputs_seq_len > max_cache_length_) {
+      throw std::runtime_error("StaticCache: sequence length exceeds cache capacity");
+    }
+
     auto repeat_times = q_heads_ / kv_heads_;
 
     switch (device_type_) {
@@ -157,6 +161,10 @@ std::array<Tensor, 2> StaticCache::getKVCache(int32_t layer_idx) {
 std::array<Tensor, 2> StaticCache::preGetKVWriteLocation(int32_t layer_idx, int32_t s) {
   if (!use_fa2_) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "StaticCache::preGetKVWriteLocation is not supported in eager mode"); }
 
+  if (current_seq_cnt_[layer_idx] + s > max_cache_length_) {
+    throw std::runtime_error("StaticCache: sequence length exceeds cache capacity");
+  }
+
   auto new_shape = {1, s, kv_heads_ * kv_dims_};
   auto k = k_cache_[layer_idx][{kAll, {current_seq_cnt_[layer_idx], current_seq_cnt_[layer_idx] + s}, kAll, kAll}];
   auto v = v_cache_[layer_idx][{kAll, {current_seq_cnt_[layer_idx], current_seq_cnt_[layer_idx] + s}, kAll, kAll}];
-- 
2.43.0


From 05576f1b850f229e8cdd1aeee7ffd9cecedc9283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:26 +0000
Subject: [PATCH 25/59] fix: freeing a slot of ZenFS released the slot of the
 same lane in page zero

---
 mllm/engine/prefix_cache/ZenFS.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 604be3f..be0fba5 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -596,15 +596,15 @@ void ZenFileSystem::free(vp_addr_t addr) {
   // Extract blob address from the virtual address
   vp_blob_addr_t blob_addr = getBlobAddr(addr, options_.page_bits, options_.lane_bits);
 
-  // Get the lane address to determine which bit to free in the bitmap
-  vp_lane_addr_t lane_addr = getLaneAddr(addr, options_.page_bits, options_.lane_bits);
+  // Get the index of the lane in its blob to determine which bit to free in the bitmap
+  size_t lane_index = addr & ((1ULL << (options_.page_bits + options_.lane_bits)) - 1);
 
   // Find the blob
   auto it = blob_.find(blob_addr);
   if (it != blob_.end()) {
     // Calculate which word in the bitmap and which bit within that word
-    size_t word_index = lane_addr / 64;
-    size_t bit_index = lane_addr % 64;
+    size_t word_index = lane_index / 64;
+    size_t bit_index = lane_index % 64;
 
     // Set the bit to 1 to indicate it's free
     if (word_index < it->second.free_lanes_bits_map.size()) {
-- 
2.43.0


From 1302d1b83ef50ca6a68cadf0cd0883525f506183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:26 +0000
Subject: [PATCH 26/59] fix: ZenFS handed out lanes beyond the end of a blob

---
 mllm/engine/prefix_cache/ZenFS.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index be0fba5..d4c5e74 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -16,6 +16,15 @@
 
 namespace mllm::prefix_cache {
 
+namespace {
+// One bit for each lane of a blob. Bits beyond the last lane are never free.
+std::vector<uint64_t> allFreeLanes(size_t total_lanes) {
+  std::vector<uint64_t> bits((total_lanes + 63) / 64, ~0ULL);
+  if (total_lanes % 64) { bits.back() = (1ULL << (total_lanes % 64)) - 1; }
+  return bits;
+}
+}  // namespace
+
 ZenFSBlobMMAPFile::ptr_t ZenFSBlobMMAPFile::create(size_t size, ZenFSMMAPMode mode, const std::string& fpath,
                                                    std::error_code& ec) {
   // Not throw std::bad_alloc but return nullptr
@@ -325,15 +334,14 @@ void ZenFileSystem::initialize(const ZenFileSystemOptions& options) {
   // X. Create the first block Tensor for KV
   {
     size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-    size_t uint64_count = (total_bits + 64 - 1) / 64;
-
+  
     // The first blob is in memory
     blob_.insert({blob_.size(), ZenFSBlob{.data = Tensor::zeros({(1 << (options_.page_bits + options_.lane_bits)),
                                                                  (int32_t)options.per_k_token_ele},
                                                                 options.k_dtype),
                                           .type = ZenFSBlobType::kInMemory,
                                           .mmap_file = std::nullopt,
-                                          .free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL)}});
+                                          .free_lanes_bits_map = allFreeLanes(total_bits)}});
   }
 }
 
@@ -492,8 +500,7 @@ void ZenFileSystem::recover(const std::string& working_dir) {
 
       // Initialize free lanes bitmap
       size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-      size_t uint64_count = (total_bits + 64 - 1) / 64;
-      blob.free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL);
+          blob.free_lanes_bits_map = allFreeLanes(total_bits);
 
       // Insert blob into map
       blob_.insert({blob_id, std::move(blob)});
@@ -638,7 +645,6 @@ char* ZenFileSystem::access(vp_addr_t addr) {
 void ZenFileSystem::_createBlobOnDisk() {
   // Calculate blob size.
   size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-  size_t uint64_count = (total_bits + sizeof(uint64_t) - 1) / sizeof(uint64_t);
 
   // Blob size is not K and V.
   // Is 1 << (options_.page_bits + options_.lane_bits) * elements * sizeof(dtype).
@@ -666,13 +672,12 @@ void ZenFileSystem::_createBlobOnDisk() {
   blob_.insert({(uint32_t)this_tensor_blob_id, ZenFSBlob{.data = std::move(tensor),
                                                          .type = ZenFSBlobType::kOnDiskMMAP,
                                                          .mmap_file = mmap_file,
-                                                         .free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL)}});
+                                                         .free_lanes_bits_map = allFreeLanes(total_bits)}});
 }
 
 void ZenFileSystem::_createBlobOnAnonymousFile() {
   // Calculate blob size.
   size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-  size_t uint64_count = (total_bits + 64 - 1) / 64;
 
   // Blob size is not K and V.
   // Is 1 << (options_.page_bits + options_.lane_bits) * elements * sizeof(dtype).
@@ -699,7 +704,7 @@ void ZenFileSystem::_createBlobOnAnonymousFile() {
   blob_.insert({(uint32_t)this_tensor_blob_id, ZenFSBlob{.data = std::move(tensor),
                                                          .type = ZenFSBlobType::kOnDiskMMAP,
                                                          .mmap_file = mmap_file,
-                                                         .free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL)}});
+                                                         .free_lanes_bits_map = allFreeLanes(total_bits)}});
 }
 
 void ZenFileSystem::_findFreeAddrInBlob(vp_blob_addr_t blob_addr, vp_addr_t* ret_addr) {
-- 
2.43.0


From f4bb62937199c82ebc92860422d87f9d200d26fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:26 +0000
Subject: [PATCH 27/59] fix: ZenFS could not create a blob on disk, mkstemp
 needs a template

---
 mllm/engine/prefix_cache/ZenFS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index d4c5e74..8451e0f 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -654,7 +654,7 @@ void ZenFileSystem::_createBlobOnDisk() {
 
   std::error_code ec;
   auto mmap_file = ZenFSBlobMMAPFile::create(blob_size, ZenFSMMAPMode::kReadWrite,
-                                             options_.working_dir + "/blob_" + std::to_string(blob_.size()) + ".kv", ec);
+                                             options_.working_dir + "/blob_" + std::to_string(blob_.size()) + ".kv.XXXXXX", ec);
 
   if (ec) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "Failed to create mmap file for blob on disk"); }
 
-- 
2.43.0


From dd08acd499b1916141b30b2a46cb3aa65160ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:26 +0000
Subject: [PATCH 28/59] fix: ZenFS prefetched and purged the memory of other
 lanes

---
 mllm/engine/prefix_cache/ZenFS.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 8451e0f..531869b 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -149,6 +149,14 @@ void ZenFSBlobMMAPFile::prefetch(size_t offset, size_t len) const {
 
 void ZenFSBlobMMAPFile::purge(size_t offset, size_t len) {
   if (offset + len > size_) return;
+#if !defined(_WIN32)
+  // The advice is given for whole pages: leave out those shared with the neighbours of the range.
+  const size_t page = static_cast<size_t>(::sysconf(_SC_PAGESIZE));
+  const size_t end = (offset + len) / page * page;
+  offset = (offset + page - 1) / page * page;
+  if (offset >= end) return;
+  len = end - offset;
+#endif
   uint8_t* start = addr_ + offset;
 #if defined(_WIN32)
   ::FlushViewOfFile(start, len);
@@ -538,7 +546,7 @@ void ZenFileSystem::hintsPrefetch(vp_addr_t token_lane_addr) const {
     vp_lane_addr_t lane_addr = getLaneAddr(token_lane_addr, options_.page_bits, options_.lane_bits);
 
     // Calculate offset: page offset + lane offset
-    size_t page_offset = page_addr * per_kv_token_mem_size_;
+    size_t page_offset = page_addr * (1ULL << options_.lane_bits) * per_kv_token_mem_size_;
     size_t lane_offset = lane_addr * per_kv_token_mem_size_;
     size_t offset = page_offset + lane_offset;
 
@@ -559,7 +567,7 @@ void ZenFileSystem::hintsPurge(vp_addr_t token_lane_addr) {
     vp_lane_addr_t lane_addr = getLaneAddr(token_lane_addr, options_.page_bits, options_.lane_bits);
 
     // Calculate offset: page offset + lane offset
-    size_t page_offset = page_addr * per_kv_token_mem_size_;
+    size_t page_offset = page_addr * (1ULL << options_.lane_bits) * per_kv_token_mem_size_;
     size_t lane_offset = lane_addr * per_kv_token_mem_size_;
     size_t offset = page_offset + lane_offset;
 
-- 
2.43.0


From cfd8bab82184d6a0c8ea24563193d0a8285361cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:57 +0000
Subject: [PATCH 29/59] fix: model file V1 counted the tensor's own name
 instead of the written one

---
 mllm/core/ParameterFile.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index 072adfa..c6f5bfd 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -213,12 +213,11 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
 
   // Calculate total size of the descriptor section
   for (const auto& pair : *parameter_file) {
-    const auto& tensor = pair.second;
-    param_desc_total_size += sizeof(uint32_t);                        // name length
-    param_desc_total_size += tensor.impl()->storage()->name_.size();  // name string
-    param_desc_total_size += sizeof(uint64_t);                        // data length
-    param_desc_total_size += sizeof(uint64_t);                        // offset
-    param_desc_total_size += sizeof(int32_t);                         // data type
+    param_desc_total_size += sizeof(uint32_t);    // name length
+    param_desc_total_size += pair.first.size();   // name string
+    param_desc_total_size += sizeof(uint64_t);    // data length
+    param_desc_total_size += sizeof(uint64_t);    // offset
+    param_desc_total_size += sizeof(int32_t);     // data type
   }
 
   // Write header: parameter_desc_offset is now the SIZE of the descriptor section
-- 
2.43.0


From a790681481a8ffeea8deef5b996ddbdb93f887db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:57 +0000
Subject: [PATCH 30/59] fix: saving a view of a larger tensor wrote beyond its
 elements

---
 mllm/core/ParameterFile.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index c6f5bfd..55f5f62 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -15,6 +15,14 @@
 
 namespace mllm {
 
+namespace {
+// Bytes of the elements of a tensor. bytes() is the size of its storage, which is larger if the tensor is a view.
+size_t payloadBytes(const Tensor& tensor) {
+  MLLM_RT_ASSERT(tensor.isContiguous());
+  return tensor.numel() / lanesOfType(tensor.dtype()) * bytesOfType(tensor.dtype());
+}
+}  // namespace
+
 ParameterFile::ParameterFile(ModelFileVersion v) : version_(v) {}
 
 ParameterFile::ptr_t ParameterFile::create(ModelFileVersion v) { return std::make_shared<ParameterFile>(v); }
@@ -240,7 +248,7 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
     out_file.write(name.c_str(), name_len);
 
     // Data length (bytes)
-    uint64_t data_len = tensor.bytes();
+    uint64_t data_len = payloadBytes(tensor);
     out_file.write(reinterpret_cast<const char*>(&data_len), sizeof(data_len));
 
     // Offset (absolute from file start)
@@ -255,7 +263,7 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
   // Write tensor data
   for (const auto& pair : *parameter_file) {
     const auto& tensor = pair.second;
-    size_t data_size = tensor.bytes();
+    size_t data_size = payloadBytes(tensor);
     out_file.write(reinterpret_cast<const char*>(tensor.ptr<uint8_t>()), data_size);
   }
 
@@ -408,7 +416,7 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>::write(const
     param_desc.parameter_type = static_cast<uint32_t>(tensor.dtype());
 
     // Set parameter size
-    param_desc.parameter_size = tensor.bytes();
+    param_desc.parameter_size = payloadBytes(tensor);
 
     // Set parameter offset
     param_desc.parameter_offset = current_data_offset;
@@ -426,12 +434,12 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>::write(const
     out_file.write(reinterpret_cast<const char*>(&param_desc), sizeof(param_desc));
 
     // Update current data offset
-    current_data_offset += tensor.bytes();
+    current_data_offset += payloadBytes(tensor);
   }
 
   // Second pass: write tensor data
   for (const auto& [name, tensor] : tensors) {
-    size_t data_size = tensor.bytes();
+    size_t data_size = payloadBytes(tensor);
     out_file.write(reinterpret_cast<const char*>(tensor.ptr<uint8_t>()), data_size);
   }
 
-- 
2.43.0


From 550977d11496df9a5ae064d1c760d2010eb283b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:04 +0000
Subject: [PATCH 31/59] fix: model file readers trusted offsets and lengths of
 broken files

---
 mllm/core/ParameterFile.cpp | 52 ++++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index 55f5f62..6952327 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -21,6 +21,27 @@ size_t payloadBytes(const Tensor& tensor) {
   MLLM_RT_ASSERT(tensor.isContiguous());
   return tensor.numel() / lanesOfType(tensor.dtype()) * bytesOfType(tensor.dtype());
 }
+
+// The contents of a file may be truncated or broken, offsets and lengths found in it must stay inside of it.
+void checkInside(uint64_t offset, uint64_t length, uint64_t total) {
+  if (offset > total || length > total - offset) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Model file is truncated or broken"); }
+}
+
+void checkShape(const TensorViewImpl::shape_t& shape) {
+  constexpr uint64_t kMaxElements = 1ULL << 32;
+  uint64_t cnt = 1;
+  for (auto dim : shape) {
+    cnt *= static_cast<uint32_t>(dim);
+    if (dim < 0 || cnt > kMaxElements) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Model file has a parameter of a wrong shape"); }
+  }
+}
+
+uint64_t sizeOf(std::ifstream& file) {
+  file.seekg(0, std::ios::end);
+  const auto size = static_cast<uint64_t>(file.tellg());
+  file.seekg(0, std::ios::beg);
+  return size;
+}
 }  // namespace
 
 ParameterFile::ParameterFile(ModelFileVersion v) : version_(v) {}
@@ -85,11 +106,13 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
 
     // Process Header
     uint64_t parameter_desc_offset = -1;
+    checkInside(0, sizeof(ModelFileV1Descriptor), mmap_file->size());
     {
       auto* header = static_cast<ModelFileV1Descriptor*>(mmap_file->data());
       MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V1_MAGIC_NUMBER, header->magic_number);
       parameter_desc_offset = header->parameter_desc_offset;
     }
+    checkInside(sizeof(ModelFileV1Descriptor), parameter_desc_offset, mmap_file->size());
     char* current_pos = static_cast<char*>(mmap_file->data()) + sizeof(ModelFileV1Descriptor);
     char* end_pos = current_pos + parameter_desc_offset;
 
@@ -99,10 +122,13 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
       ModelFileV1ParamsDescriptorHelper helper;
 
       // Gen Name length
+      checkInside(0, sizeof(uint32_t), end_pos - current_pos);
       helper.descriptor_.name_len = *reinterpret_cast<uint32_t*>(current_pos);
       current_pos += sizeof(uint32_t);
 
       // Get Name
+      checkInside(static_cast<uint32_t>(helper.descriptor_.name_len), 2 * sizeof(uint64_t) + sizeof(int32_t),
+                  end_pos - current_pos);
       helper.name_ = std::string(current_pos, helper.descriptor_.name_len);
       current_pos += helper.descriptor_.name_len;
 
@@ -112,6 +138,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
 
       // Offset
       helper.descriptor_.offset = *reinterpret_cast<uint64_t*>(current_pos);
+      checkInside(helper.descriptor_.offset, helper.descriptor_.data_len, mmap_file->size());
       helper.ptr_ = static_cast<char*>(mmap_file->data()) + helper.descriptor_.offset;
       current_pos += sizeof(uint64_t);
 
@@ -127,6 +154,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
       MLLM_RT_ASSERT(std::numeric_limits<int32_t>::max() >= desc.descriptor_.name_len);
 
       auto dtype = static_cast<DataTypes>(desc.descriptor_.dtype);
+      MLLM_RT_ASSERT(std::numeric_limits<int32_t>::max() / lanesOfType(dtype) >= desc.descriptor_.data_len / bytesOfType(dtype));
       TensorViewImpl::shape_t shape = {(int32_t)(desc.descriptor_.data_len / bytesOfType(dtype) * lanesOfType(dtype))};
       auto s = TensorStorage::create(shape, dtype, kCPU);
       auto t = TensorViewImpl::create(shape, s);
@@ -143,12 +171,16 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     std::ifstream file(file_path, std::ios::binary);
     if (!file.is_open()) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to open file for reading: {}", file_path); }
 
+    const uint64_t file_size = sizeOf(file);
+
     // Process Header
+    checkInside(0, sizeof(ModelFileV1Descriptor), file_size);
     ModelFileV1Descriptor header{};
     file.read(reinterpret_cast<char*>(&header), sizeof(header));
     MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V1_MAGIC_NUMBER, header.magic_number);
 
     uint64_t parameter_desc_offset = header.parameter_desc_offset;
+    checkInside(sizeof(ModelFileV1Descriptor), parameter_desc_offset, file_size);
     char* buffer = new char[parameter_desc_offset];
     file.read(buffer, parameter_desc_offset);
 
@@ -161,10 +193,13 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
       ModelFileV1ParamsDescriptorHelper helper;
 
       // Gen Name length
+      checkInside(0, sizeof(uint32_t), end_pos - current_pos);
       helper.descriptor_.name_len = *reinterpret_cast<uint32_t*>(current_pos);
       current_pos += sizeof(uint32_t);
 
       // Get Name
+      checkInside(static_cast<uint32_t>(helper.descriptor_.name_len), 2 * sizeof(uint64_t) + sizeof(int32_t),
+                  end_pos - current_pos);
       helper.name_ = std::string(current_pos, helper.descriptor_.name_len);
       current_pos += helper.descriptor_.name_len;
 
@@ -174,6 +209,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
 
       // Offset
       helper.descriptor_.offset = *reinterpret_cast<uint64_t*>(current_pos);
+      checkInside(helper.descriptor_.offset, helper.descriptor_.data_len, file_size);
       current_pos += sizeof(uint64_t);
 
       // Datatypes
@@ -191,6 +227,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
       MLLM_RT_ASSERT(std::numeric_limits<int32_t>::max() >= desc.descriptor_.name_len);
 
       auto dtype = static_cast<DataTypes>(desc.descriptor_.dtype);
+      MLLM_RT_ASSERT(std::numeric_limits<int32_t>::max() / lanesOfType(dtype) >= desc.descriptor_.data_len / bytesOfType(dtype));
       TensorViewImpl::shape_t shape = {(int32_t)(desc.descriptor_.data_len / bytesOfType(dtype) * lanesOfType(dtype))};
 
       // Seek to data position and read
@@ -202,7 +239,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
       s->name_ = desc.name_;
       s->mem_type_ = kParamsNormal;
       p_file->push(desc.name_, Tensor(t).alloc());
-      file.read(static_cast<char*>(s->ptr_), desc.descriptor_.data_len);
+      file.read(static_cast<char*>(s->ptr_), s->size_);
     }
 
     file.close();
@@ -284,6 +321,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     p_file->setMappedFile(mmap_file);
 
     // Process Header
+    checkInside(0, sizeof(ModelFileV2Descriptor), mmap_file->size());
     {
       auto* header = static_cast<ModelFileV2Descriptor*>(mmap_file->data());
       MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V2_MAGIC_NUMBER, header->magic_number);
@@ -291,6 +329,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     }
 
     auto* header = static_cast<ModelFileV2Descriptor*>(mmap_file->data());
+    checkInside(header->params_desc_offset, header->num_params * sizeof(ModelFileV2ParamsDescriptor), mmap_file->size());
     char* params_desc_begin = static_cast<char*>(mmap_file->data()) + header->params_desc_offset;
 
     if (header->params_desc_offset != sizeof(ModelFileV2Descriptor)) {
@@ -314,6 +353,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
       for (size_t j = 0; j < param_desc->shape_len && j < MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH; j++) {
         shape.push_back(param_desc->shape[j]);
       }
+      checkShape(shape);
 
       // Create tensor storage and view
       auto s = TensorStorage::create(shape, static_cast<DataTypes>(param_desc->parameter_type), kCPU);
@@ -328,6 +368,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
 
       // Check parameter size is right
       MLLM_RT_ASSERT(param_desc->parameter_size >= tensor.bytes());
+      checkInside(param_desc->parameter_offset, tensor.bytes(), mmap_file->size());
 
       p_file->push(name, tensor);
     }
@@ -336,6 +377,8 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     std::ifstream file(file_path, std::ios::binary);
     if (!file.is_open()) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "Failed to open parameter file"); }
 
+    const uint64_t file_size = sizeOf(file);
+    checkInside(0, sizeof(ModelFileV2Descriptor), file_size);
     ModelFileV2Descriptor header;
     file.read(reinterpret_cast<char*>(&header), sizeof(ModelFileV2Descriptor));
 
@@ -349,6 +392,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
           file_path);
     }
 
+    checkInside(header.params_desc_offset, header.num_params * sizeof(ModelFileV2ParamsDescriptor), file_size);
     std::vector<ModelFileV2ParamsDescriptor> param_descriptors(header.num_params);
     file.seekg(header.params_desc_offset);
     file.read(reinterpret_cast<char*>(param_descriptors.data()), header.num_params * sizeof(ModelFileV2ParamsDescriptor));
@@ -363,16 +407,18 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
       for (size_t j = 0; j < param_desc.shape_len && j < MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH; j++) {
         shape.push_back(param_desc.shape[j]);
       }
+      checkShape(shape);
 
       auto s = TensorStorage::create(shape, static_cast<DataTypes>(param_desc.parameter_type), kCPU);
       auto t = TensorViewImpl::create(shape, s);
 
       s->name_ = name;
+      MLLM_RT_ASSERT(param_desc.parameter_size >= s->size_);
+      checkInside(param_desc.parameter_offset, s->size_, file_size);
       auto tensor = Tensor(t).alloc();
       file.seekg(param_desc.parameter_offset);
-      file.read(static_cast<char*>(s->ptr_), param_desc.parameter_size);
+      file.read(static_cast<char*>(s->ptr_), s->size_);
       s->mem_type_ = kParamsNormal;
-      MLLM_RT_ASSERT(param_desc.parameter_size >= tensor.bytes());
       p_file->push(name, tensor);
     }
 
-- 
2.43.0


From 4b096ea868fd2ad941fcc42056df6effb09f8207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:11 +0000
Subject: [PATCH 32/59] fix: special tokens inside other special tokens were
 cut wrongly

---
 .../preprocessor/tokenizers/AutoTokenizer.cpp | 191 ++++--------------
 1 file changed, 39 insertions(+), 152 deletions(-)

diff --git a/mllm/preprocessor/tokenizers/AutoTokenizer.cpp b/mllm/preprocessor/tokenizers/AutoTokenizer.cpp
index ae9f4f9..991eb6a 100644
--- a/mllm/preprocessor/tokenizers/AutoTokenizer.cpp
+++ b/mllm/preprocessor/tokenizers/AutoTokenizer.cpp
@@ -30,81 +30,34 @@ void Trie::update(const std::vector<std::wstring>& words) {
   for (const auto& word : words) { add(word); }
 }
 
-std::vector<std::wstring> Trie::split(const std::wstring& text) {
-  std::map<size_t, TrieNode*> states;
-  std::vector<size_t> offsets = {0};
-  size_t skip = 0;
-
-  for (size_t current = 0; current < text.size(); ++current) {
-    if (skip > current) continue;
-
-    std::unordered_set<size_t> to_remove;
-    bool reset = false;
-
-    wchar_t current_char = text[current];
-
-    for (auto& [_start, node] : states) {
-      auto start = _start;
-      if (node->is_end) {
-        // trying to find the longest match
-        size_t max_end = current;
-
-        for (auto& [look_start, look_node] : states) {
-          if (look_start > start) break;
-
-          size_t lookahead = (look_start < start) ? current + 1 : current;
-          size_t end = lookahead;
-          TrieNode* ptr = look_node;
-
-          while (lookahead < text.size()) {
-            wchar_t ch = text[lookahead];
-
-            if (!ptr->children.count(ch)) break;
-
-            ptr = ptr->children[ch].get();
-            lookahead++;
-
-            if (ptr->is_end) {
-              start = look_start;
-              end = lookahead;
-              skip = lookahead;
-            }
-          }
-
-          if (ptr->is_end && end > max_end) { max_end = end; }
-        }
-        offsets.push_back(start);
-        offsets.push_back(max_end);
-        reset = true;
-        break;
-      }
-      if (node->children.count(current_char)) {
-        states[start] = node->children[current_char].get();
-      } else {
-        to_remove.insert(start);
-      }
-    }
-    if (reset) {
-      states.clear();
-    } else {
-      for (auto start : to_remove) { states.erase(start); }
-    }
-    if (current >= skip && root_->children.count(current_char)) { states[current] = root_->children[current_char].get(); }
-  }
-  for (auto& [start, node] : states) {
-    if (node->is_end) {
-      offsets.push_back(start);
-      offsets.push_back(text.size());
-      break;
-    }
+// The longest word of the trie that starts at pos. 0 if there is none.
+template<typename Node, typename Text>
+static size_t longestMatch(const Node* node, const Text& text, size_t pos) {
+  size_t len = 0;
+  for (size_t i = pos; i < text.size(); ++i) {
+    auto child = node->children.find(text[i]);
+    if (child == node->children.end()) break;
+    node = child->second.get();
+    if (node->is_end) { len = i + 1 - pos; }
   }
+  return len;
+}
 
-  sort(offsets.begin(), offsets.end());
+std::vector<std::wstring> Trie::split(const std::wstring& text) {
   std::vector<std::wstring> result;
-  for (size_t i = 1; i < offsets.size(); ++i) {
-    if (offsets[i - 1] != offsets[i]) { result.push_back(text.substr(offsets[i - 1], offsets[i] - offsets[i - 1])); }
+  size_t begin = 0;
+  for (size_t pos = 0; pos < text.size();) {
+    const size_t len = longestMatch(root_.get(), text, pos);
+    if (len == 0) {
+      ++pos;
+      continue;
+    }
+    if (begin < pos) { result.push_back(text.substr(begin, pos - begin)); }
+    result.push_back(text.substr(pos, len));
+    pos += len;
+    begin = pos;
   }
-  if (offsets[offsets.size() - 1] != text.size()) { result.push_back(text.substr(offsets[offsets.size() - 1])); }
+  if (begin < text.size()) { result.push_back(text.substr(begin)); }
   return result;
 }
 
@@ -129,93 +82,27 @@ void TrieUTF8::update(const std::vector<std::string>& words) {
   for (const auto& word : words) { add(word); }
 }
 
-// I use FSA to implement the split function.
 std::vector<std::string> TrieUTF8::split(const std::string& text_utf8) {
   auto text = utf8String2Cpts(text_utf8);
 
-  std::map<size_t, TrieNode*> states;
-  std::vector<size_t> offsets = {0};
-  size_t skip = 0;
-
-  for (size_t current = 0; current < text.size(); ++current) {
-    if (skip > current) continue;
-
-    std::unordered_set<size_t> to_remove;
-    bool reset = false;
-
-    wchar_t current_char = text[current];
-
-    for (auto& [_start, node] : states) {
-      auto start = _start;
-      if (node->is_end) {
-        // trying to find the longest match
-        size_t max_end = current;
-
-        for (auto& [look_start, look_node] : states) {
-          if (look_start > start) break;
-
-          size_t lookahead = (look_start < start) ? current + 1 : current;
-          size_t end = lookahead;
-          TrieNode* ptr = look_node;
-
-          while (lookahead < text.size()) {
-            wchar_t ch = text[lookahead];
-
-            if (!ptr->children.count(ch)) break;
-
-            ptr = ptr->children[ch].get();
-            lookahead++;
-
-            if (ptr->is_end) {
-              start = look_start;
-              end = lookahead;
-              skip = lookahead;
-            }
-          }
-
-          if (ptr->is_end && end > max_end) { max_end = end; }
-        }
-        offsets.push_back(start);
-        offsets.push_back(max_end);
-        reset = true;
-        break;
-      }
-      if (node->children.count(current_char)) {
-        states[start] = node->children[current_char].get();
-      } else {
-        to_remove.insert(start);
-      }
-    }
-    if (reset) {
-      states.clear();
-    } else {
-      for (auto start : to_remove) { states.erase(start); }
-    }
-    if (current >= skip && root_->children.count(current_char)) { states[current] = root_->children[current_char].get(); }
-  }
-  for (auto& [start, node] : states) {
-    if (node->is_end) {
-      offsets.push_back(start);
-      offsets.push_back(text.size());
-      break;
-    }
-  }
-
-  sort(offsets.begin(), offsets.end());
   std::vector<std::string> result;
-
-  for (size_t i = 1; i < offsets.size(); ++i) {
-    if (offsets[i - 1] != offsets[i]) {
-      auto cpts_str = cpts_string_t{};
-      for (int __idx = offsets[i - 1]; __idx < offsets[i]; __idx++) { cpts_str.push_back(text[__idx]); }
-      result.push_back(cpts2Utf8String(cpts_str));
+  auto push = [&](size_t begin, size_t end) {
+    result.push_back(cpts2Utf8String(cpts_string_t(text.begin() + begin, text.begin() + end)));
+  };
+
+  size_t begin = 0;
+  for (size_t pos = 0; pos < text.size();) {
+    const size_t len = longestMatch(root_.get(), text, pos);
+    if (len == 0) {
+      ++pos;
+      continue;
     }
+    if (begin < pos) { push(begin, pos); }
+    push(pos, pos + len);
+    pos += len;
+    begin = pos;
   }
-  if (offsets[offsets.size() - 1] != text.size()) {
-    auto cpts_str = cpts_string_t{};
-    for (int __idx = offsets[offsets.size() - 1]; __idx < text.size(); __idx++) { cpts_str.push_back(text[__idx]); }
-    result.push_back(cpts2Utf8String(cpts_str));
-  }
+  if (begin < text.size()) { push(begin, text.size()); }
 
   return result;
 }
-- 
2.43.0


From 8f293cacd5c7b21d063b918381c2a865c75bcb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:11 +0000
Subject: [PATCH 33/59] fix: Qwen tokenizers split whitespace, newlines and
 contractions unlike their pattern

---
 .../minicpm_o2_6/tokenization_minicpmo.hpp    | 36 ++++++++-------
 mllm/models/qwen2vl/tokenization_qwen2vl.hpp  | 36 ++++++++-------
 mllm/models/qwen3/tokenization_qwen3.hpp      | 36 ++++++++-------
 .../qwen3_moe/tokenization_qwen3_moe.hpp      | 36 ++++++++-------
 mllm/models/qwen_npu/tokenization_qwen.hpp    | 46 +++++++++++--------
 5 files changed, 108 insertions(+), 82 deletions(-)

diff --git a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
index 569e0e1..1d242dc 100644
--- a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
+++ b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <vector>
+#include <algorithm>
 #include <unordered_map>
 #include <regex>
 
@@ -27,8 +28,10 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + pos,
+                      [](wchar_t a, wchar_t b) { return a == (b >= L'A' && b <= L'Z' ? b - L'A' + L'a' : b); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
@@ -103,27 +106,28 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
 
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
-    size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    size_t last_newline = std::wstring::npos;
+    for (; end < str.size() && std::iswspace(str[end]); ++end) {
+      if (str[end] == L'\r' || str[end] == L'\n') { last_newline = end; }
+    }
+    if (last_newline != std::wstring::npos) {
+      matched = str.substr(pos, last_newline + 1 - pos);
+      pos = last_newline + 1;
       return true;
-    } else {
-      pos = start;
     }
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
   if (std::iswspace(str[pos])) {
-    size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    while (end < str.size() && std::iswspace(str[end])) ++end;
+    // The last whitespace in front of a non-space belongs to the next match
+    if (end < str.size()) { --end; }
+    if (end > pos) {
+      matched = str.substr(pos, end - pos);
+      pos = end;
       return true;
-    } else {
-      pos = start;
     }
   }
 
diff --git a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
index 1ff6d03..7b8d671 100644
--- a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
+++ b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <vector>
+#include <algorithm>
 #include <unordered_map>
 
 #include "mllm/preprocessor/tokenizers/BPE.hpp"
@@ -23,8 +24,10 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + pos,
+                      [](wchar_t a, wchar_t b) { return a == (b >= L'A' && b <= L'Z' ? b - L'A' + L'a' : b); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
@@ -99,27 +102,28 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
 
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
-    size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    size_t last_newline = std::wstring::npos;
+    for (; end < str.size() && std::iswspace(str[end]); ++end) {
+      if (str[end] == L'\r' || str[end] == L'\n') { last_newline = end; }
+    }
+    if (last_newline != std::wstring::npos) {
+      matched = str.substr(pos, last_newline + 1 - pos);
+      pos = last_newline + 1;
       return true;
-    } else {
-      pos = start;
     }
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
   if (std::iswspace(str[pos])) {
-    size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    while (end < str.size() && std::iswspace(str[end])) ++end;
+    // The last whitespace in front of a non-space belongs to the next match
+    if (end < str.size()) { --end; }
+    if (end > pos) {
+      matched = str.substr(pos, end - pos);
+      pos = end;
       return true;
-    } else {
-      pos = start;
     }
   }
 
diff --git a/mllm/models/qwen3/tokenization_qwen3.hpp b/mllm/models/qwen3/tokenization_qwen3.hpp
index 73cb08a..897a15f 100644
--- a/mllm/models/qwen3/tokenization_qwen3.hpp
+++ b/mllm/models/qwen3/tokenization_qwen3.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <vector>
+#include <algorithm>
 #include <unordered_map>
 
 #include "mllm/preprocessor/tokenizers/BPE.hpp"
@@ -22,8 +23,10 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + pos,
+                      [](wchar_t a, wchar_t b) { return a == (b >= L'A' && b <= L'Z' ? b - L'A' + L'a' : b); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
@@ -98,27 +101,28 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
 
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
-    size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    size_t last_newline = std::wstring::npos;
+    for (; end < str.size() && std::iswspace(str[end]); ++end) {
+      if (str[end] == L'\r' || str[end] == L'\n') { last_newline = end; }
+    }
+    if (last_newline != std::wstring::npos) {
+      matched = str.substr(pos, last_newline + 1 - pos);
+      pos = last_newline + 1;
       return true;
-    } else {
-      pos = start;
     }
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
   if (std::iswspace(str[pos])) {
-    size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    while (end < str.size() && std::iswspace(str[end])) ++end;
+    // The last whitespace in front of a non-space belongs to the next match
+    if (end < str.size()) { --end; }
+    if (end > pos) {
+      matched = str.substr(pos, end - pos);
+      pos = end;
       return true;
-    } else {
-      pos = start;
     }
   }
 
diff --git a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
index 181d576..06525c2 100644
--- a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
+++ b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <vector>
+#include <algorithm>
 #include <unordered_map>
 
 #include "mllm/preprocessor/tokenizers/BPE.hpp"
@@ -22,8 +23,10 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + pos,
+                      [](wchar_t a, wchar_t b) { return a == (b >= L'A' && b <= L'Z' ? b - L'A' + L'a' : b); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
@@ -98,27 +101,28 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
 
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
-    size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    size_t last_newline = std::wstring::npos;
+    for (; end < str.size() && std::iswspace(str[end]); ++end) {
+      if (str[end] == L'\r' || str[end] == L'\n') { last_newline = end; }
+    }
+    if (last_newline != std::wstring::npos) {
+      matched = str.substr(pos, last_newline + 1 - pos);
+      pos = last_newline + 1;
       return true;
-    } else {
-      pos = start;
     }
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
   if (std::iswspace(str[pos])) {
-    size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    while (end < str.size() && std::iswspace(str[end])) ++end;
+    // The last whitespace in front of a non-space belongs to the next match
+    if (end < str.size()) { --end; }
+    if (end > pos) {
+      matched = str.substr(pos, end - pos);
+      pos = end;
       return true;
-    } else {
-      pos = start;
     }
   }
 
diff --git a/mllm/models/qwen_npu/tokenization_qwen.hpp b/mllm/models/qwen_npu/tokenization_qwen.hpp
index a5cdc26..0be8fc2 100644
--- a/mllm/models/qwen_npu/tokenization_qwen.hpp
+++ b/mllm/models/qwen_npu/tokenization_qwen.hpp
@@ -3,6 +3,7 @@
 #pragma once
 
 #include <vector>
+#include <algorithm>
 #include <unordered_map>
 #include <fstream>
 #include <iostream>
@@ -22,8 +23,10 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + pos,
+                      [](wchar_t a, wchar_t b) { return a == (b >= L'A' && b <= L'Z' ? b - L'A' + L'a' : b); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
@@ -65,19 +68,25 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
     return true;
   }
 
-  // 4. Match [^\s\p{L}\p{N}]+[\r\n]* (punctuation/symbols)
+  // 4. Match ?[^\s\p{L}\p{N}]+[\r\n]* (punctuation/symbols with optional space prefix)
   {
     size_t original_pos = pos;
     matched.clear();
+    size_t start = pos;
+
+    // Optional space
+    if (str[pos] == L' ') { ++pos; }
 
     // Require at least one non-letter/digit/whitespace
     if (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
       do {
-        matched += str[pos];
         ++pos;
       } while (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos])
                && !preprocessor::isDigit(str[pos]));
 
+      // Capture from start (after optional space) to current pos
+      matched = str.substr(start, pos - start);
+
       // Capture trailing newlines
       while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
         matched += str[pos];
@@ -92,27 +101,28 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
 
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
-    size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    size_t last_newline = std::wstring::npos;
+    for (; end < str.size() && std::iswspace(str[end]); ++end) {
+      if (str[end] == L'\r' || str[end] == L'\n') { last_newline = end; }
+    }
+    if (last_newline != std::wstring::npos) {
+      matched = str.substr(pos, last_newline + 1 - pos);
+      pos = last_newline + 1;
       return true;
-    } else {
-      pos = start;
     }
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
   if (std::iswspace(str[pos])) {
-    size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
-      matched = str.substr(start, pos - start);
+    size_t end = pos;
+    while (end < str.size() && std::iswspace(str[end])) ++end;
+    // The last whitespace in front of a non-space belongs to the next match
+    if (end < str.size()) { --end; }
+    if (end > pos) {
+      matched = str.substr(pos, end - pos);
+      pos = end;
       return true;
-    } else {
-      pos = start;
     }
   }
 
-- 
2.43.0


From efb0dd8fe763d84d04dd072cf61dcf175b260060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:54 +0000
Subject: [PATCH 34/59] fix: small object cache of the memory pool never reused
 or gave back memory

---
 mllm/engine/BuddyMemPool.cpp | 17 +++++++++--------
 mllm/engine/BuddyMemPool.hpp |  2 +-
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index e7b5141..8e6187c 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -73,7 +73,7 @@ void BuddyMemPool::free(Storage* s) {
   if (s->ptr_ == nullptr) { return; }
 
   if (options_.cache_small_obj_enabled && isInObjCache(try_to_alloc_size)) {
-    freeObjCache(st_[s->custom_32bit_uuid_]);
+    freeObjCache(st_[s->custom_32bit_uuid_], try_to_alloc_size);
   } else {
     freeBuddy(st_[s->custom_32bit_uuid_]);
   }
@@ -85,12 +85,13 @@ void BuddyMemPool::free(const std::shared_ptr<Storage>& s) { free(s.get()); }
 
 void BuddyMemPool::updateCacheSizeList(const std::unordered_set<size_t>& cache_size_set) {
   auto& object_cache = free_object_cache_st_;
-  for (auto size : cache_size_set) {
-    if (!isInObjCache(size)) {
-      auto& free_list = object_cache[size];
-      for (auto it : free_list) { freeBuddy(it); }
-      object_cache.erase(object_cache.find(size));
+  for (auto it = object_cache.begin(); it != object_cache.end();) {
+    if (cache_size_set.count(it->first)) {
+      ++it;
+      continue;
     }
+    for (auto omb : it->second) { freeBuddy(omb); }
+    it = object_cache.erase(it);
   }
 
   options_.cache_size_set = cache_size_set;
@@ -287,10 +288,10 @@ BuddyMemBlock* BuddyMemPool::allocObjCache(size_t omb_size) {
   return ret;
 }
 
-void BuddyMemPool::freeObjCache(BuddyMemBlock* omb) {
+void BuddyMemPool::freeObjCache(BuddyMemBlock* omb, size_t omb_size) {
   std::lock_guard<std::mutex> lock(mutex_);
   auto& object_cache = free_object_cache_st_;
-  object_cache[omb->size].push_back(omb);
+  object_cache[omb_size].push_back(omb);
   obj_cached_times_++;
 }
 
diff --git a/mllm/engine/BuddyMemPool.hpp b/mllm/engine/BuddyMemPool.hpp
index 3b15f98..e36e7e3 100644
--- a/mllm/engine/BuddyMemPool.hpp
+++ b/mllm/engine/BuddyMemPool.hpp
@@ -91,7 +91,7 @@ class BuddyMemPool {
 
   BuddyMemBlock* allocObjCache(size_t omb_size);
 
-  void freeObjCache(BuddyMemBlock* omb);
+  void freeObjCache(BuddyMemBlock* omb, size_t omb_size);
 
   bool isInObjCache(size_t omb_size);
 
-- 
2.43.0


From d3dadbf7bc59c245a187bc95d526d311fb01a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:54 +0000
Subject: [PATCH 35/59] fix: refused memory was taken for memory

---
 mllm/backends/cpu/CPUAllocator.cpp | 2 +-
 mllm/engine/BuddyMemPool.cpp       | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/CPUAllocator.cpp b/mllm/backends/cpu/CPUAllocator.cpp
index 24d8b63..7907192 100644
--- a/mllm/backends/cpu/CPUAllocator.cpp
+++ b/mllm/backends/cpu/CPUAllocator.cpp
@@ -56,7 +56,7 @@ void CPUAllocator::free(Storage* storage) { align_free(storage->ptr_); }
 
 bool CPUAllocator::generalAlloc(void** ptr, size_t cap, size_t align) {
   align_alloc(ptr, cap, align);
-  return ptr != nullptr;
+  return *ptr != nullptr;
 }
 
 void CPUAllocator::generalFree(void* ptr) {
diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index 8e6187c..6d8fe6e 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -23,7 +23,9 @@ BuddyMemPool::BuddyMemPool(BuddyMemPoolOptions options, const Allocator::ptr_t&
     : options_(std::move(options)), allocator_(allocator) {
   // align to 4KB
   void* _p = nullptr;
-  allocator_->generalAlloc(&_p, options_.buddy_first_segment_cap, 4096);
+  if (!allocator_->generalAlloc(&_p, options_.buddy_first_segment_cap, 4096)) {
+    MLLM_ERROR_EXIT(ExitCode::kMemory, "Failed to alloc the first segment for buddy memory pool.");
+  }
 
   auto new_seg = new BuddyMemSegment{
       .ptr = (char*)_p,
-- 
2.43.0


From 1f071d8ad936e1fd183ecff2a3b90f1b61f0a239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:02 +0000
Subject: [PATCH 36/59] fix: Qwen3.5 gate/up shards of packed quantised
 checkpoints are loaded

---
 pymllm/models/qwen3_5.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pymllm/models/qwen3_5.py b/pymllm/models/qwen3_5.py
index 8d458c6..9349b03 100644
--- a/pymllm/models/qwen3_5.py
+++ b/pymllm/models/qwen3_5.py
@@ -419,16 +419,10 @@ class Qwen3_5ForCausalLM(nn.Module):
                 if stacked_name not in params_dict:
                     continue
                 param = params_dict[stacked_name]
-                # gate_up_proj is a plain Linear — manually place each shard.
-                # Guard: skip metadata tensors (e.g. weight_shape [2]) that
-                # cannot be evenly halved along dim-0.
-                output_dim = param.shape[0] // 2
-                if weight.shape[0] != output_dim:
-                    break  # not a shardable weight tensor; fall through to direct load
+                # gate_up_proj is a MergedLinear: its shard-aware loader knows the
+                # output dimension of every parameter (packed or metadata alike).
                 name = stacked_name  # commit rename
-                param.data[shard_id * output_dim : (shard_id + 1) * output_dim].copy_(
-                    weight
-                )
+                param.weight_loader(param, weight, shard_id)
                 matched = True
                 break
 
-- 
2.43.0


From 9d477824083dae45093899d14c99b869782ac74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:26 +0000
Subject: [PATCH 37/59] fix: Qwen3.5 loads its untied LM head from the
 checkpoint

---
 pymllm/models/qwen3_5.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymllm/models/qwen3_5.py b/pymllm/models/qwen3_5.py
index 9349b03..3f406c2 100644
--- a/pymllm/models/qwen3_5.py
+++ b/pymllm/models/qwen3_5.py
@@ -1059,6 +1059,12 @@ class Qwen3_5ForConditionalGeneration(nn.Module):
         # Language
         self.model.load_weights(language_weights)
 
+        # LM head (shares embed_tokens.weight when the embeddings are tied)
+        if self.lm_head.weight is not self.model.embed_tokens.weight:
+            for name, weight in language_weights:
+                if name.endswith("lm_head.weight"):
+                    self.lm_head.weight_loader(self.lm_head.weight, weight)
+
         # Vision
         if self.visual is not None and visual_weights:
             params_dict = dict(self.named_parameters())
-- 
2.43.0


From 4779532b5dd77e182cc683220af181f1e0dbb438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 38/59] fix: one descriptor too many overwrote the first tensor
 of a streamed v2 file

---
 pymllm/mobile/convertor/model_file_v2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 976c044..340e572 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -159,7 +159,9 @@ class ModelFileV2:
 
         tensor_size = len(tensor_data)
 
-        assert len(self.v2_param_descriptor) <= self.max_params_descriptor_buffer_num
+        # The descriptor table is followed by the data: one entry too many would
+        # overwrite the first tensor.
+        assert len(self.v2_param_descriptor) < self.max_params_descriptor_buffer_num
         desc = ModelFileV2ParamsDescriptor(
             param_id=len(self.v2_param_descriptor),
             param_type=true_dtype,
-- 
2.43.0


From 7a54ff629f339c5166d92560eb86811fcf2da86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 39/59] fix: v2 model files record their model name

---
 pymllm/mobile/convertor/model_file_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 340e572..09bdc2d 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -112,7 +112,7 @@ class ModelFileV2:
             )
         self.v2_param_descriptor: List[ModelFileV2ParamsDescriptor] = []
         self.v2_file_header = ModelFileV2Descriptor(
-            model_name="",
+            model_name=model_name,
             num_params=0
             if update_mode == "Static"
             else self.max_params_descriptor_buffer_num,
-- 
2.43.0


From d1e4217262792673e70a5822b0c73aa0a044c66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 40/59] fix: numpy tensors can be written to v2 files

---
 pymllm/mobile/convertor/model_file_v2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 09bdc2d..d922504 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -146,7 +146,7 @@ class ModelFileV2:
             # Numpy array
             shape = list(tensor_obj.shape)
             tensor_data = tensor_obj.tobytes()
-            true_dtype = MLLM_TYPE_MAPPING[tensor_obj.dtype]
+            true_dtype = MLLM_TYPE_MAPPING[tensor_obj.dtype.type]
         elif isinstance(tensor_obj, Tensor):
             # Mllm Tensor
             shape = list(tensor_obj.shape)
@@ -219,7 +219,7 @@ class ModelFileV2:
                 # Numpy array
                 shape = list(tensor.shape)
                 tensor_data = tensor.tobytes()
-                true_dtype = MLLM_TYPE_MAPPING[tensor.dtype]
+                true_dtype = MLLM_TYPE_MAPPING[tensor.dtype.type]
             elif isinstance(tensor, Tensor):
                 # Mllm Tensor
                 shape = list(tensor.shape)
-- 
2.43.0


From 522b5f1d73c1c2624c1818cb7caeb872cbd848a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 41/59] fix: v2 files refuse parameter names they cannot hold

---
 pymllm/mobile/convertor/model_file_v2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index d922504..258f27b 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -55,6 +55,9 @@ class ModelFileV2ParamsDescriptor:
         shape: List[int],
         name: str,
     ):
+        # A truncated name could not be looked up and may collide with another one.
+        if len(name.encode("utf-8")) > MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH:
+            raise ValueError(f"Parameter name is too long for a v2 file: {name}")
         self.param_id = param_id
         self.param_type = param_type
         self.param_size = param_size
-- 
2.43.0


From 9b616124973658450f4ac38029f3ba98fe57d498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 42/59] fix: parameters no pass takes count as written

---
 pymllm/mobile/quantize/solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymllm/mobile/quantize/solver.py b/pymllm/mobile/quantize/solver.py
index c9669e4..194906d 100644
--- a/pymllm/mobile/quantize/solver.py
+++ b/pymllm/mobile/quantize/solver.py
@@ -63,6 +63,12 @@ class QuantizeSolver:
         for group_regex in param_groups.keys():
             sub_group = param_groups[group_regex]
             for payload_name, payload in sub_group[1].items():
+                # Params that no pass takes are written as they are.
+                if not any(
+                    pass_.match(param_groups[group_regex][0], payload.inputs_dict)
+                    for pass_ in self.passes
+                ):
+                    continue
                 if param_groups[group_regex][0]["replace"]:
                     for k in payload.inputs_dict.keys():
                         aux.remove(k)
-- 
2.43.0


From ceb52c624c056e1e2ff9c426d41734b5fdddd79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:50 +0000
Subject: [PATCH 43/59] fix: a top_k of -1 or beyond the vocabulary means no
 limit when sampling

---
 pymllm/executor/model_runner.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pymllm/executor/model_runner.py b/pymllm/executor/model_runner.py
index 7e1cf6d..4457d03 100644
--- a/pymllm/executor/model_runner.py
+++ b/pymllm/executor/model_runner.py
@@ -1523,7 +1523,13 @@ class ModelRunner:
         has_top_p = top_ps is not None
 
         if has_top_k or has_top_p:
-            k = top_ks if has_top_k else logits.shape[-1]
+            vocab_size = logits.shape[-1]
+            k = vocab_size
+            if has_top_k:
+                # Values outside 1..vocab_size (the default is -1) mean "no limit".
+                k = torch.where(
+                    (top_ks <= 0) | (top_ks > vocab_size), vocab_size, top_ks
+                )
             p = top_ps if has_top_p else 1.0
             next_token_ids = top_k_top_p_sampling_from_probs(probs, k, p)
         else:
-- 
2.43.0


From 1d9c2dd4905267c45b787e318bf2ccba63f64aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:50 +0000
Subject: [PATCH 44/59] fix: temperature-0 requests take the argmax in mixed
 batches

---
 pymllm/executor/model_runner.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pymllm/executor/model_runner.py b/pymllm/executor/model_runner.py
index 4457d03..7dc01dd 100644
--- a/pymllm/executor/model_runner.py
+++ b/pymllm/executor/model_runner.py
@@ -1535,6 +1535,15 @@ class ModelRunner:
         else:
             next_token_ids = sampling_from_probs(probs)
 
+        # Requests with temperature=0 that share the batch with sampling ones
+        # still take the argmax.
+        if temperatures is not None:
+            next_token_ids = torch.where(
+                temperatures < 1e-6,
+                logits.argmax(dim=-1).to(next_token_ids.dtype),
+                next_token_ids,
+            )
+
         return next_token_ids
 
     # ------------------------------------------------------------------
-- 
2.43.0


From 14591322a844dce3f8ed3dae96c615e5fb5127e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:02 +0000
Subject: [PATCH 45/59] fix: channel-wise (group_size -1) compressed-tensors
 layers can be created

---
 pymllm/quantization/methods/compressed_tensors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymllm/quantization/methods/compressed_tensors.py b/pymllm/quantization/methods/compressed_tensors.py
index db81603..5cc705e 100644
--- a/pymllm/quantization/methods/compressed_tensors.py
+++ b/pymllm/quantization/methods/compressed_tensors.py
@@ -297,7 +297,10 @@ class CompressedTensorsWNA16Scheme:
         weight_scale = Parameter(
             torch.empty(
                 output_size_per_partition,
-                input_size_per_partition // self.group_size,
+                # -1 means one group (channel-wise scales)
+                1
+                if self.group_size == -1
+                else input_size_per_partition // self.group_size,
                 dtype=params_dtype,
             ),
             requires_grad=False,
-- 
2.43.0


From 99dfb3c6f61227fad839775360c82c2a37a305f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:02 +0000
Subject: [PATCH 46/59] fix: a compressed-tensors ignore entry no longer covers
 layers whose name it merely begins

---
 pymllm/quantization/methods/compressed_tensors.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pymllm/quantization/methods/compressed_tensors.py b/pymllm/quantization/methods/compressed_tensors.py
index 5cc705e..b1a4443 100644
--- a/pymllm/quantization/methods/compressed_tensors.py
+++ b/pymllm/quantization/methods/compressed_tensors.py
@@ -621,13 +621,10 @@ class CompressedTensorsConfig(QuantizationConfig):
         self, layer: torch.nn.Module, prefix: str = ""
     ) -> Optional[CompressedTensorsLinearMethod]:
         signature = _validate_supported_signature(self)
-        # Support two matching styles for items in self.ignore:
-        #   1. Exact prefix match: prefix.startswith(ignored)
-        #      e.g. ignore=["lm_head"] matches prefix="lm_head"
-        #   2. Path-component containment: ".ignored." in ".prefix."
-        #      e.g. ignore=["linear_attn"] matches prefix="layers.0.linear_attn.out_proj"
-        # Style 2 is needed because nested module names (e.g. inside decoder layers)
-        # never start with the bare module name.
+        # Items in self.ignore match whole path components: ".ignored." in ".prefix."
+        #   e.g. ignore=["lm_head"] matches prefix="lm_head" and
+        #   ignore=["linear_attn"] matches prefix="layers.0.linear_attn.out_proj", but
+        #   ignore=["layers.1"] does not match prefix="layers.10.mlp".
         dotted = f".{prefix}."
         def _is_ignored(ignored: str) -> bool:
             if not ignored:
@@ -638,7 +635,7 @@ class CompressedTensorsConfig(QuantizationConfig):
                     return bool(re.search(ignored[3:], prefix))
                 except re.error:
                     return False
-            return prefix.startswith(ignored) or f".{ignored}." in dotted
+            return f".{ignored}." in dotted
         if any(_is_ignored(ig) for ig in self.ignore):
             return None
         return CompressedTensorsLinearMethod(self, signature)
-- 
2.43.0


From 4a274be879696dcc29fff01c5125ac1638563c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:02 +0000
Subject: [PATCH 47/59] fix: liveness probes stay exempt from the API key under
 a root path

---
 pymllm/server/launch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 5787beb..e15fdff 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -302,7 +302,9 @@ async def _auth_middleware(request: Request, call_next):
     if api_key is None:
         # No key configured — open access.
         return await call_next(request)
-    if request.url.path in _AUTH_EXEMPT_PATHS:
+    # Behind a proxy prefix the server prepends ``root_path`` to the path.
+    path = request.scope["path"].removeprefix(request.scope.get("root_path", ""))
+    if path in _AUTH_EXEMPT_PATHS:
         return await call_next(request)
     auth = request.headers.get("Authorization", "")
     if auth == f"Bearer {api_key}":
-- 
2.43.0


From 5b856968cdd4671ab66f13f1ef5cd6dd7f263087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:02 +0000
Subject: [PATCH 48/59] fix: past tool calls and tool results reach the chat
 template

---
 pymllm/server/launch.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index e15fdff..073d9d2 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -531,6 +531,18 @@ def _is_qwen3vl_architecture() -> bool:
     )
 
 
+def _tool_call_for_template(call: Any) -> Any:
+    """A past tool call with its JSON-encoded arguments decoded for the template."""
+    fn = call.get("function") if isinstance(call, dict) else None
+    if not isinstance(fn, dict) or not isinstance(fn.get("arguments"), str):
+        return call
+    try:
+        arguments = orjson.loads(fn["arguments"])
+    except ValueError:
+        return call
+    return {**call, "function": {**fn, "arguments": arguments}}
+
+
 def _messages_to_prompt(
     messages: List[ChatMessage],
     chat_template_kwargs: Optional[Dict[str, Any]] = None,
@@ -585,6 +597,10 @@ def _messages_to_prompt(
         d: Dict[str, Any] = {"role": msg.role, "content": content}
         if msg.name is not None:
             d["name"] = msg.name
+        if msg.tool_calls:
+            d["tool_calls"] = [_tool_call_for_template(c) for c in msg.tool_calls]
+        if msg.tool_call_id is not None:
+            d["tool_call_id"] = msg.tool_call_id
         msg_dicts.append(d)
 
     tokenizer = _tokenizer
-- 
2.43.0


From f0d28a81f5e5042795a8418040862e0ca308a4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:02 +0000
Subject: [PATCH 49/59] fix: the tools of a chat request reach the chat
 template

---
 pymllm/server/launch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 073d9d2..c1a5518 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -901,6 +901,8 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
     chat_kwargs = dict(obj.chat_template_kwargs) if obj.chat_template_kwargs else {}
     if cfg.server.reasoning_parser and "enable_thinking" not in chat_kwargs:
         chat_kwargs["enable_thinking"] = True
+    if obj.tools and obj.tool_choice != "none":
+        chat_kwargs["tools"] = [t.model_dump(exclude_none=True) for t in obj.tools]
     prompt = _messages_to_prompt(obj.messages, chat_template_kwargs=chat_kwargs or None)
     image_data = _extract_image_data(obj.messages)
 
-- 
2.43.0


From 8c3f11404143393093ac8b3a55964518298488d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:07 +0000
Subject: [PATCH 50/59] fix: the CUDA IPC pool can be created

---
 pymllm/orchestrator/cuda_ipc_transport.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index 938132c..6142651 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -205,11 +205,12 @@ class MmItemMemoryPool:
                 memory_size, dtype=torch.int8, device=f"cuda:{device}"
             ).contiguous()
 
+        # Pool of reusable ShmSyncBuffer objects (returned from recycled chunks)
+        self._sync_pool: List[ShmSyncBuffer] = []
+
         init_chunk = MmItemMemoryChunk((0, memory_size), self._new_sync_buffer())
         self.available_chunks: List[MmItemMemoryChunk] = [init_chunk]
         self.occupied_chunks: List[MmItemMemoryChunk] = []
-        # Pool of reusable ShmSyncBuffer objects (returned from recycled chunks)
-        self._sync_pool: List[ShmSyncBuffer] = []
 
         self._recycler = threading.Thread(
             target=self._recycle_loop,
-- 
2.43.0


From d7ce273dc0446b18e74d3ebce49f5083f290b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:55 +0000
Subject: [PATCH 51/59] fix: zero-size chunks no longer keep the free chunks of
 the IPC pool apart

---
 pymllm/orchestrator/cuda_ipc_transport.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index 6142651..dcc7749 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -308,6 +308,8 @@ class MmItemMemoryPool:
         for chunk in self.occupied_chunks:
             if chunk.try_to_recycle(self.num_consumers):
                 self._return_sync_buffer(chunk.sync_flag)
+                if chunk.mem_size == 0:
+                    continue  # nothing to give back; would block merging
                 chunk.sync_flag = self._new_sync_buffer()
                 self.available_chunks.append(chunk)
             else:
-- 
2.43.0


From 6b082416ac0663d29ec0eee720d99cd14bfd494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:45 +0000
Subject: [PATCH 52/59] fix: the receiver finishes its copy before releasing
 the IPC pool chunk

---
 pymllm/orchestrator/cuda_ipc_transport.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index dcc7749..b491b26 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -439,6 +439,9 @@ class CudaIpcTensorTransportProxy:
                 ).contiguous()
                 result.view(torch.int8).view(-1).copy_(slice_tensor)
 
+                # The copy must have completed before the chunk may be reused
+                torch.cuda.current_stream(source_device).synchronize()
+
             # Signal sender that the chunk can be recycled
             _increment_sync_flag(self.sync_data_meta)
         elif state["tensor_data"] is not None:
-- 
2.43.0


From 05a61dae59912d5034ca28420503aa3415603783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:42 +0000
Subject: [PATCH 53/59] fix: scalar and non-contiguous tensors cross the CUDA
 IPC pool

---
 pymllm/orchestrator/cuda_ipc_transport.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index b491b26..e1c15db 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -437,7 +437,7 @@ class CudaIpcTensorTransportProxy:
                 result = torch.empty(
                     h["target_shape"], dtype=h["target_dtype"], device=target_device
                 ).contiguous()
-                result.view(torch.int8).view(-1).copy_(slice_tensor)
+                result.view(-1).view(torch.int8).copy_(slice_tensor)
 
                 # The copy must have completed before the chunk may be reused
                 torch.cuda.current_stream(source_device).synchronize()
@@ -605,7 +605,7 @@ def _wrap_cuda_tensor(
         sync_meta, pool_slice = pool.get_slice_with_flag(tensor)
         if pool_slice is not None:
             # Copy tensor bytes into the pool slice
-            pool_slice.copy_(tensor.view(torch.int8).view(-1), non_blocking=True)
+            pool_slice.copy_(tensor.reshape(-1).view(torch.int8), non_blocking=True)
             return CudaIpcTensorTransportProxy(
                 data=pool_slice,
                 info_data=tensor,
-- 
2.43.0


From 50fa9177ef1ea03c8787c7aa528b9782f42e149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:43 +0000
Subject: [PATCH 54/59] fix: tensors keep shape, dtype and their chunk is
 released when no IPC handle can be made

---
 pymllm/orchestrator/cuda_ipc_transport.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index e1c15db..f595b46 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -403,7 +403,7 @@ class CudaIpcTensorTransportProxy:
                 "falling back to direct tensor.",
                 exc,
             )
-            return {"ipc_handle": None, "tensor_data": data}
+            return {"ipc_handle": None, "tensor_data": info_data}
 
     def reconstruct_on_device(self, device_index: Optional[int] = None) -> torch.Tensor:
         """Map IPC memory and copy into a new local tensor.
@@ -445,6 +445,8 @@ class CudaIpcTensorTransportProxy:
             # Signal sender that the chunk can be recycled
             _increment_sync_flag(self.sync_data_meta)
         elif state["tensor_data"] is not None:
+            # The pool chunk was not used; let the sender recycle it
+            _increment_sync_flag(self.sync_data_meta)
             result = state["tensor_data"]
             if device_index is not None:
                 result = result.to(f"cuda:{device_index}", non_blocking=True)
-- 
2.43.0


From 8148248c56e560956bcaac41244ec99037beabe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:48 +0000
Subject: [PATCH 55/59] fix: any request id can take the shared-memory path

---
 pymllm/orchestrator/shared_memory_queue.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/shared_memory_queue.py b/pymllm/orchestrator/shared_memory_queue.py
index 2f006bd..d707bde 100644
--- a/pymllm/orchestrator/shared_memory_queue.py
+++ b/pymllm/orchestrator/shared_memory_queue.py
@@ -77,7 +77,7 @@ class SharedMemoryManager:
         """Write metadata to shared memory and return the segment name.
 
         Args:
-            rid: Request ID (used as part of the shared memory name)
+            rid: Request ID
             metadata: Serializable metadata object
 
         Returns:
@@ -85,7 +85,8 @@ class SharedMemoryManager:
         """
         data = pickle.dumps(metadata)
         size = len(data)
-        shm_name = f"pymllm_meta_{rid}_{uuid.uuid4().hex[:8]}"
+        # The rid is the client's choice and need not be a valid segment name.
+        shm_name = f"pymllm_meta_{uuid.uuid4().hex}"
         try:
             shm = SharedMemory(name=shm_name, create=True, size=size)
             shm.buf[:size] = data
-- 
2.43.0


From 584cdf42b558448668d64da17f5535332630e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:33 +0000
Subject: [PATCH 56/59] fix: negative entries of an index list count from the
 end

---
 mllm/core/aops/IndexOp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mllm/core/aops/IndexOp.cpp b/mllm/core/aops/IndexOp.cpp
index 2c1b557..d41bef1 100644
--- a/mllm/core/aops/IndexOp.cpp
+++ b/mllm/core/aops/IndexOp.cpp
@@ -83,6 +83,7 @@ void IndexOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
         // Slice indexing
         auto slice = index.slice_indices_.value();
         int start = slice.start_ == kAll ? 0 : slice.start_;
+        if (start < 0) start += shape[j];
         int step = slice.step_;
         in_indices[j] = start + out_indices[out_dim] * step;
         out_dim++;
@@ -100,6 +101,7 @@ void IndexOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
           break;
         }
         in_indices[j] = vec[out_indices[out_dim]];
+        if (in_indices[j] < 0) in_indices[j] += shape[j];
         out_dim++;
 
         // Check bounds
@@ -138,6 +140,7 @@ void IndexOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
 
         // Get the index value from the tensor using at<int32_t>
         in_indices[j] = index_tensor.constAt<int32_t>(tensor_indices);
+        if (in_indices[j] < 0) in_indices[j] += shape[j];
 
         // Check bounds
         if (in_indices[j] < 0 || in_indices[j] >= static_cast<int>(shape[j])) {
-- 
2.43.0


From 9089b71e936812ee285e9d995c4b558d991fa4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:47 +0000
Subject: [PATCH 57/59] fix: masked scatter takes the source elements in order

---
 mllm/backends/cpu/ops/MaskedScatterOp.cpp | 43 ++++++-----------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/mllm/backends/cpu/ops/MaskedScatterOp.cpp b/mllm/backends/cpu/ops/MaskedScatterOp.cpp
index e41c568..7435a87 100644
--- a/mllm/backends/cpu/ops/MaskedScatterOp.cpp
+++ b/mllm/backends/cpu/ops/MaskedScatterOp.cpp
@@ -82,21 +82,20 @@ void CPUMaskedScatterOp::forward(const std::vector<Tensor>& inputs, std::vector<
   // Get shapes
   auto dst_shape = dst.shape();
   auto mask_shape = mask.shape();
-  auto src_shape = src.shape();
 
-  // Calculate broadcast shape for all tensors
+  // The mask is broadcast to dst
   auto broadcast_shape = calculateBroadcastShape(dst_shape, mask_shape);
-  broadcast_shape = calculateBroadcastShape(broadcast_shape, src_shape);
 
   // Calculate strides for broadcasting
   auto dst_strides = calculateStrides(dst_shape);
   auto mask_strides = calculateStrides(mask_shape);
-  auto src_strides = calculateStrides(src_shape);
-  auto broadcast_strides = calculateStrides(broadcast_shape);
 
   // Calculate total elements
   int32_t total_elements = std::accumulate(broadcast_shape.begin(), broadcast_shape.end(), 1, std::multiplies<>());
 
+  // Next source element to take
+  size_t src_linear_index = 0;
+
   // Check data types
   MLLM_RT_ASSERT(dst.dtype() == src.dtype());
 
@@ -138,20 +137,9 @@ void CPUMaskedScatterOp::forward(const std::vector<Tensor>& inputs, std::vector<
           dst_linear_index = getLinearIndex(dst_indices, dst_strides);
         }
 
-        // Calculate index for src with broadcasting
-        int32_t src_linear_index = 0;
-        if (src_shape.size() == 1 && src_shape[0] == 1) {
-          // Scalar src
-          src_linear_index = 0;
-        } else {
-          // Multi-dimensional src
-          std::vector<int32_t> src_indices(src_shape.size());
-          int offset = broadcast_shape.size() - src_shape.size();
-          for (size_t j = 0; j < src_shape.size(); ++j) { src_indices[j] = indices[j + offset] % src_shape[j]; }
-          src_linear_index = getLinearIndex(src_indices, src_strides);
-        }
-
-        dst_ptr[dst_linear_index] = src_ptr[src_linear_index];
+        // Source elements are consumed in order, one for each masked element
+        MLLM_RT_ASSERT(src_linear_index < src.numel());
+        dst_ptr[dst_linear_index] = src_ptr[src_linear_index++];
       }
     }
   } else if (dst.dtype() == MLLM_TYPE_F16) {
@@ -191,20 +179,9 @@ void CPUMaskedScatterOp::forward(const std::vector<Tensor>& inputs, std::vector<
           dst_linear_index = getLinearIndex(dst_indices, dst_strides);
         }
 
-        // Calculate index for src with broadcasting
-        int32_t src_linear_index = 0;
-        if (src_shape.size() == 1 && src_shape[0] == 1) {
-          // Scalar src
-          src_linear_index = 0;
-        } else {
-          // Multi-dimensional src
-          std::vector<int32_t> src_indices(src_shape.size());
-          int offset = broadcast_shape.size() - src_shape.size();
-          for (size_t j = 0; j < src_shape.size(); ++j) { src_indices[j] = indices[j + offset] % src_shape[j]; }
-          src_linear_index = getLinearIndex(src_indices, src_strides);
-        }
-
-        dst_ptr[dst_linear_index] = src_ptr[src_linear_index];
+        // Source elements are consumed in order, one for each masked element
+        MLLM_RT_ASSERT(src_linear_index < src.numel());
+        dst_ptr[dst_linear_index] = src_ptr[src_linear_index++];
       }
     }
   } else {
-- 
2.43.0


From 58e673a472fc71b540b8af0db82df9d6b242d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:52 +0000
Subject: [PATCH 58/59] fix: the causal mask follows the key length in fp16 and
 with a sliding window

---
 mllm/backends/cpu/ops/CausalMaskOp.cpp | 47 +++++++++++++-------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/mllm/backends/cpu/ops/CausalMaskOp.cpp b/mllm/backends/cpu/ops/CausalMaskOp.cpp
index 56fc0b7..8ffeb30 100644
--- a/mllm/backends/cpu/ops/CausalMaskOp.cpp
+++ b/mllm/backends/cpu/ops/CausalMaskOp.cpp
@@ -26,13 +26,12 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
   auto B = shape[0];
   auto H = shape[1];
   auto S = shape[2];
-  // For self-attention, the last two dimensions are sequence length (S) x sequence length (S).
-  // We assume D == S.
+  // The last two dimensions are query length (S) x key length (D). The queries are the last S of the D positions.
   auto D = shape[3];
 
   switch (ins.dtype()) {
     case kFloat32: {
-      if (S == 1) {  // When sequence length is 1, no masking is needed.
+      if (S == 1 && !options_.sliding_window) {  // When sequence length is 1, no masking is needed.
         for (int b = 0; b < B; ++b) {
           for (int h = 0; h < H; ++h) {
             auto* i_ptr = ins.offsettedPtr<float>({b, h, 0, 0});
@@ -98,17 +97,18 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             // Sliding window causal mask
             const int window_size = options_.window_size;
             for (int s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const int copy_start_idx = std::max(0, s - window_size + 1);
+              const size_t row_offset = s * D;
+              const int last_idx = D - S + s;
+              const int copy_start_idx = std::max(0, last_idx - window_size + 1);
 
               // 1. Mask prefix
               const size_t prefix_fill_count = copy_start_idx;
               // 2. Copy content
-              const size_t copy_count = s - copy_start_idx + 1;
+              const size_t copy_count = last_idx - copy_start_idx + 1;
               memcpy(o_ptr + row_offset + copy_start_idx, i_ptr + row_offset + copy_start_idx, copy_count * sizeof(float));
               // 3. Mask suffix
-              const size_t suffix_fill_start_idx = s + 1;
-              const size_t suffix_fill_count = S - suffix_fill_start_idx;
+              const size_t suffix_fill_start_idx = last_idx + 1;
+              const size_t suffix_fill_count = D - suffix_fill_start_idx;
 
 #if (defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)) && defined(__AVX2__)
               const __m256 mask_val = _mm256_set1_ps(-1e10f);
@@ -143,7 +143,7 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
       break;
     }
     case kFloat16: {
-      if (S == 1) {  // When sequence length is 1, no masking is needed.
+      if (S == 1 && !options_.sliding_window) {  // When sequence length is 1, no masking is needed.
         for (int b = 0; b < B; ++b) {
           for (int h = 0; h < H; ++h) {
             auto* i_ptr = ins.offsettedPtr<mllm_fp16_t>({b, h, 0, 0});
@@ -164,9 +164,9 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             const __m256 mask_ps = _mm256_set1_ps(-65500.f);
             const __m128i mask_val = _mm256_cvtps_ph(mask_ps, _MM_FROUND_TO_NEAREST_INT);
             for (size_t s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const size_t copy_count = s + 1;
-              const size_t fill_count = S - copy_count;
+              const size_t row_offset = s * D;
+              const size_t copy_count = D - S + s + 1;
+              const size_t fill_count = D - copy_count;
 
               if (copy_count > 0) { memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(mllm_fp16_t)); }
 
@@ -182,9 +182,9 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
             const float16x8_t mask_val = vdupq_n_f16(-65500.f);
             for (size_t s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const size_t copy_count = s + 1;
-              const size_t fill_count = S - copy_count;
+              const size_t row_offset = s * D;
+              const size_t copy_count = D - S + s + 1;
+              const size_t fill_count = D - copy_count;
 
               if (copy_count > 0) { memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(mllm_fp16_t)); }
 
@@ -197,9 +197,9 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             }
 #else
             for (size_t s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const size_t copy_count = s + 1;
-              const size_t fill_count = S - copy_count;
+              const size_t row_offset = s * D;
+              const size_t copy_count = D - S + s + 1;
+              const size_t fill_count = D - copy_count;
 
               if (copy_count > 0) { memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(mllm_fp16_t)); }
 
@@ -211,18 +211,19 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             // Sliding window causal mask
             const int window_size = options_.window_size;
             for (int s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const int copy_start_idx = std::max(0, s - window_size + 1);
+              const size_t row_offset = s * D;
+              const int last_idx = D - S + s;
+              const int copy_start_idx = std::max(0, last_idx - window_size + 1);
 
               // 1. Mask prefix
               const size_t prefix_fill_count = copy_start_idx;
               // 2. Copy content
-              const size_t copy_count = s - copy_start_idx + 1;
+              const size_t copy_count = last_idx - copy_start_idx + 1;
               memcpy(o_ptr + row_offset + copy_start_idx, i_ptr + row_offset + copy_start_idx,
                      copy_count * sizeof(mllm_fp16_t));
               // 3. Mask suffix
-              const size_t suffix_fill_start_idx = s + 1;
-              const size_t suffix_fill_count = S - suffix_fill_start_idx;
+              const size_t suffix_fill_start_idx = last_idx + 1;
+              const size_t suffix_fill_count = D - suffix_fill_start_idx;
 
 #if (defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)) && defined(__AVX2__) && defined(__F16C__)
               const __m256 mask_ps = _mm256_set1_ps(-65500.f);
-- 
2.43.0


From b6365e17fb20ffc275d8fc5003718f025cffdad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:03 +0000
Subject: [PATCH 59/59] fix: indexing a view of a part of a storage copies
 whole elements

---
 mllm/core/aops/IndexOp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mllm/core/aops/IndexOp.cpp b/mllm/core/aops/IndexOp.cpp
index d41bef1..05da12a 100644
--- a/mllm/core/aops/IndexOp.cpp
+++ b/mllm/core/aops/IndexOp.cpp
@@ -39,7 +39,8 @@ void IndexOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
   MLLM_RT_ASSERT(output.isContiguous());
 
   auto output_shape = output.shape();
-  size_t element_size = input.bytes() / input.numel();
+  // bytes() is the size of the whole storage, of which input may be a part
+  size_t element_size = bytesOfType(input.dtype());
 
   // Create index vectors for iteration
   std::vector<int> out_indices(output_shape.size(), 0);
-- 
2.43.0

