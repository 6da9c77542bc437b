From bd1aabb7fecddd3f8d7700aa1f8d8dc065e7e67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:28 +0000
Subject: [PATCH 01/36] fix: multi-GPU executor dropped results still queued
 when the workers finished

---
 mergekit/multigpu_executor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mergekit/multigpu_executor.py b/mergekit/multigpu_executor.py
index 64e2bfa..a915277 100644
--- a/mergekit/multigpu_executor.py
+++ b/mergekit/multigpu_executor.py
@@ -151,14 +151,17 @@ class MultiGPUExecutor:
             results_snapshot = dict(self.results)
 
             def update_progress():
-                while not self.done_event.is_set():
+                while True:
+                    # check before polling: once done, keep going until drained
+                    done = self.done_event.is_set()
                     try:
                         task_idx, result = self.task_completion_queue.get(timeout=0.1)
                         task_handle = TaskHandle(self.universe, task_idx)
                         self.results[task_handle] = result
                         pbar.update()
                     except queue.Empty:
-                        continue
+                        if done:
+                            break
 
             progress_thread = threading.Thread(target=update_progress)
             progress_thread.start()
-- 
2.43.0


From a32afb40ce4ad9527e7720082693c300a01eae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:27 +0000
Subject: [PATCH 02/36] fix: multi-GPU executor left its progress thread
 running after an interrupt or failed submit

---
 mergekit/multigpu_executor.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/mergekit/multigpu_executor.py b/mergekit/multigpu_executor.py
index a915277..4980f40 100644
--- a/mergekit/multigpu_executor.py
+++ b/mergekit/multigpu_executor.py
@@ -11,6 +11,7 @@ Handles distribution of parallelizable tasks across multiple GPUs while respecti
 """
 
 import concurrent.futures
+import contextlib
 import logging
 import queue
 import threading
@@ -163,11 +164,20 @@ class MultiGPUExecutor:
                         if done:
                             break
 
-            progress_thread = threading.Thread(target=update_progress)
-            progress_thread.start()
+            @contextlib.contextmanager
+            def progress_updates():
+                progress_thread = threading.Thread(target=update_progress, daemon=True)
+                try:
+                    progress_thread.start()
+                    yield
+                finally:
+                    # stop the thread however the parallel stage ended
+                    self.done_event.set()
+                    if progress_thread.is_alive():
+                        progress_thread.join()
 
             # Run parallel tasks
-            with concurrent.futures.ThreadPoolExecutor() as executor:
+            with progress_updates(), concurrent.futures.ThreadPoolExecutor() as executor:
                 futures = []
                 for device, island_task_handles in self.gpu_assignments.items():
                     futures.append(
@@ -186,9 +196,6 @@ class MultiGPUExecutor:
                         executor.shutdown(wait=False)
                         raise ex
 
-            self.done_event.set()
-            progress_thread.join()
-
             # Run main thread tasks
             if self.trailing_main_handles:
                 exec = Executor(
-- 
2.43.0


From 21218525ba987daddd039225f88468351af73f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:10 +0000
Subject: [PATCH 03/36] fix: order of referenced models depended on string hash
 randomisation (README, union tokenizer)

---
 mergekit/config.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mergekit/config.py b/mergekit/config.py
index 3114015..ad5ec65 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -99,25 +99,25 @@ class MergeConfiguration(BaseModel):
     parameters: Optional[Dict[str, ParameterSetting]] = None
 
     def referenced_models(self) -> List[ModelReference]:
-        models = set()
+        models = {}  # used as an ordered set
         if self.base_model:
-            models.add(self.base_model)
+            models[self.base_model] = None
         if self.models:
             for model_in in self.models:
-                models.add(model_in.model)
+                models[model_in.model] = None
         if self.slices:
             for s in self.slices:
                 for src in s.sources:
-                    models.add(src.model)
+                    models[src.model] = None
         if self.modules:
             for m in self.modules.values():
                 if m.models:
                     for model_in in m.models:
-                        models.add(model_in.model)
+                        models[model_in.model] = None
                 if m.slices:
                     for s in m.slices:
                         for src in s.sources:
-                            models.add(src.model)
+                            models[src.model] = None
         return list(models)
 
     @model_validator(mode="after")
-- 
2.43.0


From 60ab34b35b5d9792836e7268f6f8061ab5d26fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:10 +0000
Subject: [PATCH 04/36] fix: order of tensors passed to decorated merge methods
 depended on string hash randomisation

---
 mergekit/merge_methods/easy_define.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mergekit/merge_methods/easy_define.py b/mergekit/merge_methods/easy_define.py
index a0bdcb8..32f6f18 100644
--- a/mergekit/merge_methods/easy_define.py
+++ b/mergekit/merge_methods/easy_define.py
@@ -140,14 +140,12 @@ def __merge_method(
     tt_fields["uses_accelerator"] = _uses_accelerator
 
     def _execute(self, tensors: Dict[ModelReference, torch.Tensor], **_kwargs):
-        model_refs = set(tensors.keys())
+        model_refs = list(tensors.keys())
         base_model = getattr(self, "base_model", None)
         if base_model and base_model in model_refs:
             model_refs.remove(base_model)
             if not use_base_tensor_arg:
-                model_refs = [base_model] + list(model_refs)
-            else:
-                model_refs = list(model_refs)
+                model_refs = [base_model] + model_refs
         base_tensor = tensors.get(base_model, None)
         tensors = [tensors[key] for key in model_refs]
         inner_kwargs = {}
-- 
2.43.0


From 9f570b187719c526871834c50798f3ed12e0c521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:10 +0000
Subject: [PATCH 05/36] fix: averaging order of embedding rows depended on
 string hash randomisation

---
 mergekit/tokenizer/embed.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 74dc93b..882f746 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -33,10 +33,9 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         tokenizer = tokenizer_info.tokenizer
         permutations = tokenizer_info.permutations
 
-        models = set(tensors.keys())
-        if self.base_model:
-            models.add(self.base_model)
-        models = list(models)
+        models = list(tensors.keys())
+        if self.base_model and self.base_model not in models:
+            models.append(self.base_model)
 
         vocab = tokenizer.get_vocab()
         vocab_size = len(vocab)
-- 
2.43.0


From b54d7a28bc6781c8c661bf4afdaca4afda850219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:10 +0000
Subject: [PATCH 06/36] fix: tensor and module order depended on string hash
 randomisation in auto-detected architectures, raw merges, LoRA extraction and
 prefix detection

---
 mergekit/architecture/auto.py           | 8 ++++----
 mergekit/scripts/extract_lora.py        | 2 +-
 mergekit/scripts/fill_missing_params.py | 4 ++--
 mergekit/scripts/merge_raw_pytorch.py   | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 019e20a..ea55dce 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -216,7 +216,7 @@ def infer_architecture_info(
     for tensor_name in all_tensor_names:
         if RE_LAYER_INDEX.search(tensor_name):
             continue
-        for prefix in module_prefixes:
+        for prefix in sorted(module_prefixes):
             if tensor_name.startswith(prefix):
                 module_loose_weights[prefix].add(tensor_name[len(prefix) :])
                 break
@@ -260,17 +260,17 @@ def infer_architecture_info(
         )
 
     module_archs = {}
-    for prefix in module_prefixes:
+    for prefix in sorted(module_prefixes):
         num_layers = module_layer_counts[prefix]
         module_archs[prefix or "default"] = JsonModuleArchitecture(
             definition=JsonModuleArchDef(
                 model_type="",
                 architectures=[],
-                pre_weights=[_wi(t, "") for t in module_loose_weights[prefix]],
+                pre_weights=[_wi(t, "") for t in sorted(module_loose_weights[prefix])],
                 layer_templates=JsonLayerTemplates(
                     weights=[
                         _wi(t, "", num_layers=num_layers)
-                        for t in module_templates[prefix]
+                        for t in sorted(module_templates[prefix])
                     ]
                 ),
                 post_weights=[],
diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 0b32233..f8bd906 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -169,7 +169,7 @@ def main(
         base_ref=base_model_ref,
         max_rank=real_max_rank,
         modules_to_save=modules_to_save,
-        target_modules=list(
+        target_modules=sorted(
             set(key.split(".")[-1] for key in module_real_ranks.keys())
         ),
         module_ranks=module_real_ranks,
diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index b0bb7b0..55eb53e 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -232,7 +232,7 @@ class ParameterNamesUtils:
         assert len(list1) >= len(list2), "params name list1 can't be shorter than list2"
 
         possible_prefixes = {item.split(".")[0] for item in list1 if "." in item}
-        possible_prefixes = [""] + list(possible_prefixes)
+        possible_prefixes = [""] + sorted(possible_prefixes)
 
         prefix_matches = {}
         best_prefix = ""  # Default to no prefix
@@ -349,7 +349,7 @@ class ParameterNamesUtils:
         best_prefix = None
         case_message = "No common parameter names found for any prefix"
 
-        for prefix in possible_prefixes:
+        for prefix in sorted(possible_prefixes):
             base_names_stripped = [
                 ParameterNamesUtils.strip_prefix(name, prefix) for name in base_names
             ]
diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 70d3578..b81179b 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -97,7 +97,7 @@ def plan_flat_merge(
     )
 
     save_tasks = []
-    for tensor_name in tqdm.tqdm(list(all_tensor_names), desc="Planning operations"):
+    for tensor_name in tqdm.tqdm(sorted(all_tensor_names), desc="Planning operations"):
         inputs = {
             model_def.model: SimpleLoadTensor(
                 model=model_def.model, tensor_name=tensor_name, dtype=config.dtype
-- 
2.43.0


From 3557d99833d51f3c05cfe600d856161a05250bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:38 +0000
Subject: [PATCH 07/36] fix: lazy unpickling could not read .bin shards renamed
 after saving (as all sharded .bin output is)

---
 mergekit/io/lazy_unpickle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index be26d86..e24f99c 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -126,7 +126,8 @@ class TorchArchiveReader:
 
     def __init__(self, path: str):
         self.archive = zipfile.ZipFile(path, mode="r")
-        self.archive_name = os.path.basename(os.path.normpath(path)).split(".")[0]
+        # torch names the archive root after the file it was first saved to
+        self.archive_name = self.archive.namelist()[0].split("/", 1)[0]
 
     def open_file(self, file_name: str, offset: int = 0) -> zipfile.ZipExtFile:
         if self.file_name != file_name or (
-- 
2.43.0


From 4f4d6aaeaf855bbc74a72216966216afdd841dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:54 +0000
Subject: [PATCH 08/36] fix: lazy unpickling returned garbage for strided views
 and failed on scalars and bool tensors

---
 mergekit/io/lazy_unpickle.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index e24f99c..922a612 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -4,11 +4,9 @@
 import codecs
 import collections
 import contextlib
-import operator
 import os
 import pickle
 import zipfile
-from functools import reduce
 from typing import Any, Optional, Tuple, Union
 
 import accelerate
@@ -71,13 +69,22 @@ class DeferredLoad(BaseModel, arbitrary_types_allowed=True):
         reader: "TorchArchiveReader",
         map_location: Any = None,
     ) -> torch.Tensor:
-        total_params = reduce(operator.mul, self.shape)
+        # number of stored elements spanned by the (possibly strided) view
+        total_params = 1 + sum((n - 1) * s for n, s in zip(self.shape, self.stride))
+        if 0 in self.shape:
+            total_params = 0
         total_bytes = total_params * dtype_bytes(self.dtype)
 
         f = reader.open_file(file_name=self.name, offset=self.file_offset)
-        storage = torch.UntypedStorage.from_buffer(
-            f.read(total_bytes), "little", dtype=self.dtype
-        )
+        data = f.read(total_bytes)
+        if len(data) != total_bytes:
+            raise RuntimeError(f"Storage {self.name} is too small for its tensor")
+        if data:
+            storage = torch.UntypedStorage.from_buffer(
+                data, "little", dtype=self.dtype
+            )
+        else:
+            storage = torch.UntypedStorage(0)
         storage = torch.serialization._get_restore_location(map_location)(
             storage, self.location
         )
@@ -181,11 +188,7 @@ def torch_lazy_load():
 
 def dtype_bytes(dtype: torch.dtype) -> int:
     """Return the number of bytes used to store a single instance of `dtype`."""
-    if dtype.is_floating_point:
-        ti = torch.finfo(dtype)
-    else:
-        ti = torch.iinfo(dtype)
-    return max(1, ti.bits // 8)
+    return dtype.itemsize
 
 
 def get_dtype(storage_type: Any):
-- 
2.43.0


From fc7f57611b897ec655210585500a178bfd056752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:14 +0000
Subject: [PATCH 09/36] fix: concurrent lazy unpickling corrupted process-wide
 pickle and torch functions

---
 mergekit/io/lazy_tensor_loader.py | 4 +++-
 mergekit/io/lazy_unpickle.py      | 7 +++++++
 mergekit/io/loader.py             | 4 +++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/mergekit/io/lazy_tensor_loader.py b/mergekit/io/lazy_tensor_loader.py
index 9979341..4e29639 100644
--- a/mergekit/io/lazy_tensor_loader.py
+++ b/mergekit/io/lazy_tensor_loader.py
@@ -14,6 +14,7 @@ import safetensors.torch
 import torch
 from torch import Tensor
 
+from mergekit.io.lazy_unpickle import TORCH_LOAD_LOCK
 from mergekit.io.loader import TensorLoader
 
 
@@ -89,7 +90,8 @@ class ShardedTensorIndex:
             with safetensors.safe_open(file_path, framework="pt") as st:
                 tensor_paths = {key: shard_name for key in st.keys()}
         else:
-            shard = torch.load(file_path, map_location="meta")
+            with TORCH_LOAD_LOCK:
+                shard = torch.load(file_path, map_location="meta")
             if "state_dict" in shard:
                 shard = shard["state_dict"]
 
diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index 922a612..94c91e6 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -6,6 +6,7 @@ import collections
 import contextlib
 import os
 import pickle
+import threading
 import zipfile
 from typing import Any, Optional, Tuple, Union
 
@@ -159,12 +160,17 @@ class TorchArchiveReader:
         return self.file
 
 
+# held while `torch.load` runs, as torch_lazy_load() replaces process-wide functions
+TORCH_LOAD_LOCK = threading.RLock()
+
+
 @contextlib.contextmanager
 def torch_lazy_load():
     """
     Context manager under which `torch.load` will return a `DeferredLoad` instead
     of `torch.Tensor.`
     """
+    TORCH_LOAD_LOCK.acquire()
     old_unpickler = pickle.Unpickler
     old_load = pickle.load
     old_rebuild_tensor = torch._utils._rebuild_tensor
@@ -184,6 +190,7 @@ def torch_lazy_load():
         torch._utils._rebuild_tensor = old_rebuild_tensor
         pickle.Unpickler = old_unpickler
         pickle.load = old_load
+        TORCH_LOAD_LOCK.release()
 
 
 def dtype_bytes(dtype: torch.dtype) -> int:
diff --git a/mergekit/io/loader.py b/mergekit/io/loader.py
index 3f8bff4..965d49f 100644
--- a/mergekit/io/loader.py
+++ b/mergekit/io/loader.py
@@ -8,6 +8,7 @@ import safetensors
 import torch
 
 from mergekit.io.lazy_unpickle import (
+    TORCH_LOAD_LOCK,
     DeferredLoad,
     LazyUnpickleModule,
     TorchArchiveReader,
@@ -70,7 +71,8 @@ class DumbPytorchLoader(TensorLoader):
     tensors: Dict[str, torch.Tensor]
 
     def __init__(self, path: str, device: Optional[str] = None):
-        self.tensors = torch.load(path, map_location=device, weights_only=True)
+        with TORCH_LOAD_LOCK:
+            self.tensors = torch.load(path, map_location=device, weights_only=True)
 
     def get_tensor(self, key: str) -> torch.Tensor:
         return self.tensors[key]
-- 
2.43.0


From 12fb3fdced411cc0b5178530c2bf0d2906552503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:29 +0000
Subject: [PATCH 10/36] fix: files of an earlier output in the same directory
 shadowed or mixed with the new model, index was not written atomically

---
 mergekit/io/tensor_writer.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/mergekit/io/tensor_writer.py b/mergekit/io/tensor_writer.py
index 06b6d46..86e7fcb 100644
--- a/mergekit/io/tensor_writer.py
+++ b/mergekit/io/tensor_writer.py
@@ -162,6 +162,11 @@ class TensorWriter:
                     )
                     name_remap[old_name] = new_name
 
+            # an index left by an earlier output must not refer to the new shards
+            single_path = os.path.join(self.out_path, f"{prefix}.{extension}")
+            if total_shards > 1 and os.path.exists(f"{single_path}.index.json"):
+                os.unlink(f"{single_path}.index.json")
+
             for old_name, new_name in name_remap.items():
                 old_path = os.path.join(self.out_path, old_name)
                 new_path = os.path.join(self.out_path, new_name)
@@ -176,7 +181,7 @@ class TensorWriter:
 
                 index_filename = f"{prefix}.{extension}.index.json"
                 index_path = os.path.join(self.out_path, index_filename)
-                with open(index_path, "w", encoding="utf-8") as f:
+                with open(f"{index_path}.tmp", "w", encoding="utf-8") as f:
                     content = {
                         "metadata": {
                             "total_size": self.total_size,
@@ -185,6 +190,20 @@ class TensorWriter:
                         "weight_map": self.weight_map,
                     }
                     json.dump(content, f, indent=2)
+                os.replace(f"{index_path}.tmp", index_path)
+
+            # remove what is left of an earlier output that would shadow this one
+            stale_paths = [
+                single_path if total_shards > 1 else f"{single_path}.index.json"
+            ]
+            if not self.safe_serialization:
+                st_path = os.path.join(
+                    self.out_path, f"{self.override_basename or 'model'}.safetensors"
+                )
+                stale_paths += [st_path, f"{st_path}.index.json"]
+            for stale_path in stale_paths:
+                if total_shards > 0 and os.path.exists(stale_path):
+                    os.unlink(stale_path)
 
     def _get_name_components(self):
         if self.override_basename:
-- 
2.43.0


From 43bf35adffcf8965ee0bd34c431f7daccc62bbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:08 +0000
Subject: [PATCH 11/36] fix: leaving a TensorWriter context through an
 exception published the partial model

---
 mergekit/io/tensor_writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mergekit/io/tensor_writer.py b/mergekit/io/tensor_writer.py
index 86e7fcb..e37dfb3 100644
--- a/mergekit/io/tensor_writer.py
+++ b/mergekit/io/tensor_writer.py
@@ -62,7 +62,11 @@ class TensorWriter:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.finalize()
+        if exc_type is None:
+            self.finalize()
+        elif self.use_async:
+            # incomplete - must not be turned into a loadable model
+            self._executor.shutdown(cancel_futures=True)
 
     def save_tensor(self, name: str, tensor: torch.Tensor, clone: bool = False):
         if not tensor.is_contiguous():
-- 
2.43.0


From 64b3e6556f09dae17e1fa89a67d5bafd3fc4ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:24 +0000
Subject: [PATCH 12/36] fix: interrupted adapter merge left a partial directory
 in the cache that later runs used as complete

---
 mergekit/common.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 1bc6339..7e1187d 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -5,6 +5,7 @@ import binascii
 import logging
 import os
 import os.path
+import tempfile
 from typing import (
     Any,
     Callable,
@@ -116,7 +117,7 @@ class ModelReference(BaseModel, frozen=True):
         )
 
         if not os.path.exists(out_path):
-            os.makedirs(out_path, exist_ok=True)
+            os.makedirs(cache_dir, exist_ok=True)
 
             config = self.config(trust_remote_code)
             auto_cls = get_auto_cls(config.architectures[0])
@@ -134,7 +135,11 @@ class ModelReference(BaseModel, frozen=True):
             )
             logging.info(f"Merging {self.lora} into {self.model}")
             model = model.merge_and_unload()
-            model.save_pretrained(out_path, safe_serialization=True)
+            # an interrupted merge must not be mistaken for a finished one
+            with tempfile.TemporaryDirectory(dir=cache_dir) as tmp_dir:
+                tmp_path = os.path.join(tmp_dir, "merged")
+                model.save_pretrained(tmp_path, safe_serialization=True)
+                os.rename(tmp_path, out_path)
             del model
 
         return ModelReference(model=ModelPath(path=out_path))
-- 
2.43.0


From 961c76bcffd1f3e52d0dd6f89dd1136db587f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 13/36] fix: multimerge resumed over stages whose run had been
 interrupted after the weights were written

---
 mergekit/merge.py              |  7 ++++---
 mergekit/scripts/multimerge.py | 29 +++++++++++++++++++++--------
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 5c3a7ea..b8651d7 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -93,9 +93,6 @@ def run_merge(
             cfg_out, arch_info, tokenizer, pad_to_multiple_of=pad_to_multiple_of
         )
 
-    LOG.info("Saving config")
-    cfg_out.save_pretrained(out_path)
-
     if options.write_model_card:
         if not config_source:
             config_source = merge_config.to_yaml()
@@ -138,6 +135,10 @@ def run_merge(
         options=options,
     )
 
+    # last, as its presence marks the output as complete (see multimerge)
+    LOG.info("Saving config")
+    cfg_out.save_pretrained(out_path)
+
     if getattr(arch_info, "post_fill_parameters", False):
         from mergekit.scripts.fill_missing_params import copy_and_fill_missing_params
 
diff --git a/mergekit/scripts/multimerge.py b/mergekit/scripts/multimerge.py
index 1735d4c..c9ef436 100644
--- a/mergekit/scripts/multimerge.py
+++ b/mergekit/scripts/multimerge.py
@@ -1,6 +1,7 @@
 # Copyright (C) 2026 Arcee AI
 # SPDX-License-Identifier: LGPL-3.0-only
 
+import json
 import logging
 import os
 from typing import Dict, Optional, Set, Tuple, Union
@@ -36,18 +37,30 @@ class MergeModelTask(Task[str]):
     def arguments(self):
         return {str(key): self.input_merges[key] for key in self.input_merges}
 
+    def _is_complete(self) -> bool:
+        # run_merge writes the config last, so a readable one means it finished
+        try:
+            with open(self._config_path(), "r", encoding="utf-8") as fp:
+                json.load(fp)
+        except (OSError, ValueError):
+            return False
+        return any(
+            os.path.exists(os.path.join(self.out_path, filename))
+            for filename in MODEL_CHECK_FILENAMES
+        )
+
+    def _config_path(self) -> str:
+        return os.path.join(self.out_path, "config.json")
+
     def execute(self, **kwargs):
-        if (
-            self.lazy
-            and os.path.exists(os.path.join(self.out_path, "config.json"))
-            and any(
-                os.path.exists(os.path.join(self.out_path, filename))
-                for filename in MODEL_CHECK_FILENAMES
-            )
-        ):
+        if self.lazy and self._is_complete():
             LOG.info(f"Model already exists at {self.out_path}, skipping")
             return self.out_path
 
+        if os.path.exists(self._config_path()):
+            # from here on the output is not complete until run_merge returns
+            os.unlink(self._config_path())
+
         LOG.info(f"Running merge for {self.name}")
         cfg = MergeConfiguration.model_validate(yaml.safe_load(self.config_yaml))
 
-- 
2.43.0


From fa8d617dec864a85b6adee502367aa1a99db6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:53 +0000
Subject: [PATCH 14/36] fix: seeded results of randomised merges depended on
 whether adapters were already merged in the cache

---
 mergekit/merge.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index b8651d7..dd34742 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -33,9 +33,6 @@ def run_merge(
     options: MergeOptions,
     config_source: Optional[str] = None,
 ):
-    if options.random_seed is not None:
-        transformers.trainer_utils.set_seed(options.random_seed)
-
     if not merge_config.models and not merge_config.slices and not merge_config.modules:
         raise RuntimeError("No output requested")
 
@@ -68,6 +65,10 @@ def run_merge(
         out_model_config=cfg_out,
     ).plan_to_disk(out_path=out_path)
 
+    # merging adapters above draws random numbers, but only when they are not cached
+    if options.random_seed is not None:
+        transformers.trainer_utils.set_seed(options.random_seed)
+
     if options.multi_gpu:
         exec = MultiGPUExecutor(
             targets=targets,
-- 
2.43.0


From efb78feb6701c9c67bdf73508842cefabc8cd3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:37 +0000
Subject: [PATCH 15/36] fix: interrupted conversion of evolve inputs left a
 partial directory that later runs used as complete

---
 mergekit/scripts/evolve.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/evolve.py b/mergekit/scripts/evolve.py
index ae3bcbf..1ec804b 100644
--- a/mergekit/scripts/evolve.py
+++ b/mergekit/scripts/evolve.py
@@ -4,6 +4,7 @@
 import importlib.util
 import logging
 import os
+import shutil
 import time
 import warnings
 from typing import List, Optional
@@ -410,8 +411,11 @@ def _reshard_model(
         torch_dtype=torch.bfloat16,
         cache_dir=os.path.join(storage_path, "transformers_cache"),
     )
+    # an interrupted conversion must not be mistaken for a finished one
+    tmp_path = f"{out_path}.incomplete"
+    shutil.rmtree(tmp_path, ignore_errors=True)
     model_hf.save_pretrained(
-        out_path, safe_serialization=True, out_shard_size=1_000_000_000_000
+        tmp_path, safe_serialization=True, out_shard_size=1_000_000_000_000
     )
     try:
         tokenizer = transformers.AutoTokenizer.from_pretrained(
@@ -420,9 +424,10 @@ def _reshard_model(
             trust_remote_code=trust_remote_code,
             use_fast=True,
         )
-        tokenizer.save_pretrained(out_path)
+        tokenizer.save_pretrained(tmp_path)
     except Exception as e:
         logging.warning(f"Could not save tokenizer for {model.model}", exc_info=e)
+    os.rename(tmp_path, out_path)
 
     return ModelReference(model=out_path)
 
-- 
2.43.0


From 123874b0a34b8c14aeccff454647bc2a2eaeb63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:29 +0000
Subject: [PATCH 16/36] fix: loaders and inferred architectures of earlier
 merges in the process were reused for changed inputs or options

---
 mergekit/architecture/auto.py         | 2 --
 mergekit/io/tasks.py                  | 2 ++
 mergekit/scripts/extract_lora.py      | 9 ++++++++-
 mergekit/scripts/merge_raw_pytorch.py | 2 ++
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index ea55dce..6354665 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -4,7 +4,6 @@
 import logging
 import re
 from collections import defaultdict
-from functools import lru_cache
 from typing import List, Optional, Tuple
 
 import torch
@@ -156,7 +155,6 @@ def _template_present_in_all_models(
     )
 
 
-@lru_cache(maxsize=128)
 def infer_architecture_info(
     models: Tuple[ModelReference, ...],
     base_model: Optional[ModelReference],
diff --git a/mergekit/io/tasks.py b/mergekit/io/tasks.py
index 4e32cf5..4f38b65 100644
--- a/mergekit/io/tasks.py
+++ b/mergekit/io/tasks.py
@@ -55,6 +55,8 @@ class LoaderCache:
         self.lazy_unpickle = options.lazy_unpickle
         self.trust_remote_code = options.trust_remote_code
         self.lora_merge_dtype = options.lora_merge_dtype
+        # loaders of an earlier merge may have other options or be out of date
+        self.loaders.clear()
 
 
 shard_name_re = re.compile(r"model\-([0-9]+)-of-([0-9]+)")
diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index f8bd906..04ac505 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -19,7 +19,13 @@ from mergekit.architecture import WeightInfo, arch_info_for_config
 from mergekit.card import generate_card_lora
 from mergekit.common import ModelReference, get_auto_cls
 from mergekit.graph import Executor, Task
-from mergekit.io.tasks import FinalizeModel, LoadTensor, SaveTensor, TensorWriterTask
+from mergekit.io.tasks import (
+    FinalizeModel,
+    LoaderCache,
+    LoadTensor,
+    SaveTensor,
+    TensorWriterTask,
+)
 from mergekit.io.tensor_writer import TensorWriter
 from mergekit.multigpu_executor import MultiGPUExecutor
 from mergekit.options import MergeOptions, PrettyPrintHelp, add_merge_options
@@ -114,6 +120,7 @@ def main(
     merge_options: MergeOptions,
 ):
     merge_options.apply_global_options()
+    LoaderCache().setup(options=merge_options)
 
     if not modules_to_save:
         modules_to_save = []
diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index b81179b..60bceea 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -83,6 +83,8 @@ def plan_flat_merge(
 
     loaders = SimpleLoaderCache()
     loaders.lazy_unpickle = options.lazy_unpickle
+    # loaders of an earlier merge may have other options or be out of date
+    loaders.loaders.clear()
     all_tensor_names = set()
     for model_def in tqdm.tqdm(config.models, desc="Preparing model loaders"):
         loader = loaders.get(model_def.model)
-- 
2.43.0


From 96959f7916470792cb4aea33a5ea278b0daeb5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:09 +0000
Subject: [PATCH 17/36] fix: adapter merge cache ignored the merge dtype

---
 mergekit/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 7e1187d..6f3c389 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -113,7 +113,10 @@ class ModelReference(BaseModel, frozen=True):
 
         out_path = os.path.join(
             cache_dir,
-            self.model._unique_id() + "_" + self.lora._unique_id(),
+            self.model._unique_id()
+            + "_"
+            + self.lora._unique_id()
+            + (f"_{lora_merge_dtype}" if lora_merge_dtype else ""),
         )
 
         if not os.path.exists(out_path):
-- 
2.43.0


From b0e4f53cc7cf34030c7d1bc78f93ece266e0775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:42 +0000
Subject: [PATCH 18/36] fix: adapter merges silently used freshly initialized
 values for missing tensors

---
 mergekit/common.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 6f3c389..502d203 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -6,6 +6,7 @@ import logging
 import os
 import os.path
 import tempfile
+import warnings
 from typing import (
     Any,
     Callable,
@@ -126,16 +127,26 @@ class ModelReference(BaseModel, frozen=True):
             auto_cls = get_auto_cls(config.architectures[0])
 
             logging.info(f"Loading {self.model} for merge...")
-            model = auto_cls.from_pretrained(
+            model, loading_info = auto_cls.from_pretrained(
                 self.model.path,
                 revision=self.model.revision,
                 torch_dtype=dtype_from_name(lora_merge_dtype),
                 low_cpu_mem_usage=True,
                 trust_remote_code=trust_remote_code,
+                output_loading_info=True,
             )
-            model = peft.PeftModel.from_pretrained(
-                model, self.lora.path, revision=self.lora.revision, is_trainable=False
-            )
+            # tensors missing below would be replaced by freshly initialized ones
+            if missing := loading_info["missing_keys"]:
+                raise RuntimeError(f"{self.model} lacks tensors: {sorted(missing)}")
+            with warnings.catch_warnings():
+                # same for tensors missing from the adapter
+                warnings.filterwarnings("error", message=".*missing adapter keys")
+                model = peft.PeftModel.from_pretrained(
+                    model,
+                    self.lora.path,
+                    revision=self.lora.revision,
+                    is_trainable=False,
+                )
             logging.info(f"Merging {self.lora} into {self.model}")
             model = model.merge_and_unload()
             # an interrupted merge must not be mistaken for a finished one
-- 
2.43.0


From 7726def7e0170bb699e064bfcce99676bb52a989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:12 +0000
Subject: [PATCH 19/36] fix: unreadable tokenizer of an input was replaced by
 the base model's

---
 mergekit/tokenizer/build.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 91a0c61..1907007 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -3,6 +3,7 @@
 
 import json
 import logging
+import os
 import tempfile
 from typing import Dict, List, Optional, Tuple, Union
 
@@ -206,6 +207,12 @@ def build_tokenizer(
                 trust_remote_code=trust_remote_code,
             )
         except Exception as e:
+            if any(
+                os.path.exists(os.path.join(model.model.path, fn))
+                for fn in ("tokenizer.json", "tokenizer_config.json", "tokenizer.model")
+            ):
+                # has a tokenizer, but it can not be read
+                raise
             LOG.error(e)
             LOG.warning(
                 f"Unable to load tokenizer for {model}. Assuming same as {base_model}."
-- 
2.43.0


From 14f938073efedd5f347248a795bc7d2aceac31c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:04 +0000
Subject: [PATCH 20/36] fix: stage names matching a merge method or keyword
 broke multi-stage configs

---
 mergekit/scripts/multimerge.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mergekit/scripts/multimerge.py b/mergekit/scripts/multimerge.py
index c9ef436..a0b6d45 100644
--- a/mergekit/scripts/multimerge.py
+++ b/mergekit/scripts/multimerge.py
@@ -17,6 +17,11 @@ from mergekit.options import MergeOptions, PrettyPrintHelp, add_merge_options
 
 LOG = logging.getLogger("multimerge")
 
+# fields of a merge configuration that hold a model reference
+MODEL_REFERENCE_KEYS = ("model", "base_model", "tokenizer_source", "source")
+# of those, the ones where "union" and "base" are keywords
+TOKENIZER_SOURCE_KEYS = (("tokenizer_source",), ("tokenizer", "source"))
+
 
 MODEL_CHECK_FILENAMES = [
     "model.safetensors",
@@ -146,10 +151,10 @@ def patched_config(config: MergeConfiguration, merge_names: Set[str], working_di
     """
     used = set()
 
-    def _patch_mr(value: Union[dict, list, str, int, None]):
+    def _patch_mr(value: Union[dict, list, str, int, None], *keys: str):
         nonlocal used
         if isinstance(value, list):
-            return [_patch_mr(x) for x in value]
+            return [_patch_mr(x, *keys) for x in value]
         elif isinstance(value, dict):
             if set(value.keys()) == {"model", "lora", "override_architecture"}:
                 # is a ModelReference
@@ -159,8 +164,13 @@ def patched_config(config: MergeConfiguration, merge_names: Set[str], working_di
                     value["model"]["path"] = os.path.join(working_dir, base)
                     used.add(base)
                 return value
-            return {k: _patch_mr(v) for k, v in value.items()}
+            return {k: _patch_mr(v, *keys, k) for k, v in value.items()}
         elif isinstance(value, str):
+            if not keys or keys[-1] not in MODEL_REFERENCE_KEYS:
+                # merge_method, dtype, filter etc. may coincide with a merge name
+                return value
+            if keys in TOKENIZER_SOURCE_KEYS and value in ("union", "base"):
+                return value
             try:
                 mr = ModelReference.model_validate(value)
                 if mr.model.path in merge_names:
-- 
2.43.0


From 7e38c5ba73501b6b9b647b162cde669efe0a008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:07 +0000
Subject: [PATCH 21/36] fix: failures writing the copied tokenizer were
 reported as success and resumed over

---
 mergekit/merge.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index dd34742..059e977 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -117,13 +117,7 @@ def run_merge(
         tokenizer.save_pretrained(out_path, safe_serialization=True)
     else:
         if options.copy_tokenizer:
-            try:
-                _copy_tokenizer(merge_config, out_path, options=options)
-            except Exception as e:
-                LOG.error(
-                    "Failed to copy tokenizer. The merge was still successful, just copy it from somewhere else.",
-                    exc_info=e,
-                )
+            _copy_tokenizer(merge_config, out_path, options=options)
         elif merge_config.chat_template:
             LOG.warning(
                 "Chat template specified but no tokenizer found. Chat template will not be saved."
@@ -272,12 +266,20 @@ def _copy_tokenizer(
 
     # fallback: try actually loading the tokenizer and saving it
     LOG.info(f"Reserializing tokenizer from {donor_model}")
-    tokenizer = transformers.AutoTokenizer.from_pretrained(
-        donor_model.model.path,
-        revision=donor_model.model.revision,
-        trust_remote_code=options.trust_remote_code,
-    )
-    _set_chat_template(tokenizer, merge_config)
+    try:
+        tokenizer = transformers.AutoTokenizer.from_pretrained(
+            donor_model.model.path,
+            revision=donor_model.model.revision,
+            trust_remote_code=options.trust_remote_code,
+        )
+        _set_chat_template(tokenizer, merge_config)
+    except Exception as e:
+        LOG.error(
+            "Failed to copy tokenizer. The merge was still successful, just copy it from somewhere else.",
+            exc_info=e,
+        )
+        return
+    # failures to write are not swallowed: the output would be incomplete
     tokenizer.save_pretrained(out_path, safe_serialization=True)
 
 
-- 
2.43.0


From 3a5e110708e2f892b7bb9962d6e885d9e283b224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:04 +0000
Subject: [PATCH 22/36] fix: serial evolutionary evaluation leaked its
 placement group on failure and evaluated invalid genotypes

The reservation was only removed when everything succeeded, so a few failed
candidates left no GPU for the rest and the run hung. The merged path was an
object reference, which is always true: an invalid genotype was evaluated as
the model None instead of being answered without a score.
---
 mergekit/evo/strategy.py | 49 +++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/mergekit/evo/strategy.py b/mergekit/evo/strategy.py
index adb6929..b187191 100644
--- a/mergekit/evo/strategy.py
+++ b/mergekit/evo/strategy.py
@@ -254,30 +254,33 @@ def evaluate_genotype_serial(
     strat = ray.util.scheduling_strategies.PlacementGroupSchedulingStrategy(
         placement_group=pg
     )
-    merged_path = merge_model_ray.options(scheduling_strategy=strat).remote(
-        genotype, genome, model_storage_path, merge_options
-    )
-    if not merged_path:
-        return {"score": None, "results": None}
-    kwargs = {}
-    if quantization_config is not None:
-        kwargs["quantization_config"] = quantization_config
-    res = ray.get(
-        evaluate_model_ray.options(scheduling_strategy=strat).remote(
-            merged_path,
-            config.tasks,
-            num_fewshot=config.num_fewshot,
-            limit=config.limit,
-            vllm=vllm,
-            batch_size=batch_size,
-            task_manager=task_manager,
-            apply_chat_template=config.apply_chat_template,
-            fewshot_as_multiturn=config.fewshot_as_multiturn,
-            **kwargs,
+    try:
+        merged_path = ray.get(
+            merge_model_ray.options(scheduling_strategy=strat).remote(
+                genotype, genome, model_storage_path, merge_options
+            )
         )
-    )
-    ray.util.remove_placement_group(pg)
-    return res
+        if not merged_path:
+            return {"score": None, "results": None}
+        kwargs = {}
+        if quantization_config is not None:
+            kwargs["quantization_config"] = quantization_config
+        return ray.get(
+            evaluate_model_ray.options(scheduling_strategy=strat).remote(
+                merged_path,
+                config.tasks,
+                num_fewshot=config.num_fewshot,
+                limit=config.limit,
+                vllm=vllm,
+                batch_size=batch_size,
+                task_manager=task_manager,
+                apply_chat_template=config.apply_chat_template,
+                fewshot_as_multiturn=config.fewshot_as_multiturn,
+                **kwargs,
+            )
+        )
+    finally:
+        ray.util.remove_placement_group(pg)
 
 
 class SerialEvaluationStrategy(EvaluationStrategyBase):
-- 
2.43.0


From 8096c5c0d8674e89b823ad4dc1ef166b675ed454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:04 +0000
Subject: [PATCH 23/36] fix: one failed candidate stopped the buffered
 evolutionary strategy and hung every caller

An exception from a merge or an evaluation ended the processing loop, after
which no pending or later candidate was ever answered. Failures are now
reported to the caller that asked for the candidate; invalid genotypes are
answered without a score.
---
 mergekit/evo/strategy.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/mergekit/evo/strategy.py b/mergekit/evo/strategy.py
index b187191..855bb3f 100644
--- a/mergekit/evo/strategy.py
+++ b/mergekit/evo/strategy.py
@@ -102,6 +102,18 @@ class ActorPoolEvaluationStrategy(EvaluationStrategyBase):
         return self.evaluate_genotypes([genotype])[0]
 
 
+def _resolve(
+    future: asyncio.Future, result: Optional[dict] = None, error: Exception = None
+):
+    if future.done():
+        # the caller is no longer waiting
+        return
+    if error is not None:
+        future.set_exception(error)
+    else:
+        future.set_result(result)
+
+
 @ray.remote
 class BufferedRayEvaluationStrategyActor:
     def __init__(
@@ -137,7 +149,7 @@ class BufferedRayEvaluationStrategyActor:
 
     async def process_queue(self):
         merging: Dict[ray.ObjectRef, asyncio.Future] = {}
-        merged: List[Tuple[asyncio.Future, ray.ObjectRef]] = []
+        merged: List[Tuple[asyncio.Future, str]] = []
         evaluating: Dict[ray.ObjectRef, asyncio.Future] = {}
 
         logging.info("Starting processing loop")
@@ -184,10 +196,24 @@ class BufferedRayEvaluationStrategyActor:
                 for r in ready:
                     if r in merging:
                         future_result = merging.pop(r)
-                        merged.append((future_result, r))
+                        try:
+                            merged_path = await r
+                        except Exception as e:
+                            logging.error("Model merge failed", exc_info=e)
+                            _resolve(future_result, error=e)
+                            continue
+                        if not merged_path:
+                            logging.error("Model merge failed")
+                            _resolve(future_result, {"score": None, "results": None})
+                            continue
+                        merged.append((future_result, merged_path))
                     elif r in evaluating:
                         future_result = evaluating.pop(r)
-                        future_result.set_result(await r)
+                        try:
+                            _resolve(future_result, await r)
+                        except Exception as e:
+                            logging.error("Model evaluation failed", exc_info=e)
+                            _resolve(future_result, error=e)
 
                 if (
                     not self.input_queue
-- 
2.43.0


From f7962d11fb10133a9f6a653d545bef0043f37104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:56 +0000
Subject: [PATCH 24/36] fix: a failed merge in an evolutionary search left its
 partial model behind

Nothing else knows the temporary directory, so every failed or retried merge
kept a partial model in the storage path for good.
---
 mergekit/evo/helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/helpers.py b/mergekit/evo/helpers.py
index fd1fd1d..62e4a2a 100644
--- a/mergekit/evo/helpers.py
+++ b/mergekit/evo/helpers.py
@@ -106,7 +106,11 @@ def merge_model(
         return None
     os.makedirs(model_storage_path, exist_ok=True)
     res = tempfile.mkdtemp(prefix="merged", dir=model_storage_path)
-    run_merge(cfg, out_path=res, options=merge_options)
+    try:
+        run_merge(cfg, out_path=res, options=merge_options)
+    except BaseException:
+        shutil.rmtree(res, ignore_errors=True)
+        raise
     return res
 
 
-- 
2.43.0


From 41e91e0547722d74110f91b63d9827a338e047ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:28 +0000
Subject: [PATCH 25/36] fix: the buffered evolutionary strategy took in no new
 candidates while others ran

The processing loop blocks in ray.wait and never gave the event loop a turn
while work was in flight, so a candidate submitted meanwhile waited, with GPUs
free, until a running one was finished.
---
 mergekit/evo/strategy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mergekit/evo/strategy.py b/mergekit/evo/strategy.py
index 855bb3f..eaba3e7 100644
--- a/mergekit/evo/strategy.py
+++ b/mergekit/evo/strategy.py
@@ -222,6 +222,9 @@ class BufferedRayEvaluationStrategyActor:
                     and not evaluating
                 ):
                     await asyncio.sleep(1)
+                else:
+                    # let newly submitted genotypes into the queue
+                    await asyncio.sleep(0)
         except Exception as e:
             logging.error("Error in processing loop", exc_info=e)
             raise
-- 
2.43.0


From 6fa1932b6ce247675609425a46bc9d9bc059c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:14 +0000
Subject: [PATCH 26/36] fix: token ids of a union tokenizer differed from
 process to process

Tokenizers return their vocabulary as a hash map with random iteration order,
and new tokens were numbered in that order.
---
 mergekit/tokenizer/build.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 1907007..124e20d 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -121,8 +121,9 @@ def build_union_tokenizer(
         )
         added_tokens = tokenizer.added_tokens_decoder
 
-        vocab = tokenizer.get_vocab()
-        for tok, idx in vocab.items():
+        # get_vocab has no defined order, but new token ids follow from it
+        vocab = sorted(tokenizer.get_vocab().items(), key=lambda item: item[1])
+        for tok, idx in vocab:
             if idx >= vocab_size:
                 LOG.warning(
                     f"Token {repr(tok)} present in {str(model)} tokenizer but >= vocab_size"
-- 
2.43.0


From fe1f00e4836d84185ffe23dd70d8fa73e78816ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:45 +0000
Subject: [PATCH 27/36] fix: configs naming a model whose path has a space or
 quote could not be serialized

---
 mergekit/common.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 502d203..5f4400e 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -222,15 +222,13 @@ class ModelReference(BaseModel, frozen=True):
 
     @model_serializer()
     def serialize(self):
-        if self.override_architecture is not None:
+        res = str(self)
+        if self.override_architecture is not None or '"' in res or " " in res:
             return {
                 "model": self.model,
                 "lora": self.lora,
                 "override_architecture": self.override_architecture,
             }
-        res = str(self)
-        if '"' in res or " " in res:
-            return self
         return res
 
     @classmethod
-- 
2.43.0


From d3a45215525307fd4465d1ddd1aee777108cf7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 28/36] fix: mergekit-moe with DeepSeek output failed unless
 the output directory existed

---
 mergekit/moe/deepseek.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/moe/deepseek.py b/mergekit/moe/deepseek.py
index 03ff072..a877e58 100644
--- a/mergekit/moe/deepseek.py
+++ b/mergekit/moe/deepseek.py
@@ -118,6 +118,7 @@ class DeepseekMoE(MoEOutputArchitecture):
         )
         if out_dtype is not None:
             out_cfg["torch_dtype"] = str(out_dtype).removeprefix("torch.")
+        os.makedirs(out_path, exist_ok=True)
         with open(os.path.join(out_path, "config.json"), "w", encoding="utf-8") as f:
             json.dump(out_cfg, f, indent=4)
 
-- 
2.43.0


From af69993c6f958c960d41f8534ce2d6e329dc96ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 29/36] fix: tokensurgeon results followed the random order of
 the tokenizer's vocabulary

---
 mergekit/tokenizer/normalization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/tokenizer/normalization.py b/mergekit/tokenizer/normalization.py
index cd4b050..a59e95a 100644
--- a/mergekit/tokenizer/normalization.py
+++ b/mergekit/tokenizer/normalization.py
@@ -92,7 +92,8 @@ def normalized_vocabulary(
         if hasattr(transformers, candidate):
             sp_style.append(getattr(transformers, candidate))
 
-    vocab = tokenizer.get_vocab()
+    # order by id: the tokenizers library returns the vocabulary in random order
+    vocab = dict(sorted(tokenizer.get_vocab().items(), key=lambda item: item[1]))
     if isinstance(
         tokenizer,
         tuple(gpt2_style),
-- 
2.43.0


From f415d146f0ba72e733d80260bc3a899ff4529c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 30/36] fix: a checkpoint lacking tensors of some experts was
 silently merged with fewer experts

---
 mergekit/architecture/conversion.py | 33 ++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/mergekit/architecture/conversion.py b/mergekit/architecture/conversion.py
index e9da6c7..731d4f0 100644
--- a/mergekit/architecture/conversion.py
+++ b/mergekit/architecture/conversion.py
@@ -71,6 +71,28 @@ def _has_complete_wildcard_group(wildcard_values: set[tuple[str, ...]]) -> bool:
     return wildcard_values == {()} or len(wildcard_values) > 1
 
 
+def _check_wildcard_groups(
+    target_key: str,
+    present: dict[str, set[tuple[str, ...]]],
+    used: dict[str, set[tuple[str, ...]]],
+):
+    """Refuse to convert a tensor from an incomplete group of source tensors.
+
+    Every tensor assembled from numbered parts (such as experts) must have all
+    the parts that any such tensor of the checkpoint has, else the result would
+    silently be smaller with its parts out of place.
+    """
+    expected = set().union(*(v for v in present.values() if v != {()}))
+    for pattern, values in present.items():
+        if values == {()}:
+            continue
+        if missing := expected - used.get(pattern, set()):
+            raise RuntimeError(
+                f"Checkpoint is missing tensors needed for {target_key}: "
+                f"{pattern} for {sorted('.'.join(m) for m in missing)}"
+            )
+
+
 def convert_checkpoint_tensors(
     model_type: Optional[str],
     source_tensors: Mapping[str, TensorSource],
@@ -91,12 +113,14 @@ def convert_checkpoint_tensors(
     available: dict[str, TensorSource] = dict(source_tensors)
     for transform in transforms:
         additions: dict[str, TensorSource] = {}
-        conversion_layers = set()
+        conversion_layers: dict[str, dict[str, set[tuple[str, ...]]]] = {}
+        present: dict[str, set[tuple[str, ...]]] = {}
         for match in _iter_transform_matches(transform, available):
             if isinstance(transform, WeightRenaming):
                 additions[match.renamed_key] = match.source_value
                 continue
 
+            present.setdefault(match.source_pattern, set()).add(match.wildcard_values)
             if target_key in _expanded_target_keys(
                 match.renamed_key, transform.target_patterns
             ):
@@ -106,14 +130,17 @@ def convert_checkpoint_tensors(
                     source_pattern=match.source_pattern,
                     future=match.source_value,
                 )
-                conversion_layers.add(match.renamed_key)
+                conversion_layers.setdefault(match.renamed_key, {}).setdefault(
+                    match.source_pattern, set()
+                ).add(match.wildcard_values)
 
         available.update(additions)
 
         if isinstance(transform, WeightRenaming):
             continue
 
-        for conversion_layer in conversion_layers:
+        for conversion_layer, used in conversion_layers.items():
+            _check_wildcard_groups(target_key, present, used)
             converted = transform.convert(conversion_layer)
             if target_key in converted:
                 return converted[target_key]
-- 
2.43.0


From e1152fd6d6abe2a91cd55d86d303507c027d1ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 31/36] fix: MoE gates were silently computed with freshly
 initialized values for missing tensors

---
 mergekit/moe/router.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mergekit/moe/router.py b/mergekit/moe/router.py
index c0bc08c..784ef6f 100644
--- a/mergekit/moe/router.py
+++ b/mergekit/moe/router.py
@@ -122,15 +122,19 @@ def get_gate_params(
             kwargs["quantization_config"] = transformers.BitsAndBytesConfig(
                 load_in_8bit=True
             )
-        model = AutoModelForCausalLM.from_pretrained(
+        model, loading_info = AutoModelForCausalLM.from_pretrained(
             model_ref.model.path,
             revision=model_ref.model.revision,
             torch_dtype=torch.bfloat16,
             device_map=device,
             low_cpu_mem_usage=True,
             trust_remote_code=trust_remote_code,
+            output_loading_info=True,
             **kwargs,
         )
+        # tensors missing below would be replaced by freshly initialized ones
+        if missing := loading_info["missing_keys"]:
+            raise RuntimeError(f"{model_ref.model} lacks tensors: {sorted(missing)}")
 
         def _do_it(tokenized):
             return get_hidden_states(
-- 
2.43.0


From 97718fbbe1f21989d6ab86ff5e5b8d21a63de34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 32/36] fix: merging the same adapter in two processes at once
 failed in one of them

---
 mergekit/common.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 5f4400e..31c0c04 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -153,7 +153,12 @@ class ModelReference(BaseModel, frozen=True):
             with tempfile.TemporaryDirectory(dir=cache_dir) as tmp_dir:
                 tmp_path = os.path.join(tmp_dir, "merged")
                 model.save_pretrained(tmp_path, safe_serialization=True)
-                os.rename(tmp_path, out_path)
+                try:
+                    os.rename(tmp_path, out_path)
+                except OSError:
+                    # another process may have finished the same merge meanwhile
+                    if not os.path.exists(out_path):
+                        raise
             del model
 
         return ModelReference(model=ModelPath(path=out_path))
-- 
2.43.0


From 17c183e0347218b75a7f12f11f45ce6d1a4af821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 33/36] fix: evolve used converted inputs without tokenizer for
 ever after a failed write

---
 mergekit/scripts/evolve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/evolve.py b/mergekit/scripts/evolve.py
index 1ec804b..1167714 100644
--- a/mergekit/scripts/evolve.py
+++ b/mergekit/scripts/evolve.py
@@ -424,9 +424,11 @@ def _reshard_model(
             trust_remote_code=trust_remote_code,
             use_fast=True,
         )
-        tokenizer.save_pretrained(tmp_path)
     except Exception as e:
-        logging.warning(f"Could not save tokenizer for {model.model}", exc_info=e)
+        logging.warning(f"Could not load tokenizer for {model.model}", exc_info=e)
+    else:
+        # a failure to write is not swallowed: the conversion would be incomplete
+        tokenizer.save_pretrained(tmp_path)
     os.rename(tmp_path, out_path)
 
     return ModelReference(model=out_path)
-- 
2.43.0


From 58a0cf96b89dfc5f8973850ee394ebe6f32891fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 34/36] fix: evolve silently replaced tensors missing from an
 input model by freshly initialized ones

---
 mergekit/scripts/evolve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/evolve.py b/mergekit/scripts/evolve.py
index 1167714..e2d5388 100644
--- a/mergekit/scripts/evolve.py
+++ b/mergekit/scripts/evolve.py
@@ -404,13 +404,17 @@ def _reshard_model(
         logging.info(f"Using existing resharded model at {out_path}")
         return ModelReference(model=out_path)
 
-    model_hf = transformers.AutoModelForCausalLM.from_pretrained(
+    model_hf, loading_info = transformers.AutoModelForCausalLM.from_pretrained(
         merged.model.path,
         revision=merged.model.revision,
         trust_remote_code=trust_remote_code,
         torch_dtype=torch.bfloat16,
         cache_dir=os.path.join(storage_path, "transformers_cache"),
+        output_loading_info=True,
     )
+    # tensors missing below would be replaced by freshly initialized ones
+    if missing := loading_info["missing_keys"]:
+        raise RuntimeError(f"{merged.model} lacks tensors: {sorted(missing)}")
     # an interrupted conversion must not be mistaken for a finished one
     tmp_path = f"{out_path}.incomplete"
     shutil.rmtree(tmp_path, ignore_errors=True)
-- 
2.43.0


From 90c92b66cb3b6dd7fa3db216eca31d71d5fbd51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:58 +0000
Subject: [PATCH 35/36] fix: parallel execution lost the results of duplicated
 tasks when nothing else ran in parallel

---
 mergekit/multigpu_executor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mergekit/multigpu_executor.py b/mergekit/multigpu_executor.py
index 4980f40..bf61172 100644
--- a/mergekit/multigpu_executor.py
+++ b/mergekit/multigpu_executor.py
@@ -125,6 +125,9 @@ class MultiGPUExecutor:
         if any(t.task().main_thread_only() for t in self.per_gpu_tasks):
             raise RuntimeError("Tasks can not be both per-GPU and main-thread-only")
         self.gpu_assignments = self._assign_islands_to_gpus(parallel_handles, num_gpus)
+        if self.per_gpu_tasks and not self.gpu_assignments:
+            # no other parallel work, but duplicated tasks still have to run
+            self.gpu_assignments = {torch.device(f"{self.accelerator_type}:0"): []}
 
         self.task_completion_queue = queue.Queue()
         self.done_event = threading.Event()
-- 
2.43.0


From 145dc675c8377634b3bdb9cc6188b0473bc84fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:57 +0000
Subject: [PATCH 36/36] fix: raw PyTorch merges summed their inputs in an order
 depending on string hashes

---
 mergekit/scripts/merge_raw_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 60bceea..15ef057 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -142,7 +142,7 @@ def plan_flat_merge(
 
         tensor_task = merge_method.make_task(
             output_weight=WeightInfo(name=tensor_name),
-            tensors=TensorDictWrapper(tensors=inputs),
+            tensors=TensorDictWrapper(tensors=ImmutableMap(inputs)),
             parameters=ImmutableMap(global_params),
             tensor_parameters=ImmutableMap(
                 data={
-- 
2.43.0

