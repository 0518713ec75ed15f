From 2192b88b8bc65d96a077cc1c182c926437185ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:03 +0000
Subject: [PATCH 01/74] fix: parsing extra info repeatedly with the list
 backend or with keys appearing after a first parse

---
 mushroom_rl/core/extra_info.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 1b1faf7..a7a89db 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -78,7 +78,7 @@ class ExtraInfo(Serializable, UserDict):
         if self._structured_storage:
             for key in output:
                 index = length_structured_storage
-                value = self._convert(self._structured_storage[key], to)
+                value = self._convert(self._structured_storage.get(key), to)
                 output[key][:index] = value
         
         #fill output with elements stored in storage
@@ -357,7 +357,10 @@ class ExtraInfo(Serializable, UserDict):
         
         if value is None:
             return ArrayBackend.get_array_backend(to).none()
-        
+
+        if to == self._array_backend.get_backend_name():
+            return value
+
         return ArrayBackend.convert(value, to=to, backend=self._array_backend)
 
     def _create_key(self, key_path):
-- 
2.43.0


From b33da02e206c59a3fa98fc453c4a98d000dd4bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:03 +0000
Subject: [PATCH 02/74] fix: keep the order of the steps when adding extra
 infos that are not parsed yet

---
 mushroom_rl/core/extra_info.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index a7a89db..f30fc61 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -135,6 +135,9 @@ class ExtraInfo(Serializable, UserDict):
         """
         assert(self._n_envs == other.n_envs)
 
+        self.parse()
+        other.parse()
+
         info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
         info._storage = self._storage + other._storage
 
-- 
2.43.0


From dce2a8f85a6a9e4b133a72e497a6501c75a60d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:03 +0000
Subject: [PATCH 03/74] fix: copying extra info keeps the already parsed steps

---
 mushroom_rl/core/extra_info.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index f30fc61..179a5b3 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -213,6 +213,7 @@ class ExtraInfo(Serializable, UserDict):
         info._storage = self._storage.copy()
         info._key_mapping = self._key_mapping.copy()
         info._shape_mapping = self._shape_mapping.copy()
+        info._structured_storage = self._structured_storage.copy()
         info.data = self.data.copy()
             
         return info
-- 
2.43.0


From 5561953d6ee708d52aa840347d2c16c5c12f7130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:03 +0000
Subject: [PATCH 04/74] fix: save the number of environments and the backend of
 extra info

---
 mushroom_rl/core/extra_info.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 179a5b3..86ebaed 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -256,6 +256,9 @@ class ExtraInfo(Serializable, UserDict):
 
     def _add_all_save_attr(self):
         self._add_save_attr(
+            _n_envs='primitive',
+            _array_backend='primitive',
+            _device='primitive',
             data='primitive',
             _storage='primitive',
             _structured_storage='primitive',
-- 
2.43.0


From 579d3cdcb5d515f11aaec758f2a738d5c91022e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:57 +0000
Subject: [PATCH 05/74] fix: views of a dataset can be concatenated

---
 mushroom_rl/core/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index c11fd03..aa1a8b2 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -256,6 +256,7 @@ class Dataset(Serializable):
         dataset._info = self._info.get_view(index, copy)
         dataset._episode_info = self._episode_info.get_view(index, copy)
         dataset._data = self._data.get_view(index, copy)
+        dataset._theta_list = list()
 
         return dataset
 
-- 
2.43.0


From 760f96148831950fa2b27b66a76f817c745535d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:57 +0000
Subject: [PATCH 06/74] fix: keep the policy states when building a dataset
 from arrays

---
 mushroom_rl/core/_impl/list_dataset.py | 2 +-
 mushroom_rl/core/dataset.py            | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index d63d030..bdc3e3a 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -51,7 +51,7 @@ class ListDataset(Serializable):
             for s, a, r, ss, ab, last, ps, pss in zip(states, actions, rewards, next_states,
                                                       absorbings.astype(bool), lasts.astype(bool),
                                                       policy_states, policy_next_states):
-                dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps.item(), pss.item())
+                dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps, pss)
         else:
             for s, a, r, ss, ab, last in zip(states, actions, rewards, next_states,
                                              absorbings.astype(bool), lasts.astype(bool)):
diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index aa1a8b2..1ba8bba 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -212,11 +212,14 @@ class Dataset(Serializable):
 
         dataset._array_backend = ArrayBackend.get_array_backend(backend)
         if backend == 'numpy':
-            dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                    policy_state, policy_next_state)
         elif backend == 'torch':
-            dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                    policy_state, policy_next_state)
         else:
-            dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                   policy_state, policy_next_state)
 
         state_shape = states.shape[1:]
         action_shape = actions.shape[1:]
-- 
2.43.0


From 034d2f67af3c4a7bd43e9651daeb8cf1a6b5e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:57 +0000
Subject: [PATCH 07/74] fix: views of a partially filled dataset index only the
 collected policy states and masks

---
 mushroom_rl/core/_impl/numpy_dataset.py | 12 ++++++------
 mushroom_rl/core/_impl/torch_dataset.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 4e07b2f..8399610 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -172,12 +172,12 @@ class NumpyDataset(Serializable):
                 view._policy_states = np.empty_like(self._policy_states)
                 view._policy_next_states = np.empty_like(self._policy_next_states)
 
-                view._policy_states[:new_len] = self._policy_states[index, ...]
-                view._policy_next_states[:new_len] = self._policy_next_states[index, ...]
+                view._policy_states[:new_len] = self.policy_state[index, ...]
+                view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
 
             if self._mask is not None:
                 view._mask = np.empty_like(self._mask)
-                view._mask[:new_len] = self._mask[index, ...]
+                view._mask[:new_len] = self.mask[index, ...]
         else:
             view._states = self.state[index, ...]
             view._actions = self.action[index, ...]
@@ -188,11 +188,11 @@ class NumpyDataset(Serializable):
             view._len = view._states.shape[0]
 
             if self.is_stateful:
-                view._policy_states = self._policy_states[index, ...]
-                view._policy_next_states = self._policy_next_states[index, ...]
+                view._policy_states = self.policy_state[index, ...]
+                view._policy_next_states = self.policy_next_state[index, ...]
 
             if self._mask is not None:
-                view._mask = self._mask[index, ...]
+                view._mask = self.mask[index, ...]
 
         return view
 
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 3bc9066..33c1bcb 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -172,12 +172,12 @@ class TorchDataset(Serializable):
                 view._policy_states = torch.empty_like(self._policy_states)
                 view._policy_next_states = torch.empty_like(self._policy_next_states)
 
-                view._policy_states[:new_len] = self._policy_states[index, ...]
-                view._policy_next_states[:new_len] = self._policy_next_states[index, ...]
+                view._policy_states[:new_len] = self.policy_state[index, ...]
+                view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
 
             if self._mask is not None:
                 view._mask = torch.empty_like(self._mask)
-                view._mask[:new_len] = self._mask[index, ...]
+                view._mask[:new_len] = self.mask[index, ...]
         else:
             view._states = self.state[index, ...]
             view._actions = self.action[index, ...]
@@ -188,11 +188,11 @@ class TorchDataset(Serializable):
             view._len = view._states.shape[0]
 
             if self.is_stateful:
-                view._policy_states = self._policy_states[index, ...]
-                view._policy_next_states = self._policy_next_states[index, ...]
+                view._policy_states = self.policy_state[index, ...]
+                view._policy_next_states = self.policy_next_state[index, ...]
 
             if self._mask is not None:
-                view._mask = self._mask[index, ...]
+                view._mask = self.mask[index, ...]
 
         return view
 
-- 
2.43.0


From 2d4578474df310b0b1d48007bccc2ac2eb1826aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:57 +0000
Subject: [PATCH 08/74] fix: adding to an empty dataset does not terminate the
 last episode of the other one

---
 mushroom_rl/core/_impl/numpy_dataset.py | 3 ++-
 mushroom_rl/core/_impl/torch_dataset.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 8399610..8e4a73a 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -209,7 +209,8 @@ class NumpyDataset(Serializable):
         result._next_states = np.concatenate((self.next_state, other.next_state))
         result._absorbing = np.concatenate((self.absorbing, other.absorbing))
         result._last = np.concatenate((self.last, other.last))
-        result._last[len(self)-1] = True
+        if len(self) > 0:
+            result._last[len(self)-1] = True
         result._len = len(self) + len(other)
 
         if self.is_stateful:
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 33c1bcb..fcbf676 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -209,7 +209,8 @@ class TorchDataset(Serializable):
         result._next_states = torch.concatenate((self.next_state, other.next_state))
         result._absorbing = torch.concatenate((self.absorbing, other.absorbing))
         result._last = torch.concatenate((self.last, other.last))
-        result._last[len(self) - 1] = True
+        if len(self) > 0:
+            result._last[len(self) - 1] = True
         result._len = len(self) + len(other)
 
         if self.is_stateful:
-- 
2.43.0


From 0ba98ca6f458dd887ce8d8f3bd972aa7d1c7a824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:57 +0000
Subject: [PATCH 09/74] fix: concatenation of datasets with the list backend

---
 mushroom_rl/core/_impl/list_dataset.py | 6 +++---
 mushroom_rl/core/array_backend.py      | 4 ++++
 mushroom_rl/core/extra_info.py         | 3 ++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index bdc3e3a..a063f1c 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -98,10 +98,10 @@ class ListDataset(Serializable):
 
     def __add__(self, other):
         result = self.create_new_instance(self)
-        last_step = self._dataset[-1]
-        modified_last_step = last_step[:-1] + (True,)
-        result._dataset[-1] = modified_last_step
         result._dataset = self._dataset + other._dataset
+        if len(self) > 0:
+            last_step = self._dataset[-1]
+            result._dataset[len(self) - 1] = last_step[:-1] + (True,)
         result._policy_dataset = self._policy_dataset + other._policy_dataset
 
         return result
diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 706357c..ed35ce8 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -470,6 +470,10 @@ class ListBackend(ArrayBackend):
         cls.check_device(device)
         return np.ones_like(array, dtype=dtype)
 
+    @staticmethod
+    def concatenate(list_of_arrays, dim=0):
+        return np.concatenate(list_of_arrays, axis=dim)
+
     @staticmethod
     def copy(array):
         return array.copy()
diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 86ebaed..c2745ad 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -175,7 +175,8 @@ class ExtraInfo(Serializable, UserDict):
         if array2 is None:
             shape = (intended_length_array2, ) +  array1_backend.shape(array1)[1:]
             array2 = array2_backend.full(shape, array2_backend.none())
-        array2 = array1_backend.convert(array2, backend=array2_backend)
+        if array1_backend is not array2_backend:
+            array2 = array1_backend.convert(array2, backend=array2_backend)
         return array1_backend.concatenate((array1, array2))
     
     def _concatenate_dictionary(self, dict1, dict2, backend1, backend2):
-- 
2.43.0


From ef3bb9130248d0615de89f7fc08fe02f3d0dad47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:57 +0000
Subject: [PATCH 10/74] fix: policy states in datasets with the list backend

---
 mushroom_rl/core/_impl/list_dataset.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index a063f1c..79cab4f 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -31,8 +31,8 @@ class ListDataset(Serializable):
 
         new_dataset = cls.__new__(cls)
 
-        new_dataset._dataset = None
-        new_dataset._policy_dataset = None
+        new_dataset._dataset = list()
+        new_dataset._policy_dataset = list()
         new_dataset._is_stateful = dataset._is_stateful
         new_dataset._mask = None
 
@@ -73,6 +73,10 @@ class ListDataset(Serializable):
 
     def clear(self):
         self._dataset = list()
+        self._policy_dataset = list()
+
+        if self._mask is not None:
+            self._mask = list()
 
     def get_view(self, index, copy=False):
         view = self.create_new_instance(self)
@@ -82,9 +86,15 @@ class ListDataset(Serializable):
         else:
             view._dataset = [self._dataset[i] for i in index]
 
+        if self._is_stateful:
+            if isinstance(index, (int, slice)):
+                view._policy_dataset = self._policy_dataset[index]
+            else:
+                view._policy_dataset = [self._policy_dataset[i] for i in index]
+
         if self._mask is not None:
             if isinstance(index, (int, slice)):
-                view._mask = self._mask[index, ...]
+                view._mask = self._mask[index]
             else:
                 view._mask = [self._mask[i] for i in index]
 
@@ -132,11 +142,11 @@ class ListDataset(Serializable):
 
     @property
     def policy_state(self):
-        return [step[6] for step in self._dataset]
+        return [step[0] for step in self._policy_dataset]
 
     @property
     def policy_next_state(self):
-        return [step[7] for step in self._dataset]
+        return [step[1] for step in self._policy_dataset]
 
     @property
     def is_stateful(self):
-- 
2.43.0


From a2e5dcbcb86eb06bc6601b6df03d09c578084081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:21 +0000
Subject: [PATCH 11/74] fix: views of extra info do not share their keys with
 the original

---
 mushroom_rl/core/extra_info.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index c2745ad..4af8c20 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -108,8 +108,8 @@ class ExtraInfo(Serializable, UserDict):
         self.parse()
 
         info = ExtraInfo(1, self._array_backend.get_backend_name(), self._device)
-        info._shape_mapping = self._shape_mapping
-        info._key_mapping = self._key_mapping
+        info._shape_mapping = self._shape_mapping.copy()
+        info._key_mapping = self._key_mapping.copy()
         info._structured_storage = {}
 
         for key in self.data:
@@ -229,8 +229,8 @@ class ExtraInfo(Serializable, UserDict):
         """
         self.parse()
         info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
-        info._key_mapping = self._key_mapping
-        info._shape_mapping = self._shape_mapping
+        info._key_mapping = self._key_mapping.copy()
+        info._shape_mapping = self._shape_mapping.copy()
 
         if not copy:
             info._structured_storage = {key: value[index, ...] for key, value in self._structured_storage.items()}
-- 
2.43.0


From dac781e637ba38d6510450b045533179b74c7209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:21 +0000
Subject: [PATCH 12/74] fix: metrics of datasets with the list backend

---
 mushroom_rl/core/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 1ba8bba..f7ee5fe 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -509,6 +509,8 @@ class Dataset(Serializable):
 
         if len(dataset) > 0:
             J = dataset.compute_J(gamma)
+            if isinstance(J, list):
+                J = np.array(J)
             median = self._array_backend.median(J)
             return J.min(), J.max(), J.mean(), median, len(J)
         else:
-- 
2.43.0


From 5b8f6a6c9d23c13ead2c186860dfe2e8adb3843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:21 +0000
Subject: [PATCH 13/74] fix: the torch median of an even number of elements
 averages the two middle ones

---
 mushroom_rl/core/array_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index ed35ce8..9ba1afe 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -388,7 +388,7 @@ class TorchBackend(ArrayBackend):
 
     @staticmethod
     def median(array):
-        return array.median()
+        return torch.quantile(array, 0.5)
 
     @staticmethod
     def sqrt(array):
-- 
2.43.0


From f10c02881f3acad1830a4ae19757d04ca8c4b413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:30 +0000
Subject: [PATCH 14/74] fix: indexing a dataset with an array of another
 backend holding a single index

---
 mushroom_rl/core/_impl/numpy_dataset.py | 4 ++++
 mushroom_rl/core/_impl/torch_dataset.py | 4 ++++
 mushroom_rl/core/extra_info.py          | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 8e4a73a..1aae630 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -1,4 +1,5 @@
 import numpy as np
+import torch
 
 from mushroom_rl.core.serialization import Serializable
 
@@ -149,6 +150,9 @@ class NumpyDataset(Serializable):
     def get_view(self, index, copy=False):
         view = self.create_new_instance(self)
 
+        if isinstance(index, torch.Tensor):
+            index = index.numpy()
+
         if copy:
             view._states = np.empty_like(self._states)
             view._actions = np.empty_like(self._actions)
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index fcbf676..6f24c62 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -1,3 +1,4 @@
+import numpy as np
 import torch
 
 from mushroom_rl.core.serialization import Serializable
@@ -149,6 +150,9 @@ class TorchDataset(Serializable):
     def get_view(self, index, copy=False):
         view = self.create_new_instance(self)
 
+        if isinstance(index, np.ndarray):
+            index = torch.from_numpy(index)
+
         if copy:
             view._states = torch.empty_like(self._states)
             view._actions = torch.empty_like(self._actions)
diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 4af8c20..5b7aee6 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -228,6 +228,10 @@ class ExtraInfo(Serializable, UserDict):
             copy (bool): wether content of ExtraInfo object should be copied
         """
         self.parse()
+        if not isinstance(index, (int, slice)):
+            to = 'torch' if self._array_backend.get_backend_name() == 'torch' else 'numpy'
+            index = ArrayBackend.convert(index, to=to)
+
         info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
         info._key_mapping = self._key_mapping.copy()
         info._shape_mapping = self._shape_mapping.copy()
-- 
2.43.0


From 0eeacd60fd8c8047dc79d13f958876e8fbd841f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:13 +0000
Subject: [PATCH 15/74] fix: conversion of arrays to the list backend

---
 mushroom_rl/core/array_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 9ba1afe..ed7ef70 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -40,12 +40,12 @@ class ArrayBackend(object):
             to = cls.get_backend_name()
         if backend is None:
             backend = ArrayBackend.get_array_backend_from(arrays[0])
-        if to == 'numpy':
+        if to == 'numpy' or to == 'list':  # the arrays of the list backend are numpy arrays
             return backend.arrays_to_numpy(*arrays) if len(arrays) > 1 else backend.arrays_to_numpy(*arrays)[0]
         elif to == 'torch':
             return backend.arrays_to_torch(*arrays) if len(arrays) > 1 else backend.arrays_to_torch(*arrays)[0]
         else:
-            return NotImplementedError
+            raise NotImplementedError
 
     @staticmethod
     def convert_to_backend(cls, array):
-- 
2.43.0


From 1342de0d839d96a0244b905f64f1da077a24e10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:42 +0000
Subject: [PATCH 16/74] fix: adding n-step returns to a replay memory does not
 overwrite the rewards of the given dataset

---
 mushroom_rl/rl_utils/replay_memory.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 8b5fb03..a2ddaaa 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -67,6 +67,9 @@ class ReplayMemory(Serializable):
         else:
             policy_state, policy_next_state = (None, None)
 
+        if n_steps_return > 1:
+            reward = self._dataset.array_backend.copy(reward)
+
         # TODO: implement vectorized n_step_return to avoid loop
         i = 0
         while i < len(dataset) - n_steps_return + 1:
@@ -317,6 +320,9 @@ class SumTree(Serializable):
         else:
             policy_state, policy_next_state = (None, None)
 
+        if n_steps_return > 1:
+            reward = self.dataset.array_backend.copy(reward)
+
         # TODO: implement vectorized n_step_return to avoid loop
         i = 0
         while i < len(dataset) - n_steps_return + 1:
-- 
2.43.0


From 75a9b56b6d3bcef93ef52910fc7eb15cd9625a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:42 +0000
Subject: [PATCH 17/74] fix: sampled sequences do not mix the newest and the
 oldest samples of a full memory

---
 mushroom_rl/rl_utils/replay_memory.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index a2ddaaa..6d47ab9 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -226,6 +226,11 @@ class SequenceReplayMemory(ReplayMemory):
                 begin_seq = np.maximum(i - self._truncation_length + 1, 0)
                 end_seq = i + 1
 
+                # when the memory is full, the oldest sample does not follow the newest one
+                first_of_memory = self._idx if self._full else 0
+                if begin_seq < first_of_memory <= i:
+                    begin_seq = first_of_memory
+
                 # the sequence can contain more than one trajectory, check to only include one
                 lasts_absorbing = self._dataset.last[begin_seq: i]
                 begin_traj = self._backend.where(lasts_absorbing > 0)
@@ -235,7 +240,7 @@ class SequenceReplayMemory(ReplayMemory):
                     begin_seq = begin_seq + begin_traj[0][-1] + 1
 
                 # determine prev action
-                if more_than_one_traj or begin_seq == 0 or self._dataset.last[begin_seq-1]:
+                if more_than_one_traj or begin_seq in [0, first_of_memory] or self._dataset.last[begin_seq-1]:
                     prev_actions = self._dataset.action[begin_seq:end_seq - 1]
                     init_prev_action = self._backend.zeros(1, *self._action_space_shape)
                     if len(prev_actions) == 0:
-- 
2.43.0


From 6d0e05f40f2b119b8e0d44e014647e513c52db74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:42 +0000
Subject: [PATCH 18/74] fix: sequences can be sampled from memories of
 stateless policies

---
 mushroom_rl/rl_utils/replay_memory.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 6d47ab9..3a7aa28 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -212,8 +212,9 @@ class SequenceReplayMemory(ReplayMemory):
                                  dtype=self._mdp_info.observation_space.data_type)
         ab = self._backend.zeros(n_samples, 1, dtype=int)
         last = self._backend.zeros(n_samples, dtype=int)
-        ps = self._backend.zeros(n_samples, self._truncation_length, *self._agent_info.policy_state_shape)
-        nps = self._backend.zeros(n_samples, self._truncation_length, *self._agent_info.policy_state_shape)
+        if self._dataset.is_stateful:
+            ps = self._backend.zeros(n_samples, self._truncation_length, *self._agent_info.policy_state_shape)
+            nps = self._backend.zeros(n_samples, self._truncation_length, *self._agent_info.policy_state_shape)
         pa = self._backend.zeros(n_samples, self._truncation_length, *self._mdp_info.action_space.shape,
                                  dtype=self._mdp_info.action_space.data_type)
         lengths = list()
@@ -254,8 +255,9 @@ class SequenceReplayMemory(ReplayMemory):
                 s[num, :end_seq-begin_seq] = self._dataset.state[begin_seq:end_seq]
                 ss[num, :end_seq-begin_seq] = self._dataset.next_state[begin_seq:end_seq]
                 a[num, :end_seq-begin_seq] = self._dataset.action[begin_seq:end_seq]
-                ps[num, :end_seq-begin_seq] = self._dataset.policy_state[begin_seq:end_seq]
-                nps[num, :end_seq-begin_seq] = self._dataset.policy_next_state[begin_seq:end_seq]
+                if self._dataset.is_stateful:
+                    ps[num, :end_seq-begin_seq] = self._dataset.policy_state[begin_seq:end_seq]
+                    nps[num, :end_seq-begin_seq] = self._dataset.policy_next_state[begin_seq:end_seq]
                 pa[num, :end_seq-begin_seq] = prev_actions
                 r[num] = self._dataset.reward[i]
                 ab[num] = self._dataset.absorbing[i]
-- 
2.43.0


From 126019deb647eac576a71d64d55346856b5aec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:42 +0000
Subject: [PATCH 19/74] fix: prioritized sampling stays proportional to the
 priorities below nodes with equal priorities

---
 mushroom_rl/rl_utils/replay_memory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 3a7aa28..4c65267 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -438,6 +438,9 @@ class SumTree(Serializable):
             return idx
 
         if self._tree[left] == self._tree[right]:
+            if s > self._tree[left]:
+                s = s - self._tree[left]
+
             return self._retrieve(s, np.random.choice([left, right]))
 
         if s <= self._tree[left]:
-- 
2.43.0


From 058f0c76487f9ff1f30893e7f1c6c53ed67db1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:42 +0000
Subject: [PATCH 20/74] fix: prioritized replay memories saved without their
 samples are empty when loaded

---
 mushroom_rl/rl_utils/replay_memory.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 4c65267..c6c2da6 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -299,9 +299,9 @@ class SumTree(Serializable):
         super().__init__()
         self._add_save_attr(
             _max_size="primitive",
-            _idx="primitive",
-            _full="primitive",
-            _tree="numpy",
+            _idx="primitive!",
+            _full="primitive!",
+            _tree="numpy!",
             _mdp_info="mushroom",
             _agent_info="mushroom",
             dataset="mushroom!")
@@ -480,6 +480,9 @@ class SumTree(Serializable):
         if self.dataset is None:
             dataset_info = DatasetInfo.create_replay_memory_info(self._mdp_info, self._agent_info)
             self.dataset = Dataset(dataset_info, n_steps=self._max_size)
+            self._tree = np.zeros(2 * self._max_size - 1)
+            self._idx = 0
+            self._full = False
 
 
 class PrioritizedReplayMemory(Serializable):
-- 
2.43.0


From b9e3f177f3f3e55e7fe5c6687cd58553412e2f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:39 +0000
Subject: [PATCH 21/74] fix: load the MushroomRL objects that are saved only by
 a full save

---
 mushroom_rl/core/serialization.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mushroom_rl/core/serialization.py b/mushroom_rl/core/serialization.py
index fc0a2a3..b76d618 100644
--- a/mushroom_rl/core/serialization.py
+++ b/mushroom_rl/core/serialization.py
@@ -124,8 +124,7 @@ class Serializable(object):
 
                 if method == 'primitive' and att in primitive_dictionary:
                     setattr(loaded_object, att, primitive_dictionary[att])
-                elif file_name in zip_file.namelist() or \
-                        (method == 'mushroom' and mandatory):
+                elif file_name in zip_file.namelist() or method == 'mushroom':
                     load_method = getattr(cls, '_load_{}'.format(method))
                     if load_method is None:
                         raise NotImplementedError('Method _load_{} is not'
-- 
2.43.0


From 0758d23bc68b979f1606ba2623fc234b6e6de746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:24 +0000
Subject: [PATCH 22/74] fix: save the device of dataset info

---
 mushroom_rl/core/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index f7ee5fe..5e68fac 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -31,6 +31,7 @@ class DatasetInfo(Serializable):
 
         self._add_save_attr(
             backend='primitive',
+            device='primitive',
             gamma='primitive',
             horizon='primitive',
             state_shape='primitive',
-- 
2.43.0


From 1bd9b000555c0602edfbd32fb5949affda784686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:21 +0000
Subject: [PATCH 23/74] fix: save the policy states and the mask of torch and
 list datasets

---
 mushroom_rl/core/_impl/list_dataset.py  | 3 ++-
 mushroom_rl/core/_impl/torch_dataset.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index 79cab4f..5f78608 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -175,6 +175,7 @@ class ListDataset(Serializable):
         self._add_save_attr(
             _dataset='pickle',
             _policy_dataset='pickle',
-            _is_stateful='primitive'
+            _is_stateful='primitive',
+            _mask='pickle'
         )
 
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 6f24c62..4288f65 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -287,7 +287,8 @@ class TorchDataset(Serializable):
             _next_states='torch',
             _absorbing='torch',
             _last='torch',
-            _policy_states='numpy',
-            _policy_next_states='numpy',
+            _policy_states='torch',
+            _policy_next_states='torch',
+            _mask='torch',
             _len='primitive'
         )
\ No newline at end of file
-- 
2.43.0


From 21c3110d3eaad9ecddcc879a5b5d18f906167f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 24/74] fix: each step of vectorized environments is used by
 exactly one fit

---
 .../core/_impl/vectorized_core_logic.py       |  4 ++
 mushroom_rl/core/dataset.py                   | 58 +++++++++----------
 mushroom_rl/core/vectorized_core.py           |  2 +-
 3 files changed, 31 insertions(+), 33 deletions(-)

diff --git a/mushroom_rl/core/_impl/vectorized_core_logic.py b/mushroom_rl/core/_impl/vectorized_core_logic.py
index 24ec612..a4e9b3a 100644
--- a/mushroom_rl/core/_impl/vectorized_core_logic.py
+++ b/mushroom_rl/core/_impl/vectorized_core_logic.py
@@ -64,7 +64,11 @@ class VectorizedCoreLogic(CoreLogic):
         self._episodes_progress_bar.update(completed)
 
     def after_fit_vectorized(self, last):
+        n_steps = self._current_steps_counter
         super().after_fit()
+        if self._n_steps_per_fit is not None:
+            self._current_steps_counter = n_steps - self._n_steps_per_fit
+
         if self._n_episodes_per_fit is not None:
             self._running_envs = self._array_backend.zeros(self._n_envs, dtype=bool)
             return self._array_backend.ones(self._n_envs, dtype=bool)
diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 5e68fac..4783f57 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -571,17 +571,13 @@ class VectorizedDataset(Dataset):
 
         residual_data = None
         if n_steps_per_fit is not None:
-            n_steps_dataset = self._data.mask.sum().item()
+            residual_mask = self._data.mask & ~self._first_steps_mask(n_steps_per_fit)
 
-            if n_steps_dataset > n_steps_per_fit:
-                n_extra_steps = n_steps_dataset - n_steps_per_fit
-                n_parallel_steps = int(np.ceil(n_extra_steps / self._dataset_info.n_envs))
+            if residual_mask.any():
+                n_parallel_steps = residual_mask.any(1).sum().item()
                 view_size = slice(-n_parallel_steps, None)
                 residual_data = self._data.get_view(view_size, copy=True)
-                mask = residual_data.mask
-                original_shape = mask.shape
-                mask.flatten()[n_extra_steps:] = False
-                residual_data.mask = mask.reshape(original_shape)
+                residual_data.mask = residual_mask[view_size]
 
                 residual_info = self._info.get_view(view_size, copy=True)
                 residual_episode_info = self._episode_info.get_view(view_size, copy=True)
@@ -598,39 +594,29 @@ class VectorizedDataset(Dataset):
         if len(self) == 0:
             return None
 
-        states = self._array_backend.pack_padded_sequence(self._data.state, self._data.mask)
-        actions = self._array_backend.pack_padded_sequence(self._data.action, self._data.mask)
-        rewards = self._array_backend.pack_padded_sequence(self._data.reward, self._data.mask)
-        next_states = self._array_backend.pack_padded_sequence(self._data.next_state, self._data.mask)
-        absorbings = self._array_backend.pack_padded_sequence(self._data.absorbing, self._data.mask)
+        mask = self._first_steps_mask(n_steps_per_fit)
 
-        last_padded = self._data.last
-        last_padded[-1, :] = True
-        lasts = self._array_backend.pack_padded_sequence(last_padded, self._data.mask)
+        states = self._array_backend.pack_padded_sequence(self._data.state, mask)
+        actions = self._array_backend.pack_padded_sequence(self._data.action, mask)
+        rewards = self._array_backend.pack_padded_sequence(self._data.reward, mask)
+        next_states = self._array_backend.pack_padded_sequence(self._data.next_state, mask)
+        absorbings = self._array_backend.pack_padded_sequence(self._data.absorbing, mask)
+
+        # the trajectory of each environment is interrupted after its last step in the flat dataset
+        interrupted = mask & (mask.cumsum(0) == mask.sum(0))
+        lasts = self._array_backend.pack_padded_sequence(self._data.last | interrupted, mask)
 
         policy_state = None
         policy_next_state = None
 
         if self._data.is_stateful:
-            policy_state = self._array_backend.pack_padded_sequence(self._data.policy_state, self._data.mask)
-            policy_next_state = self._array_backend.pack_padded_sequence(self._data.policy_next_state, self._data.mask)
-
-        if n_steps_per_fit is not None:
-            states = states[:n_steps_per_fit]
-            actions = actions[:n_steps_per_fit]
-            rewards = rewards[:n_steps_per_fit]
-            next_states = next_states[:n_steps_per_fit]
-            absorbings = absorbings[:n_steps_per_fit]
-            lasts = lasts[:n_steps_per_fit]
-
-            if self._data.is_stateful:
-                policy_state = policy_state[:n_steps_per_fit]
-                policy_next_state = policy_next_state[:n_steps_per_fit]
+            policy_state = self._array_backend.pack_padded_sequence(self._data.policy_state, mask)
+            policy_next_state = self._array_backend.pack_padded_sequence(self._data.policy_next_state, mask)
 
         flat_theta_list = self._flatten_theta_list()
 
-        flat_info = self._info.flatten(self.mask)
-        flat_episode_info = self._episode_info.flatten(self.mask)
+        flat_info = self._info.flatten(mask)
+        flat_episode_info = self._episode_info.flatten(mask)
 
         return Dataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
                                   policy_state=policy_state, policy_next_state=policy_next_state,
@@ -638,6 +624,14 @@ class VectorizedDataset(Dataset):
                                   horizon=self._dataset_info.horizon, gamma=self._dataset_info.gamma,
                                   backend=self._array_backend.get_backend_name())
 
+    def _first_steps_mask(self, n_steps):
+        mask = self._data.mask
+
+        if n_steps is None:
+            return mask
+
+        return mask & (mask.flatten().cumsum(0).reshape(mask.shape) <= n_steps)
+
     def _flatten_theta_list(self):
         flat_theta_list = list()
 
diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 58fdf5d..f9823c1 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -120,7 +120,7 @@ class VectorCore(object):
 
             last = samples[5]
 
-            if self._core_logic.fit_required():
+            while self._core_logic.fit_required():
                 fit_dataset = dataset.flatten(self._core_logic.n_steps_per_fit)
                 self.agent.fit(fit_dataset)
                 last = self._core_logic.after_fit_vectorized(last)
-- 
2.43.0


From a11d179304e626bf321f4657e8acad4eff02acb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 25/74] fix: states of vectorized environments are preprocessed
 once at reset

---
 mushroom_rl/core/vectorized_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index f9823c1..bd8d780 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -183,7 +183,7 @@ class VectorCore(object):
             
         initial_state = self._core_logic.get_initial_state(initial_states)
 
-        state, episode_info = self._preprocess(self.env.reset_all(reset_mask, initial_state))
+        state, episode_info = self.env.reset_all(reset_mask, initial_state)
 
         policy_state, current_theta = self.agent.episode_start_vectorized(state, episode_info, reset_mask)
         if self._policy_state is None or policy_state is None:
-- 
2.43.0


From 836cec8f808b36204e6bdeffc42093c167be4cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 26/74] fix: evaluating after learning does not use the number
 of episodes per fit

---
 mushroom_rl/core/_impl/core_logic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/_impl/core_logic.py b/mushroom_rl/core/_impl/core_logic.py
index db187e3..74a442f 100644
--- a/mushroom_rl/core/_impl/core_logic.py
+++ b/mushroom_rl/core/_impl/core_logic.py
@@ -32,6 +32,9 @@ class CoreLogic(object):
             self.fit_required = self._fit_episodes_condition
 
     def initialize_evaluate(self):
+        self._n_steps_per_fit = None
+        self._n_episodes_per_fit = None
+
         self.fit_required = lambda: False
 
     def initialize_run(self, n_steps, n_episodes, initial_states, quiet):
-- 
2.43.0


From 7a5e0423fef31c6085271d02fd64922af9b8fe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 27/74] fix: initial states given to vectorized evaluations are
 assigned in order to the starting episodes

---
 mushroom_rl/core/_impl/vectorized_core_logic.py | 14 +++++++++-----
 mushroom_rl/core/vectorized_core.py             |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/core/_impl/vectorized_core_logic.py b/mushroom_rl/core/_impl/vectorized_core_logic.py
index a4e9b3a..1ecd28a 100644
--- a/mushroom_rl/core/_impl/vectorized_core_logic.py
+++ b/mushroom_rl/core/_impl/vectorized_core_logic.py
@@ -44,11 +44,15 @@ class VectorizedCoreLogic(CoreLogic):
 
         return mask
 
-    def get_initial_state(self, initial_states):
-        if initial_states is None or self._total_episodes_counter >= self._n_episodes:
-            initial_state = None
-        else:
-            initial_state = initial_states[self._total_episodes_counter]  # FIXME
+    def get_initial_state(self, initial_states, reset_mask):
+        if initial_states is None or not reset_mask.any():
+            return None
+
+        n_started_episodes = self._total_episodes_counter + (self._running_envs & ~reset_mask).sum().item()
+        n_starting_episodes = reset_mask.sum().item()
+
+        initial_state = self._array_backend.zeros(self._n_envs, *initial_states.shape[1:], dtype=initial_states.dtype)
+        initial_state[reset_mask] = initial_states[n_started_episodes:n_started_episodes + n_starting_episodes]
 
         return initial_state
 
diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index bd8d780..bacd701 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -181,7 +181,7 @@ class VectorCore(object):
         """
         reset_mask = last & mask
             
-        initial_state = self._core_logic.get_initial_state(initial_states)
+        initial_state = self._core_logic.get_initial_state(initial_states, reset_mask)
 
         state, episode_info = self.env.reset_all(reset_mask, initial_state)
 
-- 
2.43.0


From 9d874f6d18d4dfdb141fe2316db3157406dead60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 28/74] fix: environments in other processes are reset to the
 whole given initial state

---
 mushroom_rl/core/multiprocess_environment.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/core/multiprocess_environment.py b/mushroom_rl/core/multiprocess_environment.py
index 6f56685..cc09853 100644
--- a/mushroom_rl/core/multiprocess_environment.py
+++ b/mushroom_rl/core/multiprocess_environment.py
@@ -21,11 +21,8 @@ def _env_worker(remote, env_class, use_generator, args, kwargs):
                 res = env.step(action)
                 remote.send(res)
             elif cmd == 'reset':
-                if data is not None:
-                    init_states = data[0]
-                else:
-                    init_states = None
-                res = env.reset(init_states)
+                init_state = data
+                res = env.reset(init_state)
                 remote.send(res)
             elif cmd == 'render':
                 record = data
-- 
2.43.0


From 02949b6774f47141bc9eba6bac8aa131a0ca95f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:41 +0000
Subject: [PATCH 29/74] fix: idle vectorized environments do not end episodes

---
 mushroom_rl/core/vectorized_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index bacd701..d1a3096 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -118,7 +118,7 @@ class VectorCore(object):
 
             dataset.append_vectorized(samples, step_infos, mask)
 
-            last = samples[5]
+            last = samples[5] & mask
 
             while self._core_logic.fit_required():
                 fit_dataset = dataset.flatten(self._core_logic.n_steps_per_fit)
-- 
2.43.0


From 3280cb0fe185e08a958f3f059234b92ca1ef516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:55 +0000
Subject: [PATCH 30/74] fix: parameters depending on the variance have the
 requested size and no spurious maximum

---
 mushroom_rl/rl_utils/variance_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index d1186c1..347ee03 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -27,7 +27,7 @@ class VarianceParameter(Parameter):
         self._x2 = Table(size)
         self._parameter_value = Table(size)
 
-        super().__init__(value, min_value, size)
+        super().__init__(value, min_value, size=size)
 
         self._add_save_attr(
             _exponential='primitive',
@@ -142,7 +142,7 @@ class WindowedVarianceParameter(Parameter):
             _parameter_value='mushroom',
         )
 
-        super(WindowedVarianceParameter, self).__init__(value, min_value, size)
+        super(WindowedVarianceParameter, self).__init__(value, min_value, size=size)
 
     def _compute(self, *idx, **kwargs):
         return self._parameter_value[idx]
-- 
2.43.0


From b61b9c9958093adcd7908bc54b307f0ad5e9ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:55 +0000
Subject: [PATCH 31/74] fix: parameters decreasing with the variance are one
 half when the variance equals the tolerance

---
 mushroom_rl/rl_utils/variance_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index 347ee03..b5900f2 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -104,7 +104,7 @@ class VarianceDecreasingParameter(VarianceParameter):
         if self._exponential:
             return np.exp(sigma * np.log(.5) / self._tol)
         else:
-            return 1. / (sigma + self._tol)
+            return self._tol / (sigma + self._tol)
 
 
 class WindowedVarianceParameter(Parameter):
-- 
2.43.0


From 28b39f5e9513398d45d0f7fd33faabe27b74b15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:16 +0000
Subject: [PATCH 32/74] fix: windowed variance parameters with a single value

---
 mushroom_rl/rl_utils/variance_parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index b5900f2..968d9af 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -162,6 +162,9 @@ class WindowedVarianceParameter(Parameter):
         x = kwargs['target']
         factor = kwargs.get('factor', 1.)
 
+        if len(idx) == 0:
+            idx = (0,)
+
         # compute parameter value
         n = self._n_updates[idx]
         self._n_updates[idx] += 1
-- 
2.43.0


From f035e116d8e96d0315c8479791cd148f7589ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:08 +0000
Subject: [PATCH 33/74] fix: the Adam optimizer saves its epsilon

---
 mushroom_rl/rl_utils/optimizers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/rl_utils/optimizers.py b/mushroom_rl/rl_utils/optimizers.py
index c59c7f3..47335f0 100644
--- a/mushroom_rl/rl_utils/optimizers.py
+++ b/mushroom_rl/rl_utils/optimizers.py
@@ -147,6 +147,7 @@ class AdamOptimizer(Optimizer):
                             _v='numpy',
                             _beta1='primitive',
                             _beta2='primitive',
+                            _eps='primitive',
                             _t='primitive'
                             )
 
-- 
2.43.0


From 56657cd68cfff432b04488978736d72bb4e60c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:08 +0000
Subject: [PATCH 34/74] fix: DDPG computes the values of absorbing next states

---
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
index 57e3bd3..3d6083b 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
@@ -134,7 +134,7 @@ class DDPG(DeepAC):
         a = self._target_actor_approximator.predict(next_state, **self._actor_predict_params)
 
         q = self._target_critic_approximator.predict(next_state, a, **self._critic_predict_params)
-        q *= 1 - absorbing
+        q *= 1 - absorbing.int()
 
         return q
 
-- 
2.43.0


From 953268b992b087fd6674246534468a8f1f50881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:34 +0000
Subject: [PATCH 35/74] fix: TD3 computes the values of the next states

---
 .../actor_critic/deep_actor_critic/td3.py       | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
index 65cf027..7a214af 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
@@ -1,8 +1,9 @@
-import numpy as np
+import torch
 
 from mushroom_rl.algorithms.actor_critic.deep_actor_critic import DDPG
 from mushroom_rl.policy import Policy
 from mushroom_rl.rl_utils.parameters import to_parameter
+from mushroom_rl.utils.torch import TorchUtils
 
 
 class TD3(DDPG):
@@ -79,16 +80,16 @@ class TD3(DDPG):
             action returned by the actor.
 
         """
-        a = self._target_actor_approximator(next_state, **self._actor_predict_params)
+        a = self._target_actor_approximator.predict(next_state, **self._actor_predict_params)
 
-        low = self.mdp_info.action_space.low
-        high = self.mdp_info.action_space.high
-        eps = np.random.normal(scale=self._noise_std(), size=a.shape)
-        eps_clipped = np.clip(eps, -self._noise_clip(), self._noise_clip.get_value())
-        a_smoothed = np.clip(a + eps_clipped, low, high)
+        low = TorchUtils.to_float_tensor(self.mdp_info.action_space.low)
+        high = TorchUtils.to_float_tensor(self.mdp_info.action_space.high)
+        eps = self._noise_std() * torch.randn_like(a)
+        eps_clipped = torch.clamp(eps, -self._noise_clip(), self._noise_clip.get_value())
+        a_smoothed = torch.clamp(a + eps_clipped, low, high)
 
         q = self._target_critic_approximator.predict(next_state, a_smoothed,
                                                      prediction='min', **self._critic_predict_params)
-        q *= 1 - absorbing
+        q *= 1 - absorbing.int()
 
         return q
-- 
2.43.0


From e73540ae7258536bf46bd8d684d6d70b05281270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:34 +0000
Subject: [PATCH 36/74] fix: PPO_BPTT saves its truncation length

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 1fb1551..31037d3 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -67,7 +67,8 @@ class PPO_BPTT(OnPolicyDeepAC):
             _lambda='mushroom',
             _V='mushroom',
             _iter='primitive',
-            _dim_env_state='primitive'
+            _dim_env_state='primitive',
+            _truncation_length='primitive'
         )
 
     def fit(self, dataset):
-- 
2.43.0


From b6e3a89a6a31a1a015caf951db192ac04c2c34ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:34 +0000
Subject: [PATCH 37/74] fix: the first sequences of PPO_BPTT do not contain
 more than one trajectory

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 31037d3..1c28c73 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -112,11 +112,11 @@ class PPO_BPTT(OnPolicyDeepAC):
                 end_seq = i + 1
 
                 # the sequence may contain more than one trajectory, we need to cut it so that it contains only one
-                lasts_absorbing = last[begin_seq - 1: i].int() + absorbing[begin_seq - 1: i].int()
+                lasts_absorbing = last[begin_seq: i].int() + absorbing[begin_seq: i].int()
                 begin_traj = torch.where(lasts_absorbing > 0)
                 sequence_is_shorter_than_requested = len(*begin_traj) > 0
                 if sequence_is_shorter_than_requested:
-                    begin_seq = begin_seq + begin_traj[0][-1]
+                    begin_seq = begin_seq + begin_traj[0][-1] + 1
 
                 # get the sequences
                 states_old_seq = states_old[begin_seq:end_seq]
-- 
2.43.0


From be86a7f0ee6a16835cbe2ac15793069747118ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:34 +0000
Subject: [PATCH 38/74] fix: recurrent policies compute the probability of
 actions with a single component

---
 mushroom_rl/policy/recurrent_torch_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index 5196084..21f37c4 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -35,7 +35,7 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         return action, policy_state
 
     def log_prob_t(self, state, action, policy_state, lengths):
-        return self.distribution_t(state, policy_state, lengths).log_prob(action.squeeze())[:, None]
+        return self.distribution_t(state, policy_state, lengths).log_prob(action)[:, None]
 
     def entropy_t(self, state=None):
         return self._action_dim / 2 * np.log(2 * np.pi * np.e) + torch.sum(self._log_sigma)
-- 
2.43.0


From d3ef99bd3dd0fc7cc8df72d2b2af25088caf17e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:34 +0000
Subject: [PATCH 39/74] fix: recurrent policies save the bounds of their
 standard deviation

---
 mushroom_rl/policy/recurrent_torch_policy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index 21f37c4..e46627b 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -14,6 +14,11 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         self._log_std_min = to_parameter(log_std_min)
         self._log_std_max = to_parameter(log_std_max)
 
+        self._add_save_attr(
+            _log_std_min='mushroom',
+            _log_std_max='mushroom'
+        )
+
     def reset(self):
         return torch.zeros(self.policy_state_shape)
 
-- 
2.43.0


From 2ac6d272d29afcb596a1fb1df608478fae9e590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:34 +0000
Subject: [PATCH 40/74] fix: the optimizer of a loaded ePPO agent updates its
 distribution

---
 .../algorithms/policy_search/black_box_optimization/eppo.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
index 7beb2ef..6f946a1 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
@@ -3,6 +3,7 @@ import torch
 from mushroom_rl.algorithms.policy_search.black_box_optimization import BlackBoxOptimization
 from mushroom_rl.utils.minibatches import minibatch_generator
 from mushroom_rl.rl_utils.parameters import to_parameter
+from mushroom_rl.utils.torch import TorchUtils
 
 
 class ePPO(BlackBoxOptimization):
@@ -74,3 +75,7 @@ class ePPO(BlackBoxOptimization):
             context_i = None
 
         return theta_i, context_i, Jep_i, old_dist_i
+
+    def _post_load(self):
+        if self._optimizer is not None:
+            TorchUtils.update_optimizer_parameters(self._optimizer, list(self.distribution.parameters()))
-- 
2.43.0


From d880418815a6da70cf571f0ee339dd0ba9aa0af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:36 +0000
Subject: [PATCH 41/74] fix: agents with noisy networks can be copied

---
 mushroom_rl/algorithms/value/dqn/noisy_dqn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/value/dqn/noisy_dqn.py b/mushroom_rl/algorithms/value/dqn/noisy_dqn.py
index 8f502e7..c9f0a1f 100644
--- a/mushroom_rl/algorithms/value/dqn/noisy_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/noisy_dqn.py
@@ -48,10 +48,11 @@ class NoisyNetwork(nn.Module):
             eps_dot = torch.matmul(self._noise(eps_output), self._noise(eps_input))
             weight = self.mu_weight + self.sigma_weight * eps_dot
 
+            bias = None
             if hasattr(self, 'mu_bias'):
-                self.bias = self.mu_bias + self.sigma_bias * self._noise(eps_output[:, 0])
+                bias = self.mu_bias + self.sigma_bias * self._noise(eps_output[:, 0])
 
-            return F.linear(input, weight, self.bias)
+            return F.linear(input, weight, bias)
 
         @staticmethod
         def _noise(x):
-- 
2.43.0


From 92f30aed2ff8d760cb408a9eb3f23407a7e8e279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:36 +0000
Subject: [PATCH 42/74] fix: MORE saves the models of the surrogate

---
 .../policy_search/black_box_optimization/more.py       | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
index 12356ca..881cd75 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
@@ -52,9 +52,13 @@ class MORE(BlackBoxOptimization):
         super().__init__(mdp_info, distribution, policy)
 
         self._add_save_attr(
-            eps='primitive',
-            h0='primitive',
-            kappa='primitive'
+            eps='mushroom',
+            h0='mushroom',
+            kappa='mushroom',
+            phi_quadratic_='pickle',
+            regressor_quadratic='mushroom',
+            phi_linear_='pickle',
+            regressor_linear='mushroom'
         )
 
     def _update(self, Jep, theta, context):
-- 
2.43.0


From 74ffb32f2154a4ad9412e3f60e0084c713a1db26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:36 +0000
Subject: [PATCH 43/74] fix: DDPG and TD3 learn with policies that have a state

---
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
index 3d6083b..454403b 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
@@ -96,7 +96,7 @@ class DDPG(DeepAC):
     def fit(self, dataset):
         self._replay_memory.add(dataset)
         if self._replay_memory.initialized:
-            state, action, reward, next_state, absorbing, _ = self._replay_memory.get(self._batch_size())
+            state, action, reward, next_state, absorbing, *_ = self._replay_memory.get(self._batch_size())
 
             q_next = self._next_q(next_state, absorbing)
             q = reward + self.mdp_info.gamma * q_next
-- 
2.43.0


From 5f10347d2fadd05ac882a8255275e924441c3a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:36 +0000
Subject: [PATCH 44/74] fix: loaded COPDAC_Q agents update their policy

---
 .../algorithms/actor_critic/classic_actor_critic/copdac_q.py   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
index f571b8d..f558ea6 100644
--- a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
+++ b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
@@ -97,3 +97,6 @@ class COPDAC_Q(Agent):
         delta = action - self._mu(state)
 
         return delta.dot(grad_mu)
+
+    def _post_load(self):
+        self._mu = self.policy._approximator
-- 
2.43.0


From 91fdb3d7f8af6e62bb3fab1a11f3af55b37de67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:08 +0000
Subject: [PATCH 45/74] fix: objects saved with the torch method can be loaded
 with torch >= 2.6

---
 mushroom_rl/core/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/serialization.py b/mushroom_rl/core/serialization.py
index b76d618..49adb8f 100644
--- a/mushroom_rl/core/serialization.py
+++ b/mushroom_rl/core/serialization.py
@@ -209,7 +209,7 @@ class Serializable(object):
     @staticmethod
     def _load_torch(zip_file, name):
         with zip_file.open(name, 'r') as f:
-            return torch.load(f, map_location=TorchUtils.get_device())
+            return torch.load(f, map_location=TorchUtils.get_device(), weights_only=False)
 
     @staticmethod
     def _load_json(zip_file, name):
-- 
2.43.0


From 2ea603b745896756ef4e42ed51c00162a6040299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:08 +0000
Subject: [PATCH 46/74] fix: Mellowmax policy uses one value of omega per
 evaluation

---
 mushroom_rl/policy/td_policy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/policy/td_policy.py b/mushroom_rl/policy/td_policy.py
index 9665802..fe8e81d 100644
--- a/mushroom_rl/policy/td_policy.py
+++ b/mushroom_rl/policy/td_policy.py
@@ -196,8 +196,8 @@ class Mellowmax(Boltzmann):
 
         def __call__(self, state):
             q = self._outer._approximator.predict(state, **self._outer._predict_params)
-            mm = (logsumexp(q * self._omega(state)) - np.log(
-                q.size)) / self._omega(state)
+            omega = self._omega(state)
+            mm = (logsumexp(q * omega) - np.log(q.size)) / omega
 
             def f(beta):
                 v = q - mm
-- 
2.43.0


From 13fd5bb239d98547d7765cf68e54246556bf521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:43 +0000
Subject: [PATCH 47/74] fix: the Monte Carlo advantage of a single sample can
 be computed

---
 mushroom_rl/rl_utils/value_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/value_functions.py b/mushroom_rl/rl_utils/value_functions.py
index 3b6b338..1efebb7 100644
--- a/mushroom_rl/rl_utils/value_functions.py
+++ b/mushroom_rl/rl_utils/value_functions.py
@@ -23,7 +23,7 @@ def compute_advantage_montecarlo(V, s, ss, r, absorbing, gamma):
         and the advantage function.
     """
     with torch.no_grad():
-        r = r.squeeze()
+        r = r.reshape(-1)
         q = torch.zeros(len(r))
         v = V(s).squeeze()
 
-- 
2.43.0


From 14016194eecea0194e25c5a5d81719dd4b3100dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:15 +0000
Subject: [PATCH 48/74] fix: optimizers that minimize do not negate the
 gradient of the caller in place

---
 mushroom_rl/rl_utils/optimizers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/optimizers.py b/mushroom_rl/rl_utils/optimizers.py
index 47335f0..9dd2d96 100644
--- a/mushroom_rl/rl_utils/optimizers.py
+++ b/mushroom_rl/rl_utils/optimizers.py
@@ -75,7 +75,7 @@ class AdaptiveOptimizer(Optimizer):
             grads = args[1]
         lr = self.get_value(*args, **kwargs)
         if not self._maximize:
-            grads *= -1
+            grads = -grads
         return params + lr * grads
 
     def get_value(self, *args, **kwargs):
@@ -114,7 +114,7 @@ class SGDOptimizer(Optimizer):
 
     def __call__(self, params, grads):
         if not self._maximize:
-            grads *= -1
+            grads = -grads
         return params + self._lr() * grads
 
 
@@ -153,7 +153,7 @@ class AdamOptimizer(Optimizer):
 
     def __call__(self, params, grads):
         if not self._maximize:
-            grads *= -1
+            grads = -grads
 
         if self._m is None:
             self._t = 0
-- 
2.43.0


From e883ee882ef3c6a843f5c03734ba403057309f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:15 +0000
Subject: [PATCH 49/74] fix: vector policies keep the policy states and can
 change their number of policies

---
 mushroom_rl/policy/vector_policy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/policy/vector_policy.py b/mushroom_rl/policy/vector_policy.py
index ac2ec1d..fefaaaa 100644
--- a/mushroom_rl/policy/vector_policy.py
+++ b/mushroom_rl/policy/vector_policy.py
@@ -30,16 +30,16 @@ class VectorPolicy(ParametricPolicy):
             actions.append(action)
 
             if policy_next_state is not None:
-                policy_next_state.append(policy_next_state)
+                policy_next_states.append(policy_next_state)
 
-        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_state)
+        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_states)
 
     def set_n(self, n_envs):
-        if len(self) < n_envs:
-            self._policy_vector = self._policy_vector[:n_envs]
         if len(self) > n_envs:
+            self._policy_vector = self._policy_vector[:n_envs]
+        elif len(self) < n_envs:
             n_missing = n_envs - len(self)
-            self._policy_vector += [self._policy_vector[0] for _ in range(n_missing)]
+            self._policy_vector += [deepcopy(self._policy_vector[0]) for _ in range(n_missing)]
 
     def get_flat_policy(self):
         return self._policy_vector[0]
-- 
2.43.0


From 30079b65acf318a543c63ec68daf69da1a9f8994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:15 +0000
Subject: [PATCH 50/74] fix: black box optimization with vectorized
 environments and no context

---
 .../black_box_optimization/black_box_optimization.py        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
index f7d0daa..8abfc98 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
@@ -64,11 +64,13 @@ class BlackBoxOptimization(Agent):
 
         theta = self.policy.get_weights()
         if start_mask.any():
-            context = self._context_builder(initial_states, **episode_info)[start_mask]
+            context = None
+            if self.distribution.is_contextual:
+                context = self._context_builder(initial_states, **episode_info)[start_mask]
 
             if self._deterministic:
                 if context is not None:
-                    theta[start_mask] = self.distribution.mean(context[start_mask])
+                    theta[start_mask] = self.distribution.mean(context)
                 else:
                     theta[start_mask] = self._agent_backend.from_list(
                         [self.distribution.mean() for _ in range(start_mask.sum())])
-- 
2.43.0


From 0e82b55398b1f533a353d50f37c123ce9ffd9b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:48 +0000
Subject: [PATCH 51/74] fix: maximum likelihood of one dimensional Gaussian
 distributions with a Cholesky factor

---
 mushroom_rl/distributions/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/distributions/gaussian.py b/mushroom_rl/distributions/gaussian.py
index 8a278fb..53ddf41 100644
--- a/mushroom_rl/distributions/gaussian.py
+++ b/mushroom_rl/distributions/gaussian.py
@@ -333,7 +333,7 @@ class GaussianCholeskyDistribution(Distribution):
     def mle(self, theta, weights=None):
         if weights is None:
             self._mu = np.mean(theta, axis=0)
-            sigma = np.cov(theta, rowvar=False)
+            sigma = np.atleast_2d(np.cov(theta, rowvar=False))
         else:
             sumD = np.sum(weights)
             sumD2 = np.sum(weights**2)
-- 
2.43.0


From 9e2a6f1dc653ad5da820f9bd595ae0791200b0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:25 +0000
Subject: [PATCH 52/74] fix: grids whose file does not end with a newline keep
 their last row

---
 mushroom_rl/environments/generators/grid_world.py | 3 +++
 mushroom_rl/environments/generators/taxi.py       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mushroom_rl/environments/generators/grid_world.py b/mushroom_rl/environments/generators/grid_world.py
index 1f4a2a3..45d4706 100644
--- a/mushroom_rl/environments/generators/grid_world.py
+++ b/mushroom_rl/environments/generators/grid_world.py
@@ -71,6 +71,9 @@ def parse_grid(grid):
             else:
                 raise ValueError('Unknown marker.')
 
+        if row:
+            grid_map.append(row)
+
     return grid_map, cell_list
 
 
diff --git a/mushroom_rl/environments/generators/taxi.py b/mushroom_rl/environments/generators/taxi.py
index 2ef85d6..57799dc 100644
--- a/mushroom_rl/environments/generators/taxi.py
+++ b/mushroom_rl/environments/generators/taxi.py
@@ -83,6 +83,9 @@ def parse_grid(grid):
             else:
                 raise ValueError('Unknown marker.')
 
+        if row:
+            grid_map.append(row)
+
     return grid_map, cell_list, passenger_list
 
 
-- 
2.43.0


From ced5da6de3ceffe520a4cf441666dae114c9beb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:25 +0000
Subject: [PATCH 53/74] fix: the bounds of the angle of the segway are not
 inverted

---
 mushroom_rl/environments/segway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/segway.py b/mushroom_rl/environments/segway.py
index 5cb8965..c4f3229 100644
--- a/mushroom_rl/environments/segway.py
+++ b/mushroom_rl/environments/segway.py
@@ -36,7 +36,7 @@ class Segway(Environment):
 
         self._random = random_start
 
-        high = np.array([-np.pi / 2, 15, 75])
+        high = np.array([np.pi / 2, 15, 75])
 
         # MDP properties
         dt = 1e-2
-- 
2.43.0


From 6fd573b2f8cc9d3d6254b2926b56bc07080697da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:25 +0000
Subject: [PATCH 54/74] fix: gradients of the LQR value functions can be
 computed on batches of states

---
 mushroom_rl/solvers/lqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/solvers/lqr.py b/mushroom_rl/solvers/lqr.py
index ffd0934..ccb0bb2 100644
--- a/mushroom_rl/solvers/lqr.py
+++ b/mushroom_rl/solvers/lqr.py
@@ -170,7 +170,7 @@ def compute_lqr_V_gaussian_policy_gradient_K(s, lqr, K, Sigma):
 
         dPi = vec_dPi.reshape(Q.shape)
 
-        dJ[:, i] = np.einsum('...k,kl,...l->...', s, dPi, s).reshape(-1, 1) \
+        dJ[:, i] = np.einsum('...k,kl,...l->...', s, dPi, s) \
                    + gamma * np.trace(Sigma @ B.T @ dPi @ B) / (1.0 - gamma)
 
     return -dJ
-- 
2.43.0


From 60865e0d468152e955d3f10652d551412756a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:34 +0000
Subject: [PATCH 55/74] fix: min-max preprocessing with a single bounded
 component, and without overwriting the observation

---
 mushroom_rl/rl_utils/preprocessors.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index 921b2e4..a6b7d4f 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -109,10 +109,10 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
 
         self._obs_mask = self._array_backend.concatenate(self._obs_mask)
 
-        assert self._obs_mask.sum() > 0, "All observations have unlimited/extremely large range, " \
-                                         "you should use StandardizationPreprocessor instead."
+        assert len(self._obs_mask) > 0, "All observations have unlimited/extremely large range, " \
+                                        "you should use StandardizationPreprocessor instead."
 
-        self._run_norm_obs = len(self._array_backend.squeeze(self._obs_mask)) != obs_low.shape[0]
+        self._run_norm_obs = len(self._obs_mask) != obs_low.shape[0]
 
         self._obs_mean = self._array_backend.zeros_like(obs_low)
         self._obs_delta = self._array_backend.ones_like(obs_low)
@@ -132,6 +132,8 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
 
         if self._run_norm_obs:
             obs = super(MinMaxPreprocessor, self).__call__(obs)
+        else:
+            obs = self._array_backend.copy(obs)
 
         obs[self._obs_mask] = \
             ((orig_obs - self._obs_mean) / self._obs_delta)[self._obs_mask]
-- 
2.43.0


From 8d6f9324ecb93f66fbc6bf055a57cf365b07e6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:34 +0000
Subject: [PATCH 56/74] fix: running window average of torch tensors with
 several components

---
 mushroom_rl/rl_utils/running_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/running_stats.py b/mushroom_rl/rl_utils/running_stats.py
index 3df64cd..05c94e0 100644
--- a/mushroom_rl/rl_utils/running_stats.py
+++ b/mushroom_rl/rl_utils/running_stats.py
@@ -212,4 +212,4 @@ class RunningAveragedWindow(Serializable):
             The estimated mean value.
 
         """
-        return self._array_backend.convert(self._avg_buffer).mean(0)
+        return sum(self._avg_buffer) / len(self._avg_buffer)
-- 
2.43.0


From 9df9625f0e49c956aefde94c2341546c3dcde0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:34 +0000
Subject: [PATCH 57/74] fix: torch features with a single basis function or
 feature

---
 mushroom_rl/features/_implementations/torch_features.py | 2 +-
 mushroom_rl/features/tensors/basis_tensor.py            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/features/_implementations/torch_features.py b/mushroom_rl/features/_implementations/torch_features.py
index 7129903..5e8de0b 100644
--- a/mushroom_rl/features/_implementations/torch_features.py
+++ b/mushroom_rl/features/_implementations/torch_features.py
@@ -15,7 +15,7 @@ class TorchFeatures(FeaturesImplementation):
         x = TorchUtils.to_float_tensor(np.atleast_2d(x))
 
         y_list = [self._phi[i].forward(x) for i in range(len(self._phi))]
-        y = torch.cat(y_list, 1).squeeze()
+        y = torch.cat(y_list, 1)
 
         y = y.detach().cpu().numpy()
 
diff --git a/mushroom_rl/features/tensors/basis_tensor.py b/mushroom_rl/features/tensors/basis_tensor.py
index 1f72131..5abe711 100644
--- a/mushroom_rl/features/tensors/basis_tensor.py
+++ b/mushroom_rl/features/tensors/basis_tensor.py
@@ -45,9 +45,9 @@ class GenericBasisTensor(nn.Module):
         phi = self._basis_function(delta, self._scale)
 
         if self._normalized:
-            return self._normalize(phi).squeeze(-1)
+            return self._normalize(phi)
         else:
-            return phi.squeeze(-1)
+            return phi
 
     def _basis_function(self, delta, scale):
         raise NotImplementedError
-- 
2.43.0


From aa8eeafb51e6c19c2560ea625d12dbf97c2605e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:52 +0000
Subject: [PATCH 58/74] fix: predictions, fits and derivatives of CMAC for
 single samples, one output and points outside the tilings

---
 mushroom_rl/approximators/parametric/cmac.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/mushroom_rl/approximators/parametric/cmac.py b/mushroom_rl/approximators/parametric/cmac.py
index 90b7c70..d9f3a40 100644
--- a/mushroom_rl/approximators/parametric/cmac.py
+++ b/mushroom_rl/approximators/parametric/cmac.py
@@ -41,18 +41,17 @@ class CMAC(LinearApproximator):
 
         """
         y_hat = self.predict(x)
-        delta_y = np.atleast_2d(y - y_hat)
-        if self._w.shape[0] > 1:
-            delta_y = delta_y.T
+        delta_y = np.reshape(y, y_hat.shape) - y_hat
 
         phi = np.atleast_2d(self._phi(x))
         sum_phi = np.sum(phi, axis=0)
         n = np.sum(phi, axis=1, keepdims=True)
+        n[n == 0] = 1.
         phi_n = phi / n
         sum_phi[sum_phi == 0] = 1.
 
-        delta_w = delta_y @ phi_n / sum_phi
-        self._w += alpha*delta_w
+        delta_w = delta_y.T @ phi_n / sum_phi
+        self._w = self._w + alpha*delta_w
 
     def predict(self, x, **predict_params):
         """
@@ -75,7 +74,7 @@ class CMAC(LinearApproximator):
         for i, idx in enumerate(indexes):
             prediction[i] = np.sum(self._w[:, idx], axis=-1)
 
-        return prediction.squeeze()
+        return prediction
 
     def diff(self, state, action=None):
         """
@@ -89,6 +88,4 @@ class CMAC(LinearApproximator):
             The derivative of the output w.r.t. ``state``, and ``action`` if provided.
 
         """
-
-        phi = self._phi(state)
-        return super().diff(phi, action)
+        return super().diff(state, action)
-- 
2.43.0


From 47c7733e422a0dcbd93ced7af94efcf08115484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:52 +0000
Subject: [PATCH 59/74] fix: ensembles of tables can predict a single value,
 and torch ensembles the variance with min and max

---
 mushroom_rl/approximators/ensemble.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mushroom_rl/approximators/ensemble.py b/mushroom_rl/approximators/ensemble.py
index d1f65c7..6edc969 100644
--- a/mushroom_rl/approximators/ensemble.py
+++ b/mushroom_rl/approximators/ensemble.py
@@ -91,11 +91,11 @@ class Ensemble(Serializable):
                     raise NotFittedError
 
             prediction = self._prediction if prediction is None else prediction
-            if isinstance(predictions[0], np.ndarray):
-                predictions = np.array(predictions)
-            else:
+            if isinstance(predictions[0], torch.Tensor):
                 predictions = torch.stack(predictions, axis=0)
                 torch_output = True
+            else:
+                predictions = np.array(predictions)
 
             if prediction == 'mean':
                 results = predictions.mean(0)
@@ -107,13 +107,14 @@ class Ensemble(Serializable):
                 results = predictions.max(0)
             else:
                 raise ValueError
+
+            if torch_output and (prediction == 'min' or prediction == 'max'):
+                results = results.values
+
             if compute_variance:
                 results = [results, predictions.var(0)]
 
-        if torch_output and (prediction == 'min' or prediction == 'max'):
-            return results.values
-        else:
-            return results
+        return results
 
     def reset(self):
         """
-- 
2.43.0


From 4367b91358c8e3b83f0013adcb9fe62fd1d72e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:48 +0000
Subject: [PATCH 60/74] fix: loggers that append do not mix the files of other
 seeds

---
 mushroom_rl/core/logger/data_logger.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mushroom_rl/core/logger/data_logger.py b/mushroom_rl/core/logger/data_logger.py
index 4426874..a0dd91f 100644
--- a/mushroom_rl/core/logger/data_logger.py
+++ b/mushroom_rl/core/logger/data_logger.py
@@ -1,4 +1,3 @@
-import re
 import pickle
 import numpy as np
 
@@ -126,6 +125,6 @@ class DataLogger(object):
         for file in self._results_dir.iterdir():
             if file.is_file() and file.suffix == '.npy':
                 if file.stem.endswith(self._suffix):
-                    name = re.split(r'-\d+$', file.stem)[0]
+                    name = file.stem[:len(file.stem) - len(self._suffix)]
                     data = np.load(str(file)).tolist()
                     self._data_dict[name] = data
-- 
2.43.0


From 4fc7e3d57b55abc7596324a741fcbb39c830608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:48 +0000
Subject: [PATCH 61/74] fix: cleaning a dataset collector that has not
 collected anything

---
 mushroom_rl/utils/callbacks/collect_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/callbacks/collect_dataset.py b/mushroom_rl/utils/callbacks/collect_dataset.py
index 1510e3d..d48a3b8 100644
--- a/mushroom_rl/utils/callbacks/collect_dataset.py
+++ b/mushroom_rl/utils/callbacks/collect_dataset.py
@@ -24,7 +24,8 @@ class CollectDataset(Callback):
             self._dataset += dataset
 
     def clean(self):
-        self._dataset.clear()
+        if self._dataset is not None:
+            self._dataset.clear()
 
     def get(self):
         return self._dataset
-- 
2.43.0


From 85d08cd813f1b85b18ca2e42115897865f2251f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:51 +0000
Subject: [PATCH 62/74] fix: gym environments are reset to the given state

---
 mushroom_rl/environments/gym_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/gym_env.py b/mushroom_rl/environments/gym_env.py
index 191d8c8..8894d42 100644
--- a/mushroom_rl/environments/gym_env.py
+++ b/mushroom_rl/environments/gym_env.py
@@ -84,7 +84,7 @@ class Gym(Environment):
             return np.atleast_1d(self.env.reset()), {}
         else:
             self.env.reset()
-            self.env.state = state
+            self.env.unwrapped.state = state
 
             return np.atleast_1d(state), {}
 
-- 
2.43.0


From addcd455a8f98bdd05a38d58507899ce280b9a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:51 +0000
Subject: [PATCH 63/74] fix: average pooling of Atari frames raised an
 exception

---
 mushroom_rl/environments/atari.py           | 2 +-
 mushroom_rl/environments/gymnasium_atari.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/atari.py b/mushroom_rl/environments/atari.py
index 2f62b87..e40ea5b 100644
--- a/mushroom_rl/environments/atari.py
+++ b/mushroom_rl/environments/atari.py
@@ -33,7 +33,7 @@ class MaxAndSkip(gym.Wrapper):
         if self._max_pooling:
             frame = self._obs_buffer.max(axis=0)
         else:
-            frame = self._obs_buffer.mean(axis=0)
+            frame = self._obs_buffer.mean(axis=0).astype(np.uint8)
 
         return frame, total_reward, absorbing, info
 
diff --git a/mushroom_rl/environments/gymnasium_atari.py b/mushroom_rl/environments/gymnasium_atari.py
index 8f52b9c..1493af8 100644
--- a/mushroom_rl/environments/gymnasium_atari.py
+++ b/mushroom_rl/environments/gymnasium_atari.py
@@ -33,7 +33,7 @@ class MaxAndSkip(gym.Wrapper):
         if self._max_pooling:
             frame = self._obs_buffer.max(axis=0)
         else:
-            frame = self._obs_buffer.mean(axis=0)
+            frame = self._obs_buffer.mean(axis=0).astype(np.uint8)
 
         return frame, total_reward, absorbing, info
 
-- 
2.43.0


From b6ecafb0fb5d6e95922499dbbe87cb1d31f82e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:05 +0000
Subject: [PATCH 64/74] fix: components of a MuJoCo observation can be removed
 in any order

---
 mushroom_rl/utils/mujoco/observation_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/mujoco/observation_helper.py b/mushroom_rl/utils/mujoco/observation_helper.py
index 77429e8..79075a2 100644
--- a/mushroom_rl/utils/mujoco/observation_helper.py
+++ b/mushroom_rl/utils/mujoco/observation_helper.py
@@ -92,7 +92,7 @@ class ObservationHelper:
         The index is always of the original observation!
         """
         indices = self.obs_idx_map[key]
-        adjusted_index = index - len(self.build_omit_idx[key])
+        adjusted_index = index - sum(omitted < index for omitted in self.build_omit_idx[key])
 
         self.obs_low = np.delete(self.obs_low, indices[adjusted_index])
         self.obs_high = np.delete(self.obs_high, indices[adjusted_index])
-- 
2.43.0


From e59032728e660b16f01dfe9e6d1e971bb6297fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:05 +0000
Subject: [PATCH 65/74] fix: reset of MultiMuJoCo returns the information
 dictionary

---
 mushroom_rl/environments/mujoco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index e76bec3..e6c494f 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -688,7 +688,7 @@ class MultiMuJoCo(MuJoCo):
             self._viewer.load_new_model(self._model)
 
         self._obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
-        return self._modify_observation(self._obs)
+        return self._modify_observation(self._obs), {}
 
     @property
     def more_than_one_env(self):
-- 
2.43.0


From 7196a1b43036b253de3fc6bf3262fa66404be2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:05 +0000
Subject: [PATCH 66/74] fix: the time step of MultiMuJoCo applies to all models

---
 mushroom_rl/environments/mujoco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index e6c494f..278e96b 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -587,7 +587,8 @@ class MultiMuJoCo(MuJoCo):
         self._current_model_idx = 0
         self._model = self._models[self._current_model_idx]
         if timestep is not None:
-            self._model.opt.timestep = timestep
+            for m in self._models:
+                m.opt.timestep = timestep
             self._timestep = timestep
         else:
             self._timestep = self._model.opt.timestep
-- 
2.43.0


From c5d953f80835470090bbd67bcfda4def04307e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:05 +0000
Subject: [PATCH 67/74] fix: MultiMuJoCo refuses models with different
 observation limits

---
 mushroom_rl/environments/mujoco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index 278e96b..3634fd7 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -620,7 +620,7 @@ class MultiMuJoCo(MuJoCo):
 
         # Read the observation spec to build a mapping at every step. It is
         # ensured that the values appear in the order they are specified.
-        self.obs_helpers = [ObservationHelper(observation_spec, self._model, self._data,
+        self.obs_helpers = [ObservationHelper(observation_spec, m, d,
                                               max_joint_velocity=max_joint_vel)
                             for m, d in zip(self._models, self._datas)]
         self.obs_helper = self.obs_helpers[self._current_model_idx]
@@ -629,7 +629,7 @@ class MultiMuJoCo(MuJoCo):
 
         # multi envs with different obs limits are now allowed, do sanity check
         for oh in self.obs_helpers:
-            low, high = self.obs_helper.get_obs_limits()
+            low, high = oh.get_obs_limits()
             if not np.array_equal(low, observation_space.low) or not np.array_equal(high, observation_space.high):
                 raise ValueError("The provided environments differ in the their observation limits. "
                                  "This is not allowed.")
-- 
2.43.0


From d1f64bd2ac2ae3a8ac8a1dd5a3d57b6cc5fbb505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:32 +0000
Subject: [PATCH 68/74] fix: ProMPs compute the phase from the policy state

---
 mushroom_rl/policy/promps.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mushroom_rl/policy/promps.py b/mushroom_rl/policy/promps.py
index d074a3e..eb64f6e 100644
--- a/mushroom_rl/policy/promps.py
+++ b/mushroom_rl/policy/promps.py
@@ -46,17 +46,17 @@ class ProMP(ParametricPolicy):
             _periodic='primitive'
         )
 
-    def __call__(self, state, action):
-        z = self._compute_phase(state)
+    def __call__(self, state, action, policy_state):
+        z = self._compute_phase(state, policy_state)
         mu = self._approximator(self._phi(z))
 
         if self._sigma is None:
-            return 1.0 if mu == action else 0.0
+            return 1.0 if np.array_equal(mu, action) else 0.0
         else:
             return multivariate_normal.pdf(action, mu, self._sigma)
 
     def draw_action(self, state, policy_state):
-        z = self._compute_phase(state)
+        z = self._compute_phase(state, policy_state)
 
         mu = self._approximator(self._phi(z))
 
@@ -75,12 +75,12 @@ class ProMP(ParametricPolicy):
             state (np.ndarray): The current state of the system.
 
         """
-        policy_state += 1
+        next_policy_state = policy_state + 1
 
-        if not self._periodic and policy_state >= self._duration:
-            policy_state = self._duration
+        if not self._periodic:
+            next_policy_state = np.minimum(next_policy_state, self._duration)
 
-        return policy_state
+        return next_policy_state
 
     def _compute_phase(self, state, policy_state):
         """
@@ -114,4 +114,4 @@ class ProMP(ParametricPolicy):
         self._duration = duration - 1
 
     def reset(self):
-        return 0
+        return np.zeros(self.policy_state_shape)
-- 
2.43.0


From b1837af9eb93de4eb019c98f0e020d56292e62dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:32 +0000
Subject: [PATCH 69/74] fix: ProMPs can be saved

---
 mushroom_rl/policy/promps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/promps.py b/mushroom_rl/policy/promps.py
index eb64f6e..d385a62 100644
--- a/mushroom_rl/policy/promps.py
+++ b/mushroom_rl/policy/promps.py
@@ -40,7 +40,7 @@ class ProMP(ParametricPolicy):
 
         self._add_save_attr(
             _approximator='mushroom',
-            _phi='mushroom',
+            _phi='pickle',
             _duration='primitive',
             _sigma='numpy',
             _periodic='primitive'
-- 
2.43.0


From c8665a08d113a7aa84b3dd369d57e1587374ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:32 +0000
Subject: [PATCH 70/74] fix: DMPs can be created, saved and used by agents

---
 mushroom_rl/policy/dmp.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/policy/dmp.py b/mushroom_rl/policy/dmp.py
index 74a9aa5..e2216bf 100644
--- a/mushroom_rl/policy/dmp.py
+++ b/mushroom_rl/policy/dmp.py
@@ -12,6 +12,8 @@ class DMP(ParametricPolicy):
 
     """
     def __init__(self, mu, phi, goal, dt, tau, alpha_v, beta_v, alpha_z, beta_z):
+        super().__init__()
+
         self._approximator = mu
         self._phi = phi
 
@@ -34,7 +36,7 @@ class DMP(ParametricPolicy):
 
         self._add_save_attr(
             _approximator='mushroom',
-            _phi='mushroom',
+            _phi='pickle',
             _dt='primitive',
             _tau='primitive',
             _alpha_v='numpy',
@@ -48,13 +50,13 @@ class DMP(ParametricPolicy):
             _y='numpy'
         )
 
-    def __call__(self, state, action):
-        return 1.0 if np.allclose(self._y == action) else 0.0
+    def __call__(self, state, action, policy_state=None):
+        return 1.0 if np.allclose(self._y, action) else 0.0
 
-    def draw_action(self, state):
+    def draw_action(self, state, policy_state=None):
         self.update_system(state)
 
-        return self._y
+        return self._y.copy(), None
 
     def set_goal(self, goal):
         self._g = goal
-- 
2.43.0


From aa0333778d1fe0659bb9cd1bfcf2e04c967ccef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:28 +0000
Subject: [PATCH 71/74] fix: recurrent PPO multiplies every probability ratio
 by its own advantage

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 1c28c73..b4c5a06 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -83,6 +83,7 @@ class PPO_BPTT(OnPolicyDeepAC):
         v_target, adv = self.compute_gae(self._V, state_seq, policy_state_seq, state_next_seq, policy_next_state_seq,
                                          lengths, reward, absorbing, last, self.mdp_info.gamma, self._lambda())
         adv = (adv - torch.mean(adv)) / (torch.std(adv) + 1e-8)
+        adv = adv.reshape(-1, 1)
 
         old_pol_dist = self.policy.distribution_t(state_old_seq, policy_state_seq, lengths)
         old_log_p = old_pol_dist.log_prob(action)[:, None].detach()
-- 
2.43.0


From b17867d265dfb4dbe80fe7c15d5b4426c66d515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:05 +0000
Subject: [PATCH 72/74] fix: air hockey takes the linear velocity of the puck
 from the first two components

---
 mushroom_rl/environments/mujoco_envs/air_hockey/base.py   | 4 ++--
 mushroom_rl/environments/mujoco_envs/air_hockey/double.py | 4 ++--
 mushroom_rl/environments/mujoco_envs/air_hockey/single.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/base.py b/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
index 020f81c..5616ea4 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
@@ -151,8 +151,8 @@ class AirHockeyBase(MuJoCo):
             rot_mat = robot_frame[:3, :3]
 
             vel_lin = np.zeros(3)
-            vel_lin[:2] = puck_in[1:]
+            vel_lin[:2] = puck_in[:2]
 
             vel_target = rot_mat.T @ vel_lin
 
-            puck_in[1:] = vel_target[:2]
+            puck_in[:2] = vel_target[:2]
diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
index 27308b0..9cdb236 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
@@ -55,8 +55,8 @@ class AirHockeyDouble(AirHockeyBase):
 
     def get_puck(self, obs):
         puck_pos = self.obs_helper.get_from_obs(obs, "puck_pos")
-        puck_lin_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[1:]
-        puck_ang_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[0]
+        puck_lin_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[:2]
+        puck_ang_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[2]
         return puck_pos, puck_lin_vel, puck_ang_vel
 
     def get_ee(self, robot=1):
diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/single.py b/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
index 5d138a9..a958dba 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
@@ -53,8 +53,8 @@ class AirHockeySingle(AirHockeyBase):
 
         """
         puck_pos = self.obs_helper.get_from_obs(obs, "puck_pos")
-        puck_lin_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[1:]
-        puck_ang_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[0]
+        puck_lin_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[:2]
+        puck_ang_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[2]
         return puck_pos, puck_lin_vel, puck_ang_vel
 
     def get_ee(self):
-- 
2.43.0


From 0297e4b167ff37a5b89061c2082738efb92b0e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:05 +0000
Subject: [PATCH 73/74] fix: joint position constraints of air hockey use the
 joint positions

---
 mushroom_rl/environments/mujoco_envs/air_hockey/double.py | 4 ++--
 mushroom_rl/environments/mujoco_envs/air_hockey/single.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
index 9cdb236..be83cd9 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
@@ -140,8 +140,8 @@ class AirHockeyDouble(AirHockeyBase):
 
             # joint_pos_constraint: stay within the robots joint position limits
             constraints[key]["joint_pos_constraints"] = np.zeros(6)
-            constraints[key]["joint_pos_constraints"][:3] = q_vel - self.obs_helper.get_joint_pos_limits()[1][i * 3: (i+1) * 3]
-            constraints[key]["joint_pos_constraints"][3:] = self.obs_helper.get_joint_pos_limits()[0][i * 3: (i+1) * 3] - q_vel
+            constraints[key]["joint_pos_constraints"][:3] = q_pos - self.obs_helper.get_joint_pos_limits()[1][i * 3: (i+1) * 3]
+            constraints[key]["joint_pos_constraints"][3:] = self.obs_helper.get_joint_pos_limits()[0][i * 3: (i+1) * 3] - q_pos
 
             # joint_vel_constraint: stay within the robots joint velocity limits
             constraints[key]["joint_vel_constraints"] = np.zeros(6)
diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/single.py b/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
index a958dba..5a636d6 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
@@ -125,8 +125,8 @@ class AirHockeySingle(AirHockeyBase):
 
         # joint_pos_constraint: stay within the robots joint position limits
         constraints["joint_pos_constraints"] = np.zeros(6)
-        constraints["joint_pos_constraints"][:3] = q_vel - self.obs_helper.get_joint_pos_limits()[1]
-        constraints["joint_pos_constraints"][3:] = self.obs_helper.get_joint_pos_limits()[0] - q_vel
+        constraints["joint_pos_constraints"][:3] = q_pos - self.obs_helper.get_joint_pos_limits()[1]
+        constraints["joint_pos_constraints"][3:] = self.obs_helper.get_joint_pos_limits()[0] - q_pos
 
         # joint_vel_constraint: stay within the robots joint velocity limits
         constraints["joint_vel_constraints"] = np.zeros(6)
-- 
2.43.0


From b0569d8f0f61bf9e51c55d78fb36a0dca65d0423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:05 +0000
Subject: [PATCH 74/74] fix: AirHockeyDouble distinguishes its two robots

---
 mushroom_rl/environments/mujoco_envs/air_hockey/double.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
index be83cd9..266f56b 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
@@ -60,9 +60,9 @@ class AirHockeyDouble(AirHockeyBase):
         return puck_pos, puck_lin_vel, puck_ang_vel
 
     def get_ee(self, robot=1):
-        ee_pos = self._read_data("planar_robot_" + str(robot) + "/ee_pos")
+        ee_pos = self._read_data("robot_" + str(robot) + "/ee_pos")
 
-        ee_vel = self._read_data("planar_robot_" + str(robot) + "/ee_vel")
+        ee_vel = self._read_data("robot_" + str(robot) + "/ee_vel")
 
         return ee_pos, ee_vel
 
@@ -106,7 +106,7 @@ class AirHockeyDouble(AirHockeyBase):
             self.robot_1_hit = self._check_collision("puck", "robot_1/ee")
 
         if not self.robot_2_hit:
-            self.robot_2_hit = self._check_collision("puck", "robot_1/ee")
+            self.robot_2_hit = self._check_collision("puck", "robot_2/ee")
 
         if not self.has_bounce:
             self.has_bounce = self._check_collision("puck", "rim_short_sides")
-- 
2.43.0

