From a50b3d6572dd6dcbde9b299f9373796f31a89eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 001/131] fix: IndexCollection.add of a numpy scalar into an
 empty collection raised TypeError

---
 alipy/index/index_collections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 016192f..fa0a35d 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -126,12 +126,12 @@ class IndexCollection(BaseCollection):
         self: object
             return self.
         """
-        if self._element_type is None:
-            self._element_type = type(value)
         # check validation
         if isinstance(value, np.generic):
             # value = np.asscalar(value)  # deprecated in numpy v1.16
             value = value.item()
+        if self._element_type is None:
+            self._element_type = type(value)
         if not isinstance(value, self._element_type):
             raise TypeError(
                 "A %s parameter is expected, but received: %s" % (str(self._element_type), str(type(value))))
-- 
2.43.0


From 9dc4ff9bf4ddc8ec5c68e026ae66d2accebd3842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 002/131] fix: IndexCollection.difference_update skipped
 elements when given the collection itself

---
 alipy/index/index_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index fa0a35d..98b4de0 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -183,7 +183,7 @@ class IndexCollection(BaseCollection):
         """
         if not isinstance(other, (list, np.ndarray, IndexCollection)):
             other = [other]
-        for item in other:
+        for item in list(other):
             self.discard(item)
         return self
 
-- 
2.43.0


From acd56aa7a612b2ca1fa659f687b0e15951a791ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 003/131] fix: IndexCollection could not be built from a single
 scalar element

---
 alipy/index/index_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 98b4de0..8676a46 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -63,7 +63,7 @@ class IndexCollection(BaseCollection):
     """
 
     def __init__(self, data=None):
-        if data is None or len(data) == 0:
+        if data is None or (hasattr(data, '__len__') and len(data) == 0):
             self._innercontainer = []
         else:
             if isinstance(data, IndexCollection):
-- 
2.43.0


From fd4f72b0d27e98d1724134311ca15680b3fb969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 004/131] fix: IndexCollection turned tuple elements into
 arrays

---
 alipy/index/index_collections.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 8676a46..d3c45af 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -72,7 +72,11 @@ class IndexCollection(BaseCollection):
                 return
             if not isinstance(data, (list, np.ndarray)):
                 data = [data]
-            self._innercontainer = list(np.unique([i for i in data], axis=0))
+            if isinstance(data[0], tuple):
+                # np.unique would turn the tuples into rows of an array
+                self._innercontainer = list(collections.OrderedDict.fromkeys(data))
+            else:
+                self._innercontainer = list(np.unique([i for i in data], axis=0))
             if len(self._innercontainer) != len(data):
                 warnings.warn("There are %d same elements in the given data" % (len(data) - len(self._innercontainer)),
                               category=RepeatElementWarning,
-- 
2.43.0


From c713b1ba282f4109a09b5fa661b83d6edd41f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:57 +0000
Subject: [PATCH 005/131] fix: a copy of a MultiLabelIndexCollection could not
 be modified

---
 alipy/index/index_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index d3c45af..3e1ff2d 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -285,7 +285,7 @@ class MultiLabelIndexCollection(IndexCollection):
             self._label_size = label_size
         else:
             if isinstance(data, MultiLabelIndexCollection):
-                self._innercontainer = copy.deepcopy(data.index)
+                self._innercontainer = copy.deepcopy(data._innercontainer)
                 self._label_size = data._label_size
                 return
             # check given indexes
-- 
2.43.0


From 39b8db9dd4afe903d0dc77858252172c1d46e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:57 +0000
Subject: [PATCH 006/131] fix: adding a multi-column or negative index stored
 an element that is not a valid pair

---
 alipy/index/index_collections.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 3e1ff2d..505d67b 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -336,10 +336,11 @@ class MultiLabelIndexCollection(IndexCollection):
         elif len(value) == 2:
             if isinstance(value[1], collections.Iterable):
                 for item in value[1]:
-                    if item >= self._label_size:
+                    if not 0 <= item < self._label_size:
                         raise ValueError("Index %s is out of bound %s" % (str(item), str(self._label_size)))
+                return self.update([(value[0], item) for item in value[1]])
             else:
-                if value[1] >= self._label_size:
+                if not 0 <= value[1] < self._label_size:
                     raise ValueError("Index %s is out of bound %s" % (str(value[1]), str(self._label_size)))
         else:
             raise ValueError("A tuple with 1 or 2 elements is expected, but received: %s" % str(value))
-- 
2.43.0


From 2bf6cb1bffadb0376ca9b612649fc2c48eac0a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:57 +0000
Subject: [PATCH 007/131] fix: discarding a multi-column index did not discard
 its pairs

---
 alipy/index/index_collections.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 505d67b..e86ebbe 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -372,6 +372,8 @@ class MultiLabelIndexCollection(IndexCollection):
         if len(value) == 1:
             value = [(value[0], i) for i in range(self._label_size)]
             return self.difference_update(value)
+        if len(value) == 2 and isinstance(value[1], collections.Iterable):
+            return self.difference_update([value])
         if value not in self._innercontainer:
             warnings.warn("Element %s to discard is not in the collection, skip." % (value.__str__()),
                           category=InexistentElementWarning,
-- 
2.43.0


From 1c01e5fef87d7400d94fbd86863ad040d15cbfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:57 +0000
Subject: [PATCH 008/131] fix: construct_by_1d_array used a keyword numpy no
 longer has

---
 alipy/index/index_collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index e86ebbe..8943991 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -581,7 +581,7 @@ class MultiLabelIndexCollection(IndexCollection):
         row major: [4, 11, 5]
         """
         assert len(label_mat_shape) == 2
-        row, col = np.unravel_index(array, dims=label_mat_shape, order=order)
+        row, col = np.unravel_index(array, label_mat_shape, order=order)
         return cls(data=[(row[i], col[i]) for i in range(len(row))], label_size=label_mat_shape[1])
 
     @classmethod
-- 
2.43.0


From ba279385e2912bd3530a6acaf3ea8ea75d962dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:57 +0000
Subject: [PATCH 009/131] fix: the sparse mask of a MultiLabelIndexCollection
 was always empty

---
 alipy/index/index_collections.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 8943991..a1fb210 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -534,7 +534,10 @@ class MultiLabelIndexCollection(IndexCollection):
                     "sparse format " + sparse_format + "is not defined. Valid format should be one of "
                                                        "[bsr_matrix, coo_matrix, csc_matrix, csr_matrix, "
                                                        "dia_matrix, dok_matrix, lil_matrix].")
-            mask = eval(sparse_format + '(mat_shape)')
+            mask = np.zeros(mat_shape)
+            for item in self._innercontainer:
+                mask[item] = fill_value
+            mask = eval(sparse_format + '(mask)')
         else:
             if fill_value == 1 or fill_value == True:
                 mask = np.zeros(mat_shape, dtype=bool)
-- 
2.43.0


From bc0a6b11e3ad46472b034a467f15cad3b4d3ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:57 +0000
Subject: [PATCH 010/131] fix: map_whole_index_to_train failed for list indexes
 and lost the number of columns

---
 alipy/index/index_collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index a1fb210..8bc9f5d 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -707,6 +707,7 @@ def map_whole_index_to_train(train_idx, index_in_whole):
     else:
         raise TypeError("index_in_whole must be one of {IndexCollection, MultiLabelIndexCollection} type.")
 
+    train_idx = np.asarray(train_idx)
     tr_ob = []
     for entry in index_in_whole:
         if ind_type == 2:
@@ -717,6 +718,6 @@ def map_whole_index_to_train(train_idx, index_in_whole):
             assert entry in train_idx
             tr_ob.append(np.argwhere(train_idx == entry)[0][0])
     if ind_type == 2:
-        return MultiLabelIndexCollection(tr_ob)
+        return MultiLabelIndexCollection(tr_ob, label_size=index_in_whole._label_size)
     else:
         return IndexCollection(tr_ob)
-- 
2.43.0


From e755ee1b7d47de3a4e3210d60b9ec06fcb47927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 011/131] fix: a copy of an empty MultiLabelIndexCollection
 lost the number of columns

---
 alipy/index/index_collections.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index 8bc9f5d..afd3f7d 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -276,6 +276,8 @@ class MultiLabelIndexCollection(IndexCollection):
     """
 
     def __init__(self, data=None, label_size=None):
+        if isinstance(data, MultiLabelIndexCollection) and label_size is None:
+            label_size = data._label_size
         if data is None or len(data) == 0:
             self._innercontainer = set()
             if label_size is None:
-- 
2.43.0


From 91f147dce167f92895775f999b7e7b5232ae036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 012/131] fix: FeatureIndexCollection could not be built from a
 mask or a 1d array

---
 alipy/index/index_collections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/index/index_collections.py b/alipy/index/index_collections.py
index afd3f7d..18db340 100644
--- a/alipy/index/index_collections.py
+++ b/alipy/index/index_collections.py
@@ -587,7 +587,7 @@ class MultiLabelIndexCollection(IndexCollection):
         """
         assert len(label_mat_shape) == 2
         row, col = np.unravel_index(array, label_mat_shape, order=order)
-        return cls(data=[(row[i], col[i]) for i in range(len(row))], label_size=label_mat_shape[1])
+        return cls([(row[i], col[i]) for i in range(len(row))], label_mat_shape[1])
 
     @classmethod
     def construct_by_element_mask(cls, mask):
@@ -624,7 +624,7 @@ class MultiLabelIndexCollection(IndexCollection):
                              "element is known, and will be added to the MultiLabelIndexCollection container.")
 
         nz_row, nz_col = np.nonzero(mask)
-        return cls(data=[(nz_row[i], nz_col[i]) for i in range(len(nz_row))], label_size=mask.shape[1])
+        return cls([(nz_row[i], nz_col[i]) for i in range(len(nz_row))], mask.shape[1])
 
 
 class FeatureIndexCollection(MultiLabelIndexCollection):
-- 
2.43.0


From 7cfbb69a8f026444d2493a3a436219c863f431cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 013/131] fix: split looked up the class of an instance by its
 name instead of its position

---
 alipy/data_manipulate/al_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index edb506b..2dab5ee 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -141,7 +141,7 @@ def split(X=None, y=None, instance_indexes=None, query_type=None, test_ratio=0.3
                 cutpointlabel = int(round(initial_label_rate * len(tp_train)))
                 if cutpointlabel <= 1:
                     cutpointlabel = 1
-                label_id = tp_train[0:cutpointlabel]
+                label_id = rp[0:cutpointlabel]
                 if y.ndim == 1:
                     if len(np.unique(y[label_id])) == label_num:
                         break
-- 
2.43.0


From ce828995689b879f347b6a62481c1a202c265fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 014/131] fix: split could loop forever when rounding left
 fewer labeled instances than classes

---
 alipy/data_manipulate/al_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index 2dab5ee..e0b95e8 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -128,7 +128,7 @@ def split(X=None, y=None, instance_indexes=None, query_type=None, test_ratio=0.3
                 label_num = len(np.unique(y))
             else:
                 label_num = y.shape[1]
-            if round((1 - test_ratio) * initial_label_rate * number_of_instance) < label_num:
+            if max(round(initial_label_rate * int(round((1 - test_ratio) * number_of_instance))), 1) < label_num:
                 raise ValueError(
                     "The initial rate is too small to guarantee that each "
                     "split will contain at least one instance for each class.")
-- 
2.43.0


From 4f2eaf8729480e50cc9911bc02696d3387466b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 015/131] fix: all_class split did not require a positive
 example of each label when labels are +1/-1

---
 alipy/data_manipulate/al_split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index e0b95e8..b49424f 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -146,7 +146,7 @@ def split(X=None, y=None, instance_indexes=None, query_type=None, test_ratio=0.3
                     if len(np.unique(y[label_id])) == label_num:
                         break
                 else:
-                    temp = np.sum(y[label_id], axis=0)
+                    temp = np.sum(y[label_id] > 0, axis=0)
                     if not np.any(temp == 0):
                         break
             train_idx.append(tp_train)
@@ -276,7 +276,7 @@ def __split_data_matrix(data_matrix=None, matrix_shape=None, test_ratio=0.3, ini
                         "split will contain at least one instance-feature pair for each class.")
                 while 1:
                     label_id = tp_train[0:cutpoint_lab]
-                    temp = np.sum(data_matrix[label_id], axis=0)
+                    temp = np.sum(data_matrix[label_id] > 0, axis=0)
                     if not np.any(temp == 0):
                         break
                     rp = randperm(data_shape[0] - 1)
-- 
2.43.0


From 8f4bb06b15e3bd0906e27ef7ec86cee4900cea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 016/131] fix: split_features observed too few entries after
 retrying

---
 alipy/data_manipulate/al_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index b49424f..1e4f839 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -254,7 +254,7 @@ def __split_data_matrix(data_matrix=None, matrix_shape=None, test_ratio=0.3, ini
                     tp_train = instance_indexes[rp[0:cutpoint]]
                     # split label & unlabel
                     train_size = len(tp_train)
-                    lab_ind = randperm((0, train_size * data_shape[1] - 1), int(round(initial_label_rate * train_size)))
+                    lab_ind = randperm((0, train_size * data_shape[1] - 1), int(round(initial_label_rate * train_size * data_shape[1])))
             train_idx.append(tp_train)
             test_idx.append(instance_indexes[rp[cutpoint:]])
             unlab_ind = set(np.arange(train_size * data_shape[1]))
-- 
2.43.0


From cbf900f492ca77870e3c2b49e69f88ed3075bbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 017/131] fix: split_load never found the indexes of a saved
 multi-label or feature split

---
 alipy/data_manipulate/al_split.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index 1e4f839..dd6c1c5 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -433,8 +433,9 @@ def split_load(path):
     ret_arr = []
     for fname in ['train_idx.txt', 'test_idx.txt', 'label_idx.txt', 'unlabel_idx.txt']:
         if not os.path.exists(os.path.join(saving_path, fname)):
-            if os.path.exists(os.path.join(saving_path, fname.split()[0] + '.npy')):
-                ret_arr.append(np.load(os.path.join(saving_path, fname.split()[0] + '.npy')))
+            npy_name = os.path.join(saving_path, os.path.splitext(fname)[0] + '.npy')
+            if os.path.exists(npy_name):
+                ret_arr.append([[tuple(item) for item in fold] for fold in np.load(npy_name)])
             else:
                 ret_arr.append(None)
         else:
-- 
2.43.0


From 4fe6d88513ee3985c26a97a621ef1cc10256088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 018/131] fix: split_load collapsed a split of one fold or
 one-element sets

---
 alipy/data_manipulate/al_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index dd6c1c5..9c1f913 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -439,7 +439,7 @@ def split_load(path):
             else:
                 ret_arr.append(None)
         else:
-            ret_arr.append(np.loadtxt(os.path.join(saving_path, fname), dtype=int))
+            ret_arr.append(np.loadtxt(os.path.join(saving_path, fname), dtype=int, ndmin=2))
     return ret_arr[0], ret_arr[1], ret_arr[2], ret_arr[3]
 
 
-- 
2.43.0


From 6c8cf83fa042e50993e28bb1f3201271dd939769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:03 +0000
Subject: [PATCH 019/131] fix: split_load returned stale indexes after saving a
 split in another format

---
 alipy/data_manipulate/al_split.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index 9c1f913..b2f6ee4 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -461,6 +461,10 @@ def split_save(train_idx, test_idx, label_idx, unlabel_idx, path):
 
     saving_path = os.path.abspath(path)
     if os.path.isdir(saving_path):
+        # a previous split may have been saved in the other format
+        for fname in ['label_idx.txt', 'unlabel_idx.txt', 'label_idx.npy', 'unlabel_idx.npy']:
+            if os.path.exists(os.path.join(saving_path, fname)):
+                os.remove(os.path.join(saving_path, fname))
         np.savetxt(os.path.join(saving_path, 'train_idx.txt'), train_idx, fmt='%d')
         np.savetxt(os.path.join(saving_path, 'test_idx.txt'), test_idx, fmt='%d')
         if len(np.shape(label_idx)) == 2:
-- 
2.43.0


From 44fe4cb1d0f8888b697b4a979d3ad7ca8c30bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 020/131] fix: a state given as a dict (as documented) broke
 the StateIO object it was added to

---
 alipy/experiment/state_io.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index cba4882..8c0b3e0 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -174,6 +174,12 @@ class StateIO:
         if not isinstance(state, State):
             assert isinstance(state, dict), "state must be dict or State object."
             assert 'select_index' in state and 'queried_info' in state and 'performance' in state, "The dict must contain the following keys: ['select_index', 'queried_info', 'performance']"
+            state_dict = state
+            state = State(select_index=state_dict['select_index'], performance=state_dict['performance'],
+                          queried_label=state_dict['queried_info'], cost=state_dict.get('cost'))
+            for key in state_dict:
+                if key not in ('select_index', 'performance', 'queried_info', 'cost'):
+                    state.add_element(key, state_dict[key])
         self.__state_list.append(copy.deepcopy(state))
         self.__update_info()
 
-- 
2.43.0


From 42d9fbe0f73155d6059857bdbedaa7983fd447a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 021/131] fix: StateIO.pop failed by default and left the
 progress information stale

---
 alipy/experiment/state_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index 8c0b3e0..581e0cd 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -223,9 +223,11 @@ class StateIO:
         else:
             return False
 
-    def pop(self, i=None):
+    def pop(self, i=-1):
         """remove and return item at index (default last)."""
-        return self.__state_list.pop(i)
+        state = self.__state_list.pop(i)
+        self.refresh_info()
+        return state
 
     def recover_workspace(self, iteration=None):
         """Recover workspace after $iteration$ querying.
-- 
2.43.0


From 6f4f29358f79bd65aff7ad29f4cf3bcfec05c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 022/131] fix: recover_workspace kept counting the cost of the
 discarded queries

---
 alipy/experiment/state_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index 581e0cd..1677780 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -264,6 +264,7 @@ class StateIO:
             work_U.difference_update(state.get_value('select_index'))
             work_L.update(state.get_value('select_index'))
         self.__state_list = self.__state_list[0:iteration]
+        self.refresh_info()
         return copy.copy(self.train_idx), copy.copy(self.test_idx), copy.deepcopy(work_L), copy.deepcopy(work_U)
 
     def get_workspace(self, iteration=None):
-- 
2.43.0


From a5e8acfabab98cd3df96dd3996774e829b5451e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 023/131] fix: a crash while saving destroyed the StateIO file
 saved before

---
 alipy/experiment/state_io.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index 1677780..b86627a 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -158,9 +158,12 @@ class StateIO:
         """Saving intermediate results to file."""
         if self._saving_dir is None:
             return
-        f = open(os.path.join(self._saving_dir, self._saving_file_name), 'wb')
-        pickle.dump(self, f)
-        f.close()
+        # Write to a temporary file first, so that the file of the last
+        # saving survives if the program exits while saving.
+        saving_file = os.path.join(self._saving_dir, self._saving_file_name)
+        with open(saving_file + '.tmp', 'wb') as f:
+            pickle.dump(self, f)
+        os.replace(saving_file + '.tmp', saving_file)
 
     def add_state(self, state):
         """Add a State object to the container.
-- 
2.43.0


From f05eaa3580e47f153c8017497c21f43f493dbfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 024/131] fix: the two index sets of a multi-label StateIO
 could disagree on the number of labels

---
 alipy/experiment/state_io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/alipy/experiment/state_io.py b/alipy/experiment/state_io.py
index b86627a..4c3f82b 100644
--- a/alipy/experiment/state_io.py
+++ b/alipy/experiment/state_io.py
@@ -25,7 +25,7 @@ import prettytable as pt
 
 from .state import State
 from ..index import IndexCollection, MultiLabelIndexCollection
-from ..index.multi_label_tools import check_index_multilabel
+from ..index.multi_label_tools import check_index_multilabel, infer_label_size_multilabel
 from ..utils.interface import BaseCollection
 
 __all__ = ['StateIO',
@@ -101,8 +101,9 @@ class StateIO:
             try:
                 check_index_multilabel(init_L)
                 check_index_multilabel(init_U)
-                self.init_U = copy.deepcopy(MultiLabelIndexCollection(init_U))
-                self.init_L = copy.deepcopy(MultiLabelIndexCollection(init_L))
+                label_size = infer_label_size_multilabel(list(init_L) + list(init_U))
+                self.init_U = copy.deepcopy(MultiLabelIndexCollection(init_U, label_size))
+                self.init_L = copy.deepcopy(MultiLabelIndexCollection(init_L, label_size))
             except TypeError:
                 self.init_U = copy.deepcopy(IndexCollection(init_U))
                 self.init_L = copy.deepcopy(IndexCollection(init_L))
-- 
2.43.0


From 4f69706f4a8f23120573885960e93e5a5c5541fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:31 +0000
Subject: [PATCH 025/131] fix: percent_of_unlabel divided by zero when there is
 no unlabeled data from the start

---
 alipy/experiment/stopping_criteria.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/experiment/stopping_criteria.py b/alipy/experiment/stopping_criteria.py
index c691489..f9f7d0a 100644
--- a/alipy/experiment/stopping_criteria.py
+++ b/alipy/experiment/stopping_criteria.py
@@ -124,7 +124,7 @@ class StoppingCriteria:
         elif self._stopping_criteria == 'cost_limit':
             self._accum_cost = saver.cost_inall
         elif self._stopping_criteria == 'percent_of_unlabel':
-            self._percent = (len(ini_Uindex)-len(Uindex))/len(ini_Uindex)
+            self._percent = (len(ini_Uindex)-len(Uindex))/len(ini_Uindex) if len(ini_Uindex) > 0 else 1
         return self
 
     def reset(self):
-- 
2.43.0


From 12d3c76ce51c49dd8b005fe1f5d8feb628b72fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:18 +0000
Subject: [PATCH 026/131] fix: querying an unknown index raised TypeError
 instead of KeyError

---
 alipy/oracle/oracle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index b0c8d6c..327f184 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -249,7 +249,7 @@ class Oracle(interface.BaseVirtualOracle):
         -------
 
         """
-        raise KeyError("%s is not in the " + dict_name + " of this oracle" % str(key))
+        raise KeyError("%s is not in the %s of this oracle" % (str(key), dict_name))
 
     def __repr__(self):
         return str(self._ind2all)
-- 
2.43.0


From bdd1932c02cbd435675724f1504494c553c34568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:18 +0000
Subject: [PATCH 027/131] fix: example_keys was not an array of the examples

---
 alipy/oracle/oracle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index 327f184..6a1c3d3 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -86,7 +86,7 @@ class Oracle(interface.BaseVirtualOracle):
     @property
     def example_keys(self):
         if self._instance_flag:
-            return np.asarray(self._exa2ind.keys())
+            return np.asarray(list(self._exa2ind.keys()))
         else:
             return None
 
-- 
2.43.0


From d9a032acabdafb5362ecc70dcc472240e8c63001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:18 +0000
Subject: [PATCH 028/131] fix: OracleQueryMultiLabel.query_by_example looked up
 the features instead of the index

---
 alipy/oracle/oracle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index 6a1c3d3..cd0e957 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -506,9 +506,9 @@ class OracleQueryMultiLabel(Oracle):
             # fetch data
             if example_fea in self._exa2ind.keys():
                 if k_len == 1:
-                    q_id.append((example_fea,))
+                    q_id.append((self._exa2ind[example_fea],))
                 else:
-                    q_id.append((example_fea, k[1]))
+                    q_id.append((self._exa2ind[example_fea], k[1]))
             else:
                 self._do_missing(example_fea, 'instance pool')
         return self.query_by_index(q_id)
-- 
2.43.0


From 2d225e4eca1eaad02f4f1ace89a51796d2930bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:18 +0000
Subject: [PATCH 029/131] fix: a multi-label oracle given its costs as lists
 failed to answer

---
 alipy/oracle/oracle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index cd0e957..e246c70 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -337,11 +337,12 @@ class OracleQueryMultiLabel(Oracle):
             sp_cost = np.shape(cost)
             if len(sp_cost) == 1 and sp_cost[0] == self._label_shape[1]:
                 self._fine_grained_cost = False
-                self._label_cost = copy.copy(cost)
+                self._label_cost = np.array(cost)
                 cost = np.asarray(cost)
                 cost = np.tile(cost, (self._label_shape[0], 1))
             else:
                 self._fine_grained_cost = True
+                cost = np.asarray(cost)
         super(OracleQueryMultiLabel, self).__init__(labels, examples, indexes, cost)
 
     def _add_one_entry(self, label, index, example=None, cost=None):
@@ -390,7 +391,7 @@ class OracleQueryMultiLabel(Oracle):
                 raise ValueError(
                     "Different dimension of cost found when adding entries: %s is expected but received: %s" %
                     (str(self._label_shape[1]), str(len(cost))))
-            self._ind2all[index] = (np.array(label), cost)
+            self._ind2all[index] = (np.array(label), np.asarray(cost))
         else:
             self._ind2all[index] = np.array(label)
 
-- 
2.43.0


From eab490ebc0ee6a29dbf73bf2c5325379ffbb65fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:18 +0000
Subject: [PATCH 030/131] fix: an entry rejected by an oracle left its example
 behind

---
 alipy/oracle/oracle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index e246c70..df9ac50 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -128,8 +128,6 @@ class Oracle(interface.BaseVirtualOracle):
             if example is None:
                 raise Exception("This oracle has the instance information,"
                                 "must provide example parameter when adding entry")
-            example = tuple(example)
-            self._exa2ind[example] = index
         if self._cost_flag:
             if cost is None:
                 raise Exception("This oracle has the cost information,"
@@ -137,6 +135,8 @@ class Oracle(interface.BaseVirtualOracle):
             self._ind2all[index] = (label, cost)
         else:
             self._ind2all[index] = label
+        if self._instance_flag:
+            self._exa2ind[tuple(example)] = index
 
     def add_knowledge(self, labels, indexes, examples=None, cost=None):
         """Adding entries to the oracle.
@@ -378,8 +378,6 @@ class OracleQueryMultiLabel(Oracle):
             if example is None:
                 raise Exception("This oracle has the instance information,"
                                 "must provide example parameter when adding entry")
-            example = tuple(example)
-            self._exa2ind[example] = index
         if self._cost_flag:
             if cost is None:
                 if self._fine_grained_cost == False:
@@ -394,6 +392,8 @@ class OracleQueryMultiLabel(Oracle):
             self._ind2all[index] = (np.array(label), np.asarray(cost))
         else:
             self._ind2all[index] = np.array(label)
+        if self._instance_flag:
+            self._exa2ind[tuple(example)] = index
 
     def query_by_index(self, indexes):
         """Query function in multi-label setting
-- 
2.43.0


From 511e817739330f1eca6be46d8a792de684ff1cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:18 +0000
Subject: [PATCH 031/131] fix: the cost of a query of different numbers of
 labels could not be accumulated

---
 alipy/oracle/oracle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index df9ac50..67136ea 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -579,7 +579,7 @@ class Oracles:
         result = self._oracle_dict[oracle_name].query_by_index(index_for_querying)
 
         self._update_query_history([oracle_name], [result], index_for_querying)
-        self.cost_inall += np.sum(np.asarray(result[1]).flatten())
+        self.cost_inall += np.sum([np.sum(cost) for cost in result[1]])
         return result
 
     def query_from_s(self, index_for_querying, oracles_name=None):
@@ -610,7 +610,7 @@ class Oracles:
             results.append(self._oracle_dict[name].query_by_index(index_for_querying))
 
         self._update_query_history(oracles_name, results, index_for_querying)
-        self.cost_inall += np.sum(np.array([result[1] for result in results]).flatten())
+        self.cost_inall += np.sum([np.sum(cost) for result in results for cost in result[1]])
         return results
 
     def get_oracle(self, oracle_name):
-- 
2.43.0


From 09807a9c15eced92fbc2b6ef242619835cb30304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:18 +0000
Subject: [PATCH 032/131] fix: the query history changed with the lists and
 arrays of the caller

---
 alipy/oracle/oracle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/oracle/oracle.py b/alipy/oracle/oracle.py
index 67136ea..49d6e48 100644
--- a/alipy/oracle/oracle.py
+++ b/alipy/oracle/oracle.py
@@ -621,7 +621,7 @@ class Oracles:
 
     def _update_query_history(self, oracle_name, query_result, index_for_querying):
         """record the query history"""
-        self.query_history.append((oracle_name, query_result, index_for_querying))
+        self.query_history.append(copy.deepcopy((oracle_name, query_result, index_for_querying)))
 
     def __repr__(self):
         """return summaries of each oracle.
-- 
2.43.0


From 1991c785e52c8d86603efba093b51baad3ef7b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:08 +0000
Subject: [PATCH 033/131] fix: ElementRepository lost entries after a repeated
 index or example

---
 alipy/oracle/knowledge_repository.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index 5e168ed..7f5953f 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -117,6 +117,8 @@ class ElementRepository(BaseRepository):
                 raise Exception("This repository has the instance information,"
                                 "must provide example parameter when adding entry")
             example = tuple(example)
+            if select_index in self._ind2exa:
+                self._discard_example(select_index)
             self._exa2ind[example] = select_index
             self._ind2exa[select_index] = example
 
@@ -124,10 +126,21 @@ class ElementRepository(BaseRepository):
             self.cost_inall += np.sum(cost)
             self._cost_arr.append(cost)
 
+        if select_index not in self._ind2label:
+            self._indexes.append(select_index)
         self._ind2label[select_index] = label
-        self._indexes.append(select_index)
         return self
 
+    def _discard_example(self, index):
+        """Forget the example of the given index."""
+        example = self._ind2exa.pop(index)
+        if self._exa2ind[example] == index:
+            self._exa2ind.pop(example)
+            # another index may have the same example
+            for other in self._indexes:
+                if other != index and self._ind2exa[other] == example:
+                    self._exa2ind[example] = other
+
     def discard(self, index=None, example=None):
         """Discard element either by index or example.
 
@@ -152,7 +165,7 @@ class ElementRepository(BaseRepository):
             self._indexes.remove(index)
             self._ind2label.pop(index)
             if self._instance_flag:
-                self._exa2ind.pop(self._ind2exa.pop(index))
+                self._discard_example(index)
 
         if example is not None:
             if not self._instance_flag:
@@ -166,8 +179,7 @@ class ElementRepository(BaseRepository):
                     return self
                 ind = self._exa2ind[example]
                 self._indexes.remove(ind)
-                self._exa2ind.pop(example)
-                self._ind2exa.pop(ind)
+                self._discard_example(ind)
                 self._ind2label.pop(ind)
         return self
 
-- 
2.43.0


From 56da91bca729367143aaf9298e3398baa280ee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:08 +0000
Subject: [PATCH 034/131] fix: ElementRepository without examples could not be
 cleared

---
 alipy/oracle/knowledge_repository.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index 7f5953f..0d2fdfd 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -304,9 +304,10 @@ class ElementRepository(BaseRepository):
     def clear(self):
         """Clear this container."""
         self._indexes.clear()
-        self._exa2ind.clear()
+        if self._instance_flag:
+            self._exa2ind.clear()
+            self._ind2exa.clear()
         self._ind2label.clear()
-        self._indexes.clear()
         self._instance_flag = False
         self.cost_inall = 0
         self._cost_arr = []
-- 
2.43.0


From 370d525e897fabe8d3780ac692d510c106f1ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:08 +0000
Subject: [PATCH 035/131] fix: an entry rejected by MatrixRepository left its
 label and index behind

---
 alipy/oracle/knowledge_repository.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index 0d2fdfd..b701e1c 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -396,6 +396,11 @@ class MatrixRepository(BaseRepository):
             warnings.warn("Repeated index is found when adding element to knowledge repository. Skip this item",
                           category=RepeatElementWarning)
             return self
+        if self._instance_flag:
+            if example is None:
+                raise Exception("This repository has the instance information,"
+                                "must provide example parameter when adding entry")
+            new_X = np.append(self._X, [example], axis=0)
         if self._y.ndim == 1:
             if hasattr(label, '__len__'):
                 raise TypeError("The initialized label array only have 1 dimension, "
@@ -408,11 +413,7 @@ class MatrixRepository(BaseRepository):
         self._cost_arr.append(cost)
         self.cost_inall += np.sum(cost) if cost is not None else 0
         if self._instance_flag:
-            if example is None:
-                raise Exception("This repository has the instance information,"
-                                "must provide example parameter when adding entry")
-            else:
-                self._X = np.append(self._X, [example], axis=0)
+            self._X = new_X
         return self
 
     def update_query(self, labels, indexes, cost=None, examples=None):
-- 
2.43.0


From d043b12bcfac8aea74caccdde031b3a7303b4a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:08 +0000
Subject: [PATCH 036/131] fix: MatrixRepository failed to retrieve a missing
 index and warned about the first one

---
 alipy/oracle/knowledge_repository.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index b701e1c..b3a255b 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -509,14 +509,17 @@ class MatrixRepository(BaseRepository):
             The retrieved labels.
         """
         if not isinstance(indexes, (list, np.ndarray, BaseCollection)):
-            ind = np.argwhere(self._indexes == indexes)  # will return empty array if not found.
-            if not ind:
-                warnings.warn("Index %s for retrieving is not in the repository, skip." % str(indexes),
+            indexes = [indexes]
+        ind = []
+        for k in indexes:
+            found = np.argwhere(self._indexes == k).flatten()  # empty array if not found.
+            if len(found) == 0:
+                warnings.warn("Index %s for retrieving is not in the repository, skip." % str(k),
                               category=ValidityWarning)
-            return self._X[ind,] if self._instance_flag else None, self._y[ind,]
-        else:
-            ind = [np.argwhere(self._indexes == indexes[i]).flatten()[0] for i in range(len(indexes))]
-            return self._X[ind,] if self._instance_flag else None, self._y[ind,]
+            else:
+                ind.append(found[0])
+        ind = np.array(ind, dtype=int)
+        return self._X[ind,] if self._instance_flag else None, self._y[ind,]
 
     def _find_one_example(self, example):
         """Find the index of the given example in the repository."""
-- 
2.43.0


From c576ea6592621fb0c156409442efc5960bb6789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:08 +0000
Subject: [PATCH 037/131] fix: MatrixRepository failed to retrieve examples
 when none is in the repository

---
 alipy/oracle/knowledge_repository.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index b3a255b..1921e12 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -565,6 +565,7 @@ class MatrixRepository(BaseRepository):
                                   category=ValidityWarning)
                 else:
                     ind.append(one_example_ind)
+            ind = np.array(ind, dtype=int)
             return self._X[ind, ], self._y[ind, ]
         else:
             raise Exception("A 1D or 2D array is expected. But received: %d" % examples.ndim)
-- 
2.43.0


From f5951f89c68c30c22eebe39955063ab28daa61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:08 +0000
Subject: [PATCH 038/131] fix: the indexes returned by
 MatrixRepository.get_training_data were not a copy

---
 alipy/oracle/knowledge_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index 1921e12..5619d3d 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -585,7 +585,7 @@ class MatrixRepository(BaseRepository):
             The indexes of the instances and labels.
             e.g. the first row of X_train is the indexes[0] instance in feature matrix X.
         """
-        return copy.deepcopy(self._X), copy.deepcopy(self._y), np.asarray(self._indexes)
+        return copy.deepcopy(self._X), copy.deepcopy(self._y), copy.deepcopy(self._indexes)
 
     def clear(self):
         """
-- 
2.43.0


From 2244f2cf97af155739c4a2ca3bfdeb6ff77f0b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:08 +0000
Subject: [PATCH 039/131] fix: MatrixRepository was unusable after clear

---
 alipy/oracle/knowledge_repository.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/oracle/knowledge_repository.py b/alipy/oracle/knowledge_repository.py
index 5619d3d..4468fe6 100644
--- a/alipy/oracle/knowledge_repository.py
+++ b/alipy/oracle/knowledge_repository.py
@@ -596,8 +596,8 @@ class MatrixRepository(BaseRepository):
         self.num_of_queries = 0
         self._instance_flag = False
         self._X = None
-        self._y = None
-        self._indexes = None
+        self._y = self._y[:0]
+        self._indexes = self._indexes[:0]
         self._query_history.clear()
 
     def _update_query_history(self, labels, indexes, cost):
-- 
2.43.0


From aac718c7e38dad1ee8f12710bbb688d507f2e65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:33 +0000
Subject: [PATCH 040/131] fix: aceThreading could not be saved before it was
 started

---
 alipy/utils/multi_thread.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index fd52558..387ca69 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -73,6 +73,7 @@ class aceThreading:
         self._refresh_interval = refresh_interval
         self._saving_path = os.path.abspath(saving_path)
         self._recover_arr = None
+        self._global_parameters = None
 
         # the path to store results of each thread.
         tp_path = os.path.join(self._saving_path, 'AL_result')
-- 
2.43.0


From e4fab7745475185a3650049b436abcd2f5876d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:33 +0000
Subject: [PATCH 041/131] fix: a crash while saving destroyed the
 multi-threading state saved before

---
 alipy/utils/multi_thread.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index 387ca69..fd40cb7 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -292,11 +292,14 @@ class aceThreading:
         if self._saving_path is None:
             return
         if os.path.isdir(self._saving_path):
-            f = open(os.path.join(self._saving_path, 'multi_thread_state.pkl'), 'wb')
+            saving_file = os.path.join(self._saving_path, 'multi_thread_state.pkl')
         else:
-            f = open(self._saving_path, 'wb')
-        pickle.dump(self, f)
-        f.close()
+            saving_file = self._saving_path
+        # Write to a temporary file first, so that the file of the last
+        # saving survives if the program exits while saving.
+        with open(saving_file + '.tmp', 'wb') as f:
+            pickle.dump(self, f)
+        os.replace(saving_file + '.tmp', saving_file)
 
     @classmethod
     def recover(cls, path):
-- 
2.43.0


From 7535e9d67f7ee5dd2f1c198a7b6be9b601d49fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:33 +0000
Subject: [PATCH 042/131] fix: remaining rounds were never started when the
 program has other threads

---
 alipy/utils/multi_thread.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index fd40cb7..019d934 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -203,10 +203,10 @@ class aceThreading:
                 while True:
                     if self._if_refresh():
                         print(self)
-                        # The active_count seems also include the main thread
-                        # print(threading.active_count())
-                    if threading.active_count() - 1 < self.__max_thread:
-                        available_thread += self.__max_thread - threading.active_count() + 1
+                    # only count the threads of this object, the program may have other ones
+                    active_count = sum([t.is_alive() for t in self.__threads])
+                    if active_count < self.__max_thread:
+                        available_thread += self.__max_thread - active_count
                         break
                 # run the if code
                 self.__threads[i].start()
-- 
2.43.0


From 7f936ebfa95f48abac91acb45abca0d1c1d0c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:33 +0000
Subject: [PATCH 043/131] fix: rounds not started or not saved when the program
 exits were lost when recovering

---
 alipy/utils/multi_thread.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index 019d934..e3aa392 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -114,7 +114,7 @@ class aceThreading:
         # for displaying the time elapse
         self._thread_time_elapse = [-1] * self._round_num
         # for recovering the workspace
-        self.__alive_thread = [False] * self._round_num
+        self.__alive_thread = [True] * self._round_num
 
         self._target_func = None
         if target_func is not None:
@@ -184,6 +184,13 @@ class aceThreading:
             self._recover_arr = [True] * self._round_num
         else:
             assert (len(self._recover_arr) == self._round_num)
+        # Save the state of each round to run before starting any of them, so that
+        # none of them will be regarded as finished if the program exits too early.
+        for i in range(self._round_num):
+            if self._recover_arr[i]:
+                self._saver[i].save()
+        self._update_thread_state()
+        self.save()
         # start thread
         available_thread = self.__max_thread
         for i in range(self._round_num):
@@ -255,7 +262,8 @@ class aceThreading:
 
     def _update_thread_state(self):
         for i in range(len(self.__threads)):
-            if self.__threads[i].is_alive():
+            # A round is unfinished until its thread has been started and ended.
+            if self._recover_arr[i] and (self.__threads[i].ident is None or self.__threads[i].is_alive()):
                 self.__alive_thread[i] = True
             else:
                 self.__alive_thread[i] = False
@@ -332,19 +340,14 @@ class aceThreading:
         for i in range(breakpoint._round_num):
             file_dir = os.path.join(state_path, breakpoint._saver[i]._saving_file_name)
             if not breakpoint.__alive_thread[i]:
-                if os.path.exists(file_dir) and os.path.getsize(file_dir) != 0:
-                    # all finished
-                    recover_thread._saver[i] = StateIO.load(
-                        os.path.join(state_path, breakpoint._saver[i]._saving_file_name))
-                    recover_arr[i] = False
-                else:
-                    # not started
-                    pass
+                # all finished
+                recover_thread._saver[i] = breakpoint._saver[i]
+                recover_arr[i] = False
             else:
-                if os.path.getsize(file_dir) == 0:
+                if not os.path.exists(file_dir) or os.path.getsize(file_dir) == 0:
                     # not saving, but started, use the initialized stateIO object
                     continue
-                # still running
+                # not started or still running
                 # load intermediate result file
                 recover_thread._saver[i] = StateIO.load(
                     os.path.join(state_path, breakpoint._saver[i]._saving_file_name))
-- 
2.43.0


From 682a7dcc6159860faa244e7fdc4af70fcfc664aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:40 +0000
Subject: [PATCH 044/131] fix: the global parameters of a recovered
 aceThreading were lost

---
 alipy/utils/multi_thread.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/alipy/utils/multi_thread.py b/alipy/utils/multi_thread.py
index e3aa392..0bcf9f2 100644
--- a/alipy/utils/multi_thread.py
+++ b/alipy/utils/multi_thread.py
@@ -168,7 +168,10 @@ class aceThreading:
     def __init_threads(self, global_parameters=None):
         if global_parameters is not None:
             assert (isinstance(global_parameters, dict))
-        self._global_parameters = global_parameters
+            self._global_parameters = global_parameters
+        else:
+            # use the recovered parameters (if any)
+            global_parameters = self._global_parameters
 
         # init thread objects
         for i in range(self._round_num):
@@ -352,4 +355,5 @@ class aceThreading:
                 recover_thread._saver[i] = StateIO.load(
                     os.path.join(state_path, breakpoint._saver[i]._saving_file_name))
         recover_thread._recover_arr = recover_arr
+        recover_thread._global_parameters = breakpoint._global_parameters
         return recover_thread
-- 
2.43.0


From 32627a790eee722c520f91a947f47327a47cd0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:24 +0000
Subject: [PATCH 045/131] fix: the random strategies only accepted
 IndexCollection as the unlabeled indexes

---
 alipy/query_strategy/query_labels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 1876178..6606c53 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -289,7 +289,7 @@ class QueryRandom(BaseIndexQuery):
         if len(unlabel_index) <= batch_size:
             return np.array([i for i in unlabel_index])
         perm = randperm(len(unlabel_index) - 1, batch_size)
-        tpl = list(unlabel_index.index)
+        tpl = list(unlabel_index)
         return [tpl[i] for i in perm]
 
 
@@ -319,7 +319,7 @@ class QueryInstanceRandom(BaseIndexQuery):
         if len(unlabel_index) <= batch_size:
             return np.array([i for i in unlabel_index])
         perm = randperm(len(unlabel_index) - 1, batch_size)
-        tpl = list(unlabel_index.index)
+        tpl = list(unlabel_index)
         return [tpl[i] for i in perm]
 
 
-- 
2.43.0


From 44fc37c402b4d62994cab2a5c5a3bfd889d98b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:24 +0000
Subject: [PATCH 046/131] fix: nlargestarg lost elements when more are
 requested than there are

---
 alipy/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/utils/misc.py b/alipy/utils/misc.py
index 52da0ef..b256cea 100644
--- a/alipy/utils/misc.py
+++ b/alipy/utils/misc.py
@@ -132,7 +132,7 @@ def nlargestarg(a, n):
     assert (n > 0)
     argret = np.argsort(a)
     # ascent
-    return argret[argret.size - n:]
+    return argret[max(argret.size - n, 0):]
 
 
 def nsmallestarg(a, n):
-- 
2.43.0


From b4521f00ea694aa5204853969eedffa27bb2d83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:24 +0000
Subject: [PATCH 047/131] fix: entropy sampling changed the prediction matrix
 of the caller

---
 alipy/query_strategy/query_labels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 6606c53..df1fb7d 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -214,6 +214,7 @@ class QueryInstanceUncertainty(BaseIndexQuery):
 
         if self.measure == 'entropy':
             # calc entropy
+            pv = np.array(pv)  # do not change the given prediction matrix
             pv[pv <= 0] = 1e-06  # avoid zero division
             entro = [-np.sum(vec * np.log(vec+1e-9)) for vec in pv]
             assert (len(np.shape(entro)) == 1)
-- 
2.43.0


From b60afd1ce5274e29a8f0f6e3622fcb74293d7642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:00 +0000
Subject: [PATCH 048/131] fix: QueryExpectedErrorReduction used the class
 labels as the columns of the prediction

---
 alipy/query_strategy/query_labels.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index df1fb7d..01eb0b2 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -694,7 +694,8 @@ class QueryExpectedErrorReduction(BaseIndexQuery):
         label_y = self.y[label_index]
         ##################################
 
-        classes = np.unique(self.y)
+        # the columns of the prediction correspond to the classes of the model
+        classes = getattr(model, 'classes_', np.unique(self.y))
         pv, spv = _get_proba_pred(unlabel_x, model)
         scores = []
         for i in range(spv[0]):
@@ -704,11 +705,11 @@ class QueryExpectedErrorReduction(BaseIndexQuery):
             unlabel_ind.pop(i)
             new_unlabel_X = self.X[unlabel_ind, :]
             score = []
-            for yi in classes:
+            for k, yi in enumerate(classes):
                 new_model = copy.deepcopy(model)
                 new_model.fit(new_train_X, np.append(label_y, yi))
                 prob = new_model.predict_proba(new_unlabel_X)
-                score.append(pv[i, yi] * self.log_loss(prob))
+                score.append(pv[i, k] * self.log_loss(prob))
             scores.append(np.sum(score))
 
         return unlabel_index[nsmallestarg(scores, batch_size)]
-- 
2.43.0


From b382977fe7ffc6a2d4afeccc74b6636a6c41d301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:00 +0000
Subject: [PATCH 049/131] fix: the expected error was NaN when the model is
 certain of a class

---
 alipy/query_strategy/query_labels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 01eb0b2..7e78b57 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -648,7 +648,8 @@ class QueryExpectedErrorReduction(BaseIndexQuery):
         log_loss = 0.0
         for i in range(len(prob)):
             for p in list(prob[i]):
-                log_loss -= p * np.log(p)
+                if p > 0:   # 0 * log(0) is 0
+                    log_loss -= p * np.log(p)
         return log_loss
 
     def select(self, label_index, unlabel_index, model=None, batch_size=1):
-- 
2.43.0


From 2e032343ec301f96c85bd6ea8e9f6a67cd4080dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:00 +0000
Subject: [PATCH 050/131] fix: the graph density of far instances was NaN

---
 alipy/query_strategy/query_labels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 7e78b57..25e0cac 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -956,7 +956,8 @@ class QueryInstanceGraphDensity(BaseIndexQuery):
         # by total number of neighbors.
         self.graph_density = np.zeros(self.flat_X.shape[0])
         for i in np.arange(self.flat_X.shape[0]):
-            self.graph_density[i] = connect[i, :].sum() / (connect[i, :] > 0).sum()
+            # all the weights may be 0 (underflow) if the features are far from each other
+            self.graph_density[i] = connect[i, :].sum() / max((connect[i, :] > 0).sum(), 1)
         self.starting_density = copy.deepcopy(self.graph_density)
 
     def select(self, label_index, unlabel_index, batch_size=1, **kwargs):
-- 
2.43.0


From bc1badef3065eeb8af7176c983a37214c0485559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:00 +0000
Subject: [PATCH 051/131] fix: QueryInstanceGraphDensity failed when the pool
 is a part of the unlabeled training instances

---
 alipy/query_strategy/query_labels.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 25e0cac..7377e73 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -990,11 +990,9 @@ class QueryInstanceGraphDensity(BaseIndexQuery):
             return unlabel_index
         batch = set()
 
-        # build map from value to index
-        try:
-            label_index_in_train = [self.train_idx.index(i) for i in label_index]
-        except:
-            label_index_in_train = [np.where(self.train_idx == i)[0][0] for i in label_index]
+        # the positions of the training instances which can not be selected
+        unlabel_set = set(unlabel_index)
+        label_index_in_train = [i for i, idx in enumerate(self.train_idx) if idx not in unlabel_set]
         # end
 
         self.graph_density[label_index_in_train] = min(self.graph_density) - 1
-- 
2.43.0


From df288fcbb255544f79bdc6758f6991849cf5423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:00 +0000
Subject: [PATCH 052/131] fix: QueryInstanceCoresetGreedy failed when train_idx
 is a list

---
 alipy/query_strategy/query_labels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 7377e73..4f26aac 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -1817,7 +1817,7 @@ class QueryInstanceCoresetGreedy(BaseIndexQuery):
         self.min_distances = None
         self.n_obs = self.X.shape[0]
         self.already_selected = []
-        self.train_idx = train_idx
+        self.train_idx = np.asarray(train_idx)
 
     def update_distances(self, cluster_centers, only_new=True, reset_dist=False):
         """Update min distances given cluster centers.
-- 
2.43.0


From 03227feebf49debdbe78e3babca508d2c41df892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:00 +0000
Subject: [PATCH 053/131] fix: QueryInstanceCoresetGreedy failed when the pool
 is small, partial or not labeled after a selection

---
 alipy/query_strategy/query_labels.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 4f26aac..d3e67b5 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -1870,10 +1870,15 @@ class QueryInstanceCoresetGreedy(BaseIndexQuery):
         -------
           indices of points selected to minimize distance to cluster centers
         """
+        if len(unlabel_index) <= batch_size:
+            return [i for i in unlabel_index]
         already_selected = [np.where(self.train_idx == id)[0].item() for id in label_index]
-        self.update_distances(already_selected, only_new=True, reset_dist=False)
+        # The distances of the last selection are not reused, what was selected may have not been labeled.
+        self.update_distances(already_selected, only_new=False, reset_dist=True)
 
         new_batch = []
+        # only select from the given pool
+        self.min_distances[~np.isin(self.train_idx, list(unlabel_index))] = -100.0
         self.min_distances[already_selected] = -100.0
         self.already_selected = already_selected
 
-- 
2.43.0


From 5aa9c514e7c12630f6ac9fe9d79f78bfec01a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:55 +0000
Subject: [PATCH 054/131] fix: QueryInstanceGraphDensity failed with no more
 than 10 training instances

---
 alipy/query_strategy/query_labels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index d3e67b5..0b8cfb3 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -934,6 +934,7 @@ class QueryInstanceGraphDensity(BaseIndexQuery):
 
     def _compute_graph_density(self, n_neighbor=10):
         # kneighbors graph is constructed using k=10
+        n_neighbor = min(n_neighbor, self.flat_X.shape[0] - 1)
         connect = kneighbors_graph(self.flat_X, n_neighbor, p=1)
         # Make connectivity matrix symmetric, if a point is a k nearest neighbor of
         # another point, make it vice versa
-- 
2.43.0


From d30926afde75130e6a94282c3437064130614594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:21 +0000
Subject: [PATCH 055/131] fix: multi-label QUIRE pairs each labeled index with
 its own label

---
 alipy/query_strategy/multi_label.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 8b6855e..aa74eb8 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -466,7 +466,8 @@ class QueryMultiLabelQUIRE(BaseMultiLabelQuery):
         Sidx = label_index.get_onedim_index(order='F', ins_num=self.X.shape[0])
         Uidx = np.sort(Uidx)
         Sidx = np.sort(Sidx)
-        Ys = [self.y[lind] for lind in label_index]
+        # the labels in the same (sorted) order as Sidx
+        Ys = [self.y[sind % self.X.shape[0], sind // self.X.shape[0]] for sind in Sidx]
         # for lind in label_index:
         #     Sidx.append(lind[0])
         #     Ys.append(self.y[lind])
-- 
2.43.0


From fe43a74ba29d088b6b886578bca014f23374aacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:21 +0000
Subject: [PATCH 056/131] fix: multi-label QUIRE uses the outer product when
 inverting the reduced matrix

---
 alipy/query_strategy/multi_label.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index aa74eb8..807ece6 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -486,7 +486,7 @@ class QueryMultiLabelQUIRE(BaseMultiLabelQuery):
             tmp0 = Lqq  # +Ys'*Lss*Ys;
 
             b = -(LL[i, tmpidx])
-            invLrr = LL[np.ix_(tmpidx, tmpidx)] - b.T.dot(b) / LL[i, i]
+            invLrr = LL[np.ix_(tmpidx, tmpidx)] - np.outer(b, b) / LL[i, i]
             vt1 = YsLsu[tmpidx]
             vt2 = 2 * YsLsu[i]
             tmp1 = vt1 + Lqr
-- 
2.43.0


From f1d270f23355b3d78795d77fe69680910c2d185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:21 +0000
Subject: [PATCH 057/131] fix: multi-label pair strategies return a list of
 pairs, not the pool itself, when it is small

---
 alipy/query_strategy/multi_label.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 807ece6..cdd448f 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -449,9 +449,11 @@ class QueryMultiLabelQUIRE(BaseMultiLabelQuery):
             A list of tuples that contains the indexes of selected instance-label pairs.
         """
 
-        if len(unlabel_index) <= 1:
-            return unlabel_index
+        if len(unlabel_index) == 0:
+            return []
         unlabel_index = self._check_multi_label_ind(unlabel_index)
+        if len(unlabel_index) == 1:
+            return list(unlabel_index)
         label_index = self._check_multi_label_ind(label_index)
 
         L_kr = np.kron(np.eye(self.y.shape[1]), self.L)
@@ -559,9 +561,11 @@ class QueryMultiLabelAUDI(BaseMultiLabelQuery):
         selected_ins_lab_pair: list
             A list of tuples that contains the indexes of selected instance-label pairs.
         """
-        if len(unlabel_index) <= 1:
-            return unlabel_index
+        if len(unlabel_index) == 0:
+            return []
         unlabel_index = self._check_multi_label_ind(unlabel_index)
+        if len(unlabel_index) == 1:
+            return list(unlabel_index)
         label_index = self._check_multi_label_ind(label_index)
 
         unlab_data, _, data_ind = get_Xy_in_multilabel(index=unlabel_index, X=self.X, y=self.y)
@@ -1194,9 +1198,11 @@ class QueryMultiLabelRandom(BaseMultiLabelQuery):
             perm = randperm(len(unkonwn_ins) - 1, batch_size)
             return [(unkonwn_ins[i],) for i in perm]
         elif select_type == 'ins-lab':
-            if len(unlabel_index) <= batch_size:
-                return unlabel_index
+            if len(unlabel_index) == 0:
+                return []
             unkonwn_entries = self._check_multi_label_ind(unlabel_index)
+            if len(unkonwn_entries) <= batch_size:
+                return list(unkonwn_entries)
             perm = randperm(len(unkonwn_entries) - 1, batch_size)
             tpl = list(unkonwn_entries.index)
             return [tpl[i] for i in perm]
-- 
2.43.0


From 6f6739fecc8b37064d9ff074e8a73f827f44cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:21 +0000
Subject: [PATCH 058/131] fix: QueryMultiLabelRandom(ins) selects instances
 none of whose labels is known, and at most all of them

---
 alipy/query_strategy/multi_label.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index cdd448f..69a4c42 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -1191,10 +1191,12 @@ class QueryMultiLabelRandom(BaseMultiLabelQuery):
             The selected indexes. It is a list of tuples.
         """
         if select_type == 'ins':
-            if len(unlabel_index) <= batch_size:
-                return unlabel_index
+            if len(unlabel_index) == 0:
+                return []
             unkonwn_entries = self._check_multi_label_ind(unlabel_index)
-            unkonwn_ins = unkonwn_entries.get_instance_index()
+            unkonwn_ins = unkonwn_entries.get_unbroken_instances()
+            if len(unkonwn_ins) <= batch_size:
+                return [(i,) for i in unkonwn_ins]
             perm = randperm(len(unkonwn_ins) - 1, batch_size)
             return [(unkonwn_ins[i],) for i in perm]
         elif select_type == 'ins-lab':
-- 
2.43.0


From 40b98ab6417379319ed3976882043d1c56640f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:21 +0000
Subject: [PATCH 059/131] fix: MMC and Adaptive leave the collections of the
 caller alone and always return tuples

---
 alipy/query_strategy/multi_label.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 69a4c42..759e6d3 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -963,7 +963,10 @@ class QueryMultiLabelMMC(BaseIndexQuery):
             raise TypeError("index type error")
         
         if len(unlabel_index) <= batch_size:
-            return list(unlabel_index)
+            return [(i,) for i in unlabel_index]
+        # the collections of the caller are not modified
+        label_index = copy.deepcopy(label_index)
+        unlabel_index = copy.deepcopy(unlabel_index)
         
         select_index = []
         for i in range(batch_size):
@@ -1150,7 +1153,10 @@ class QueryMultiLabelAdaptive(BaseIndexQuery):
             raise TypeError("index type error")
         
         if len(unlabel_index) <= batch_size:
-            return list(unlabel_index)
+            return [(i,) for i in unlabel_index]
+        # the collections of the caller are not modified
+        label_index = copy.deepcopy(label_index)
+        unlabel_index = copy.deepcopy(unlabel_index)
         
         select_index = []
         for i in range(batch_size):
-- 
2.43.0


From 23e3c6e91528db99a5eee98b229bb948c4947336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:21 +0000
Subject: [PATCH 060/131] fix: sequential_select returns the index itself when
 one is left

---
 alipy/query_strategy/multi_label.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 759e6d3..a3b3c89 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -891,8 +891,8 @@ class QueryMultiLabelMMC(BaseIndexQuery):
         elif not isinstance(unlabel_index,IndexCollection):
             raise TypeError("index type error")
         
-        if len(unlabel_index) <= 1:
-            return list(unlabel_index)
+        if len(unlabel_index) == 1:
+            return unlabel_index[0]
 
         labeled_pool = self.X[label_index]
         X_pool = self.X[unlabel_index]
@@ -1060,8 +1060,8 @@ class QueryMultiLabelAdaptive(BaseIndexQuery):
         elif not isinstance(unlabel_index,IndexCollection):
             raise TypeError("index type error")
         
-        if len(unlabel_index) <= 1:
-            return list(unlabel_index)
+        if len(unlabel_index) == 1:
+            return unlabel_index[0]
 
         X_pool = self.X[unlabel_index]
 
-- 
2.43.0


From 77e1f7c973c9d941cc845cedd00c2385db1a5fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:21 +0000
Subject: [PATCH 061/131] fix: MMC works when the labeled instances all have
 the same number of labels

---
 alipy/query_strategy/multi_label.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index a3b3c89..04f2e36 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -906,7 +906,7 @@ class QueryMultiLabelMMC(BaseIndexQuery):
 
         trnf = np.sort(trnf, axis=1)[:, ::-1]
         trnf /= np.tile(trnf.sum(axis=1).reshape(-1, 1), (1, trnf.shape[1]))
-        if len(np.unique(self.y.sum(axis=1))) == 1:
+        if len(np.unique(self.y[label_index].sum(axis=1))) == 1:
             lr = DummyClf()
         else:
             lr = self.logistic_regression_
-- 
2.43.0


From 3530510078a6ea81cacc5f1c880fbc4dd8bfa597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:11 +0000
Subject: [PATCH 062/131] fix: MMC failed when no label was predicted with a
 positive probability

---
 alipy/query_strategy/multi_label.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 04f2e36..3e3ecc9 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -905,7 +905,8 @@ class QueryMultiLabelMMC(BaseIndexQuery):
         f = poolf * 2 - 1
 
         trnf = np.sort(trnf, axis=1)[:, ::-1]
-        trnf /= np.tile(trnf.sum(axis=1).reshape(-1, 1), (1, trnf.shape[1]))
+        trnf_sum = trnf.sum(axis=1).reshape(-1, 1)
+        trnf /= np.where(trnf_sum == 0, 1, trnf_sum)
         if len(np.unique(self.y[label_index].sum(axis=1))) == 1:
             lr = DummyClf()
         else:
@@ -914,7 +915,8 @@ class QueryMultiLabelMMC(BaseIndexQuery):
 
         idx_poolf = np.argsort(poolf, axis=1)[:, ::-1]
         poolf = np.sort(poolf, axis=1)[:, ::-1]
-        poolf /= np.tile(poolf.sum(axis=1).reshape(-1, 1), (1, poolf.shape[1]))
+        poolf_sum = poolf.sum(axis=1).reshape(-1, 1)
+        poolf /= np.where(poolf_sum == 0, 1, poolf_sum)
         pred_num_lbl = lr.predict(poolf).astype(int)
 
         yhat = -1 * np.ones((len(X_pool), self.n_labels), dtype=int)
-- 
2.43.0


From 0cad4ba2ecb45bc3a941bbce934e0964e0203c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 063/131] fix: HALC excludes the labeled pairs from its
 selection

---
 alipy/query_strategy/cost_sensitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index aa67f58..543665e 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -373,7 +373,7 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
                     Infor[i][j] = Uncertainty[i][j] * 2
                 elif flag == -1:
                     Infor[i][j] = Uncertainty[i][j] + self.cal_Udes(i, j, Uncertainty)
-            Infor[j_label][j] = -np.infty
+            Infor[j_label, j] = -np.infty
         return Infor
         
     def select(self, label_index, unlabel_index, cost=None, oracle=None, budget=40, models=None, base_model=None):
-- 
2.43.0


From a712725357d2e1c2317142e074d35f2e9ee10e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 064/131] fix: HALC walks over the children of a label, not
 over the entries of its row

---
 alipy/query_strategy/cost_sensitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index 543665e..63e609d 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -345,10 +345,10 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
         while not que.empty():
             temp = que.get()
             if np.any(self.label_tree[temp]):
-                for i in self.label_tree[temp]:
-                    if self.label_tree[temp, i] == 1:
-                        que.put(i)
-            else:
+                for i in np.where(np.asarray(self.label_tree[temp]) == 1)[0]:
+                    que.put(i)
+            elif Uncertainty[xi_index][temp] != -np.infty:
+                # known descendants contribute nothing
                 Udes += Uncertainty[xi_index][temp]
         return Udes
     
-- 
2.43.0


From 1eb9fd04c28b05bd71238b0e61ddf4d22b44008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 065/131] fix: HALC accepts one weight per class, as documented

---
 alipy/query_strategy/cost_sensitive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index 63e609d..f715c82 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -268,7 +268,8 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
         if weights is None:
             self.weights = np.ones(self.n_classes)
         else:
-            assert(np.shape(y)[0] == len(weights))
+            weights = np.asarray(weights).flatten()
+            assert(np.shape(y)[1] == len(weights))
             self.weights = weights
         self.label_tree = label_tree
         self.Distance = self._cal_Distance()
-- 
2.43.0


From ff62096b37b55d4838f043cbaef687dca38e6f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 066/131] fix: cost-sensitive selection considers as many
 candidates of each class as the budget allows

---
 alipy/query_strategy/cost_sensitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index f715c82..5576a04 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -448,8 +448,8 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
             sort_index = np.argsort(j_info)
             sort_index = sort_index[::-1]
             sort_index = sort_index[0: budget]
-            useless_index = np.where(Infor[sort_index][j] == -np.infty)
-            sort_index = sort_index[: budget - len(useless_index)]
+            # exclude the labeled ones
+            sort_index = sort_index[Infor[sort_index, j] != -np.infty]
             
             j_instance_pair = np.column_stack((sort_index, np.ones(len(sort_index), dtype=int) * j))
             for k in sort_index:
@@ -635,8 +635,8 @@ class QueryCostSensitivePerformance(BaseMultiLabelQuery):
             sort_index = np.argsort(j_info)
             sort_index = sort_index[::-1]
             sort_index = sort_index[0: budget]
-            useless_index = np.where(uncertainty[sort_index][j] == -np.infty)
-            sort_index = sort_index[: budget - len(useless_index)]  
+            # exclude the labeled ones
+            sort_index = sort_index[uncertainty[sort_index, j] != -np.infty]
             j_instance_pair = np.column_stack((sort_index, np.ones(len(sort_index), dtype=int) * j))
             for k in sort_index:
                 infor_value = np.r_[infor_value, uncertainty[k][j]]
-- 
2.43.0


From 100333834c572a80d1db42e2278bbe818a8d396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 067/131] fix: cost-sensitive strategies get the cost of each
 class from the oracle

---
 alipy/query_strategy/cost_sensitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index 5576a04..8874922 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -433,7 +433,7 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
             cost = [1]*n_classes
 
         if oracle:
-            _, costs = oracle.query_by_index(range(self.n_classes))
+            _, costs = oracle.query_by_index(list(range(self.n_classes)))
         else:
             costs = cost
         
@@ -525,7 +525,7 @@ class QueryCostSensitiveRandom(BaseMultiLabelQuery):
         if oracle is None and cost is None:
             cost = [1]*n_classes
         if oracle:
-            _, costs = oracle.query_by_index(range(n_classes))
+            _, costs = oracle.query_by_index(list(range(n_classes)))
         else:
             costs = cost
 
@@ -615,7 +615,7 @@ class QueryCostSensitivePerformance(BaseMultiLabelQuery):
             cost = [1]*n_classes
 
         if oracle:
-            _, costs = oracle.query_by_index(range(self.n_classes))
+            _, costs = oracle.query_by_index(list(range(self.n_classes)))
         else:
             costs = cost
         if models is None:
-- 
2.43.0


From 04ab0c042c98619cbe2114456e0d374bf33fb6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 068/131] fix: QueryCostSensitiveRandom failed when the budget
 covers the whole pool

---
 alipy/query_strategy/cost_sensitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index 8874922..e9d1bf9 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -532,7 +532,7 @@ class QueryCostSensitiveRandom(BaseMultiLabelQuery):
         instance_pair = MultiLabelIndexCollection(label_size=n_classes)
         un_ind = copy.deepcopy(unlabel_index)
         current_cost = 0.
-        while True:
+        while len(un_ind) > 0:
             rand = np.random.choice(len(un_ind))
             i_j = flattern_multilabel_index(un_ind.index)[rand]
             j_class = i_j[1]
-- 
2.43.0


From fe4f442077e42d307254592f1a96bd443bce7f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 069/131] fix: hierarchical_multilabel_mark leaves the given
 indexes alone

---
 alipy/query_strategy/cost_sensitive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index e9d1bf9..19892a4 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -189,7 +189,8 @@ def hierarchical_multilabel_mark(multilabel_index, label_index, label_tree, y_tr
                 "start from 0) or a list "
                 "of tuples with 2 elements, in which, the 1st element is the index of instance "
                 "and the 2nd element is the index of label.")
-        multilabel_index = copy.deepcopy(container)
+        multilabel_index = container
+    multilabel_index = copy.deepcopy(multilabel_index)
     
     if not isinstance(label_index, MultiLabelIndexCollection):
         try:
-- 
2.43.0


From 858a1ec054fcce0c0194d9344a1cbddad1c96a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 070/131] fix: hierarchical_multilabel_mark adds the ancestors
 of a relevant label and the descendants of an irrelevant one

---
 alipy/query_strategy/cost_sensitive.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index 19892a4..c91b86a 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -214,16 +214,19 @@ def hierarchical_multilabel_mark(multilabel_index, label_index, label_tree, y_tr
     for instance_label_pair in multilabel_index:
         i_instance = instance_label_pair[0]
         j_label = instance_label_pair[1]
+        # the ancestors of a relevant label are relevant, the descendants of an irrelevant label are irrelevant
         if y_true[instance_label_pair] == 1:
-            for descent_label in range(n_classes):
-                if label_tree[j_label][descent_label] == 1:
-                    if (not (i_instance, descent_label) in label_index):
-                        add_label_index.update((i_instance, descent_label))   
+            related = np.asarray(label_tree).T
         elif y_true[instance_label_pair] == -1:
-            for parent_label in range(n_classes):
-                if label_tree[parent_label][j_label] == 1:
-                    if (not (i_instance, parent_label) in label_index):
-                        add_label_index.update((i_instance, parent_label))
+            related = np.asarray(label_tree)
+        else:
+            continue
+        implied = list(np.where(related[j_label] == 1)[0])
+        for label in implied:
+            implied.extend(k for k in np.where(related[label] == 1)[0] if k not in implied)
+            pair = (i_instance, int(label))
+            if pair not in label_index and pair not in add_label_index:
+                add_label_index.update(pair)
 
     for i in add_label_index:
         if not i in multilabel_index:
-- 
2.43.0


From 980f5850cc4b8870e5b0cc879f0cefdbb1fd9082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:45 +0000
Subject: [PATCH 071/131] fix: HALC failed when the neighbours are partly
 labeled

---
 alipy/query_strategy/cost_sensitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/cost_sensitive.py b/alipy/query_strategy/cost_sensitive.py
index c91b86a..c71f47d 100644
--- a/alipy/query_strategy/cost_sensitive.py
+++ b/alipy/query_strategy/cost_sensitive.py
@@ -336,7 +336,7 @@ class QueryCostSensitiveHALC(BaseMultiLabelQuery):
             if i in label_samples[0]:
                 g_j = self.y[i, j_class]
             else:
-                g_j = models[j_class].predict([self.X[i, :]])
+                g_j = models[j_class].predict([self.X[i, :]])[0]
             vote.append(np.sign(g_j))       
         return np.sign(np.sum(vote)) 
     
-- 
2.43.0


From 226e85cc258c9b7c8fdb9884cf6b7b723d526820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:58 +0000
Subject: [PATCH 072/131] fix: the unobserved entries given to AFASMC can be
 anything, nan included

---
 alipy/query_strategy/query_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 4ed96db..bf1193b 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -182,7 +182,7 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
         assert 0 in ue
         assert 1 in ue
     X_obr = np.zeros((n_samples, n_features))
-    X_obr += obrT * X
+    X_obr += np.where(obrT == 1, X, 0)
     n_samples, n_features = X.shape
     lambda2 /= n_samples
     theta0 = 1
@@ -260,7 +260,7 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
             if abs(converge_out[k] - converge_out[k - 1]) < (1e-4 * converge_out[k - 1]):
                 break
 
-    return (1 - obrT) * Xmc + obrT * X
+    return np.where(obrT == 1, X, Xmc)
 
 
 class IterativeSVD_mc:
-- 
2.43.0


From 04bd5ca20edd36661508c48707dd488889f08aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:58 +0000
Subject: [PATCH 073/131] fix: AFASMC records the outer objective by the outer
 iteration

---
 alipy/query_strategy/query_features.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index bf1193b..ce39cfd 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -192,7 +192,7 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
     ineqLtemp0 = np.zeros((n_samples, n_features))
     ineqLtemp1 = ineqLtemp0
     L = 2
-    converge_out = np.zeros((max_in_iter, 1))
+    converge_out = np.zeros((max_out_iter, 1))
 
     for i in range(max_out_iter):
         # train a linear model whose obj function is min{norm(Xw-Y)}
@@ -250,14 +250,14 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
 
         converge_out[i] = minObj
         if i == 0:
-            minObj_out = converge_out[k]
+            minObj_out = converge_out[i]
             Xmc = X_mc
         else:
-            if converge_out[k] < minObj_out:
-                minObj_out = converge_out[k]
+            if converge_out[i] < minObj_out:
+                minObj_out = converge_out[i]
                 Xmc = X_mc
         if i > 0:
-            if abs(converge_out[k] - converge_out[k - 1]) < (1e-4 * converge_out[k - 1]):
+            if abs(converge_out[i] - converge_out[i - 1]) < (1e-4 * converge_out[i - 1]):
                 break
 
     return np.where(obrT == 1, X, Xmc)
-- 
2.43.0


From ae4bc5b15b784b2e7d75e3f98e3df0d6e4a88d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:58 +0000
Subject: [PATCH 074/131] fix: IterativeSVD_mc starts from the observed entries
 instead of the missing ones

---
 alipy/query_strategy/query_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index ce39cfd..3e4f7ab 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -365,7 +365,7 @@ class IterativeSVD_mc:
             assert 0 in ue
             assert 1 in ue
         missing_mask = 1 - observed_mask
-        X_filled = X * missing_mask
+        X_filled = np.where(observed_mask == 1, X, 0)
         for i in range(self.max_iters):
             # deviation from original svdImpute algorithm:
             # gradually increase the rank of our approximation
@@ -382,7 +382,7 @@ class IterativeSVD_mc:
                 X_old=X_filled,
                 X_new=X_reconstructed,
                 missing_mask=missing_mask)
-            X_filled = X_reconstructed * missing_mask + X * observed_mask
+            X_filled = np.where(observed_mask == 1, X, X_reconstructed)
             if converged:
                 break
         return X_filled
-- 
2.43.0


From daaf1622c2cd47a9bc5d0b5ad5cdbb9f3673b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:58 +0000
Subject: [PATCH 075/131] fix: the feature strategies accept the training
 indexes as a list

---
 alipy/query_strategy/query_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 3e4f7ab..3e7f587 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -416,7 +416,7 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
 
     def __init__(self, X, y, train_idx=None):
         super(QueryFeatureAFASMC, self).__init__(X, y)
-        self._train_idx = train_idx
+        self._train_idx = train_idx if train_idx is None else np.asarray(train_idx)
         self._feature_variance = []
 
     def select(self, observed_entries, unkonwn_entries, **kwargs):
@@ -589,7 +589,7 @@ class QueryFeatureStability(BaseFeatureQuery):
 
     def __init__(self, X, y, train_idx=None, rank_arr=None):
         super(QueryFeatureStability, self).__init__(X, y)
-        self._train_idx = train_idx
+        self._train_idx = train_idx if train_idx is None else np.asarray(train_idx)
         if rank_arr is None:
             rank_arr = [1, 2, 3]
         self._committee = []
-- 
2.43.0


From 03be7713831e1c750e9e5e814f114d0db784d66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:58 +0000
Subject: [PATCH 076/131] fix: feature strategies return a list of pairs, not
 the pool itself, when it is small

---
 alipy/query_strategy/query_features.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 3e7f587..52885c6 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -441,9 +441,11 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
             Note that, the index is for the the WHOLE dataset, NOT THE TRAINING SET.
         """
         # build map from value to index
-        if len(unkonwn_entries) <= 1:
-            return unkonwn_entries
+        if len(unkonwn_entries) == 0:
+            return []
         unkonwn_entries = self._check_feature_ind(unkonwn_entries)
+        if len(unkonwn_entries) == 1:
+            return list(unkonwn_entries)
         observed_entries = self._check_feature_ind(observed_entries)
 
         if self._train_idx is None:
@@ -548,9 +550,11 @@ class QueryFeatureRandom(BaseFeatureQuery):
             Note that, the index is a subset of unkonwn_entries.
         """
         # build map from value to index
-        if len(unkonwn_entries) <= 1:
-            return unkonwn_entries
+        if len(unkonwn_entries) == 0:
+            return []
         unkonwn_entries = self._check_feature_ind(unkonwn_entries)
+        if len(unkonwn_entries) <= batch_size:
+            return list(unkonwn_entries)
         perm = randperm(len(unkonwn_entries) - 1, batch_size)
         tpl = list(unkonwn_entries.index)
         return [tpl[i] for i in perm]
@@ -618,9 +622,11 @@ class QueryFeatureStability(BaseFeatureQuery):
             Note that, the index is for the the WHOLE dataset, NOT THE TRAINING SET.
         """
         # build map from value to index
-        if len(unkonwn_entries) <= 1:
-            return unkonwn_entries
+        if len(unkonwn_entries) == 0:
+            return []
         unkonwn_entries = self._check_feature_ind(unkonwn_entries)
+        if len(unkonwn_entries) == 1:
+            return list(unkonwn_entries)
         observed_entries = self._check_feature_ind(observed_entries)
 
         if self._train_idx is None:
-- 
2.43.0


From f2763659e46f7da38141a00d0ddc277f665bae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:21 +0000
Subject: [PATCH 077/131] fix: AFASMC and Stability only select entries which
 are in the given pool

---
 alipy/query_strategy/query_features.py | 29 +++++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 52885c6..0293505 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -463,6 +463,11 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
             #     tr_ob.append(entry)
         tr_ob = MultiLabelIndexCollection(tr_ob)
 
+        # the entries which can be selected
+        candidates = np.zeros((len(self._train_idx), self.X.shape[1]))
+        for entry in unkonwn_entries:
+            candidates[self._train_idx == entry[0], entry[1]] = 1
+
         # matrix completion
         X_mc = AFASMC_mc(X=self.X[self._train_idx], y=self.y[self._train_idx], omega=tr_ob, **kwargs)
         self._feature_variance.append(X_mc)
@@ -472,11 +477,11 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
             for i in range(mc_sh[0]):
                 for j in range(mc_sh[1]):
                     var_mat[i, j] = np.var([mat[i][j] for mat in self._feature_variance])
-            var_mat *= 1 - tr_ob.get_matrix_mask(mat_shape=mc_sh, sparse=False)
-            # in the first 2 rounds, all entries are 0, you will select the known elements.
+            # all the variances may be 0, do not select the known elements.
+            var_mat[candidates == 0] = -1
             selected_feature = np.argmax(var_mat)  # a 1d index in training set
         else:
-            selected_feature = np.argmax(1 - tr_ob.get_matrix_mask(mat_shape=mc_sh, sparse=False))
+            selected_feature = np.argmax(candidates)
 
         return [(self._train_idx[selected_feature // mc_sh[1]], selected_feature % mc_sh[1])]
 
@@ -513,8 +518,8 @@ class QueryFeatureAFASMC(BaseFeatureQuery):
             for i in range(mc_sh[0]):
                 for j in range(mc_sh[1]):
                     var_mat[i, j] = np.var([mat[i][j] for mat in self._feature_variance])
-            var_mat *= 1 - observed_mask
-            # in the first 2 rounds, all entries are 0, you will select the known elements.
+            # all the variances may be 0, do not select the known elements.
+            var_mat[observed_mask == 1] = -1
             selected_feature = np.argmax(var_mat)  # a 1d index in training set
         else:
             selected_feature = np.argmax(1 - observed_mask)
@@ -644,8 +649,14 @@ class QueryFeatureStability(BaseFeatureQuery):
             #     tr_ob.append(entry)
         tr_ob = MultiLabelIndexCollection(tr_ob)
 
+        # the entries which can be selected
+        candidates = np.zeros((len(self._train_idx), self.X.shape[1]))
+        for entry in unkonwn_entries:
+            candidates[self._train_idx == entry[0], entry[1]] = 1
+
         selected_feature_in_train = self.select_by_mask(
-            observed_mask=tr_ob.get_matrix_mask(mat_shape=(len(self._train_idx), self.X.shape[1]), sparse=False))
+            observed_mask=tr_ob.get_matrix_mask(mat_shape=(len(self._train_idx), self.X.shape[1]), sparse=False),
+            candidates=candidates)
 
         return [(self._train_idx[selected_feature_in_train[0][0]], selected_feature_in_train[0][1])]
 
@@ -673,6 +684,7 @@ class QueryFeatureStability(BaseFeatureQuery):
         assert observed_mask.shape[0] == len(self._train_idx)
         assert observed_mask.shape[1] == self.X.shape[1]
 
+        candidates = kwargs.pop('candidates', 1 - observed_mask)
         X_mc_arr = []
         for comt in self._committee:
             X_mc_arr.append(comt.impute(X=self.X[self._train_idx], observed_mask=observed_mask))
@@ -683,9 +695,10 @@ class QueryFeatureStability(BaseFeatureQuery):
             for i in range(mc_sh[0]):
                 for j in range(mc_sh[1]):
                     var_mat[i, j] = np.var([mat[i][j] for mat in X_mc_arr])
-            var_mat *= 1 - observed_mask
+            # all the variances may be 0, do not select the known elements.
+            var_mat[candidates == 0] = -1
             selected_feature = np.argmax(var_mat)
         else:
-            selected_feature = np.argmax(1 - observed_mask)
+            selected_feature = np.argmax(candidates)
 
         return [(selected_feature // mc_sh[1], selected_feature % mc_sh[1])]
-- 
2.43.0


From c26fa41a46bef41e126dc2db9f21be491626136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:16 +0000
Subject: [PATCH 078/131] fix: the step size of AFASMC does not overflow
 because of rounding errors

---
 alipy/query_strategy/query_features.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 0293505..4c86e7a 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -200,6 +200,7 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
         W = np.linalg.pinv(X_extend.T.dot(X_extend)).dot(X_extend.T).dot(y)
         w = W[0:-1].flatten()
         b = W[-1]
+        lipschitz = 1 + 2 * lambda2 * w.dot(w)
 
         convergence = np.zeros(max_in_iter)
 
@@ -222,7 +223,9 @@ def AFASMC_mask_mc(X, y, mask, **kwargs):
                 Y.flatten())
             ineqR = ineqRtemp + svd_obj_temp.flatten().dot(Z1.flatten()) + L / 2 * sum(sum((Z1 - Y) ** 2))
 
-            while ineqL > ineqR:
+            # the inequality holds for every L not less than the lipschitz constant of
+            # the gradient, L does not grow because of the rounding errors only.
+            while ineqL > ineqR and L < lipschitz:
                 L = L * 2
                 svd_obj = Y - 1 / L * svd_obj_temp
                 Z1, traceNorm = _svd_threshold(svd_obj, lambda1 / L)
-- 
2.43.0


From 7b58eb131b9443f48e54868dafc55d89c5bc11d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:21 +0000
Subject: [PATCH 079/131] fix: majority_vote counts the votes with the given
 weights

---
 alipy/query_strategy/noisy_oracles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index c36e220..dd3d8e7 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -80,10 +80,12 @@ def majority_vote(labels, weight=None):
         The label of the selected_instance, produced by majority voting
         of the selected oracles.
     """
-    oracle_weight = np.ones(len(labels)) if weight is None else weight
+    oracle_weight = [1] * len(labels) if weight is None else weight
     assert len(labels) == len(oracle_weight)
 
-    vote_result = collections.Counter(labels)
+    vote_result = collections.Counter()
+    for i in range(len(labels)):
+        vote_result[labels[i]] += oracle_weight[i]
     most_votes = vote_result.most_common(n=1)
     return most_votes[0][1], most_votes[0][0]
 
-- 
2.43.0


From a2878bdbd647c8466179f4663cc8390b016b7d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:21 +0000
Subject: [PATCH 080/131] fix: get_query_results only queries the selected
 oracles of a list

---
 alipy/query_strategy/noisy_oracles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index dd3d8e7..ff9efbb 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -127,7 +127,7 @@ def get_query_results(selected_instance, oracles, names=None):
             raise TypeError("The type of parameter oracles must be a list or alipy.oracle.Oracles object.")
         labeling_results = []
         if oracle_type == 'list':
-            for i in oracles.names() if oracle_type == 'oracles' else range(len(oracles)):
+            for i in range(len(oracles)) if names is None else names:
                 lab, co = oracles[i].query_by_index(selected_instance)
                 labeling_results.append(lab[0])
                 costs.append(np.sum(co))
-- 
2.43.0


From b849ddd7a7747fa92ec15c7a1508a98f2eba720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:21 +0000
Subject: [PATCH 081/131] fix: CEAL evaluates the cost of oracles when
 eval_cost is set

---
 alipy/query_strategy/noisy_oracles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index ff9efbb..fdc4c09 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -297,7 +297,7 @@ class QueryNoisyOraclesCEAL(BaseNoisyOracleQuery):
             If a Oracles object is given, the oracle name will be returned.
         """
         n_neighbors = min(kwargs.pop('n_neighbors', 10), len(self._ini_ind)-1)
-        eval_cost = kwargs.pop('n_neighbors', False)
+        eval_cost = kwargs.pop('eval_cost', False)
         Q_table, oracle_ind_name_dict = self._calc_Q_table(label_index, unlabel_index, self._oracles, predict,
                                                            n_neighbors=n_neighbors, eval_cost=eval_cost)
         # get the instance-oracle pair
-- 
2.43.0


From 2b01056075588bc2a6da3e33ba97925721a7a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:21 +0000
Subject: [PATCH 082/131] fix: the noisy oracles strategies select the oracles
 for the last unlabeled instance

---
 alipy/query_strategy/noisy_oracles.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index fdc4c09..47aaa88 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -349,8 +349,6 @@ class QueryNoisyOraclesCEAL(BaseNoisyOracleQuery):
         unlabel_index = np.asarray(unlabel_index)
         label_index = np.asarray(label_index)
         num_of_neighbors = n_neighbors
-        if len(unlabel_index) <= 1:
-            return unlabel_index
 
         Q_table = np.zeros((len(oracles), len(unlabel_index)))  # row:oracle, col:ins
         spv = np.shape(pred_unlab)
@@ -446,8 +444,6 @@ class QueryNoisyOraclesSelectInstanceUncertainty(BaseNoisyOracleQuery, metaclass
         assert (isinstance(label_index, collections.Iterable))
         unlabel_index = np.asarray(unlabel_index)
         label_index = np.asarray(label_index)
-        if len(unlabel_index) <= 1:
-            return unlabel_index
 
         # select instance and oracle
         unc = QueryInstanceUncertainty(measure='least_confident')
-- 
2.43.0


From 5fcbe282531bd10594cf033ab672901538962a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:21 +0000
Subject: [PATCH 083/131] fix: QueryNoisyOraclesAll returns a list of oracles

---
 alipy/query_strategy/noisy_oracles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index 47aaa88..331f739 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -606,7 +606,7 @@ class QueryNoisyOraclesAll(QueryNoisyOraclesSelectInstanceUncertainty):
         oracles_ind: list
             The indexes of selected oracles.
         """
-        return self._oracle_ind_name_dict.values()
+        return list(self._oracle_ind_name_dict.values())
 
 
 class QueryNoisyOraclesRandom(QueryNoisyOraclesSelectInstanceUncertainty):
-- 
2.43.0


From 5cae905d96fdf859d8f70ce45e11745ed7f8b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:21 +0000
Subject: [PATCH 084/131] fix: IEthresh works with a single oracle

---
 alipy/query_strategy/noisy_oracles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/alipy/query_strategy/noisy_oracles.py b/alipy/query_strategy/noisy_oracles.py
index 331f739..d0acfe6 100644
--- a/alipy/query_strategy/noisy_oracles.py
+++ b/alipy/query_strategy/noisy_oracles.py
@@ -526,6 +526,9 @@ class QueryNoisyOraclesIEthresh(QueryNoisyOraclesSelectInstanceUncertainty):
             The UI(a) value.
         """
         n = len(self._oracles_iterset)
+        if n < 2:
+            # the only oracle always agrees with itself
+            return 1.0
         t_crit_val = scipy.stats.t.isf([alpha / 2], n - 1)[0]
         reward_arr = []
         for ind in oracle_history.keys():
-- 
2.43.0


From 07f700165286bcb6573d4a0784494697e9d122b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:47 +0000
Subject: [PATCH 085/131] fix: the folds of AlExperiment do not share the
 fitted model

---
 alipy/experiment/al_experiment.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index cce5c52..9f2caef 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -363,10 +363,12 @@ class AlExperiment:
         """
             The active-learning main loop.
         """
+        # the model is fitted in each fold, the folds may run at the same time.
+        model = copy.deepcopy(self._model)
         Lcollection = IndexCollection(Lcollection)
         Ucollection = IndexCollection(Ucollection)
-        self._model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
-        pred = self._model.predict(self._X[test_id, :])
+        model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
+        pred = model.predict(self._X[test_id, :])
 
         # some query strategy,such as QueryInstanceGraphDensity,QueryInstanceQUIRE, need train_ind
         if self._query_function_need_train_ind:
@@ -395,7 +397,7 @@ class AlExperiment:
                     select_ind = querfunction.select(Lcollection, Ucollection, batch_size=self._batch_size)
                 elif 'model' in inspect.getfullargspec(self._query_function.select)[0]:
                     select_ind = self._query_function.select(Lcollection, Ucollection, batch_size=self._batch_size,
-                                                             model=self._model)
+                                                             model=model)
                 elif self._query_function_name == 'QueryInstanceBMDR' or self._query_function_name == 'QueryInstanceSPAL':
                     select_ind = self._query_function.select(Lcollection, Ucollection, batch_size=self._batch_size,
                                                              qp_solver=self.qp_solver)
@@ -407,8 +409,8 @@ class AlExperiment:
             Lcollection.update(select_ind)
             Ucollection.difference_update(select_ind)
             # update model
-            self._model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
-            pred = self._model.predict(self._X[test_id, :])
+            model.fit(X=self._X[Lcollection.index, :], y=self._y[Lcollection.index])
+            pred = model.predict(self._X[test_id, :])
 
             # performance calc
             perf_result = self._performance_metric(self._y[test_id], pred)
-- 
2.43.0


From 989445462aefe2e9bd50447c88a58d6efc7540a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:47 +0000
Subject: [PATCH 086/131] fix: the main loop of AlExperiment can be unpickled
 when recovering

---
 alipy/experiment/al_experiment.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 9f2caef..bd1be80 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -341,7 +341,7 @@ class AlExperiment:
             ace = aceThreading(self._X, self._y, self._train_idx, self._test_idx,
                                self._label_idx, self._unlabel_idx, max_thread=max_thread,
                                refresh_interval=refresh_interval, saving_path=saving_path)
-            ace.set_target_function(self.__al_main_loop)
+            ace.set_target_function(self._al_main_loop)
             ace.start_all_threads()
             self._experiment_result = ace.get_results()
         else:
@@ -354,11 +354,11 @@ class AlExperiment:
                 saver = StateIO(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
                                 self._unlabel_idx[round], initial_point, saving_path, check_flag, verbose,
                                 print_interval)
-                self.__al_main_loop(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
+                self._al_main_loop(round, self._train_idx[round], self._test_idx[round], self._label_idx[round],
                                     self._unlabel_idx[round], saver)
                 self._experiment_result.append(copy.deepcopy(saver))
 
-    def __al_main_loop(self, round, train_id, test_id, Lcollection, Ucollection,
+    def _al_main_loop(self, round, train_id, test_id, Lcollection, Ucollection,
                        saver, examples=None, labels=None, global_parameters=None):
         """
             The active-learning main loop.
-- 
2.43.0


From b217a272e1662d779473d23f50d4f6de4594c4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:47 +0000
Subject: [PATCH 087/131] fix: a recovered fold of AlExperiment keeps its
 initial point and counts its previous queries

---
 alipy/experiment/al_experiment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index bd1be80..1bd6373 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -386,7 +386,10 @@ class AlExperiment:
 
         # stopping-criterion 
         stopping_criterion = copy.deepcopy(self._stopping_criterion)
-        saver.set_initial_point(perf_result)
+        if len(saver) == 0:
+            saver.set_initial_point(perf_result)
+        # there may be some queries if the experiment is recovered
+        stopping_criterion.update_information(saver)
 
         while not stopping_criterion.is_stop():
             if not self.__custom_strategy_flag:
-- 
2.43.0


From f55736e089fc0c72ddbba216a4efa75a859cea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:47 +0000
Subject: [PATCH 088/131] fix: the time limit of AlExperiment is counted in
 each fold

---
 alipy/experiment/al_experiment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 1bd6373..4e51e1a 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -386,6 +386,7 @@ class AlExperiment:
 
         # stopping-criterion 
         stopping_criterion = copy.deepcopy(self._stopping_criterion)
+        stopping_criterion.reset()
         if len(saver) == 0:
             saver.set_initial_point(perf_result)
         # there may be some queries if the experiment is recovered
-- 
2.43.0


From c9983fe05a4fcc3ffbfd7f4b61a7a8fc0a19cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:47 +0000
Subject: [PATCH 089/131] fix: AlExperiment uses the performance metric given
 to the constructor

---
 alipy/experiment/al_experiment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index 4e51e1a..fff32ee 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -116,6 +116,7 @@ class AlExperiment:
 
         self._stopping_criterion = StoppingCriteria(stopping_criteria, stopping_value)
         self._batch_size = batch_size
+        self.set_performance_metric(performance_metric)
 
     def set_query_strategy(self, strategy="QueryInstanceUncertainty", **kwargs):
         """
-- 
2.43.0


From a13e010c05b4206b541d0cc9d45d5f470094f0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:47 +0000
Subject: [PATCH 090/131] fix: AlExperiment passes the parameters of the
 performance metric

---
 alipy/experiment/al_experiment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index fff32ee..efcf7e3 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -226,6 +226,7 @@ class AlExperiment:
 
         self._performance_metric_name = performance_metric
         self._performance_metric = getattr(performance, performance_metric)
+        self._performance_metric_kwargs = kwargs
         self._metrics = True
 
     def set_data_split(self, train_idx, test_idx, label_idx, unlabel_idx):
@@ -383,7 +384,7 @@ class AlExperiment:
                 querfunction = QueryInstanceQUIRE(self._X, self._y, train_id, **self._query_function_kwargs)
 
         # performance calc
-        perf_result = self._performance_metric(self._y[test_id], pred)
+        perf_result = self._performance_metric(self._y[test_id], pred, **self._performance_metric_kwargs)
 
         # stopping-criterion 
         stopping_criterion = copy.deepcopy(self._stopping_criterion)
@@ -418,7 +419,7 @@ class AlExperiment:
             pred = model.predict(self._X[test_id, :])
 
             # performance calc
-            perf_result = self._performance_metric(self._y[test_id], pred)
+            perf_result = self._performance_metric(self._y[test_id], pred, **self._performance_metric_kwargs)
 
             # save intermediate results
             st = State(select_index=select_ind, performance=perf_result)
-- 
2.43.0


From 322b4e9f7abfaf7d1e06d4a850441e11abe392df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:47 +0000
Subject: [PATCH 091/131] fix: AlExperiment refuses to set the query strategy
 again

---
 alipy/experiment/al_experiment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index efcf7e3..ea15b9d 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -141,6 +141,10 @@ class AlExperiment:
         # check 
         if self._existed_query_strategy:
             raise Exception("You already has set the query strategy,don`t has to set it again.")
+        self._set_query_strategy(strategy, **kwargs)
+        self._existed_query_strategy = True
+
+    def _set_query_strategy(self, strategy, **kwargs):
         # user-defined strategy
         if callable(strategy):
             self.__custom_strategy_flag = True
-- 
2.43.0


From 52ef82c0852aead178f5548d97750dc320825c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:47 +0000
Subject: [PATCH 092/131] fix: the results of AlExperiment only include the
 last run

---
 alipy/experiment/al_experiment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/experiment/al_experiment.py b/alipy/experiment/al_experiment.py
index ea15b9d..b1264b4 100644
--- a/alipy/experiment/al_experiment.py
+++ b/alipy/experiment/al_experiment.py
@@ -340,6 +340,7 @@ class AlExperiment:
             raise Exception("Performance_Metrics is unknown."
                             " Use set_performance_metric() to define a performance_metrics.")
 
+        self._experiment_result = []
         if multi_thread:
             max_thread = kwargs.pop('max_thread', None)
             refresh_interval = kwargs.pop('refresh_interval', 1.0)
-- 
2.43.0


From 1dcd25111991246dac3442025f51fe8dcbbde40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:58 +0000
Subject: [PATCH 093/131] fix: get_methods_names returns the names of the added
 methods

---
 alipy/utils/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/utils/interface.py b/alipy/utils/interface.py
index 1ec90ec..a6fdc82 100644
--- a/alipy/utils/interface.py
+++ b/alipy/utils/interface.py
@@ -244,7 +244,7 @@ class BaseAnalyser(metaclass=ABCMeta):
         self._data_summary = dict()
 
     def get_methods_names(self):
-        return self.__data_raw.keys()
+        return list(self._data_extracted.keys())
 
     def get_extracted_data(self, method_name):
         return self._data_extracted[method_name]
-- 
2.43.0


From e9585b97bada121a6e8202c2995fefe632c86213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:58 +0000
Subject: [PATCH 094/131] fix: the initial point is only extracted with the
 performance

---
 alipy/experiment/experiment_analyser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index 49a225a..151c434 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -182,7 +182,8 @@ class StateIOContainer:
         if isinstance(extract_keys, str):
             for stateio in self:
                 stateio_line = []
-                if stateio.initial_point is not None:
+                # the initial point is a performance
+                if extract_keys == 'performance' and stateio.initial_point is not None:
                     stateio_line.append(stateio.initial_point)
                 for state in stateio:
                     if extract_keys not in state.keys():
-- 
2.43.0


From f0434a5bf5497404fd4d6de54d30b643066b2d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:58 +0000
Subject: [PATCH 095/131] fix: the analyser warns when the settings of the
 methods are different

---
 alipy/experiment/experiment_analyser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index 151c434..d674626 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -385,7 +385,7 @@ class _NumOfQueryAnalyser(BaseAnalyser):
         1.NaN, Inf etc.
         2.methods_continuity
         """
-        if not self._check_methods_continuity:
+        if not self._check_methods_continuity():
             warnings.warn('Settings among all methods are not the same. The difference will be ignored.',
                           category=ValidityWarning)
         for i in self._data_extracted.keys():
@@ -420,8 +420,8 @@ class _NumOfQueryAnalyser(BaseAnalyser):
                 ip = summary.ip
                 first_flag = False
             else:
-                if bs != summary.batch_size or el != summary.effective_length or folds != summary.folds or not isinstance(
-                        ip, type(summary.ip)):
+                if bs != summary.batch_size or el != summary.effective_length or folds != summary.folds or \
+                        (ip is None) != (summary.ip is None):
                     return False
         return True
 
-- 
2.43.0


From 15f2f69d7d4ff96f0d92902139a3d2d9186c7105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:58 +0000
Subject: [PATCH 096/131] fix: the analyser knows that some results are lists
 when StateIO objects are added later

---
 alipy/experiment/experiment_analyser.py | 4 ----
 alipy/utils/interface.py                | 2 ++
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index d674626..08377b6 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -343,7 +343,6 @@ class _NumOfQueryAnalyser(BaseAnalyser):
             raise TypeError('method_results must be one of {list, numpy.ndarray, StateIOContainer}.')
 
     def __add_stateio_container(self, method_name, method_results):
-        self._is_all_stateio = True
         self._data_extracted[method_name] = method_results.extract_matrix()
         self._data_summary[method_name] = _ContentSummary(method_results=method_results.to_list(), method_type=0)
 
@@ -362,7 +361,6 @@ class _NumOfQueryAnalyser(BaseAnalyser):
         assert (isinstance(method_results, (list, np.ndarray)))
         # StateIO object
         # The type must be one of [0,1,2], otherwise, it will raise in that function.
-        self._is_all_stateio = True
         result_type = _type_of_data(method_results)
         if result_type == 0:
             method_container = StateIOContainer(method_name=method_name, method_results=method_results)
@@ -574,12 +572,10 @@ class _CostEffectiveAnalyser(BaseAnalyser):
             raise TypeError('method_results must be one of {list, numpy.ndarray, StateIOContainer}.')
 
     def __add_stateio_container(self, method_name, method_results):
-        self._is_all_stateio = True
         self._data_extracted[method_name] = method_results.extract_matrix(extract_keys=['cost', 'performance'])
         self._data_summary[method_name] = _ContentSummary(method_results=method_results.to_list(), method_type=0)
 
     def __add_list_result(self, method_name, method_results):
-        self._is_all_stateio = True
         result_type = _type_of_data(method_results)
         if result_type == 0:
             method_container = StateIOContainer(method_name=method_name, method_results=method_results)
diff --git a/alipy/utils/interface.py b/alipy/utils/interface.py
index a6fdc82..81d688d 100644
--- a/alipy/utils/interface.py
+++ b/alipy/utils/interface.py
@@ -242,6 +242,8 @@ class BaseAnalyser(metaclass=ABCMeta):
         # 3. performance mean and std
         # 4. cost
         self._data_summary = dict()
+        # whether all the results are StateIO objects
+        self._is_all_stateio = True
 
     def get_methods_names(self):
         return list(self._data_extracted.keys())
-- 
2.43.0


From 91d6b4216e59414fee961e739858377f2d66a0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:58 +0000
Subject: [PATCH 097/131] fix: the learning curves are plotted with the right
 x_axis for each method, folds of different length can be averaged

---
 alipy/experiment/experiment_analyser.py | 55 +++++++++++++------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index 08377b6..366ea5e 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -299,8 +299,9 @@ class _ContentSummary:
         self.effective_length = np.min([len(i) for i in method_results])
         if self.method_type == 1:
             # basic info
-            self.mean = np.mean(method_results)
-            self.std = np.std(method_results)
+            effective_results = [line[0:self.effective_length] for line in method_results]
+            self.mean = np.mean(effective_results)
+            self.std = np.std(effective_results)
         else:
             perf_mat = [[np.sum(tup[1]) for tup in line] for line in method_results]
             cost_mat = [[tup[0] for tup in line] for line in method_results]
@@ -387,12 +388,13 @@ class _NumOfQueryAnalyser(BaseAnalyser):
             warnings.warn('Settings among all methods are not the same. The difference will be ignored.',
                           category=ValidityWarning)
         for i in self._data_extracted.keys():
-            if np.isnan(self._data_extracted[i]).any() != 0:
-                raise ValueError('NaN is found in methods %s in %s.' % (
-                    i, str(np.argwhere(np.isnan(self._data_extracted[i]) == True))))
-            if np.isinf(self._data_extracted[i]).any() != 0:
-                raise ValueError('Inf is found in methods %s in %s.' % (
-                    i, str(np.argwhere(np.isinf(self._data_extracted[i]) == True))))
+            for fold_num, line in enumerate(self._data_extracted[i]):
+                if np.isnan(line).any():
+                    raise ValueError('NaN is found in methods %s in fold %d: %s.' % (
+                        i, fold_num, str(np.argwhere(np.isnan(line)))))
+                if np.isinf(line).any():
+                    raise ValueError('Inf is found in methods %s in fold %d: %s.' % (
+                        i, fold_num, str(np.argwhere(np.isinf(line)))))
         return True
 
     def _check_methods_continuity(self):
@@ -473,30 +475,29 @@ class _NumOfQueryAnalyser(BaseAnalyser):
 
         # plotting
         for i in self._data_extracted.keys():
-            points = np.mean(self._data_extracted[i], axis=0)
-            ori_ponits_len = len(points)
-            if std_area:
-                std_points = np.std(self._data_extracted[i], axis=0)
+            # only the points which all folds have can be averaged
+            ori_ponits_len = min([len(line) for line in self._data_extracted[i]])
+            data = [line[0:ori_ponits_len] for line in self._data_extracted[i]]
+            points = np.mean(data, axis=0)
+            std_points = np.std(data, axis=0)
+            if start_point is not None:
+                points = np.insert(points, 0, start_point)
+                std_points = np.insert(std_points, 0, 0)
+                ori_ponits_len += 1
             if plot_interval != 1:
                 points = np.asarray([points[point_ind] for point_ind in range(ori_ponits_len) if point_ind % plot_interval == 0])
                 if std_area:
                     std_points = np.asarray([std_points[point_ind] for point_ind in range(len(std_points)) if point_ind % plot_interval == 0])
-            if x_shift is None:
-                if not self._is_all_stateio or self._data_summary[i].ip is None:
-                    x_shift = 1
-                else:
-                    x_shift = 0
-            if start_point is not None:
-                x_shift = 0
-                plt.plot(np.arange(ori_ponits_len+1, step=plot_interval) + x_shift, [start_point] + list(points), label=i)
-                if std_area:
-                    plt.fill_between(np.arange(ori_ponits_len, step=plot_interval) + x_shift + 1, points - std_points, points + std_points,
-                                     interpolate=True, alpha=std_alpha)
+            if x_shift is not None:
+                shift = x_shift
+            elif start_point is None and self._data_summary[i].ip is None:
+                shift = 1
             else:
-                plt.plot(np.arange(ori_ponits_len, step=plot_interval) + x_shift, points, label=i)
-                if std_area:
-                    plt.fill_between(np.arange(ori_ponits_len, step=plot_interval) + x_shift, points - std_points, points + std_points,
-                                     interpolate=True, alpha=std_alpha)
+                shift = 0
+            plt.plot(np.arange(ori_ponits_len, step=plot_interval) + shift, points, label=i)
+            if std_area:
+                plt.fill_between(np.arange(ori_ponits_len, step=plot_interval) + shift, points - std_points, points + std_points,
+                                 interpolate=True, alpha=std_alpha)
 
         # axis & title
         plt.legend(fancybox=True, framealpha=0.5)
-- 
2.43.0


From 77b8cc441bdde51633ef29637549a2021e5091e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:58 +0000
Subject: [PATCH 098/131] fix: each fold starts from its own initial point in
 the cost sensitive curves

---
 alipy/experiment/experiment_analyser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index 366ea5e..858d941 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -241,6 +241,7 @@ class _ContentSummary:
         # for stateio object only
         self.batch_flag = False
         self.ip = None
+        self.ip_folds = []
         self.batch_size = 0
 
         # Only for num of query
@@ -283,6 +284,7 @@ class _ContentSummary:
         ex_data = []
         for result in method_results:
             self.ip = result.initial_point
+            self.ip_folds.append(self.ip)
             one_fold_perf = [result[i].get_value('performance') for i in range(self.effective_length)]
             one_fold_cost = [result[i].get_value('cost') if 'cost' in result[i].keys() else 0 for i in
                              range(self.effective_length)]
@@ -698,7 +700,7 @@ class _CostEffectiveAnalyser(BaseAnalyser):
                 else:
                     for fold_num in range(len(y_axis)):
                         x_axis[fold_num].insert(0, 0)
-                        y_axis[fold_num].insert(0, self._data_summary[i].ip)
+                        y_axis[fold_num].insert(0, self._data_summary[i].ip_folds[fold_num])
             else:
                 # Use the specified start point
                 for fold_num in range(len(y_axis)):
-- 
2.43.0


From 901beb682d1eefc804898ec877e2587daa50712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:58 +0000
Subject: [PATCH 099/131] fix: the initial points of a method are used when the
 results of other methods are lists

---
 alipy/experiment/experiment_analyser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index 858d941..f845bda 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -695,7 +695,7 @@ class _CostEffectiveAnalyser(BaseAnalyser):
 
             if start_point is None:
                 # attempt to infer the start point
-                if not self._is_all_stateio or self._data_summary[i].ip is None:
+                if self._data_summary[i].ip is None:
                     pass
                 else:
                     for fold_num in range(len(y_axis)):
-- 
2.43.0


From 0ce32fb55954f9ea17ae01a9e4b9379c75ec0a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:58 +0000
Subject: [PATCH 100/131] fix: the last point of a cost sensitive curve is not
 replaced because of rounding errors

---
 alipy/experiment/experiment_analyser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index f845bda..dc1b5c9 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -711,7 +711,8 @@ class _CostEffectiveAnalyser(BaseAnalyser):
             intplt_arr = []
             for fold_num in range(len(x_axis)):  # len(x_axis) == len(y_axis)
                 intplt_arr.append(
-                    interpolate.interp1d(x=x_axis[fold_num], y=y_axis[fold_num], bounds_error=False, fill_value=0.1))
+                    interpolate.interp1d(x=x_axis[fold_num], y=y_axis[fold_num], bounds_error=False,
+                                         fill_value=(y_axis[fold_num][0], y_axis[fold_num][-1])))
 
             new_x_axis = np.arange(max([x[0] for x in x_axis]), effective_cost, interplt_interval)
             new_y_axis = []
-- 
2.43.0


From 21a23ed1d15afd00db76182165717a9d15aa35e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:58 +0000
Subject: [PATCH 101/131] fix: the std area of the cost sensitive curves is
 shifted with the curve

---
 alipy/experiment/experiment_analyser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/experiment/experiment_analyser.py b/alipy/experiment/experiment_analyser.py
index dc1b5c9..0e14ff4 100644
--- a/alipy/experiment/experiment_analyser.py
+++ b/alipy/experiment/experiment_analyser.py
@@ -725,7 +725,7 @@ class _CostEffectiveAnalyser(BaseAnalyser):
                 std_points = np.std(new_y_axis, axis=0)
             plt.plot(new_x_axis + x_shift, points, label=i)
             if std_area:
-                plt.fill_between(new_x_axis, points - std_points, points + std_points,
+                plt.fill_between(new_x_axis + x_shift, points - std_points, points + std_points,
                                  interpolate=True, alpha=std_alpha)
 
         # axis & title
-- 
2.43.0


From 2772d60f9452696a60ef3dd2aafc22f1608d2621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:56 +0000
Subject: [PATCH 102/131] fix: the tool box splits the features when querying
 features

---
 alipy/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index c54012b..6c9d910 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -226,7 +226,7 @@ class ToolBox:
             return self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx
 
         self.split_count = split_count
-        if self._target_type != 'Features':
+        if self.query_type != 'Features':
             if self._target_type != 'multilabel':
                 self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx = split(
                     X=self._X if self._instance_flag else None,
-- 
2.43.0


From 3e9adf31b4921d2a9ab5639761a13617d1742447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:56 +0000
Subject: [PATCH 103/131] fix: a tool box saved to a file can be split

---
 alipy/toolbox.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 6c9d910..675a43a 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -236,7 +236,7 @@ class ToolBox:
                     split_count=split_count,
                     instance_indexes=self._indexes,
                     all_class=all_class,
-                    saving_path=self._saving_path)
+                    saving_path=self._saving_dir)
             else:
                 self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx = split_multi_label(
                     y=self._y,
@@ -245,7 +245,7 @@ class ToolBox:
                     initial_label_rate=initial_label_rate,
                     split_count=split_count,
                     all_class=all_class,
-                    saving_path=self._saving_path
+                    saving_path=self._saving_dir
                 )
         else:
             self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx = split_features(
@@ -254,7 +254,7 @@ class ToolBox:
                 missing_rate=1 - initial_label_rate,
                 split_count=split_count,
                 all_features=all_class,
-                saving_path=self._saving_path
+                saving_path=self._saving_dir
             )
         self._split = True
         self.save()
-- 
2.43.0


From 6c4a4b9abdff52dc61a33a02a59a8d726ea56ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:56 +0000
Subject: [PATCH 104/131] fix: the clean oracle knows the costs, the indexes
 and the partial labels of the tool box

---
 alipy/toolbox.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 675a43a..0296dfb 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -313,13 +313,12 @@ class ToolBox:
         """
         if self.query_type == 'Features':
             return OracleQueryFeatures(feature_mat=self._X, cost=cost_mat)
-        elif self.query_type == 'AllLabels':
+        else:
+            examples = self._X if query_by_example else None
             if self._target_type == 'multilabel':
-                return OracleQueryMultiLabel(self._y) if not query_by_example else OracleQueryMultiLabel(self._y,
-                                                                                                         examples=self._X,
-                                                                                                         cost=cost_mat)
+                return OracleQueryMultiLabel(self._y, examples=examples, cost=cost_mat)
             else:
-                return Oracle(self._y) if not query_by_example else Oracle(self._y, examples=self._X, cost=cost_mat)
+                return Oracle(self._y, examples=examples, indexes=self._indexes, cost=cost_mat)
 
     def get_stateio(self, round, saving_path=None, check_flag=True, verbose=True, print_interval=1):
         """Get a stateio object for experiment saving.
-- 
2.43.0


From cd3414ac36a4e18f58137a69473d58ec3a0f9252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:56 +0000
Subject: [PATCH 105/131] fix: the repository of the tool box holds the labeled
 entries of multi-label and feature data

---
 alipy/toolbox.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 0296dfb..267a3f0 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -373,14 +373,23 @@ class ToolBox:
         """
         assert (0 <= round < self.split_count)
         train_id, test_id, Lcollection, Ucollection = self.get_split(round)
-        if self.query_type == 'AllLabels':
-            return MatrixRepository(labels=self._y[Lcollection.index],
-                                    examples=self._X[Lcollection.index, :] if instance_flag else None,
-                                    indexes=Lcollection.index)
+        if self.query_type == 'Features' or (self.query_type == 'PartLabels' and self._target_type == 'multilabel'):
+            # the entries of the feature or label matrix
+            data_mat = self._X if self.query_type == 'Features' else self._y
+            indexes = Lcollection.index
+            rows = [ind[0] for ind in indexes]
+            labels = [data_mat[ind] for ind in indexes]
         else:
-            return ElementRepository(labels=self._y[Lcollection.index],
-                                     examples=self._X[Lcollection.index, :] if instance_flag else None,
-                                     indexes=Lcollection.index)
+            if self._target_type == 'multilabel':
+                indexes = Lcollection.get_unbroken_instances()
+                rows = list(indexes)
+            else:
+                indexes = Lcollection.index
+                names = list(self._indexes)
+                rows = [names.index(ind) for ind in indexes]
+            labels = self._y[rows]
+        repository_type = MatrixRepository if self.query_type == 'AllLabels' else ElementRepository
+        return repository_type(labels=labels, examples=self._X[rows, :] if instance_flag else None, indexes=indexes)
 
     def get_query_strategy(self, strategy_name="QueryInstanceRandom", **kwargs):
         """Return the query strategy object.
-- 
2.43.0


From 8d738e1fae0c5c456ce8d3cec4858c1c9baadd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:56 +0000
Subject: [PATCH 106/131] fix: the tool box passes the scores of the positive
 class and all the scores of multi-label metrics

---
 alipy/toolbox.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 267a3f0..2362b2f 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -4,6 +4,7 @@ import pickle
 import warnings
 import inspect
 
+import numpy as np
 from sklearn.linear_model import LogisticRegression
 from sklearn.utils import check_array
 from sklearn.utils.multiclass import type_of_target, unique_labels
@@ -449,7 +450,9 @@ class ToolBox:
         if 'y_pred' in metric_para.parameters:
             return performance_metric(y_pred=y_pred, y_true=y_true, **kwargs)
         else:
-            y_pred = y_pred[:, 0]
+            if np.ndim(y_true) == 1 and np.ndim(y_pred) == 2:
+                # the scores of the positive class
+                y_pred = np.asarray(y_pred)[:, -1]
             return performance_metric(y_score=y_pred, y_true=y_true, **kwargs)
 
     def get_default_model(self):
-- 
2.43.0


From 58fd5052cd53cf2409561edd2627cca02e21844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:56 +0000
Subject: [PATCH 107/131] fix: a tool box constructs multi-label collections by
 1d arrays

---
 alipy/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 2362b2f..e0cca83 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -582,7 +582,7 @@ class ToolBox:
             return MultiLabelIndexCollection(data=array, label_size=self._y.shape[1] if label_mat_shape is None else
             label_mat_shape[1])
         else:
-            return MultiLabelIndexCollection.construct_by_1d_array(data=array,
+            return MultiLabelIndexCollection.construct_by_1d_array(array=array,
                                                                    label_mat_shape=self._y.shape if label_mat_shape is None else label_mat_shape,
                                                                    order=order)
 
-- 
2.43.0


From d4c5b4a0a5cedb0f19bd331e60fe777d2e785a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:09 +0000
Subject: [PATCH 108/131] fix: the split of a tool box is not shared with its
 callers

---
 alipy/toolbox.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index e0cca83..6966de8 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -152,10 +152,10 @@ class ToolBox:
                 raise ValueError("train_idx, test_idx, label_idx, unlabel_idx "
                                  "should have the same split count (length)")
             self._split = True
-            self.train_idx = train_idx
-            self.test_idx = test_idx
-            self.label_idx = label_idx
-            self.unlabel_idx = unlabel_idx
+            self.train_idx = copy.deepcopy(train_idx)
+            self.test_idx = copy.deepcopy(test_idx)
+            self.label_idx = copy.deepcopy(label_idx)
+            self.unlabel_idx = copy.deepcopy(unlabel_idx)
             self.split_count = len(train_idx)
 
         self._saving_path = saving_path
@@ -224,7 +224,7 @@ class ToolBox:
         if self._split is True:
             warnings.warn("Data has already been split. Return the existed split in case of overwriting.",
                           category=RuntimeWarning)
-            return self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx
+            return self.get_split()
 
         self.split_count = split_count
         if self.query_type != 'Features':
@@ -259,7 +259,7 @@ class ToolBox:
             )
         self._split = True
         self.save()
-        return self.train_idx, self.test_idx, self.label_idx, self.unlabel_idx
+        return self.get_split()
 
     def get_split(self, round=None):
         """Get split of one fold experiment.
-- 
2.43.0


From b98daf4324d477e264350f0c1b350184c6d52407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:09 +0000
Subject: [PATCH 109/131] fix: the threads of a tool box get the collections of
 its query type

---
 alipy/toolbox.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 6966de8..f4d9591 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -532,10 +532,11 @@ class ToolBox:
             raise Exception("instance matrix is necessary for initializing aceThreading object.")
         if not self._split:
             raise Exception("The split information is not found, please split the data or set the split setting first.")
+        folds = [self.get_split(i) for i in range(self.split_count)]
         return aceThreading(examples=self._X, labels=self._y,
-                            train_idx=self.train_idx, test_idx=self.test_idx,
-                            label_index=self.label_idx,
-                            unlabel_index=self.unlabel_idx,
+                            train_idx=[fold[0] for fold in folds], test_idx=[fold[1] for fold in folds],
+                            label_index=[fold[2] for fold in folds],
+                            unlabel_index=[fold[3] for fold in folds],
                             refresh_interval=refresh_interval,
                             max_thread=max_thread,
                             saving_path=saving_path,
-- 
2.43.0


From 471edfbaa08e2b3eb509d789de54ece569ba72c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:35 +0000
Subject: [PATCH 110/131] fix: a tool box accepts the targets of a regression

---
 alipy/toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index f4d9591..1f464ef 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -7,7 +7,7 @@ import inspect
 import numpy as np
 from sklearn.linear_model import LogisticRegression
 from sklearn.utils import check_array
-from sklearn.utils.multiclass import type_of_target, unique_labels
+from sklearn.utils.multiclass import type_of_target
 
 from .data_manipulate.al_split import split, split_multi_label, split_features
 from .experiment.experiment_analyser import ExperimentAnalyser
@@ -111,7 +111,7 @@ class ToolBox:
             self._target_type = ytype
         self._index_len = len(self._y)
         if len(self._y.shape) == 1:
-            self._label_space = unique_labels(self._y)
+            self._label_space = np.unique(self._y)
         elif len(self._y.shape) == 2:
             self._label_space = list(range(self._y.shape[1]))
         else:
-- 
2.43.0


From 4eb362387b31773df5147fac0c795774bb6e659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:35 +0000
Subject: [PATCH 111/131] fix: a split of named instances can be saved

---
 alipy/data_manipulate/al_split.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/alipy/data_manipulate/al_split.py b/alipy/data_manipulate/al_split.py
index b2f6ee4..5872788 100644
--- a/alipy/data_manipulate/al_split.py
+++ b/alipy/data_manipulate/al_split.py
@@ -435,7 +435,8 @@ def split_load(path):
         if not os.path.exists(os.path.join(saving_path, fname)):
             npy_name = os.path.join(saving_path, os.path.splitext(fname)[0] + '.npy')
             if os.path.exists(npy_name):
-                ret_arr.append([[tuple(item) for item in fold] for fold in np.load(npy_name)])
+                idx = np.load(npy_name)
+                ret_arr.append(idx if idx.ndim == 2 else [[tuple(item) for item in fold] for fold in idx])
             else:
                 ret_arr.append(None)
         else:
@@ -462,12 +463,17 @@ def split_save(train_idx, test_idx, label_idx, unlabel_idx, path):
     saving_path = os.path.abspath(path)
     if os.path.isdir(saving_path):
         # a previous split may have been saved in the other format
-        for fname in ['label_idx.txt', 'unlabel_idx.txt', 'label_idx.npy', 'unlabel_idx.npy']:
+        for fname in ['train_idx.txt', 'test_idx.txt', 'label_idx.txt', 'unlabel_idx.txt',
+                      'train_idx.npy', 'test_idx.npy', 'label_idx.npy', 'unlabel_idx.npy']:
             if os.path.exists(os.path.join(saving_path, fname)):
                 os.remove(os.path.join(saving_path, fname))
-        np.savetxt(os.path.join(saving_path, 'train_idx.txt'), train_idx, fmt='%d')
-        np.savetxt(os.path.join(saving_path, 'test_idx.txt'), test_idx, fmt='%d')
-        if len(np.shape(label_idx)) == 2:
+        for fname, idx in [('train_idx', train_idx), ('test_idx', test_idx)]:
+            if np.asarray(idx).dtype.kind in 'US':
+                # the names of the instances
+                np.save(os.path.join(saving_path, fname + '.npy'), idx)
+            else:
+                np.savetxt(os.path.join(saving_path, fname + '.txt'), idx, fmt='%d')
+        if len(np.shape(label_idx)) == 2 and np.asarray(label_idx).dtype.kind not in 'US':
             np.savetxt(os.path.join(saving_path, 'label_idx.txt'), label_idx, fmt='%d')
             np.savetxt(os.path.join(saving_path, 'unlabel_idx.txt'), unlabel_idx, fmt='%d')
         else:
-- 
2.43.0


From 32496bab97c3a5138a194928ce6e1c3a3061c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 112/131] fix: zero_one_loss without normalization is the
 number of misclassifications

---
 alipy/metrics/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 6864862..bbd4f82 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -258,7 +258,7 @@ def zero_one_loss(y_true, y_pred, normalize=True, sample_weight=None):
             n_samples = np.sum(sample_weight)
         else:
             n_samples = _num_samples(y_true)
-        return n_samples - score
+        return n_samples * (1 - score) if sample_weight is not None else int(round(n_samples * (1 - score)))
 
 
 # def f1_score(y_true, y_pred, pos_label=1, sample_weight=None):
-- 
2.43.0


From e3d9c219b0527e033bd180ce455753bdd666cd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 113/131] fix: hamming_loss accepts column vectors

---
 alipy/metrics/performance.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index bbd4f82..50051ba 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -514,13 +514,11 @@ def hamming_loss(y_true, y_pred):
         Return the average Hamming loss between element of ``y_true`` and
         ``y_pred``.
     """
-    y_type, _, _ = _check_targets(y_true, y_pred)
+    y_type, y_true, y_pred = _check_targets(y_true, y_pred)
     check_consistent_length(y_true, y_pred)
-    y_true = np.asarray(y_true)
-    y_pred = np.asarray(y_pred)
     if y_type.startswith('multilabel'):
-        num_samples, num_classses = np.array(y_true).shape
-        n_differences = np.sum(y_true != y_pred)
+        num_samples, num_classses = y_true.shape
+        n_differences = (y_true - y_pred).count_nonzero()
         return n_differences / (num_samples * num_classses)
     elif y_type in ["binary", "multiclass"]:
         return np.sum(y_true != y_pred) / y_true.shape[0]
-- 
2.43.0


From 3e945c9608f05b68df23d05db5867ec82f9ed815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 114/131] fix: the metrics accept sparse label matrices as
 documented

---
 alipy/metrics/performance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 50051ba..ce5f116 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -9,7 +9,7 @@ Implement classical methods
 from __future__ import division
 
 import numpy as np
-from scipy.sparse import csr_matrix
+from scipy.sparse import csr_matrix, issparse
 from scipy.stats import rankdata
 from sklearn.metrics import f1_score
  
@@ -64,7 +64,7 @@ def check_consistent_length(*arrays):
 def type_of_target(y):
     """Determine the type of data indicated by the target.
     """
-    y = np.asarray(y)
+    y = y.toarray() if issparse(y) else np.asarray(y)
     if(len(np.unique(y)) <= 2):
         if(y.ndim >= 2 and len(y[0]) > 1):
             return 'multilabel'
-- 
2.43.0


From 11fd13bac51cded8afbdf3cc7cd289546140bedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 115/131] fix: one_error is the fraction of instances whose
 top-ranked label is irrelevant

---
 alipy/metrics/performance.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index ce5f116..6d0c243 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -548,12 +548,13 @@ def one_error(y_true, y_pred, sample_weight=None):
     '''
     check_consistent_length(y_true, y_pred, sample_weight)
     y_type = type_of_target(y_true)
-    n_samples, n_labels = y_true.shape
     if y_type != "multilabel":
         raise ValueError("{0} format is not supported".format(y_type))
-    n_differents = np.sum((y_true - y_pred), axis=1) == 0
+    # whether the label with the highest score is irrelevant
+    top_labels = np.argmax(y_pred, axis=1)
+    errors = np.asarray(y_true)[np.arange(len(top_labels)), top_labels] <= 0
 
-    return n_differents.sum() / n_samples
+    return np.average(errors, weights=sample_weight)
 
 
 def coverage_error(y_true, y_score, sample_weight=None):
-- 
2.43.0


From 321e309d63efbd4587f5cb882ba1d738727cd4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 116/131] fix: label_ranking_average_precision_score weights
 the rows without a ranking

---
 alipy/metrics/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 6d0c243..a371cc4 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -711,7 +711,7 @@ def label_ranking_average_precision_score(y_true, y_score, sample_weight=None):
         if (relevant.size == 0 or relevant.size == n_labels):
             # If all labels are relevant or unrelevant, the score is also
             # equal to 1. The label ranking has no meaning.
-            out += 1.
+            out += 1. if sample_weight is None else sample_weight[i]
             continue
 
         scores_i = y_score[i]
-- 
2.43.0


From 1ccbe822e0265b122a3e9a9ec5d41d6bdc78011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 117/131] fix: the ranking metrics know that a label of -1 is
 irrelevant

---
 alipy/metrics/performance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index a371cc4..59dbb91 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -587,7 +587,7 @@ def coverage_error(y_true, y_score, sample_weight=None):
     y_type = type_of_target(y_true)
     if y_type != "multilabel":
         raise ValueError("{0} format is not supported".format(y_type))
-    y_score_mask = np.ma.masked_array(y_score, mask=np.logical_not(y_true))
+    y_score_mask = np.ma.masked_array(y_score, mask=np.logical_not(np.asarray(y_true) > 0))
     y_min_relevant = y_score_mask.min(axis=1).reshape((-1, 1))
     coverage = (y_score >= y_min_relevant).sum(axis=1)
     coverage = coverage.filled(0)
@@ -635,7 +635,7 @@ def label_ranking_loss(y_true, y_score, sample_weight=None):
 
     n_samples, n_labels = y_true.shape
 
-    y_true = csr_matrix(y_true)
+    y_true = csr_matrix(y_true > 0)
 
     loss = np.zeros(n_samples)
     for i, (start, stop) in enumerate(zip(y_true.indptr, y_true.indptr[1:])):
@@ -699,7 +699,7 @@ def label_ranking_average_precision_score(y_true, y_score, sample_weight=None):
             not (y_type == "binary" and y_true.ndim == 2)):
         raise ValueError("{0} format is not supported".format(y_type))
 
-    y_true = csr_matrix(y_true)
+    y_true = csr_matrix(y_true > 0)
     y_score = -y_score
 
     n_samples, n_labels = y_true.shape
-- 
2.43.0


From d4db3a086941788d3b150c8bb5da7392b6824cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 118/131] fix: ties count one half in micro_auc_score

---
 alipy/metrics/performance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 59dbb91..595e3b4 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -836,6 +836,8 @@ def micro_auc_score(y_true, y_score, sample_weight=None):
                 neg = y_score[N[i][k]][i]
                 if pos > neg:
                     auc = auc + 1
+                elif pos == neg:
+                    auc = auc + 0.5
         AUC = AUC + auc*1.0/(labels_size[i]*not_labels_size[i])
     return AUC*1.0/class_num
 
-- 
2.43.0


From b3dcd8ddf1f6eef912d2cbf73aecba6a070c0d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:41 +0000
Subject: [PATCH 119/131] fix: hamming_loss of boolean labels

---
 alipy/metrics/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 595e3b4..452067a 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -518,7 +518,7 @@ def hamming_loss(y_true, y_pred):
     check_consistent_length(y_true, y_pred)
     if y_type.startswith('multilabel'):
         num_samples, num_classses = y_true.shape
-        n_differences = (y_true - y_pred).count_nonzero()
+        n_differences = (y_true != y_pred).nnz
         return n_differences / (num_samples * num_classses)
     elif y_type in ["binary", "multiclass"]:
         return np.sum(y_true != y_pred) / y_true.shape[0]
-- 
2.43.0


From 59c9c663550a5875ec9cf153e613bca4dba14ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:41 +0000
Subject: [PATCH 120/131] fix: the curves and the area know the sample weights
 and have one point for each score

---
 alipy/metrics/performance.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 452067a..b25b407 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -295,7 +295,7 @@ def zero_one_loss(y_true, y_pred, normalize=True, sample_weight=None):
 #     return 2 * (p * r) / (p + r)
 
 
-def get_fps_tps_thresholds(y_true, y_score, pos_label=None):
+def get_fps_tps_thresholds(y_true, y_score, pos_label=None, sample_weight=None):
     '''
     Calculate true and false positives per binary classification threshold.
 
@@ -330,7 +330,7 @@ def get_fps_tps_thresholds(y_true, y_score, pos_label=None):
     thresholds : array, shape = [n_thresholds]
         Decreasing score values.
     '''
-    check_consistent_length(y_true, y_score)
+    check_consistent_length(y_true, y_score, sample_weight)
     classes = np.unique(y_true)
     if (pos_label is None and
         not (np.array_equal(classes, [0, 1]) or
@@ -341,21 +341,16 @@ def get_fps_tps_thresholds(y_true, y_score, pos_label=None):
         raise ValueError("Data is not binary and pos_label is not specified")
     elif pos_label is None:
         pos_label = 1.
-    y_true = (y_true == pos_label)
-    desc_score_indices = np.argsort(y_score, kind="mergesort")[::-1]
-    thresholds = np.array(y_score)[desc_score_indices]
-    y_true = np.array(y_true)[desc_score_indices]
-    y_score = np.array(y_score)[desc_score_indices]
+    y_true = (np.asarray(y_true) == pos_label)
+    y_score = np.asarray(y_score)
+    weights = np.ones(len(y_true), dtype=int) if sample_weight is None else np.asarray(sample_weight)
+    thresholds = np.unique(y_score)[::-1]
     tps = []
-    fps = [] 
+    fps = []
     for threshold in thresholds:
-        y_prob = [1 if i >= threshold else 0 for i in y_score]
-        result = [i == j for i, j in zip(y_true, y_prob)]
-        postive = [i == 1 for i in y_prob]
-        tp = [i and j for i, j in zip(result, postive)]
-        fp = [(not i) and j for i, j in zip(result, postive)]
-        tps.append(tp.count(True))
-        fps.append(fp.count(True))
+        y_prob = y_score >= threshold
+        tps.append(np.sum(weights[y_prob & y_true]))
+        fps.append(np.sum(weights[y_prob & ~y_true]))
     return np.array(fps), np.array(tps), thresholds
 
 
@@ -392,7 +387,7 @@ def precision_recall_curve(y_true, y_score, pos_label=None,
         Increasing thresholds on the decision function used to compute
         precision and recall.
     '''
-    fps, tps, thresholds = get_fps_tps_thresholds(y_true, y_score, pos_label=pos_label)
+    fps, tps, thresholds = get_fps_tps_thresholds(y_true, y_score, pos_label=pos_label, sample_weight=sample_weight)
 
     precision = tps / (tps + fps)
     precision[np.isnan(precision)] = 0
@@ -438,7 +433,7 @@ def roc_curve(y_true, y_score, pos_label=None, sample_weight=None):
         fpr and tpr. `thresholds[0]` represents no instances being predicted
         and is arbitrarily set to `max(y_score) + 1`.
     '''
-    fps, tps, thresholds = get_fps_tps_thresholds(y_true, y_score, pos_label=pos_label)
+    fps, tps, thresholds = get_fps_tps_thresholds(y_true, y_score, pos_label=pos_label, sample_weight=sample_weight)
 
     if np.array(tps).size == 0 or fps[0] != 0 or tps[0] != 0:
         # Add an extra threshold position if necessary
@@ -485,7 +480,7 @@ def roc_auc_score(y_true, y_score, pos_label=None, sample_weight=None):
     -------
     auc : float
     """
-    fpr, tpr, _ = roc_curve(y_true, y_score, pos_label=pos_label, sample_weight=None)
+    fpr, tpr, _ = roc_curve(y_true, y_score, pos_label=pos_label, sample_weight=sample_weight)
     return _auc(fpr, tpr)    
 
 
-- 
2.43.0


From 108bdb521d21b2f28554b6757d8e1337c2e79a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:41 +0000
Subject: [PATCH 121/131] fix: micro_auc_score knows the sample weights

---
 alipy/metrics/performance.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index b25b407..3650671 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -825,15 +825,20 @@ def micro_auc_score(y_true, y_score, sample_weight=None):
     
     for i in range(class_num):
         auc = 0
+        pairs = 0
         for j in range(labels_size[i]):
             for k in range(not_labels_size[i]):
                 pos = y_score[P[i][j]][i]
                 neg = y_score[N[i][k]][i]
+                weight = 1 if sample_weight is None else sample_weight[P[i][j]] * sample_weight[N[i][k]]
+                pairs = pairs + weight
                 if pos > neg:
-                    auc = auc + 1
+                    auc = auc + weight
                 elif pos == neg:
-                    auc = auc + 0.5
-        AUC = AUC + auc*1.0/(labels_size[i]*not_labels_size[i])
+                    auc = auc + 0.5 * weight
+        if pairs == 0:
+            raise ValueError("Only one class is present in the label %d, the area is not defined." % i)
+        AUC = AUC + auc*1.0/pairs
     return AUC*1.0/class_num
 
 
-- 
2.43.0


From 93b4763e27f04866fc8cf7493c14334ab302260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:01 +0000
Subject: [PATCH 122/131] fix: average_precision_score accepts integer scores

---
 alipy/metrics/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 3650671..b66fd38 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -747,7 +747,7 @@ def findmax(outputs):
 
 
 def sort(x):
-    temp = np.array(x)
+    temp = np.array(x, dtype=float)
     length = temp.shape[0]
     index = []
     sortX = []
-- 
2.43.0


From 4cad686a11b89af714539a0dc903ac56b549663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:01 +0000
Subject: [PATCH 123/131] fix: average_precision_score knows that a label of -1
 is irrelevant

---
 alipy/metrics/performance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index b66fd38..06ea0dc 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -888,6 +888,7 @@ def average_precision_score(y_true, y_score, sample_weight=None):
     labels_index = []
     not_labels_index = []
     labels_size = []
+    y_true = np.asarray(y_true) > 0
     for i in range(test_data_num):
         if sum(y_true[i]) != class_num and sum(y_true[i]) != 0:
             instance_num = instance_num + 1
-- 
2.43.0


From edfdd1d66777a0f5862904d34c7de2bdbd6a98ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:01 +0000
Subject: [PATCH 124/131] fix: average_precision_score is the mean over the
 instances which have a ranking

---
 alipy/metrics/performance.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/alipy/metrics/performance.py b/alipy/metrics/performance.py
index 06ea0dc..edb9b19 100644
--- a/alipy/metrics/performance.py
+++ b/alipy/metrics/performance.py
@@ -884,6 +884,7 @@ def average_precision_score(y_true, y_score, sample_weight=None):
     class_num = y_score.shape[1]
     temp_outputs = []
     temp_test_target = []
+    weights = []
     instance_num = 0
     labels_index = []
     not_labels_index = []
@@ -892,6 +893,7 @@ def average_precision_score(y_true, y_score, sample_weight=None):
     for i in range(test_data_num):
         if sum(y_true[i]) != class_num and sum(y_true[i]) != 0:
             instance_num = instance_num + 1
+            weights.append(1 if sample_weight is None else sample_weight[i])
             temp_outputs.append(y_score[i])
             temp_test_target.append(y_true[i])
             labels_size.append(sum(y_true[i] == 1))
@@ -910,5 +912,6 @@ def average_precision_score(y_true, y_score, sample_weight=None):
         for j in range(labels_size[i]):
             loc = findIndex(labels_index[i][j], index)
             summary = summary + sum(indicator[loc:class_num])*1.0/(class_num-loc)
-        aveprec = aveprec + summary*1.0/labels_size[i]
-    return aveprec*1.0/test_data_num
+        aveprec = aveprec + weights[i]*summary*1.0/labels_size[i]
+    # the instances without a relevant or an irrelevant label have no ranking
+    return aveprec*1.0/sum(weights) if sum(weights) > 0 else 0.
-- 
2.43.0


From 49a9f8e5e6bcffcfd8be93c5baccaca8a63fb9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:35 +0000
Subject: [PATCH 125/131] fix: the completion of AFASMC is real, the
 eigenvalues of a symmetric matrix are

---
 alipy/query_strategy/query_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alipy/query_strategy/query_features.py b/alipy/query_strategy/query_features.py
index 4c86e7a..df9929b 100644
--- a/alipy/query_strategy/query_features.py
+++ b/alipy/query_strategy/query_features.py
@@ -48,7 +48,7 @@ def _svd_threshold(svd_obj, lambdadL):
     eig_obj_timer = 1e20
     while (eig_tag == 0) and (eig_obj_timer >= 1e8):
         try:
-            D, V = np.linalg.eig(eig_obj2)
+            D, V = np.linalg.eigh(eig_obj2)
             sorted_args = np.argsort(D)
             V = V[:, sorted_args]
             D = D[sorted_args]
-- 
2.43.0


From eb39f4be5f887ad04ded125dd9e07bfde45273d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:42 +0000
Subject: [PATCH 126/131] fix: QueryInstanceQUIRE inverts L_aa and L_uu as its
 reference defines them

---
 alipy/query_strategy/query_labels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 0b8cfb3..271d8c9 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -850,7 +850,7 @@ class QueryInstanceQUIRE(BaseIndexQuery):
         det_Laa = np.linalg.det(L[np.ix_(Uindex, Uindex)])
         # efficient computation of inv(Laa)
         M3 = np.dot(self.K[np.ix_(Uindex, Lindex)],
-                    np.linalg.inv(self.lmbda * np.eye(len(Lindex))))
+                    np.linalg.inv(self.lmbda * np.eye(len(Lindex)) + self.K[np.ix_(Lindex, Lindex)]))
         M2 = np.dot(M3, self.K[np.ix_(Lindex, Uindex)])
         M1 = self.lmbda * np.eye(len(Uindex)) + self.K[np.ix_(Uindex, Uindex)]
         inv_Laa = M1 - M2
@@ -865,7 +865,7 @@ class QueryInstanceQUIRE(BaseIndexQuery):
             iList_r = iList[:]
             iList_r.remove(i)
             inv_Luu = inv_Laa[np.ix_(iList_r, iList_r)] - 1 / inv_Laa[i, i] * \
-                                                          np.dot(inv_Laa[iList_r, i], inv_Laa[iList_r, i].T)
+                                                          np.outer(inv_Laa[iList_r, i], inv_Laa[iList_r, i])
             tmp = np.dot(
                 L[each_index][Lindex] -
                 np.dot(
-- 
2.43.0


From ccf5ed1fca2130b2b256d598413e0adc991fe64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:41 +0000
Subject: [PATCH 127/131] fix: the graph density of instances which are not in
 the given pool is kept

---
 alipy/query_strategy/query_labels.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/alipy/query_strategy/query_labels.py b/alipy/query_strategy/query_labels.py
index 271d8c9..2cc69d4 100644
--- a/alipy/query_strategy/query_labels.py
+++ b/alipy/query_strategy/query_labels.py
@@ -991,21 +991,19 @@ class QueryInstanceGraphDensity(BaseIndexQuery):
             return unlabel_index
         batch = set()
 
-        # the positions of the training instances which can not be selected
+        # the training instances which can be selected
         unlabel_set = set(unlabel_index)
-        label_index_in_train = [i for i, idx in enumerate(self.train_idx) if idx not in unlabel_set]
-        # end
+        candidate = np.array([idx in unlabel_set for idx in self.train_idx])
 
-        self.graph_density[label_index_in_train] = min(self.graph_density) - 1
         selected_arr = []
         while len(batch) < batch_size:
-            selected = np.argmax(self.graph_density)
+            selected = np.argmax(np.where(candidate, self.graph_density, -np.inf))
+            candidate[selected] = False
             selected_arr.append(selected)
             neighbors = (self.connect[selected, :] > 0).nonzero()[1]
             self.graph_density[neighbors] = self.graph_density[neighbors] - self.graph_density[selected]
             assert (self.train_idx[selected] in unlabel_index)
             batch.add(self.train_idx[selected])
-            self.graph_density[label_index_in_train] = min(self.graph_density) - 1
             # self.graph_density[list(batch)] = min(self.graph_density) - 1
             self.graph_density[selected_arr] = min(self.graph_density) - 1
         return list(batch)
-- 
2.43.0


From bdec48ed568ee56990d6e4eea6a38118a6a0b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:45 +0000
Subject: [PATCH 128/131] fix: StandardScale scales to unit variance and keeps
 constant features finite

---
 alipy/data_manipulate/datapreprocess.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/alipy/data_manipulate/datapreprocess.py b/alipy/data_manipulate/datapreprocess.py
index ffc98f1..edfd321 100644
--- a/alipy/data_manipulate/datapreprocess.py
+++ b/alipy/data_manipulate/datapreprocess.py
@@ -87,7 +87,7 @@ def StandardScale(X):
     
     The transformation is given by::
 
-        x_StdS = (X - X.mean(axis=0)) / X.var(axis=0)
+        x_StdS = (X - X.mean(axis=0)) / X.std(axis=0)
 
     Parameters
     ----------
@@ -111,7 +111,9 @@ def StandardScale(X):
         raise TypeError("X array does not has mean or var methods")
     
     data_mean = X.mean(axis=0)
-    data_var = X.var(axis=0)
-    x_StdS = (X - data_mean) / data_var
+    # the deviation of a constant feature may differ from zero by a rounding error
+    data_std = np.where(X.max(axis=0) == X.min(axis=0), 0., X.std(axis=0))
+    data_std = _handle_zeros_in_scale(data_std)
+    x_StdS = (X - data_mean) / data_std
 
     return x_StdS
-- 
2.43.0


From 126ad473ee07a9c9221807d3a4225a053e742d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:48 +0000
Subject: [PATCH 129/131] fix: training a label ranking model keeps the
 parameters it is given, so that it can start again from them

---
 alipy/query_strategy/multi_label.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/alipy/query_strategy/multi_label.py b/alipy/query_strategy/multi_label.py
index 3e3ecc9..d6025dc 100644
--- a/alipy/query_strategy/multi_label.py
+++ b/alipy/query_strategy/multi_label.py
@@ -142,8 +142,9 @@ class _LabelRankingModel_MatlabVer:
         if len(np.nonzero(targets == 2.0)[0]) == 0:
             targets = np.hstack((targets, 2 * np.ones((targets.shape[0], 1))))
         data = np.asarray(data)
-        B = np.asarray(B)
-        V = np.asarray(V)
+        # the given parameters are kept, e.g., the model is initialized by them again
+        B = np.array(B)
+        V = np.array(V)
 
         n, n_class = np.shape(targets)
         row_ind, col_ind = np.nonzero(targets >= 1)
-- 
2.43.0


From 5e283c1fde264fa68d433f6ed4ee45607baf7d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:20 +0000
Subject: [PATCH 130/131] fix: the repository of a tool box takes the labels of
 single entries in the form of the oracles, so that its training data can be
 read after queries

---
 alipy/toolbox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alipy/toolbox.py b/alipy/toolbox.py
index 1f464ef..868b795 100644
--- a/alipy/toolbox.py
+++ b/alipy/toolbox.py
@@ -379,7 +379,8 @@ class ToolBox:
             data_mat = self._X if self.query_type == 'Features' else self._y
             indexes = Lcollection.index
             rows = [ind[0] for ind in indexes]
-            labels = [data_mat[ind] for ind in indexes]
+            # in the form in which the oracles answer for a single entry
+            labels = [data_mat[ind[0]][[ind[1]]] for ind in indexes]
         else:
             if self._target_type == 'multilabel':
                 indexes = Lcollection.get_unbroken_instances()
-- 
2.43.0


From e96a649241c7681d981d28af93c47a65581521b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:20 +0000
Subject: [PATCH 131/131] fix: a state keeps costs and performances which are
 vectors as they were recorded

---
 alipy/experiment/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alipy/experiment/state.py b/alipy/experiment/state.py
index 143d6c8..ebd0fe5 100644
--- a/alipy/experiment/state.py
+++ b/alipy/experiment/state.py
@@ -45,11 +45,11 @@ class State:
 
         self._save_seq = dict()
         self._save_seq['select_index'] = copy.deepcopy(select_index)
-        self._save_seq['performance'] = copy.copy(performance)
+        self._save_seq['performance'] = copy.deepcopy(performance)
         if queried_label is not None:
             self._save_seq['queried_label'] = copy.deepcopy(queried_label)
         if cost is not None:
-            self._save_seq['cost'] = copy.copy(cost)
+            self._save_seq['cost'] = copy.deepcopy(cost)
         self.batch_size = len(select_index)
 
     def __getitem__(self, item):
-- 
2.43.0

